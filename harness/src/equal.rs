//! Q01: ==, clone, order and constructors of AST nodes against their traces.
use crate::checks::{Case, Mon, Verdict};
use crate::conv;
use crate::ev::{diff, short, Ev, Trace};
use crate::lex::{self, K};
use crate::lib_api::*;
use crate::nodes::{self, Nodes};
use crate::refparse::Lang;
use crate::rng::{mix, Rng};
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::{Pos, Style};

/// as values: 0.0 and -0.0 are equal floats
pub fn same(a: &[Ev], b: &[Ev]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Ev::Float(x), Ev::Float(y)) => f64::from_bits(*x) == f64::from_bits(*y),
            _ => x == y,
        })
}

fn equal<'a, T: q::Text<'a> + PartialEq>(a: &Doc<'a, T>, b: &Doc<'a, T>) -> bool {
    lib(|| match (a, b) {
        (Doc::Q(a), Doc::Q(b)) => a == b,
        (Doc::S(a), Doc::S(b)) => a == b,
        _ => false,
    })
}

fn clone<'a, T: q::Text<'a> + Clone>(a: &Doc<'a, T>) -> Doc<'a, T> {
    lib(|| match a {
        Doc::Q(a) => Doc::Q(a.clone()),
        Doc::S(a) => Doc::S(a.clone()),
    })
}

/// `t` with one token changed, by a number
fn change(toks: &[String], kinds: &[K], i: usize, how: usize) -> Option<String> {
    let mut v: Vec<String> = toks.to_vec();
    let t = toks[i].clone();
    let words = |l: &[&str]| l.iter().position(|w| *w == t).map(|k| l[(k + 1 + how / 6) % l.len()].to_string());
    match (how % 6, kinds[i]) {
        // the same tokens elsewhere
        (0, _) => v[i] = format!("{}{}", if how / 6 % 2 == 0 { "\n" } else { "  " }, t),
        // another token of the kind
        (1, K::Name) => {
            v[i] = words(&["query", "mutation", "subscription"])
                .or_else(|| words(&["scalar", "type", "interface", "union", "enum", "input"]))
                .or_else(|| words(&["true", "false", "null", "E"]))
                .unwrap_or_else(|| format!("{}x", t))
        }
        (2, K::Name) => {
            let mut c: Vec<char> = t.chars().collect();
            let k = how / 6 % c.len();
            let last = k == c.len() - 1;
            c[k] = if c[k] == 'a' && last { 'b' } else if c[k].is_uppercase() { c[k].to_ascii_lowercase() } else { c[k].to_ascii_uppercase() };
            v[i] = c.into_iter().collect()
        }
        (1, K::Int) => v[i] = if t.starts_with('-') { t[1..].to_string() } else { format!("-{}", t) },
        (2, K::Int) => v[i] = format!("{}.0", t),
        (3, K::Int) => v[i] = format!("1{}", t.trim_start_matches('-')),
        (1, K::Float) => v[i] = if t.starts_with('-') { t[1..].to_string() } else { format!("-{}", t) },
        (2, K::Float) => v[i] = format!("1{}", t.trim_start_matches('-')),
        (1, K::Str) => v[i] = format!("\"{}x\"", &t[1..t.len() - 1]),
        (2, K::Str) => v[i] = format!("\" {}\"", &t[1..t.len() - 1]),
        (3, K::Str) => v[i] = format!("\"\"\"{}\"\"\"", &t[1..t.len() - 1]),
        (1, K::Block) => v[i] = format!("\"\"\"x{}", &t[3..]),
        (2, K::Block) => v[i] = "\"\"".into(),
        (3, K::Float | K::Block | K::Name) => v[i] = ["1", "\"E\"", "E", "null", "[]", "{}", "1.5", "[E]"][how / 6 % 8].into(),
        (4, _) => {
            v.remove(i);
        }
        (5, _) => {
            // a copy after it, or the next one before it
            if how / 6 % 2 == 0 {
                v.insert(i, t)
            } else if i + 1 < v.len() {
                v.swap(i, i + 1)
            } else {
                return None;
            }
        }
        (1, _) if t == "!" => {
            v.remove(i);
        }
        _ => return None,
    }
    let mut s = String::new();
    for (j, x) in v.iter().enumerate() {
        if j > 0 && (x.starts_with(|c: char| c.is_alphanumeric() || c == '_' || c == '-' || c == '"' || c == '.') || kinds.get(j - 1).is_some_and(|k| matches!(k, K::Name | K::Int | K::Float))) {
            s.push(' ');
        }
        s += x;
    }
    Some(s)
}

/// Leaves something out, or writes one token over another, so that everything
/// else stays where it is
fn in_place(text: &str, r: &mut Rng) -> Option<String> {
    let lx = lex::lex(text);
    if !lx.ok() || lx.n() < 2 {
        return None;
    }
    let n = lx.n();
    let i = r.below(n);
    let blank = |t: &str| t.chars().map(|c| if c == '\n' || c == '\r' { c } else { ' ' }).collect::<String>();
    let group = |i: usize| -> usize {
        // past the bracket that closes this one
        let mut depth = 0i32;
        for j in i..n {
            match lx.text(j) {
                "(" | "[" | "{" => depth += 1,
                ")" | "]" | "}" => depth -= 1,
                _ => {}
            }
            if depth <= 0 {
                return j + 1;
            }
        }
        n
    };
    if r.pct(25) {
        // over one of the next tokens
        let j = i + 1 + r.below(4);
        if j >= n || lx.toks[i].k == K::Punct || lx.toks[j].k == K::Punct {
            return None;
        }
        let room = if j + 1 < n { text[lx.toks[j].start..lx.toks[j + 1].start].trim_end_matches(['\n', '\r', '\t', ',', '\u{feff}']).chars().count() } else { lx.text(j).chars().count() };
        let want = lx.text(i);
        let had = lx.text(j);
        if had.contains(['\n', '\r']) || want.contains(['\n', '\r']) || want.chars().count() > had.chars().count().min(room) {
            return None;
        }
        let pad = " ".repeat(had.chars().count() - want.chars().count());
        return Some(format!("{}{}{}{}", &text[..lx.toks[j].start], want, pad, &text[lx.toks[j].end..]));
    }
    let j = match lx.text(i) {
        "@" if i + 2 < n && lx.text(i + 2) == "(" => group(i + 2),
        "(" | "{" | "[" => group(i),
        "=" if i + 1 < n => group(i + 1),
        "@" | ":" | "&" | "|" | "..." | "$" => (i + 2).min(n),
        _ if r.pct(20) => (i + 1 + r.below(3)).min(n),
        _ => i + 1,
    };
    let mut s = text[..lx.toks[i].start].to_string();
    for k in i..j {
        s += &blank(lx.text(k));
        s += &text[lx.toks[k].end..if k + 1 < j { lx.toks[k + 1].start } else { lx.toks[k].end }];
    }
    Some(s + &text[lx.toks[j - 1].end..])
}

fn pair<'a>(lang: Lang, a: &Doc<'a, &'a str>, ta: &Trace, other: &'a str, m: &mut Mon) -> Verdict {
    let Ok(b) = parse::<&str>(lang, other) else {
        m.see("variants rejected");
        return Ok(());
    };
    let tb = b.trace();
    let want = same(ta, &tb);
    m.see(if want { "pairs with the same content" } else { "pairs that differ" });
    let (x, y) = (equal(a, &b), equal(&b, a));
    if x != y {
        return Err(format!("a == b is {}, but b == a is {}; b is {:?}", x, y, short(other)));
    }
    if x != want {
        return Err(format!(
            "== says {} of an AST and that of {:?}; {}",
            x,
            short(other),
            diff(ta, &tb, false).map_or("they agree in everything".into(), |d| format!("they differ: {}", d))
        ));
    }
    Ok(())
}

pub fn q01(c: &Case, m: &mut Mon) -> Verdict {
    if c.p & 63 == 0 {
        values(c, m)?;
        made(c, m)?;
    }
    let Ok(a) = parse::<&str>(c.lang, &c.text) else {
        m.see("not accepted");
        return Ok(());
    };
    m.nontrivial = true;
    let ta = a.trace();
    let b = clone(&a);
    m.see("clones compared");
    if let Some(d) = diff(&ta, &b.trace(), false) {
        return Err(format!("a clone differs: {}", d));
    }
    if !equal(&a, &b) || !equal(&b, &a) {
        return Err("an AST and its clone are not equal".into());
    }
    if c.text.len() < 4000 {
        let (x, y) = lib(|| match (&a, &b) {
            (Doc::Q(a), Doc::Q(b)) => (format!("{:?}", a), format!("{:?}", b)),
            (Doc::S(a), Doc::S(b)) => (format!("{:?}", a), format!("{:?}", b)),
            _ => Default::default(),
        });
        if x != y {
            return Err("Debug of an AST and of its clone differ".into());
        }
    }
    drop(b);
    if let Some(d) = diff(&ta, &a.trace(), false) {
        return Err(format!("dropping a clone changes the original: {}", d));
    }
    // owned text
    if let Ok(a) = parse::<String>(c.lang, &c.text) {
        let b = clone(&a);
        if !equal(&a, &b) || diff(&a.trace(), &b.trace(), false).is_some() {
            return Err("an AST with owned text and its clone are not equal".into());
        }
    }
    let lx = lex::lex(&c.text);
    if !lx.ok() || lx.n() > 4000 {
        return Ok(());
    }
    let toks: Vec<String> = (0..lx.n()).map(|i| lx.text(i).to_string()).collect();
    let kinds: Vec<K> = lx.toks.iter().map(|t| t.k).collect();
    // the same tokens in the same places
    let mut r = Rng::new(c.p);
    let mut others: Vec<String> = vec![c.text.clone()];
    let plain = change(&toks, &kinds, 0, 0).map(|s| s.trim_start().to_string());
    others.extend(plain);
    let few = lx.n() <= 60 && c.p % 4 == 1;
    if few {
        for i in 0..lx.n() {
            for how in 0..6 {
                others.extend(change(&toks, &kinds, i, how + 6 * (mix(c.p ^ i as u64) % 8) as usize));
            }
        }
    } else {
        for _ in 0..10 {
            let (i, h) = (r.below(lx.n()), r.below(48));
            others.extend(change(&toks, &kinds, i, h));
        }
    }
    // a character of the text itself: later positions stay
    for _ in 0..4 {
        let i = r.below(lx.n());
        let t = &lx.toks[i];
        if t.k == K::Name || t.k == K::Int {
            let mut b = c.text.clone().into_bytes();
            let j = t.end - 1;
            b[j] = match b[j] {
                b'9' => b'8',
                b'z' => b'y',
                b'Z' => b'Y',
                x @ (b'0'..=b'8' | b'a'..=b'y' | b'A'..=b'Y') => x + 1,
                x => x,
            };
            others.extend(String::from_utf8(b));
        } else if let (K::Str | K::Block, Some(j)) = (t.k, (t.start..t.end).find(|&j| c.text.as_bytes()[j] == b'a')) {
            let mut b = c.text.clone().into_bytes();
            b[j] = b'q';
            others.extend(String::from_utf8(b));
        }
    }
    for o in &others {
        pair(c.lang, &a, &ta, o, m)?;
    }
    // nodes by themselves
    if c.text.len() < 3000 && r.pct(40) {
        let mut n = Nodes::default();
        n.doc(&a);
        nodes::judge(&n, &mut r, m)?;
    }
    // what leaves the positions as they are, once and again
    if c.text.len() < 3000 {
        let mut texts = Vec::new();
        for _ in 0..if few { 2 * lx.n() } else { 8 } {
            let Some(one) = in_place(&c.text, &mut r) else { continue };
            if parse::<&str>(c.lang, &one).is_ok() {
                let more: Vec<String> = (0..4).filter_map(|_| in_place(&one, &mut r)).collect();
                texts.push((one, more));
            }
        }
        let Ok(a) = parse::<&str>(c.lang, &c.text) else { return Ok(()) };
        for (one, more) in &texts {
            m.see("variants in place");
            pair(c.lang, &a, &ta, one, m)?;
            let Ok(x) = parse::<&str>(c.lang, one) else { continue };
            let tx = x.trace();
            for two in more {
                pair(c.lang, &x, &tx, two, m)?;
            }
            if r.pct(8) {
                let mut n = Nodes::default();
                n.doc(&a);
                n.doc(&x);
                nodes::judge(&n, &mut r, m)?;
            }
        }
    }
    Ok(())
}

/// numbers, positions, styles
fn values(c: &Case, m: &mut Mon) -> Verdict {
    let mut r = Rng::new(c.p ^ 0x9a);
    for _ in 0..8 {
        let e = r.below(33) as u32;
        let n = match r.below(4) {
            0 => r.next() as i32,
            1 => (1i64 << e).wrapping_sub(r.below(3) as i64) as i32,
            2 => -((1i64 << e).wrapping_sub(r.below(3) as i64)) as i32,
            _ => r.below(300) as i32 - 150,
        };
        let x: q::Number = lib(|| n.into());
        m.see("numbers made");
        if lib(|| x.as_i64()) != Some(n as i64) {
            return Err(format!("Number::from({}) is {:?}", n, x.as_i64()));
        }
        let k = r.next() as i32;
        let y: q::Number = if r.pct(50) { n.into() } else { k.into() };
        if lib(|| x == y) != (y.as_i64() == Some(n as i64)) || lib(|| x.clone() != x) {
            return Err(format!("== on the numbers {} and {:?} is wrong", n, y));
        }
    }
    let mut some = || {
        let v = [0usize, 1, 2, 9, 10, 11, 99, 100, 255, 256, 65_535, 65_536, u32::MAX as usize, usize::MAX];
        Pos { line: *r.pick(&v), column: *r.pick(&v) }
    };
    for _ in 0..8 {
        let (a, mut b) = (some(), some());
        if c.p & 64 == 0 {
            b.line = a.line;
        }
        m.see("positions compared");
        let (ka, kb) = ((a.line, a.column), (b.line, b.column));
        let ok = lib(|| {
            a.cmp(&b) == ka.cmp(&kb)
                && a.partial_cmp(&b) == Some(ka.cmp(&kb))
                && (a < b) == (ka < kb)
                && (a == b) == (ka == kb)
                && a.max(b) == if ka > kb { a } else { b }
        });
        if !ok {
            return Err(format!("positions {}:{} and {}:{} are compared wrongly", a.line, a.column, b.line, b.column));
        }
        let (d, g) = lib(|| (a.to_string(), format!("{:?}", a)));
        if d != format!("{}:{}", a.line, a.column) || !g.contains(&d) {
            return Err(format!("the position {}:{} is shown as {} and {}", a.line, a.column, d, g));
        }
        let h = |p: &Pos| {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            p.hash(&mut h);
            h.finish()
        };
        if a == b && lib(|| h(&a)) != lib(|| h(&b)) {
            return Err("equal positions hash differently".into());
        }
    }
    if lib(Pos::default) != (Pos { line: 0, column: 0 }) {
        return Err("the default position is not 0:0".into());
    }
    // styles are what was asked for last
    let (w, k) = (r.below(20) as u32, r.below(20) as u32);
    let multi = r.pct(50);
    let ok = lib(|| {
        let mut a = Style::default();
        a.indent(k).indent(w).multiline_arguments(!multi).multiline_arguments(multi);
        let mut b = Style::default();
        b.multiline_arguments(multi).indent(w);
        let mut d = a.clone();
        let same = a == b && d == a;
        d.indent(w + 1);
        let mut e = a.clone();
        e.multiline_arguments(!multi);
        same && d != a && e != a && d != e
    });
    m.see("styles compared");
    if !ok {
        return Err(format!("styles of width {}, multi-line {} are compared wrongly", w, multi));
    }
    Ok(())
}

/// what the constructors make: a node without members
fn made(c: &Case, m: &mut Mon) -> Verdict {
    let name: String = c.text.chars().take(12).collect();
    let n = || name.clone();
    let def = |d: s::Definition<'static, String>| -> Trace { conv::schema(&s::Document { definitions: vec![d] }) };
    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    let (pos, description, directives) = (Pos::default(), None::<String>, Vec::<s::Directive<'static, String>>::new());
    macro_rules! ty {
        ($kind:ident, $t:ident { $($f:ident : $v:expr),* }) => {
            (
                stringify!($t),
                def(D::TypeDefinition(TD::$kind(lib(|| s::$t::new(n()))))),
                def(D::TypeDefinition(TD::$kind(s::$t { position: pos, description: description.clone(), name: n(), directives: directives.clone(), $($f: $v),* }))),
            )
        };
    }
    macro_rules! ext {
        ($kind:ident, $t:ident { $($f:ident : $v:expr),* }) => {
            (
                stringify!($t),
                def(D::TypeExtension(TE::$kind(lib(|| s::$t::new(n()))))),
                def(D::TypeExtension(TE::$kind(s::$t { position: pos, name: n(), directives: directives.clone(), $($f: $v),* }))),
            )
        };
    }
    let value = |v: s::EnumValue<'static, String>| {
        def(D::TypeDefinition(TD::Enum(s::EnumType {
            position: pos,
            description: None,
            name: "E".into(),
            directives: vec![],
            values: vec![v],
        })))
    };
    let all = [
        ty!(Scalar, ScalarType {}),
        ty!(Object, ObjectType { implements_interfaces: vec![], fields: vec![] }),
        ty!(Interface, InterfaceType { implements_interfaces: vec![], fields: vec![] }),
        ty!(Union, UnionType { types: vec![] }),
        ty!(Enum, EnumType { values: vec![] }),
        ty!(InputObject, InputObjectType { fields: vec![] }),
        ext!(Scalar, ScalarTypeExtension {}),
        ext!(Object, ObjectTypeExtension { implements_interfaces: vec![], fields: vec![] }),
        ext!(Interface, InterfaceTypeExtension { implements_interfaces: vec![], fields: vec![] }),
        ext!(Union, UnionTypeExtension { types: vec![] }),
        ext!(Enum, EnumTypeExtension { values: vec![] }),
        ext!(InputObject, InputObjectTypeExtension { fields: vec![] }),
        (
            "EnumValue",
            value(lib(|| s::EnumValue::new(n()))),
            value(s::EnumValue { position: pos, description: None, name: n(), directives: vec![] }),
        ),
        (
            "DirectiveDefinition",
            def(D::DirectiveDefinition(lib(|| s::DirectiveDefinition::new(n())))),
            def(D::DirectiveDefinition(s::DirectiveDefinition {
                position: pos,
                description: None,
                name: n(),
                arguments: vec![],
                locations: vec![],
                repeatable: false,
            })),
        ),
        (
            "SchemaDefinition",
            def(D::SchemaDefinition(lib(Default::default))),
            def(D::SchemaDefinition(s::SchemaDefinition {
                position: pos,
                directives: vec![],
                query: None,
                mutation: None,
                subscription: None,
            })),
        ),
        ("Document", conv::schema::<String>(&lib(Default::default)), vec![]),
    ];
    for (what, got, want) in all {
        m.see("nodes constructed");
        if let Some(d) = diff(&want, &got, false) {
            return Err(format!("a new {} named {:?} is not empty: {}", what, name, d));
        }
    }
    Ok(())
}
