//! One oracle per property over one case.
use crate::build;
use crate::conv;
use crate::dict::Dict;
use crate::ev::{self, diff, literals, positions, short, strip, Ev};
use crate::gen;
use crate::lex::{self, Lexed, K};
use crate::lib_api::*;
use crate::refparse::{self, Lang, PErr, EK, LOCATIONS};
use crate::refprint;
use crate::rng::{mix, Rng};
use graphql_parser::query as q;
use graphql_parser::schema as s;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub lang: Lang,
    pub text: String,
    pub p: u64,
}

/// What the monitor saw
#[derive(Default)]
pub struct Mon {
    pub seen: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}
impl Mon {
    pub fn see(&mut self, k: &'static str) {
        *self.seen.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: usize) {
        *self.seen.entry(k).or_insert(0) += n as u64;
    }
}

pub type Verdict = Result<(), String>;
pub type Check = fn(&Case, &mut Mon) -> Verdict;

macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

pub fn check_of(prop: &str) -> Option<Check> {
    Some(match prop {
        "T01" => t01,
        "L01" | "L02" => verdict,
        "A01" | "A02" => content,
        "V01" => v01,
        "X01" => x01,
        "X02" => x02,
        "X03" => crate::expect::x03,
        "X04" => crate::expect::x04,
        "J01" => crate::join::j01,
        "F01" | "F02" => round_trip,
        "F03" => f03,
        "F04" => f04,
        "I01" => i01,
        "M01" => m01,
        "C01" => c01,
        "D01" => d01,
        #[cfg(feature = "texts")]
        "G01" => crate::texts::g01,
        "S01" => crate::memory::s01,
        "H01" => crate::history::h01,
        "E01" => e01,
        "Q01" => crate::equal::q01,
        "N01" => crate::effects::n01,
        _ => return None,
    })
}

fn show(r: &Result<ev::Trace, PErr>, lx: &Lexed) -> String {
    match r {
        Ok(_) => "the grammar accepts it".into(),
        Err(e) => {
            let t = &lx.toks[e.tok];
            format!(
                "the grammar rejects it at {}:{} `{}` ({:?})",
                t.line,
                t.col,
                short(lx.text(e.tok)),
                e.kind
            )
        }
    }
}

pub const STYLES: [(usize, bool); 6] = [(2, false), (2, true), (0, true), (4, false), (0, false), (7, true)];

pub fn t01(c: &Case, m: &mut Mon) -> Verdict {
    let t = c.text.as_str();
    let mut acc = 0;
    let mut styles = STYLES.to_vec();
    styles.extend(wide_style(c.p, c.text.len()));
    let styles = &styles[..];
    lib(|| {
        match graphql_parser::parse_query::<String>(t) {
            Ok(d) => {
                acc += 1;
                for &(w, multi) in styles {
                    std::hint::black_box(d.format(&style(w, multi)));
                }
                std::hint::black_box((d.to_string(), format!("{:?}", d)));
                let e = d.clone();
                std::hint::black_box(e == d);
                drop(d);
                let st = e.into_static();
                std::hint::black_box(st.to_string());
            }
            Err(e) => {
                std::hint::black_box((e.to_string(), format!("{:?} {:#?}", e, e)));
            }
        }
        match graphql_parser::parse_query::<&str>(t) {
            Ok(d) => {
                std::hint::black_box((d.to_string(), d.clone() == d, format!("{:#?}", d)));
            }
            Err(e) => drop(e),
        }
        match graphql_parser::parse_schema::<String>(t) {
            Ok(d) => {
                acc += 1;
                for &(w, multi) in styles {
                    std::hint::black_box(d.format(&style(w, multi)));
                }
                std::hint::black_box((d.to_string(), format!("{:?}", d)));
                let e = d.clone();
                std::hint::black_box(e == d);
                drop(d);
                let st = e.into_static();
                std::hint::black_box(st.to_string());
            }
            Err(e) => {
                std::hint::black_box((e.to_string(), format!("{:?}", e)));
            }
        }
        match graphql_parser::parse_schema::<&str>(t) {
            Ok(d) => {
                std::hint::black_box((d.to_string(), d.clone() == d, format!("{:#?}", d)));
            }
            Err(e) => drop(e),
        }
        match q::consume_definition::<String>(t) {
            Ok((d, rest)) => {
                std::hint::black_box((d.to_string(), rest.len()));
            }
            Err(e) => drop(e.to_string()),
        }
        match graphql_parser::minify_query(t.to_string()) {
            Ok(x) => drop(x),
            Err(e) => {
                std::hint::black_box((e.to_string(), format!("{:?}", e)));
            }
        }
    });
    m.see(if acc > 0 { "documents accepted" } else { "texts rejected" });
    m.nontrivial = !t.is_empty();
    Ok(())
}

pub fn verdict(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    let want = refparse::document(&lx, c.lang);
    let got = parse::<&str>(c.lang, &c.text);
    m.nontrivial = lx.n() >= 2;
    match (&want, &got) {
        (Ok(_), Ok(_)) => m.see("accepted"),
        (Err(e), Err(_)) => m.see(match e.kind {
            EK::Lex => "rejected: no token",
            EK::Depth => "rejected: too deep",
            EK::Syntax => "rejected: syntax",
            EK::Decode => "rejected: content of a token",
            EK::Semantic => "rejected: construct",
        }),
        (_, Ok(d)) => fail!("accepted ({} definitions), but {}", d.len(), show(&want, &lx)),
        (_, Err(e)) => fail!("rejected ({}), but {}", short(&e.replace('\n', " ")), show(&want, &lx)),
    }
    Ok(())
}

fn count_events(m: &mut Mon, t: &[Ev]) {
    m.add("trace events compared", t.len());
}

pub fn content(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    let (Ok(want), Ok(doc)) = (refparse::document(&lx, c.lang), parse::<String>(c.lang, &c.text)) else {
        m.see("not accepted (nothing to compare)");
        return Ok(());
    };
    let (want, got) = (strip(&want), strip(&doc.trace()));
    count_events(m, &want);
    m.nontrivial = true;
    m.see("documents compared");
    if let Some(d) = diff(&want, &got, false) {
        fail!("the AST differs from the document: {}", d);
    }
    Ok(())
}

pub fn v01(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    let want = refparse::document(&lx, c.lang);
    let got = parse::<String>(c.lang, &c.text);
    match (want, got) {
        (Ok(w), Ok(doc)) => {
            let (w, g) = (literals(&w), literals(&doc.trace()));
            m.add("values compared", w.len());
            m.see("documents accepted");
            m.nontrivial = !w.is_empty();
            if let Some(d) = diff(&w, &g, false) {
                fail!("a value is not what its literal says: {}", d);
            }
        }
        (Err(e), Err(_)) => {
            m.nontrivial = matches!(e.kind, EK::Decode | EK::Lex);
            m.see(match e.kind {
                EK::Decode => "rejected: literal with no value",
                EK::Lex => "rejected: no token",
                _ => "rejected: other",
            });
        }
        (Err(e), Ok(d)) if matches!(e.kind, EK::Decode | EK::Lex) => {
            fail!(
                "`{}` has no value but was accepted, giving {}",
                short(lx.text(e.tok)),
                short(&format!("{:?}", literals(&d.trace())))
            )
        }
        (Ok(w), Err(e)) => {
            fail!(
                "the literals {} were rejected: {}",
                short(&format!("{:?}", literals(&w))),
                short(&e.replace('\n', " "))
            )
        }
        _ => m.see("verdict differs for other reasons"),
    }
    Ok(())
}

pub fn x01(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    if lx.lone_cr {
        m.see("skipped: CR not followed by LF");
        return Ok(());
    }
    let (Ok(want), Ok(doc)) = (refparse::document(&lx, c.lang), parse::<&str>(c.lang, &c.text)) else {
        m.see("not accepted");
        return Ok(());
    };
    let got = doc.trace();
    let same = |a: &[Ev], b: &[Ev]| {
        a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| std::mem::discriminant(x) == std::mem::discriminant(y))
    };
    if !same(&want, &got) {
        m.see("other structure (see A01, A02)");
        return Ok(());
    }
    let (w, g) = (positions(&want), positions(&got));
    m.add("positions compared", w.len());
    m.nontrivial = !w.is_empty();
    if w != g {
        let i = (0..w.len()).find(|&i| w[i] != g[i]).unwrap();
        // the node it belongs to
        let mut k = 0;
        let mut node = "?";
        for e in &want {
            match e {
                Ev::N(n) => node = n,
                Ev::P(..) => {
                    if k == i {
                        break;
                    }
                    k += 1;
                }
                _ => {}
            }
        }
        fail!(
            "position {} of a {} is {}:{}, its token is at {}:{}",
            i,
            node,
            g[i].0,
            g[i].1,
            w[i].0,
            w[i].1
        );
    }
    if c.lang == Lang::Query {
        if let (Ok((w, _)), Ok((d, _))) = (refparse::first_definition(&lx), consume::<&str>(&c.text)) {
            let g = def_trace(&d);
            if same(&w, &g) && positions(&w) != positions(&g) {
                fail!("positions of the definition consumed differ: {:?}, not {:?}", positions(&g), positions(&w));
            }
        }
    }
    Ok(())
}

pub fn kind_name(k: K) -> &'static str {
    match k {
        K::Punct => "Punctuator",
        K::Name => "Name",
        K::Int => "IntValue",
        K::Float => "FloatValue",
        K::Str => "StringValue",
        K::Block => "BlockString",
        _ => "",
    }
}

fn check_error(lx: &Lexed, e: PErr, msg: &str) -> Verdict {
    let t = lx.toks[e.tok];
    let Some((l, c)) = err_pos(msg) else {
        fail!("the error has no position: {}", short(&msg.replace('\n', " ")));
    };
    let col_known = !(t.k == K::Eof && lx.open_comment);
    if l != t.line || (col_known && c != t.col) {
        fail!(
            "the error is at {}:{}, the first wrong token at {}:{} (`{}`, {:?}): {}",
            l,
            c,
            t.line,
            t.col,
            short(lx.text(e.tok)),
            e.kind,
            short(&msg.replace('\n', " "))
        );
    }
    let named = format!("Unexpected `{}[{}]`\n", lx.text(e.tok), kind_name(t.k));
    if e.kind == EK::Syntax && t.k != K::Eof && !msg.contains(&named) {
        if let Some((tok, kind)) = err_token(msg) {
            if tok != lx.text(e.tok) || kind != kind_name(t.k) {
                fail!(
                    "the error names the token `{}` ({}), the wrong one is `{}`",
                    short(&tok),
                    kind,
                    short(lx.text(e.tok))
                );
            }
        }
    }
    Ok(())
}

pub fn x02(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    if lx.lone_cr {
        m.see("skipped: CR not followed by LF");
        return Ok(());
    }
    let (Err(want), Err(msg)) = (refparse::document(&lx, c.lang), parse::<&str>(c.lang, &c.text).map(|_| ())) else {
        m.see("not rejected");
        return Ok(());
    };
    m.nontrivial = want.tok > 0;
    m.see(match want.kind {
        EK::Lex => "errors located: no token",
        EK::Depth => "errors located: too deep",
        EK::Syntax => "errors located: syntax",
        EK::Decode => "errors located: content of a token",
        EK::Semantic => "errors located: construct",
    });
    check_error(&lx, want, &msg)?;
    if c.lang == Lang::Query {
        if let (Err(w), Err(msg)) = (
            refparse::first_definition(&lx).map(|_| ()),
            consume::<&str>(&c.text).map(|_| ()),
        ) {
            m.see("errors located: consume_definition");
            check_error(&lx, w, &msg)?;
        }
    }
    Ok(())
}

/// a style from a number
pub fn some_style(p: u64, i: u64) -> (usize, bool) {
    let h = mix(p ^ (i << 40));
    let w = [2, 0, 1, 3, 4, 5, 8, 13, 40][(h % 9) as usize];
    (w, h >> 20 & 1 == 1)
}

thread_local! {
    /// widths worth trying, those the code treats specially among them
    static WIDTHS: Vec<usize> = {
        let mut v = vec![6, 7, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255,
            256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 8192, 10_000, 32_768, 65_535, 65_536];
        for n in Dict::load().sizes {
            v.extend([n, n + 1]);
        }
        v.sort();
        v.dedup();
        v
    };
}

/// now and then a wide style; short texts only, as the print grows with it
pub fn wide_style(p: u64, len: usize) -> Option<(usize, bool)> {
    let h = mix(p ^ 0x77_1de);
    if h % 8 != 0 {
        return None;
    }
    WIDTHS.with(|v| {
        let most = v.partition_point(|w| w * (len + 1) <= 200_000);
        if most == 0 {
            return None;
        }
        Some((v[(h >> 8) as usize % most], h >> 4 & 1 == 1))
    })
}

pub fn round_trip(c: &Case, m: &mut Mon) -> Verdict {
    let Ok(doc) = parse::<String>(c.lang, &c.text) else {
        m.see("not accepted");
        return Ok(());
    };
    let want = strip(&doc.trace());
    m.nontrivial = true;
    let mut styles = vec![(2, false), (2, true), some_style(c.p, 1), some_style(c.p, 2)];
    styles.extend(wide_style(c.p, c.text.len()));
    for (k, &(w, multi)) in styles.iter().enumerate() {
        if styles[..k].contains(&(w, multi)) {
            continue;
        }
        let text = doc.format(w, multi);
        m.see("prints parsed again");
        match parse::<String>(c.lang, &text) {
            Err(e) => fail!(
                "printed (width {}, multi-line {}) as {:?}, which is rejected: {}",
                w,
                multi,
                short(&text),
                short(&e.replace('\n', " "))
            ),
            Ok(again) => {
                let got = strip(&again.trace());
                count_events(m, &want);
                if let Some(d) = diff(&want, &got, true) {
                    fail!("printed (width {}, multi-line {}) as {:?}: {}", w, multi, short(&text), d);
                }
            }
        }
    }
    Ok(())
}

/// p even: a random AST driven by the text; p odd: the text as every string
pub fn f03(c: &Case, m: &mut Mon) -> Verdict {
    let (w1, m1) = some_style(c.p, 3);
    let mut styles = vec![(2, false), (w1, m1), (2, true)];
    // the AST may be larger than its text
    styles.extend(wide_style(c.p, 20 * c.text.len() + 200));
    let whole = c.p & 1 == 1;
    m.nontrivial = c.text.chars().count() > 1;
    let judge = |lang: Lang, want: ev::Trace, text: String, w: usize, multi: bool, m: &mut Mon| -> Verdict {
        let want = strip(&want);
        m.see("printed ASTs judged");
        count_events(m, &want);
        let lx = lex::lex(&text);
        let r = refparse::document(&lx, lang);
        match &r {
            Err(_) => fail!(
                "an AST is printed (width {}, multi-line {}) as no document: {}\n{}",
                w,
                multi,
                show(&r, &lx),
                short(&text)
            ),
            Ok(got) => {
                if let Some(d) = diff(&want, &strip(got), true) {
                    fail!(
                        "an AST is printed (width {}, multi-line {}) as another: {}\n{}",
                        w,
                        multi,
                        d,
                        short(&text)
                    );
                }
                Ok(())
            }
        }
    };
    match c.lang {
        Lang::Query => {
            let d = if whole {
                build::query_with(&c.text)
            } else {
                build::Src::new(&c.text).query()
            };
            for &(w, multi) in &styles {
                let t = lib(|| d.format(&style(w, multi)));
                judge(c.lang, conv::query(&d), t, w, multi, m)?;
            }
        }
        Lang::Schema => {
            let d = if whole {
                build::schema_with(&c.text)
            } else {
                build::Src::new(&c.text).schema()
            };
            for &(w, multi) in &styles {
                let t = lib(|| d.format(&style(w, multi)));
                judge(c.lang, conv::schema(&d), t, w, multi, m)?;
            }
        }
    }
    Ok(())
}

fn text_diff(want: &str, got: &str) -> Option<String> {
    if want == got {
        return None;
    }
    for (i, (a, b)) in want.split('\n').zip(got.split('\n')).enumerate() {
        if a != b {
            return Some(format!("line {}: {:?}, not {:?}", i + 1, short(b), short(a)));
        }
    }
    Some(format!("{} lines, not {}", got.lines().count(), want.lines().count()))
}

pub fn f04(c: &Case, m: &mut Mon) -> Verdict {
    let Ok(doc) = parse::<String>(c.lang, &c.text) else {
        m.see("not accepted");
        return Ok(());
    };
    m.nontrivial = true;
    let mut styles = vec![(2, false), (2, true), some_style(c.p, 1), some_style(c.p, 2)];
    styles.dedup();
    styles.extend(wide_style(c.p, c.text.len()));
    for (w, multi) in styles {
        let got = doc.format(w, multi);
        m.see("prints compared");
        m.add("bytes of print compared", got.len());
        if let Some(d) = text_diff(&doc.canon(w, multi), &got) {
            fail!("layout of width {}, multi-line {}: {}", w, multi, d);
        }
        if let Ok(again) = parse::<String>(c.lang, &got) {
            m.see("prints printed again");
            if let Some(d) = text_diff(&got, &again.format(w, multi)) {
                fail!("printing the print again changes it (width {}, multi-line {}): {}", w, multi, d);
            }
        }
    }
    if let Some(d) = text_diff(&doc.canon(2, false), &doc.display()) {
        fail!("Display differs from the default style: {}", d);
    }
    match &doc {
        Doc::Q(d) => writer(m, "document", d)?,
        Doc::S(d) => writer(m, "document", d)?,
    }
    match &doc {
        Doc::Q(d) => nodes_q(d, m),
        Doc::S(d) => nodes_s(d, m),
    }
}

/// takes so many bytes and then fails
struct Limited(usize, usize);
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1 + s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.1 += s.len();
        Ok(())
    }
}

/// a writer that fails half-way makes Display fail
fn writer(m: &mut Mon, what: &str, x: &dyn std::fmt::Display) -> Verdict {
    use std::fmt::Write;
    let len = lib(|| x.to_string()).len();
    for room in [len / 2, len.saturating_sub(1), len] {
        let mut w = Limited(room, 0);
        let r = lib(|| write!(w, "{}", x));
        m.see("writers that fail or just suffice");
        if r.is_ok() != (room >= len) {
            fail!("Display of a {} of {} bytes to a writer with room for {} gives {:?}", what, len, room, r);
        }
    }
    Ok(())
}

fn node(m: &mut Mon, what: &str, want: String, x: &dyn std::fmt::Display) -> Verdict {
    m.see("nodes displayed");
    let got = lib(|| x.to_string());
    if let Some(d) = text_diff(&want, &got) {
        fail!("Display of a {}: {}", what, d);
    }
    if want.len() % 8 == 3 {
        writer(m, what, x)?;
    }
    Ok(())
}

fn nodes_q(d: &q::Document<'_, String>, m: &mut Mon) -> Verdict {
    fn val(v: &q::Value<'_, String>, m: &mut Mon) -> Verdict {
        node(m, "value", refprint::one(|p| p.value(v, 0)), v)?;
        match v {
            q::Value::List(l) => l.iter().try_for_each(|x| val(x, m)),
            q::Value::Object(o) => o.values().try_for_each(|x| val(x, m)),
            _ => Ok(()),
        }
    }
    fn dirs(x: &[q::Directive<'_, String>], m: &mut Mon) -> Verdict {
        for d in x {
            node(m, "directive", refprint::one(|p| p.directive(d, 0)), d)?;
            for a in &d.arguments {
                val(&a.1, m)?;
            }
        }
        Ok(())
    }
    fn set(x: &q::SelectionSet<'_, String>, m: &mut Mon) -> Verdict {
        if !x.items.is_empty() {
            node(m, "selection set", refprint::one(|p| p.shorthand(x)), x)?;
        }
        for i in &x.items {
            match i {
                q::Selection::Field(f) => {
                    node(m, "field", refprint::one(|p| p.field(f, 0)), f)?;
                    for a in &f.arguments {
                        val(&a.1, m)?;
                    }
                    dirs(&f.directives, m)?;
                    set(&f.selection_set, m)?;
                }
                q::Selection::FragmentSpread(f) => {
                    node(m, "spread", refprint::one(|p| p.spread(f, 0)), f)?;
                    dirs(&f.directives, m)?;
                }
                q::Selection::InlineFragment(f) => {
                    node(m, "inline fragment", refprint::one(|p| p.inline(f, 0)), f)?;
                    if let Some(t) = &f.type_condition {
                        let q::TypeCondition::On(n) = t;
                        node(m, "type condition", format!("on {}", n), t)?;
                    }
                    dirs(&f.directives, m)?;
                    set(&f.selection_set, m)?;
                }
            }
        }
        Ok(())
    }
    fn vars(x: &[q::VariableDefinition<'_, String>], m: &mut Mon) -> Verdict {
        for v in x {
            node(m, "variable definition", refprint::one(|p| p.variable(v)), v)?;
            node(m, "type", refprint::one(|p| p.ty(&v.var_type)), &v.var_type)?;
            if let Some(d) = &v.default_value {
                val(d, m)?;
            }
        }
        Ok(())
    }
    // quadratic in the depth: leave it to documents of moderate size
    if d.definitions.len() > 300 {
        return Ok(());
    }
    for x in &d.definitions {
        let want = refprint::one(|p| p.query_def(x));
        if want.len() > 20_000 {
            continue;
        }
        node(m, "definition", want.clone(), x)?;
        match x {
            q::Definition::Operation(o) => {
                node(m, "operation", want.clone(), o)?;
                match o {
                    q::OperationDefinition::SelectionSet(s) => set(s, m)?,
                    q::OperationDefinition::Query(x) => {
                        node(m, "query", want, x)?;
                        vars(&x.variable_definitions, m)?;
                        dirs(&x.directives, m)?;
                        set(&x.selection_set, m)?;
                    }
                    q::OperationDefinition::Mutation(x) => {
                        node(m, "mutation", want, x)?;
                        vars(&x.variable_definitions, m)?;
                        dirs(&x.directives, m)?;
                        set(&x.selection_set, m)?;
                    }
                    q::OperationDefinition::Subscription(x) => {
                        node(m, "subscription", want, x)?;
                        vars(&x.variable_definitions, m)?;
                        dirs(&x.directives, m)?;
                        set(&x.selection_set, m)?;
                    }
                }
            }
            q::Definition::Fragment(f) => {
                node(m, "fragment", want, f)?;
                dirs(&f.directives, m)?;
                set(&f.selection_set, m)?;
            }
        }
    }
    Ok(())
}

fn nodes_s(d: &s::Document<'_, String>, m: &mut Mon) -> Verdict {
    use s::Definition as D;
    use s::TypeDefinition as TD;
    use s::TypeExtension as TE;
    fn inputs(x: &[s::InputValue<'_, String>], m: &mut Mon) -> Verdict {
        for v in x {
            node(m, "input value", refprint::one(|p| p.input(v, 0)), v)?;
            if let Some(d) = &v.default_value {
                node(m, "value", refprint::one(|p| p.value(d, 0)), d)?;
            }
        }
        Ok(())
    }
    fn fields(x: &[s::Field<'_, String>], m: &mut Mon) -> Verdict {
        for f in x {
            node(m, "field definition", refprint::one(|p| p.field_def(f, 0)), f)?;
            inputs(&f.arguments, m)?;
        }
        Ok(())
    }
    if d.definitions.len() > 1000 {
        return Ok(());
    }
    for x in &d.definitions {
        let want = refprint::one(|p| p.schema_def(x));
        node(m, "definition", want.clone(), x)?;
        match x {
            D::SchemaDefinition(x) => node(m, "schema definition", want, x)?,
            D::DirectiveDefinition(x) => {
                node(m, "directive definition", want, x)?;
                inputs(&x.arguments, m)?;
            }
            D::TypeDefinition(t) => {
                node(m, "type definition", want.clone(), t)?;
                match t {
                    TD::Scalar(x) => node(m, "scalar", want, x)?,
                    TD::Object(x) => {
                        node(m, "object type", want, x)?;
                        fields(&x.fields, m)?;
                    }
                    TD::Interface(x) => {
                        node(m, "interface", want, x)?;
                        fields(&x.fields, m)?;
                    }
                    TD::Union(x) => node(m, "union", want, x)?,
                    TD::Enum(x) => node(m, "enum", want, x)?,
                    TD::InputObject(x) => {
                        node(m, "input object", want, x)?;
                        inputs(&x.fields, m)?;
                    }
                }
            }
            D::TypeExtension(t) => {
                node(m, "type extension", want.clone(), t)?;
                match t {
                    TE::Scalar(x) => node(m, "scalar extension", want, x)?,
                    TE::Object(x) => node(m, "object extension", want, x)?,
                    TE::Interface(x) => node(m, "interface extension", want, x)?,
                    TE::Union(x) => node(m, "union extension", want, x)?,
                    TE::Enum(x) => node(m, "enum extension", want, x)?,
                    TE::InputObject(x) => node(m, "input object extension", want, x)?,
                }
            }
        }
    }
    Ok(())
}

thread_local! {
    static DICT: Dict = Dict::fixed();
}

/// the tokens of the text with other ignored text between them
pub fn re_render(lx: &Lexed, p: u64, lone_cr: bool) -> String {
    let toks: Vec<String> = (0..lx.n()).map(|i| lx.text(i).to_string()).collect();
    let mut r = Rng::new(p);
    DICT.with(|d| {
        let sep = if r.pct(15) {
            gen::Sep::Tight
        } else if lone_cr {
            gen::Sep::Wild
        } else {
            gen::Sep::WildNoCr
        };
        gen::render(&mut r, d, &toks, sep)
    })
}

pub fn i01(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    if !lx.ok() || lx.n() > 3000 {
        m.see("skipped: not made of tokens, or too long");
        return Ok(());
    }
    m.nontrivial = lx.n() >= 2;
    let a = parse::<String>(c.lang, &c.text);
    for k in 0..3u64 {
        let other = if k == 2 {
            // the ignored text one place has, at all places
            let sep = *["\u{feff}", "#\n", "\r\n", ",", "\t", " # \"\"\" \r\n", "\r", "#\u{feff}\r", "\n\n"]
                .get((c.p % 9) as usize)
                .unwrap();
            let mut s = String::from(sep);
            for i in 0..lx.n() {
                s += lx.text(i);
                s += sep;
            }
            s
        } else {
            re_render(&lx, c.p + k, true)
        };
        let b = parse::<String>(c.lang, &other);
        m.see("pairs of texts compared");
        match (&a, &b) {
            (Ok(x), Ok(y)) => {
                m.see("pairs of ASTs compared");
                let (x, y) = (strip(&x.trace()), strip(&y.trace()));
                if let Some(d) = diff(&x, &y, false) {
                    fail!("other ignored text gives another AST: {}\n{:?}", d, short(&other));
                }
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => fail!(
                "accepted, but with other ignored text rejected: {}\n{:?}",
                short(&e.replace('\n', " ")),
                short(&other)
            ),
            (Err(e), Ok(_)) => fail!(
                "rejected ({}), but with other ignored text accepted\n{:?}",
                short(&e.replace('\n', " ")),
                short(&other)
            ),
        }
    }
    Ok(())
}

/// deepest nesting counting from the start, and whether closers ever outnumber
/// openers
pub fn nesting(lx: &Lexed) -> (i64, bool) {
    let (mut d, mut max, mut under) = (0i64, 0i64, false);
    for i in 0..lx.n() {
        match lx.text(i) {
            "(" | "[" | "{" => d += 1,
            ")" | "]" | "}" => d -= 1,
            _ => {}
        }
        max = max.max(d);
        under |= d < 0;
    }
    (max, under)
}

pub fn m01(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    let got = minify(&c.text);
    if !lx.ok() {
        m.see("texts with an invalid token");
        m.nontrivial = lx.n() > 0;
        let (depth, under) = nesting(&lx);
        if let Ok(x) = got {
            // a bracket too deep before the invalid token is an error as well
            if depth <= 50 && !under {
                fail!("minified to {:?}, though `{}` is no token", short(&x), short(lx.text(lx.n())));
            }
        }
        return Ok(());
    }
    let accepted = refparse::document(&lx, c.lang).is_ok();
    if !accepted {
        m.see("not accepted");
        return Ok(());
    }
    m.nontrivial = true;
    m.see("documents minified");
    let mut want = String::new();
    for i in 0..lx.n() {
        if i > 0 && lx.toks[i - 1].k != K::Punct && lx.toks[i].k != K::Punct {
            want.push(' ');
        }
        want += lx.text(i);
    }
    let x = match got {
        Err(e) => fail!("minifying an accepted document fails: {}", e),
        Ok(x) => x,
    };
    m.add("bytes removed", c.text.len().saturating_sub(x.len()));
    if x != want {
        let at = x.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
        let around = |s: &str| {
            let b = s.as_bytes();
            String::from_utf8_lossy(&b[at.saturating_sub(20).min(b.len())..(at + 20).min(b.len())]).into_owned()
        };
        fail!("minified to …{:?}…, the tokens are …{:?}…", around(&x), around(&want));
    }
    match minify(&x) {
        Ok(y) if y == x => {}
        Ok(y) => fail!("minifying twice changes {:?} to {:?}", short(&x), short(&y)),
        Err(e) => fail!("minifying {:?} again fails: {}", short(&x), e),
    }
    if let Ok(a) = parse::<String>(c.lang, &c.text) {
        match parse::<String>(c.lang, &x) {
            Err(e) => fail!("the minified text {:?} is rejected: {}", short(&x), short(&e)),
            Ok(b) => {
                m.see("ASTs compared");
                if let Some(d) = diff(&strip(&a.trace()), &strip(&b.trace()), false) {
                    fail!("the minified text has another AST: {}", d);
                }
            }
        }
    }
    Ok(())
}

pub fn c01(c: &Case, m: &mut Mon) -> Verdict {
    let t = c.text.as_str();
    let lx = lex::lex(t);
    let want = refparse::first_definition(&lx);
    let got = consume::<String>(t);
    match (&want, &got) {
        (Err(_), Err(_)) => {
            m.see("no definition");
            m.nontrivial = lx.n() > 1;
        }
        (Ok(_), Err(e)) => fail!(
            "the text starts with a definition, but: {}",
            short(&e.replace('\n', " "))
        ),
        (Err(e), Ok((d, _))) => fail!(
            "no definition (wrong at `{}`), but one was returned: {}",
            short(lx.text(e.tok)),
            short(&format!("{:?}", strip(&def_trace(d))))
        ),
        (Ok((w, i)), Ok((d, rest))) => {
            m.see("definitions consumed");
            m.nontrivial = true;
            let at = lx.toks[*i].start;
            let off = (rest.as_ptr() as usize).wrapping_sub(t.as_ptr() as usize);
            if *rest != &t[at..] {
                fail!("the rest is {:?}, not {:?}", short(rest), short(&t[at..]));
            }
            if off != at || rest.len() != t.len() - at {
                fail!("the rest is no suffix of the text");
            }
            if let Some(d) = diff(&strip(w), &strip(&def_trace(d)), false) {
                fail!("the definition differs from the text: {}", d);
            }
        }
    }
    // the borrowing form, and the whole sequence
    if let Ok(Doc::Q(whole)) = parse::<&str>(Lang::Query, t) {
        m.see("documents consumed");
        let mut rest = t;
        let mut defs = Vec::new();
        let mut calls = 0;
        while !rest.is_empty() {
            match consume::<&str>(rest) {
                Err(e) => fail!(
                    "definition {} of {} cannot be consumed: {}",
                    calls + 1,
                    whole.definitions.len(),
                    short(&e.replace('\n', " "))
                ),
                Ok((d, r)) => {
                    defs.extend(strip(&def_trace(&d)));
                    if r.len() >= rest.len() {
                        fail!("consuming a definition leaves as much text as before");
                    }
                    rest = r;
                    calls += 1;
                }
            }
        }
        m.add("definitions consumed in sequence", calls);
        if calls != whole.definitions.len() {
            fail!("{} definitions consumed, the document has {}", calls, whole.definitions.len());
        }
        if let Some(d) = diff(&strip(&conv::query(&whole)), &defs, false) {
            fail!("the definitions consumed differ from the document's: {}", d);
        }
    } else if let (Ok((_, _)), Ok((d, rest))) = (&want, consume::<&str>(t)) {
        // what follows is not looked at: with the rest cut off or replaced the
        // result is the same
        let cut = t.len() - rest.len();
        for tail in ["", "\"", "%", "\u{0}"] {
            let mut s2 = t[..cut].to_string();
            s2.push_str(tail);
            match consume::<&str>(&s2) {
                Err(e) => fail!(
                    "with {:?} instead of the rest it fails: {}",
                    tail,
                    short(&e.replace('\n', " "))
                ),
                Ok((d2, r2)) => {
                    if r2 != tail || def_trace(&d2) != def_trace(&d) {
                        fail!("with {:?} instead of the rest the result differs", tail);
                    }
                }
            }
        }
    }
    Ok(())
}

fn mentions_limit(msg: &str) -> bool {
    msg.to_lowercase().contains("recursion limit")
}

pub fn d01(c: &Case, m: &mut Mon) -> Verdict {
    let lx = lex::lex(&c.text);
    // a message repeats tokens of the text
    let says_so = mentions_limit(&c.text);
    let one = |want: Result<(), PErr>, got: Result<(), String>, what: &str, m: &mut Mon| -> Verdict {
        match (want, got) {
            (Ok(()), Ok(())) => {
                m.see("accepted");
                Ok(())
            }
            (Ok(()), Err(e)) if !says_so && mentions_limit(&e) => fail!(
                "{}: brackets nest at most 50 deep, but: {}",
                what,
                short(&e.replace('\n', " "))
            ),
            (Err(w), Ok(())) if w.kind == EK::Depth => fail!("{}: accepted with brackets nesting more than 50 deep", what),
            (Err(w), Err(e)) if w.kind == EK::Depth => {
                m.see("rejected: too deep");
                if !mentions_limit(&e) {
                    fail!("{}: the error for too deep nesting is: {}", what, short(&e.replace('\n', " ")));
                }
                if what != "minify_query" && !lx.lone_cr {
                    check_error(&lx, w, &e)?;
                }
                Ok(())
            }
            (Err(_), Err(e)) => {
                if !says_so && mentions_limit(&e) {
                    fail!("{}: no bracket is too deep, but: {}", what, short(&e.replace('\n', " ")));
                }
                m.see("rejected: other");
                Ok(())
            }
            _ => {
                m.see("verdict differs for other reasons");
                Ok(())
            }
        }
    };
    let (depth, under) = nesting(&lx);
    m.nontrivial = depth >= 2;
    m.add("deepest nesting (sum)", depth.max(0) as usize);
    one(
        refparse::document(&lx, Lang::Query).map(|_| ()),
        parse::<&str>(Lang::Query, &c.text).map(|_| ()),
        "parse_query",
        m,
    )?;
    one(
        refparse::document(&lx, Lang::Schema).map(|_| ()),
        parse::<&str>(Lang::Schema, &c.text).map(|_| ()),
        "parse_schema",
        m,
    )?;
    one(
        refparse::first_definition(&lx).map(|_| ()),
        consume::<&str>(&c.text).map(|_| ()),
        "consume_definition",
        m,
    )?;
    if !under {
        // the first bracket too deep, or the invalid token before it
        let mut d = 0;
        let mut want = if lx.ok() {
            Ok(())
        } else {
            Err(PErr { tok: lx.n(), kind: EK::Lex })
        };
        for i in 0..lx.n() {
            match lx.text(i) {
                "(" | "[" | "{" => d += 1,
                ")" | "]" | "}" => d -= 1,
                _ => {}
            }
            if d > 50 {
                want = Err(PErr { tok: i, kind: EK::Depth });
                break;
            }
        }
        one(want, minify(&c.text).map(|_| ()), "minify_query", m)?;
    }
    Ok(())
}

pub fn e01(c: &Case, m: &mut Mon) -> Verdict {
    use std::str::FromStr;
    let t = c.text.as_str();
    let known = LOCATIONS.iter().find(|l| l.0 == t);
    m.nontrivial = true;
    let got = lib(|| s::DirectiveLocation::from_str(t));
    match (&got, known) {
        (Ok(l), Some((n, executable))) => {
            m.see("locations converted");
            if conv::location(l) != *n {
                fail!("{:?} converts to the location {:?}", n, l);
            }
            let back = lib(|| l.as_str());
            if back != *n {
                fail!("{:?} converts back to {:?}", n, back);
            }
            let (a, b) = lib(|| (l.is_query(), l.is_schema()));
            if a != *executable || b == *executable {
                fail!("{}: query location {}, schema location {}", n, a, b);
            }
        }
        (Err(e), None) => {
            m.see("other texts refused");
            let _ = lib(|| format!("{} {:?}", e, e));
        }
        (Ok(l), None) => fail!("{:?} converts to the location {:?}", short(t), l),
        (Err(_), Some((n, _))) => fail!("{:?} does not convert to a location", n),
    }
    // all variants, through their own names, distinct
    for i in 0..19 {
        let l = build::location(i);
        let n = lib(|| l.as_str());
        if n != conv::location(&l) {
            fail!("the location {:?} has the name {:?}", l, n);
        }
        match lib(|| s::DirectiveLocation::from_str(n)) {
            Ok(x) if x == l => {}
            Ok(x) => fail!("{:?} converts to {:?}", n, x),
            Err(_) => fail!("{:?} does not convert", n),
        }
    }
    // the parser and the printer use the same names
    let lx = lex::lex(t);
    if lx.n() == 1 && lx.toks[0].k == K::Name && lx.text(0) == t {
        let doc = format!("directive @d on FIELD | {} type T", t);
        m.see("names parsed as a location");
        match (parse::<String>(Lang::Schema, &doc), known) {
            (Ok(Doc::S(d)), Some((n, _))) => {
                let s::Definition::DirectiveDefinition(x) = &d.definitions[0] else {
                    fail!("no directive definition");
                };
                let names: Vec<&str> = x.locations.iter().map(conv::location).collect();
                if names != ["FIELD", n] {
                    fail!("`on FIELD | {}` gives {:?}", n, names);
                }
                let text = lib(|| x.to_string());
                if gen::tokens(&text) != ["directive", "@", "d", "on", "FIELD", "|", n] {
                    fail!("`on FIELD | {}` is printed as {:?}", n, text);
                }
            }
            (Err(_), None) => {}
            (Ok(_), _) => fail!("`directive @d on FIELD | {}` is accepted", short(t)),
            (Err(e), Some(_)) => fail!("`directive @d on FIELD | {}`: {}", t, e),
        }
    }
    Ok(())
}
