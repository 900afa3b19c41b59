//! Which cases each property is tried on: systematic ones first, then random
//! ones.
use crate::checks::Case;
use crate::dict::Dict;
use crate::gen;
use crate::history::SEPARATOR;
use crate::refparse::{Lang, LOCATIONS};
use crate::rng::{hash, mix, Rng};
use crate::sys;
use Lang::{Query as Q, Schema as S};

pub fn lang_of(prop: &str) -> Option<Lang> {
    match prop {
        "L01" | "A01" | "F01" | "C01" => Some(Q),
        "L02" | "A02" | "F02" => Some(S),
        _ => None,
    }
}

fn literal_texts(d: &Dict, lang: Lang, deep: bool, all_places: bool, f: &mut dyn FnMut(Lang, String)) {
    let tpl: &[&str] = if lang == Q { &sys::LIT_Q } else { &sys::LIT_S };
    let mut k = 0usize;
    sys::literals(d, deep, &mut |l| {
        k += 1;
        if all_places && k % 5 == 0 {
            for t in tpl {
                f(lang, sys::put(t, &l));
            }
        } else {
            f(lang, sys::put(tpl[k % tpl.len()], &l));
        }
        if lang == S && l.starts_with('"') {
            if all_places && k % 16 == 0 {
                for t in sys::DOC_S {
                    f(lang, sys::put(t, &l));
                }
            } else {
                f(lang, sys::put(sys::DOC_S[k % sys::DOC_S.len()], &l));
            }
        }
    });
}

/// texts with two features each, as literals of both forms; `one` in so many
fn feature_texts(lang: Lang, one: usize, f: &mut dyn FnMut(Lang, String)) {
    let tpl: &[&str] = if lang == Q { &sys::LIT_Q } else { &sys::LIT_S };
    let mut k = 0usize;
    sys::pairs_of_features(&mut |v| {
        k += 1;
        if k % one != 0 {
            return;
        }
        let mut r = Rng::new(k as u64);
        let mut put = |l: &str| {
            if lang == S {
                f(lang, sys::put(sys::DOC_S[k % sys::DOC_S.len()], l));
                if k % 4 != 0 {
                    return;
                }
            }
            f(lang, sys::put(tpl[k % tpl.len()], l));
        };
        put(&gen::escaped(&mut r, v));
        if k % 3 == 0 {
            put(&gen::block_of(&mut r, v));
        }
    });
}

/// few and short ones, for interpreters
pub fn tiny(emit: &mut dyn FnMut(Case)) {
    let mut out = |lang: Lang, text: String| {
        let p = mix(hash(text.as_bytes()));
        emit(Case { lang, text, p })
    };
    for l in [
        "\"\"", "\"\\u00e9\\n\\\"\\\\\"", "\"é😀\"", "\"\"\"\"\"\"", "\"\"\"a\n  é\n 😀\\\"\"\"\n\"\"\"", "\"\"\" \n\r\n\t x \"\"\"", "\"\\q\"", "\"\\ud800\"",
        "\"a", "\"\"\"a", "-9223372036854775808", "9223372036854775808", "1e400", "-0.5e-3", "[[],{a:{}}]", "\"\\",
        "\"\"\"\u{a0}\n\u{3000}x\n\u{a0}\"\"\"", "\"\u{0}\u{feff}\"", "é", "\u{feff}1",
    ] {
        out(Q, sys::put(sys::LIT_Q[0], l));
        out(S, sys::put(sys::LIT_S[0], l));
        if l.starts_with('"') {
            out(S, sys::put(sys::DOC_S[7], l));
        }
    }
    for s in sys::SEEDS_Q {
        out(Q, s.into());
    }
    for s in sys::SEEDS_S {
        out(S, s.into());
    }
    for (_, l, m, f) in sys::shapes() {
        out(l, f(3));
        if m <= 60 {
            out(l, f(51));
        }
    }
}

pub fn systematic(prop: &str, d: &Dict, deep: bool, emit: &mut dyn FnMut(Case)) {
    let mut i = 0u64;
    let mut out = |lang: Lang, text: String| {
        i += 1;
        // the parameter comes from the text, so a case does not depend on
        // those before it
        let p = mix(hash(text.as_bytes()));
        emit(Case { lang, text, p })
    };
    let langs: &[Lang] = match lang_of(prop) {
        Some(Q) => &[Q],
        Some(S) => &[S],
        None => &[Q, S],
    };
    let max = |n: usize| if deep { 70_000 } else { n };
    for &l in langs {
        for s in if l == Q { &sys::SEEDS_Q[..] } else { &sys::SEEDS_S[..] } {
            if prop != "E01" && prop != "F03" && prop != "H01" {
                out(l, s.to_string());
            }
        }
    }
    match prop {
        "T01" | "N01" | "G01" | "I01" => sys::filled(d, None, 3, &mut out),
        "X01" | "X02" | "X03" | "X04" | "F04" | "M01" | "V01" => sys::filled(d, None, 1, &mut out),
        "L01" | "L02" | "A01" | "A02" | "F01" | "F02" | "C01" => sys::filled(d, Some(langs[0]), 1, &mut out),
        _ => {}
    }
    match prop {
        "T01" | "N01" => {
            sys::by_size(d, 70_000, None, &mut out);
            sys::huge(d, None, &mut out);
            for l in [Q, S] {
                sys::edits(d, l, false, &mut |t| out(l, t));
                sys::char_contexts(d, l, false, &mut |t| out(l, t));
            }
            sys::literals(d, false, &mut |l| out(Q, format!("{{a(b:{} )}}", l)));
        }
        "L01" | "L02" => {
            let l = langs[0];
            sys::by_size(d, 70_000, Some(l), &mut out);
            sys::huge(d, Some(l), &mut out);
            sys::short_sequences(l, deep, &mut |t| out(l, t));
            sys::edits(d, l, true, &mut |t| out(l, t));
            sys::char_contexts(d, l, true, &mut |t| out(l, t));
            literal_texts(d, l, deep, false, &mut out);
        }
        "A01" | "A02" => {
            let l = langs[0];
            sys::by_size(d, 70_000, Some(l), &mut out);
            sys::huge(d, Some(l), &mut out);
            sys::edits(d, l, true, &mut |t| out(l, t));
            sys::short_sequences(l, deep, &mut |t| out(l, t));
            sys::char_contexts(d, l, false, &mut |t| out(l, t));
            literal_texts(d, l, false, false, &mut out);
        }
        "V01" => {
            for l in [Q, S] {
                literal_texts(d, l, deep, true, &mut out);
                feature_texts(l, 1, &mut out);
            }
            for (n, l, m, f) in sys::shapes() {
                if ["string", "block", "int", "float", "frac", "expo", "desc", "default", "bad-n", "list", "object"]
                    .iter()
                    .any(|x| n.contains(x))
                {
                    for k in sys::sizes(d, m.min(70_000)) {
                        out(l, f(k));
                    }
                }
            }
        }
        "X01" | "X02" | "X03" => {
            sys::by_size(d, 70_000, None, &mut out);
            sys::huge(d, None, &mut out);
            for l in [Q, S] {
                sys::edits(d, l, true, &mut |t| out(l, t));
                sys::char_contexts(d, l, deep, &mut |t| out(l, t));
                if prop != "X01" {
                    sys::short_sequences(l, deep, &mut |t| out(l, t));
                }
            }
            // every ignored piece before every token
            for l in [Q, S] {
                for s in if l == Q { &sys::SEEDS_Q[..] } else { &sys::SEEDS_S[..] } {
                    let t = gen::tokens(s);
                    for ig in ["\t", "\u{feff}", "\r\n", "\n", ",", "#é\t\n", "#x\r\n", " ", "\t\u{feff}\r\n \t", "\n\n", "#\n", "  # \u{feff} \r\n\t"] {
                        for at in 0..=t.len() {
                            let mut v = String::new();
                            for (i, x) in t.iter().enumerate() {
                                if i == at {
                                    v += ig;
                                } else if i > 0 && gen::needs_sep(&t[i - 1], x) {
                                    v.push(' ');
                                }
                                v += x;
                            }
                            if at == t.len() {
                                v += ig;
                            }
                            if prop != "X01" {
                                v += " ]";
                            }
                            out(l, v);
                        }
                    }
                }
            }
        }
        "X04" => {
            sys::by_size(d, 70_000, None, &mut out);
            sys::huge(d, None, &mut out);
            for l in [Q, S] {
                sys::edits(d, l, true, &mut |t| out(l, t));
                sys::char_contexts(d, l, deep, &mut |t| out(l, t));
            }
            literal_texts(d, Q, deep, false, &mut out);
            literal_texts(d, S, deep, true, &mut out);
            for k in ["scalar", "type", "interface", "union", "enum", "input"] {
                for t in ["", " ", " scalar B", "\n\"d\" type B", " %", " extend", "#", " zz", " extend scalar"] {
                    out(S, format!("extend {} {}{}", k, "A", t));
                    out(S, format!("scalar S extend\n{} {}{}", k, "A", t));
                }
            }
            // names of every size
            for n in sys::sizes(d, 300) {
                for k in ["scalar", "type", "interface", "union", "enum", "input"] {
                    let x = "b".repeat(n);
                    out(S, format!("extend {} A{}", k, x));
                    out(S, format!("scalar T extend {} A{} scalar B{}", k, x, x));
                    out(S, format!("schema{{foo{}:A query:B{} query:C{}}}", x, x, x));
                }
            }
            // documents of the other language
            for s in sys::SEEDS_S {
                out(Q, s.to_string());
                out(Q, format!("{{a}} {}", s));
                out(Q, format!("{} ?", s));
                out(Q, format!("{} 1x", s));
            }
            for s in sys::SEEDS_Q {
                out(S, s.to_string());
                out(S, format!("scalar A {}", s));
                out(S, format!("{} ?", s));
            }
            // every way to fill a schema block with up to four
            let ops = ["query", "mutation", "subscription", "foo", "Query"];
            for n in 0..5u32 {
                for k in 0..5usize.pow(n) {
                    let mut s = String::from("schema{");
                    let mut k = k;
                    for _ in 0..n {
                        s += ops[k % 5];
                        s += ":A ";
                        k /= 5;
                    }
                    out(S, s + "}");
                }
            }
        }
        "J01" => {
            // the same line ends in one part, others in the next
            for l in [Q, S] {
                for s in if l == Q { &sys::SEEDS_Q[..] } else { &sys::SEEDS_S[..] } {
                    let t = gen::tokens(s);
                    for a in ["\n", "\r\n", "\r", "\r\r\n", "\n\r", "\r\n\r"] {
                        for b in ["\n", "\r\n", "\r", "\r\r\n", "\n\r", "\r\n\r"] {
                            out(l, format!("{}{}{}", t.join(a), SEPARATOR, t.join(b)));
                        }
                    }
                }
            }
            for l in [Q, S] {
                let seeds = if l == Q { &sys::SEEDS_Q[..] } else { &sys::SEEDS_S[..] };
                // every seed before every seed
                for a in seeds {
                    for b in seeds {
                        out(l, format!("{}{}{}", a, SEPARATOR, b));
                    }
                }
                let mut k = 0;
                sys::edits(d, l, true, &mut |t| {
                    k += 1;
                    let s = seeds[k % seeds.len()];
                    out(l, if k % 2 == 0 { format!("{}{}{}", t, SEPARATOR, s) } else { format!("{}{}{}", s, SEPARATOR, t) });
                });
                feature_texts(l, 3, &mut |l, t| out(l, format!("{}{}{}", t, SEPARATOR, t)));
            }
            for (_, l, m, f) in sys::shapes() {
                for (a, b) in [(1, 40), (40, 1), (50, 50), (3, 300)] {
                    out(l, format!("{}{}{}", f(a.min(m)), SEPARATOR, f(b.min(m))));
                }
            }
        }
        "F01" | "F02" => {
            let l = langs[0];
            sys::by_size(d, 70_000, Some(l), &mut out);
            sys::huge(d, Some(l), &mut out);
            sys::edits(d, l, true, &mut |t| out(l, t));
            sys::short_sequences(l, false, &mut |t| out(l, t));
            literal_texts(d, l, deep, false, &mut out);
            feature_texts(l, 1, &mut out);
        }
        "F03" => {
            let mut k = 0u64;
            let mut each = |t: &str| {
                k += 1;
                let p = mix(k) | 1;
                for lang in [Q, S] {
                    emit(Case { lang, text: t.to_string(), p });
                }
            };
            for c in sys::chars(d, deep) {
                for f in ["@", "a@", "@a", "a\n@", "@\na", "a\n @\nb"] {
                    each(&f.replace('@', &c.to_string()));
                }
            }
            sys::pairs_of_features(&mut |s| each(s));
            sys::filled_strings(d, &mut |s| each(s));
            let n = if deep { 6 } else { 4 };
            sys::strings_over(&[' ', 'a', '\n', '"', '\\', '\t', '\r'], n, &mut |s| each(s));
            sys::strings_over(&[' ', 'a', '\n'], n + 3, &mut |s| each(s));
            sys::strings_over(&["\"\"\"", "\\", "\n", "a", " ", "\u{a0}", "\u{1}"], n, &mut |s| each(s));
            for m in sys::sizes(d, 5_000) {
                for f in ["x", "\n", " ", "\"", "\\", "é", "a\n", "\t", "\r", "\u{7f}", "\n a"] {
                    each(&f.repeat(m));
                    each(&format!("a{}b", f.repeat(m)));
                }
                // the same in the first, the last and a middle line of several
                for f in ["x", " ", "\"\"\"", "\"\"\" ", "\"", "\\", "\\\"\"\"", "é", "\t", "😀", "\u{a0}"] {
                    let x = f.repeat(m);
                    each(&format!("a\n{}b", x));
                    each(&format!("a{}\nb", x));
                    each(&format!("a\n{}\nb", x));
                }
            }
        }
        "F04" => {
            sys::by_size(d, max(9_000), None, &mut out);
            for l in [Q, S] {
                sys::edits(d, l, true, &mut |t| out(l, t));
                literal_texts(d, l, false, false, &mut out);
                feature_texts(l, if deep { 1 } else { 3 }, &mut out);
            }
        }
        "I01" => {
            sys::by_size(d, 300, None, &mut out);
            let mut edit = |l: Lang| {
                let mut k = 0;
                sys::edits(d, l, false, &mut |t| {
                    k += 1;
                    if k % 3 == 0 {
                        out(l, t)
                    }
                });
            };
            edit(Q);
            edit(S);
            for l in [Q, S] {
                for s in if l == Q { &sys::SEEDS_Q[..] } else { &sys::SEEDS_S[..] } {
                    for p in 0..27 {
                        emit(Case { lang: l, text: s.to_string(), p });
                    }
                }
            }
        }
        "M01" => {
            sys::by_size(d, 70_000, None, &mut out);
            sys::huge(d, None, &mut out);
            for l in [Q, S] {
                sys::edits(d, l, true, &mut |t| out(l, t));
                sys::char_contexts(d, l, false, &mut |t| out(l, t));
                sys::short_sequences(l, false, &mut |t| out(l, t));
                literal_texts(d, l, false, false, &mut out);
            }
        }
        "C01" => {
            sys::by_size(d, max(3_000), Some(Q), &mut out);
            sys::edits(d, Q, true, &mut |t| out(Q, t));
            sys::short_sequences(Q, deep, &mut |t| out(Q, t));
            sys::char_contexts(d, Q, false, &mut |t| out(Q, t));
            for s in sys::SEEDS_Q {
                for tail in TAILS {
                    out(Q, format!("{}{}", s, tail));
                    out(Q, format!("{} {}", s, tail));
                }
            }
        }
        "D01" => {
            sys::by_size(d, 60, None, &mut out);
            for n in 40..56 {
                for k in 0..120u64 {
                    for l in [Q, S] {
                        let mut r = Rng::new(mix(k * 100 + n) ^ l as u64);
                        out(l, deep_text(&mut r, l, n as usize));
                    }
                }
                for b in [("(", ")"), ("[", "]"), ("{", "}")] {
                    out(Q, format!("{}{}", b.0.repeat(n as usize), b.1.repeat(n as usize)));
                }
            }
            // many in sequence
            for n in [1, 2, 10, 25, 49, 50, 51, 52, 100, 101, 127, 128, 255, 256, 257, 1000, 5000] {
                for m in [0usize, 1, 48, 49, 50, 51] {
                    out(Q, format!("{{{}{}z{}}}", "a{b}".repeat(n), "{c".repeat(0) + &"c{".repeat(m), "}".repeat(m)));
                    out(Q, format!("{}{{{}z{}}}", "{a}".repeat(n), "c{".repeat(m), "}".repeat(m)));
                    out(Q, format!("{{a(x:[{}{}{}])}}", "[] ".repeat(n), "[".repeat(m), "]".repeat(m)));
                    out(Q, format!("{{a(x:[{}{}1{}])}}", "{k:1}".repeat(n), "{k:".repeat(m), "}".repeat(m)));
                    out(Q, format!("{{{}b(x:{}{})}}", "a(x:1)".repeat(n), "[".repeat(m), "]".repeat(m)));
                    out(S, format!("{}input I{{f:T={}{}}}", "type T{a(b:[C]):[D]}".repeat(n), "[".repeat(m), "]".repeat(m)));
                    out(S, format!("type T{{{}g:{}T{}}}", "a(b:C):[D] ".repeat(n), "[".repeat(m), "]".repeat(m)));
                }
            }
        }
        "Q01" => {
            sys::by_size(d, max(2_100), None, &mut out);
            for l in [Q, S] {
                sys::edits(d, l, false, &mut |t| out(l, t));
                literal_texts(d, l, false, false, &mut out);
            }
            for l in [Q, S] {
                for s in if l == Q { &sys::SEEDS_Q[..] } else { &sys::SEEDS_S[..] } {
                    for p in 0..64 {
                        emit(Case { lang: l, text: s.to_string(), p: p * 4 + 1 });
                        emit(Case { lang: l, text: s.to_string(), p: p << 6 });
                    }
                }
            }
        }
        "G01" => {
            sys::by_size(d, max(2_100), None, &mut out);
            for l in [Q, S] {
                sys::edits(d, l, false, &mut |t| out(l, t));
                literal_texts(d, l, false, false, &mut out);
            }
        }
        "S01" => {
            sys::by_size(d, max(2_100), None, &mut out);
            for l in [Q, S] {
                sys::edits(d, l, false, &mut |t| out(l, t));
                sys::char_contexts(d, l, false, &mut |t| out(l, t));
            }
            literal_texts(d, Q, false, false, &mut out);
        }
        "H01" => {
            // every seed before and after every other, in groups
            let all: Vec<(Lang, &str)> = sys::SEEDS_Q
                .iter()
                .map(|s| (Q, *s))
                .chain(sys::SEEDS_S.iter().map(|s| (S, *s)))
                .chain(BROKEN.iter().map(|s| (Q, *s)))
                .collect();
            for (i, (l, a)) in all.iter().enumerate() {
                for k in 1..=3usize {
                    let mut t = a.to_string();
                    for j in 0..4 {
                        t.push(SEPARATOR);
                        t += all[(i * 7 + k * 13 + j * 17) % all.len()].1;
                    }
                    out(*l, t);
                }
            }
            for (_, l, m, f) in sys::shapes() {
                let mut t = String::new();
                for (i, n) in [40, 3, 52, 0, 130].iter().enumerate() {
                    if i > 0 {
                        t.push(SEPARATOR);
                    }
                    t += &f(*n.min(&m));
                }
                out(l, t);
            }
        }
        "E01" => {
            let mut each = |s: &str| out(S, s.to_string());
            let mut names: Vec<String> = LOCATIONS.iter().map(|l| l.0.to_string()).collect();
            names.extend(
                [
                    "", "QUERIES", "FIELDS", "VARIABLE", "INPUT", "OBJECT_TYPE", "TYPE", "DIRECTIVE", "ARGUMENT",
                    "Query", "field", "FragmentSpread", "VARIABLE_DEFINITIONS", "DIRECTIVE_DEFINITION",
                    "ENUM_DEFINITION", "FRAGMENT", "INLINE", "SCALAR_DEFINITION", "INPUT_FIELD", "OPERATION", "ENUM VALUE",
                ]
                .iter()
                .map(|s| s.to_string()),
            );
            names.extend(d.words.iter().cloned());
            names.extend(d.names.iter().cloned());
            for n in &names {
                each(n);
                each(&n.to_lowercase());
                each(&n.to_uppercase());
                each(&format!("{}{}", n, n));
                for l in LOCATIONS.iter() {
                    each(&format!("{}_{}", n, l.0));
                    each(&format!("{}{}", n, l.0));
                }
            }
            for l in LOCATIONS.iter() {
                let c: Vec<char> = l.0.chars().collect();
                for i in 0..=c.len() {
                    let pre: String = c[..i].iter().collect();
                    let post: String = c[i..].iter().collect();
                    each(&pre);
                    each(&post);
                    let alpha = ('A'..='Z').chain('a'..='z').chain('0'..='9').chain("_ \n\0-é".chars());
                    for x in alpha {
                        each(&format!("{}{}{}", pre, x, post));
                        if i < c.len() {
                            let rest: String = c[i + 1..].iter().collect();
                            each(&format!("{}{}{}", pre, x, rest));
                        }
                    }
                    if i < c.len() {
                        let rest: String = c[i + 1..].iter().collect();
                        each(&format!("{}{}", pre, rest));
                    }
                    if i + 1 < c.len() {
                        let mut v = c.clone();
                        v.swap(i, i + 1);
                        each(&v.iter().collect::<String>());
                    }
                }
            }
        }
        _ => {}
    }
}

const BROKEN: [&str; 14] = [
    "", "{", "{a", "{a(", "{a(b:[[[[[", "\"", "\"\"\"a", "{a(b:\"\\q\")}", "type T{a(b:{", "}}}}}}", "{a}%", "#",
    "schema{query:a query:b}", "{a(b:99999999999999999999)}",
];

const TAILS: [&str; 30] = [
    "", " ", ",", "\n", "\u{feff}", "# c", "#c\n", "}", "{", "{a", "{}", "%", "\"", "\"\"\"", "..", "1", "01", "x", "on",
    "query", "fragment", "fragment on", "query Q($", "\u{0}", "é", "#c\r\n %", ",,,\"\\q\"", "]]]]", "type T{a:b}",
    "\"\"\"x",
];

/// a document whose brackets nest about n deep
pub fn deep_text(r: &mut Rng, l: Lang, n: usize) -> String {
    let mut s = String::new();
    let mut n = n as isize;
    fn value(r: &mut Rng, n: &mut isize, s: &mut String) {
        if *n <= 0 {
            s.push_str(r.pick(&["1", "E", "\"}\"", "null", "1.5 ", "$v", "\"\"\"[[[\"\"\""]));
            return;
        }
        *n -= 1;
        let side = |r: &mut Rng, n: isize, s: &mut String, key: bool| {
            if r.pct(10) && n > 3 {
                for _ in 0..r.range(1, 6) {
                    if key {
                        s.push_str("z:")
                    }
                    s.push_str(r.pick(&["[] ", "{a:1}", "[[]{a:[]}]", "{} ", "[1 2]"]));
                }
            }
        };
        if r.pct(50) {
            s.push('[');
            side(r, *n, s, false);
            if !(*n == 0 && r.pct(50)) {
                value(r, n, s);
            }
            side(r, 9 - *n % 9, s, false);
            s.push(']');
        } else {
            s.push('{');
            side(r, *n, s, true);
            if !(*n == 0 && r.pct(30)) {
                s.push_str("k:");
                value(r, n, s);
            }
            s.push('}');
        }
    }
    fn ty(r: &mut Rng, n: &mut isize, s: &mut String) {
        if *n <= 0 {
            s.push('T');
        } else {
            *n -= 1;
            s.push('[');
            ty(r, n, s);
            s.push(']');
        }
        if r.pct(30) {
            s.push('!');
        }
    }
    fn set(r: &mut Rng, n: &mut isize, s: &mut String) {
        *n -= 1;
        s.push('{');
        if r.pct(8) && *n > 2 {
            for _ in 0..r.range(1, 70) {
                s.push_str(r.pick(&["b{c}", "b(x:1)", "...{d}", "b(x:[1])"]));
            }
        }
        if *n <= 0 {
            s.push('a');
        } else {
            match r.below(12) {
                0..=4 => {
                    s.push_str(r.pick(&["a", "a@d", "q:a", "a(x:1)"]));
                    set(r, n, s);
                }
                5..=6 => {
                    s.push_str("...");
                    set(r, n, s);
                }
                7 => {
                    s.push_str("...on T");
                    set(r, n, s);
                }
                8 => {
                    s.push_str("...F@d(x:");
                    *n -= 1;
                    value(r, n, s);
                    s.push(')');
                }
                9 => {
                    s.push_str("a@d(x:");
                    *n -= 1;
                    value(r, n, s);
                    s.push(')');
                }
                _ => {
                    s.push_str("a(x:");
                    *n -= 1;
                    value(r, n, s);
                    s.push_str(")");
                    if r.pct(20) {
                        s.push_str("{b(x:1)}");
                    }
                }
            }
        }
        if r.pct(10) {
            s.push_str(r.pick(&[" z", " z{y}", " z(x:[])", "...{y}"]));
        }
        s.push('}');
    }
    match l {
        Q => match r.below(6) {
            0 => {
                s.push_str("query($v:");
                n -= 1;
                ty(r, &mut n, &mut s);
                s.push_str("){a}");
            }
            1 => {
                s.push_str("query($v:T=");
                n -= 1;
                value(r, &mut n, &mut s);
                s.push_str("){a}");
            }
            2 => {
                s.push_str("mutation M@d(x:");
                n -= 1;
                value(r, &mut n, &mut s);
                s.push_str("){a}");
            }
            3 => {
                s.push_str("fragment F on T");
                set(r, &mut n, &mut s);
            }
            _ => set(r, &mut n, &mut s),
        },
        S => match r.below(7) {
            0 => {
                s.push_str("type T{f:");
                n -= 1;
                ty(r, &mut n, &mut s);
                s.push('}');
            }
            1 => {
                s.push_str("interface T{f(a:T b:");
                n -= 2;
                ty(r, &mut n, &mut s);
                s.push_str("):T}");
            }
            2 => {
                s.push_str("type T{f(a:T=");
                n -= 2;
                value(r, &mut n, &mut s);
                s.push_str("):T}");
            }
            3 => {
                s.push_str("input T{f:T=");
                n -= 1;
                value(r, &mut n, &mut s);
                s.push('}');
            }
            4 => {
                s.push_str("enum T{A@d(x:");
                n -= 2;
                value(r, &mut n, &mut s);
                s.push_str(")B}");
            }
            5 => {
                s.push_str("directive@d(a:T=");
                n -= 1;
                value(r, &mut n, &mut s);
                s.push_str(")on FIELD");
            }
            _ => {
                s.push_str("schema@d(x:");
                n -= 1;
                value(r, &mut n, &mut s);
                s.push_str("){query:Q}");
            }
        },
    }
    s
}

fn garbage(r: &mut Rng, d: &Dict) -> String {
    let mut s = String::new();
    let n = match r.below(10) {
        0 => r.range(100, 1000),
        1..=3 => r.range(20, 100),
        _ => r.range(0, 20),
    };
    match r.below(4) {
        0 => (0..n).for_each(|_| s.push(gen::any_char(r, d))),
        1 => (0..n).for_each(|_| {
            s.push_str(r.pick(&["\"", "\\", "\"\"\"", "\n", " ", "a", "\r", "\\u", "d83d", "#", "{", "}", "é"]))
        }),
        2 => (0..n).for_each(|_| {
            s.push_str(r.pick(&["{", "}", "[", "]", "(", ")", ":", "a", "...", "@", "$", "1", "=", "|", "!", "&", " "]))
        }),
        _ => (0..n).for_each(|_| s.push_str(r.pick(&["-", "0", "1", "9", ".", "e", "E", "+", " ", "x", "\"", ","]))),
    }
    s
}

/// a literal that is none, or cannot be decoded
fn faulty(r: &mut Rng, d: &Dict) -> String {
    let digits = |r: &mut Rng, n: usize| (0..r.range(0, n)).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    match r.below(8) {
        0 => format!("{}{}{}", r.pick(&["0", "-0", "-", "00", "1", "-9"]), digits(r, 4), r.pick(&["", "x", "_", "-", "+1", "é", ";", "'"])),
        1 => {
            let mut s = format!("{}{}", r.pick(&["", "-", "0", "-0"]), digits(r, 3));
            for _ in 0..r.range(1, 4) {
                s.push_str(r.pick(&[".", "e", "E", "-", "+", "0", "1", "x", "..", "é"]));
                s += &digits(r, 3);
            }
            if s.starts_with(|c: char| c.is_ascii_digit() || c == '-') { s } else { format!("1{}", s) }
        }
        2 => format!("{}{}", r.pick(&["", "-"]), (0..r.range(18, 24)).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>().trim_start_matches('0')),
        3 => {
            let c = gen::any_char(r, d);
            format!("\"{}\\{}{}\"", gen::prose(r, d).replace(['"', '\\', '\n', '\r'], " "), c, digits(r, 5))
        }
        4 => {
            let mut s = String::from("\"");
            for _ in 0..r.range(0, 3) {
                s += r.pick(&["\\u00e9", "\\n", "\\\\", "\\\"", "x", "é", "\\/"]);
            }
            s += "\\u";
            for _ in 0..r.range(0, 6) {
                s.push(if r.pct(80) { *r.pick(&['0', '1', '9', 'a', 'F', 'd', 'D', '8']) } else { gen::any_char(r, d) });
            }
            s.push('"');
            s
        }
        5 => format!("{}{}", r.pick(&["\"", "\"\"\""]), gen::prose(r, d)),
        6 => r.pick(&[".", "..", "....", ".a", ".. ."]).to_string(),
        _ => gen::any_char(r, d).to_string(),
    }
}

fn schema_block(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick(&["schema{", "schema @a(b:{c:1}){", "\"d\" scalar A schema @a(query:query) @b {"]));
    for _ in 0..r.range(0, 9) {
        s.push_str(r.pick(&["query", "mutation", "subscription", "query", "foo", "Query", "schema", "subscriptions"]));
        s.push_str(r.pick(&[":A ", ": B\n", ":query,"]));
    }
    s.push('}');
    s
}

pub fn random(prop: &str, r: &mut Rng, d: &Dict) -> Case {
    let lang = lang_of(prop).unwrap_or(*r.pick(&[Q, S]));
    let text = match prop {
        "T01" | "N01" => match r.below(10) {
            0 | 1 => garbage(r, d),
            2 => {
                let n = r.range(30, 60);
                deep_text(r, lang, n)
            }
            _ => gen::text(r, d, lang, true, 50, 20),
        },
        "L01" | "L02" => match r.below(20) {
            0 => garbage(r, d),
            1 => {
                let n = r.range(40, 54);
                deep_text(r, lang, n)
            }
            _ => gen::text(r, d, lang, true, 60, 5),
        },
        "A01" | "A02" => gen::text(r, d, lang, true, 8, 0),
        "V01" => gen::text(r, d, lang, true, 15, 15),
        "X01" => gen::text(r, d, lang, false, 5, 0),
        "X02" | "X03" => gen::text(r, d, lang, false, 92, 15),
        "X04" => match r.below(6) {
            0 => {
                let l = faulty(r, d);
                let t = if lang == Q { *r.pick(&sys::LIT_Q) } else { *r.pick(&sys::LIT_S) };
                sys::put(t, &l)
            }
            1 if r.pct(30) => gen::text(r, d, if lang == Q { S } else { Q }, false, 30, 30),
            1 if r.pct(30) => {
                let k = *r.pick(&["scalar", "type", "interface", "union", "enum", "input"]);
                let n = gen::name(r, d);
                format!("{}extend {} {}", r.pick(&["", "scalar A ", "\"d\"type T{a:b}\n", "extend type A @d "]), k, n.repeat(r.range(1, 9)))
            }
            1 => schema_block(r),
            2 => {
                // a faulty piece between two tokens
                let t = gen::tokens(&gen::text(r, d, lang, true, 0, 0));
                let at = r.below(t.len() + 1);
                let mut s = t[..at].join(" ");
                s.push(' ');
                s += &faulty(r, d);
                s.push(' ');
                s += &t[at..].join(" ");
                s
            }
            _ => gen::text(r, d, lang, false, 92, 60),
        },
        "J01" => {
            let n = r.range(2, 5);
            let broken = if r.pct(35) { r.below(n) } else { n };
            let lone = r.pct(15);
            (0..n)
                .map(|i| {
                    let t = match r.below(8) {
                        0 => r.pick(if lang == Q { &sys::SEEDS_Q[..] } else { &sys::SEEDS_S[..] }).to_string(),
                        1 => {
                            let n = r.range(1, 51);
                            deep_text(r, lang, n)
                        }
                        _ => gen::text(r, d, lang, lone, if i == broken { 100 } else { 0 }, 8),
                    };
                    t.replace(SEPARATOR, " ")
                })
                .collect::<Vec<_>>()
                .join(&SEPARATOR.to_string())
        }
        "F01" | "F02" => gen::text(r, d, lang, true, 5, 0),
        "F03" => {
            let mut t = String::new();
            for _ in 0..r.range(1, 12) {
                match r.below(6) {
                    0 => t += &garbage(r, d),
                    1 | 2 => {
                        t.push('\u{1e}');
                        t += &gen::prose(r, d);
                        t.push('\u{1e}');
                    }
                    _ => (0..r.range(1, 40)).for_each(|_| t.push(gen::any_char(r, d))),
                }
            }
            let p = r.next();
            let whole = r.pct(20);
            if whole && r.pct(70) {
                t = gen::prose(r, d);
            }
            return Case {
                lang,
                text: t,
                p: if whole { p | 1 } else { p & !1 },
            };
        }
        "F04" => gen::text(r, d, lang, true, 5, 0),
        "I01" => gen::text(r, d, lang, true, 20, 3),
        "M01" => match r.below(12) {
            0 => garbage(r, d),
            _ => gen::text(r, d, lang, true, 20, 10),
        },
        "C01" => {
            let a = gen::text(r, d, Q, true, 25, 5);
            match r.below(5) {
                0 => a + r.pick(&TAILS),
                1 => a + " " + r.pick(&TAILS),
                2 => a + &garbage(r, d),
                _ => a,
            }
        }
        "D01" => match r.below(10) {
            0 => {
                let mut t = String::new();
                for _ in 0..r.range(2, 200) {
                    t.push_str(r.pick(&["{", "}", "[", "]", "(", ")"]));
                }
                t
            }
            1 => gen::text(r, d, lang, true, 40, 0),
            2 => {
                let n = r.range(45, 54);
                let t = deep_text(r, lang, n);
                gen::mutate_chars(r, d, &t)
            }
            3 => {
                let mut t = String::new();
                for _ in 0..r.range(2, 12) {
                    let n = r.range(1, 51);
                    t += &deep_text(r, lang, n);
                    t.push('\n');
                }
                t
            }
            _ => {
                let n = r.range(44, 54);
                let t = deep_text(r, lang, n);
                if r.pct(30) {
                    let k = gen::tokens(&t);
                    gen::render(r, d, &k, gen::Sep::Lines)
                } else {
                    t
                }
            }
        },
        "G01" => gen::text(r, d, lang, true, 20, 5),
        "Q01" => gen::text(r, d, lang, true, 5, 0),
        "S01" => match r.below(12) {
            0 => garbage(r, d),
            _ => gen::text(r, d, lang, true, 15, 5),
        },
        "H01" => {
            let n = r.range(2, 6);
            let mut t = String::new();
            for i in 0..n {
                if i > 0 {
                    t.push(SEPARATOR);
                }
                let l = *r.pick(&[Q, S]);
                let x = match r.below(10) {
                    0 => garbage(r, d),
                    1 => {
                        let n = r.range(40, 55);
                        deep_text(r, l, n)
                    }
                    2 => r.pick(&BROKEN).to_string(),
                    3 => {
                        let sh = sys::shapes();
                        let s = r.pick(&sh);
                        let n = r.range(0, 300.min(s.2));
                        (s.3)(n)
                    }
                    _ => gen::text(r, d, l, true, 35, 8),
                };
                t += &x.replace(SEPARATOR, " ");
            }
            t
        }
        "E01" => {
            let mut c: Vec<char> = if r.pct(60) {
                r.pick(&LOCATIONS).0.chars().collect()
            } else {
                gen::name(r, d).chars().collect()
            };
            for _ in 0..r.small(4) {
                let i = r.below(c.len() + 1);
                let x = if r.pct(70) {
                    *r.pick(&['_', 'A', 'E', 'I', 'N', 'S', 'T', 'U', 'a', 'e', '0', ' '])
                } else {
                    gen::any_char(r, d)
                };
                match r.below(3) {
                    0 => c.insert(i, x),
                    1 if i < c.len() => c[i] = x,
                    2 if i < c.len() => {
                        c.remove(i);
                    }
                    _ => {}
                }
            }
            c.into_iter().collect()
        }
        _ => String::new(),
    };
    Case { lang, text, p: r.next() }
}
