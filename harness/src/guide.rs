//! Coverage-guided workload: texts that reach code, counts or comparisons of
//! the library not reached before are kept and varied further. The oracles are
//! those of the other workloads.
use crate::checks::Case;
use crate::cov::Map;
use crate::dict::Dict;
use crate::gen;
use crate::lex::{self, K};
use crate::refparse::Lang;
use crate::rng::{mix, Rng};

pub struct Entry {
    pub lang: Lang,
    pub text: String,
    pub p: u64,
    /// found new code, not only new counts or comparisons
    edges: bool,
    accepted: bool,
}

pub struct Guide {
    pub map: Map,
    pub corpus: Vec<Entry>,
    ops: u32,
    langs: Vec<Lang>,
    /// the property speaks of accepted texts only
    accept: bool,
    lone_cr: bool,
    pub runs: u64,
    pub first_edges: usize,
    pub first_cmps: usize,
}

const KEEP: usize = 6000;
const LONG: usize = 3000;

fn ops_of(prop: &str) -> u32 {
    use gqlinst::*;
    match prop {
        "L01" | "L02" | "A01" | "A02" | "V01" | "X01" | "X02" | "X03" | "X04" | "J01" => 0,
        "F01" | "F02" | "F04" => PRINT,
        "M01" => MINIFY,
        "C01" => CONSUME,
        "D01" => MINIFY | CONSUME,
        "Q01" => COMPARE,
        _ => MINIFY | CONSUME | PRINT | DETACH | COMPARE,
    }
}

/// only leads the search
fn accepts(c: &Case) -> bool {
    std::panic::catch_unwind(|| gqlinst::accepts(c.lang == Lang::Schema, &c.text)).unwrap_or(false)
}

impl Guide {
    pub fn new(prop: &str) -> Guide {
        Guide {
            map: Map::new(),
            corpus: Vec::new(),
            ops: ops_of(prop),
            langs: match crate::workload::lang_of(prop) {
                Some(l) => vec![l],
                None => vec![Lang::Query, Lang::Schema],
            },
            accept: matches!(prop, "A01" | "A02" | "V01" | "X01" | "F01" | "F02" | "F04" | "Q01"),
            lone_cr: !matches!(prop, "X01" | "X02"),
            runs: 0,
            first_edges: 0,
            first_cmps: 0,
        }
    }

    /// Runs the library on it and keeps it if that shows something new
    pub fn offer(&mut self, c: &Case) -> bool {
        self.runs += 1;
        let width = [2u32, 0, 1, 3, 4, 8, 7, 17][(c.p >> 8) as usize % 8];
        let new = self.map.signal(c.lang == Lang::Schema, &c.text, self.ops, width, c.p >> 16 & 1 == 1);
        let fresh = new != Default::default();
        if fresh && (self.corpus.len() < KEEP || new.edges > 0) {
            self.corpus.push(Entry {
                lang: c.lang,
                text: c.text.clone(),
                p: c.p,
                edges: new.edges > 0 || new.ends > 0,
                accepted: accepts(c),
            });
        }
        fresh
    }

    pub fn seeded(&mut self) {
        self.first_edges = self.map.edges_seen;
        self.first_cmps = self.map.cmps_seen;
    }

    fn parent(&self, r: &mut Rng, lang: Option<Lang>) -> usize {
        let n = self.corpus.len();
        let mut best = r.below(n);
        for _ in 0..10 {
            // the newest half the time
            let i = if r.pct(50) { n - 1 - r.below(n.min(64)) } else { r.below(n) };
            let e = &self.corpus[i];
            best = i;
            if lang.map_or(false, |l| l != e.lang) {
                continue;
            }
            if self.accept && !e.accepted && r.pct(85) {
                continue;
            }
            if !e.edges && r.pct(30) {
                continue;
            }
            // short ones vary faster
            if e.text.len() > 300 && r.pct(80) || e.text.len() > LONG && r.pct(90) {
                continue;
            }
            break;
        }
        best
    }

    pub fn next(&self, r: &mut Rng, d: &Dict) -> Case {
        let mut c = self.varied(r, d);
        if self.accept && r.pct(85) {
            for _ in 0..6 {
                if accepts(&c) {
                    break;
                }
                c = self.varied(r, d);
            }
        }
        c
    }

    fn varied(&self, r: &mut Rng, d: &Dict) -> Case {
        if self.corpus.is_empty() {
            let lang = *r.pick(&self.langs);
            return Case { lang, text: gen::text(r, d, lang, self.lone_cr, 20, 0), p: r.next() };
        }
        let e = &self.corpus[self.parent(r, None)];
        let mut t = e.text.clone();
        let steps = 1 + r.small(if self.accept { 3 } else { 6 });
        for _ in 0..steps {
            let u = self.step(r, d, e.lang, &t);
            let limit = match r.below(1000) {
                0 => 20 * LONG,
                1..=50 => LONG,
                _ => 400,
            }
            .max(t.len());
            if u.len() <= limit {
                t = u;
            }
        }
        Case {
            lang: e.lang,
            text: t,
            p: if r.pct(50) { e.p } else { r.next() },
        }
    }

    fn step(&self, r: &mut Rng, d: &Dict, lang: Lang, t: &str) -> String {
        let l = lex::lex(t);
        let n = l.n();
        let bound = |r: &mut Rng| -> usize {
            // the start of a token, or the end of the text
            let i = r.below(n + 1);
            if i < n { l.toks[i].start } else { t.len() }
        };
        let literal = |r: &mut Rng| -> String {
            match r.below(6) {
                0 => gen::int(r, 10),
                1 => gen::float(r),
                2 | 3 => gen::quoted(r, d, 10),
                _ => gen::block(r, d),
            }
        };
        match r.below(16) {
            // tokens
            0 | 1 => {
                let mut k = gen::tokens(t);
                gen::mutate_tokens(r, d, &mut k);
                let s = gen::any_sep(r, self.lone_cr);
                gen::render(r, d, &k, s)
            }
            2 | 3 => gen::mutate_chars(r, d, t),
            // the same tokens, other ignored text
            4 => {
                let k = gen::tokens(t);
                let s = gen::any_sep(r, self.lone_cr);
                gen::render(r, d, &k, s)
            }
            // one piece of ignored text
            5 => {
                let at = bound(r);
                let mut x = String::new();
                gen::ignorable(r, d, &mut x, self.lone_cr, false);
                format!("{}{}{}", &t[..at], x, &t[at..])
            }
            // the start of one, the end of another
            6 | 7 => {
                let o = &self.corpus[self.parent(r, Some(lang))].text;
                let lo = lex::lex(o);
                let j = r.below(lo.n() + 1);
                let at = bound(r);
                let from = if j < lo.n() { lo.toks[j].start } else { o.len() };
                if r.pct(50) {
                    format!("{} {}", &t[..at], &o[from..])
                } else {
                    // a piece of it inside
                    let j2 = j + r.below(lo.n() + 1 - j);
                    let to = if j2 < lo.n() { lo.toks[j2].start } else { o.len() };
                    format!("{} {} {}", &t[..at], &o[from..to], &t[at..])
                }
            }
            // a run of tokens, several times
            8..=10 if n > 0 => {
                let (mut i, mut j) = (r.below(n), 0);
                if r.pct(40) {
                    // what a bracket encloses, or a definition
                    let mut depth = 0;
                    let open = |k: usize| matches!(l.text(k), "{" | "(" | "[");
                    let close = |k: usize| matches!(l.text(k), "}" | ")" | "]");
                    while i < n && !open(i) {
                        i += 1;
                    }
                    j = i;
                    while j < n {
                        if open(j) {
                            depth += 1;
                        }
                        if close(j) {
                            depth -= 1;
                            if depth <= 0 {
                                break;
                            }
                        }
                        j += 1;
                    }
                    if r.pct(50) && j > i {
                        i += 1;
                    } else {
                        j += 1;
                    }
                    i = i.min(n - 1);
                }
                if j <= i {
                    j = i + 1 + r.small(6);
                }
                let j = j.min(n).max(i + 1);
                let (a, b) = (l.toks[i].start, l.toks[j - 1].end);
                let b = if j < n && r.pct(50) { l.toks[j].start } else { b };
                let piece = &t[a..b];
                let times = match r.below(8) {
                    0 => 0,
                    1..=3 => 2,
                    4 => r.range(3, 9),
                    5 if !d.sizes.is_empty() => *r.pick(&d.sizes) + r.below(3),
                    5 | 6 => *r.pick(&[10, 16, 17, 31, 32, 33, 49, 50, 51, 64, 65, 100, 127, 128, 129]),
                    _ => *r.pick(&[255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]),
                };
                if times * (piece.len() + 1) > 25 * LONG {
                    return t.to_string();
                }
                let mut o = t[..a].to_string();
                for _ in 0..times {
                    o.push_str(piece);
                    if piece.ends_with(|c: char| c == '_' || c.is_ascii_alphanumeric()) {
                        o.push(' ');
                    }
                }
                o.push_str(&t[b..]);
                o
            }
            // another literal or name
            11 | 12 if n > 0 => {
                let i = r.below(n);
                let k = (0..n).map(|k| (i + k) % n).find(|k| !matches!(l.toks[*k].k, K::Punct)).unwrap_or(i);
                let tok = l.toks[k];
                let x = match tok.k {
                    K::Name if r.pct(75) => gen::name(r, d),
                    K::Punct => l.text(k).to_string(),
                    _ => literal(r),
                };
                format!("{} {} {}", &t[..tok.start], x, &t[tok.end..])
            }
            // inside a literal
            13 | 14 => {
                let strings: Vec<usize> = (0..n).filter(|k| matches!(l.toks[*k].k, K::Str | K::Block)).collect();
                if strings.is_empty() {
                    return gen::mutate_chars(r, d, t);
                }
                let tok = l.toks[*r.pick(&strings)];
                let q = if tok.k == K::Str { 1 } else { 3 };
                let body = &t[tok.start + q..tok.end - q];
                let cut = |r: &mut Rng| {
                    let mut i = r.below(body.len() + 1);
                    while !body.is_char_boundary(i) {
                        i -= 1;
                    }
                    i
                };
                let (mut i, mut j) = (cut(r), cut(r));
                if i > j {
                    std::mem::swap(&mut i, &mut j);
                }
                let b = match r.below(4) {
                    0 => format!("{}{}", &body[..i], &body[j..]),
                    1 => {
                        let k = *r.pick(&[2, 2, 3, 8, 33, 64, 129]);
                        format!("{}{}{}", &body[..i], body[i..j].repeat(if j - i > 40 { 2 } else { k }), &body[j..])
                    }
                    _ => {
                        let mut x = String::new();
                        for _ in 0..r.range(1, 3) {
                            x.push_str(match r.below(3) {
                                0 => *r.pick(&["\n", "\n  ", "\n\t", "\r\n", "\n\n", " ", "\t", "  \n"]),
                                1 => *r.pick(&["\\n", "\\u0000", "\\uD83D", "\\u00e9", "\\\"", "\\\\", "\\/", "\\\"\"\"", "\\q", "\\u12"]),
                                _ => *r.pick(&["\"", "\"\"", "\\", "é", "😀", "\u{feff}", "a", "0", "#", "{", "}", "\u{7f}", "\u{85}", "\u{2028}"]),
                            });
                        }
                        format!("{}{}{}", &body[..i], x, &body[if r.pct(50) { i } else { j }..])
                    }
                };
                let quote = &t[tok.start..tok.start + q];
                format!("{}{}{}{}{}", &t[..tok.start], quote, b, quote, &t[tok.end..])
            }
            // a string of one kind becomes the other, or moves to a place for literals
            _ => {
                let k = (0..n).find(|k| l.toks[*k].k == K::Str);
                match k {
                    Some(k) if r.pct(50) => {
                        let tok = l.toks[k];
                        format!("{}\"\"{}\"\"{}", &t[..tok.start], l.text(k), &t[tok.end..])
                    }
                    _ => {
                        let at = bound(r);
                        let x = literal(r);
                        format!("{} {} {}", &t[..at], x, &t[at..])
                    }
                }
            }
        }
    }
}

/// the random number generator of the j-th guided case
pub fn rng(seed: u64, j: u64) -> Rng {
    Rng::new(mix(mix(seed ^ 0x6071_de) ^ j))
}
