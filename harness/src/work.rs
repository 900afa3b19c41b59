//! W01: the cost of every operation on texts that repeat something.
use crate::alloc;
use crate::dict::Dict;
use crate::gen;
use crate::lib_api::*;
use crate::refparse::Lang;
use crate::rng::{mix, Rng};
use crate::sys;
use crate::workload::deep_text;

pub const OPS: [&str; 9] = [
    "none", "parse_query", "parse_schema", "minify_query", "consume_definition", "print", "print-multiline", "clone-drop",
    "consume-all",
];

/// stands for the number of the repetition
const NUMBER: char = '\u{1f}';

/// what repeats: a named shape, or prefix, piece and suffix
#[derive(Clone, Debug)]
pub enum What {
    Shape(usize),
    Pump { lang: Lang, pre: String, piece: String, post: String },
}

impl What {
    pub fn lang(&self) -> Lang {
        match self {
            What::Shape(i) => sys::shapes()[*i].1,
            What::Pump { lang, .. } => *lang,
        }
    }
    pub fn name(&self) -> String {
        match self {
            What::Shape(i) => format!("the construct {}", sys::shapes()[*i].0),
            What::Pump { pre, piece, post, .. } => format!("{:?} repeated between {:?} and {:?}", piece, pre, post),
        }
    }
    pub fn nested(&self) -> bool {
        match self {
            What::Shape(i) => sys::shapes()[*i].2 <= 60,
            _ => false,
        }
    }
    pub fn times(&self, n: usize) -> String {
        match self {
            What::Shape(i) => (sys::shapes()[*i].3)(n),
            What::Pump { pre, piece, post, .. } if piece.contains(NUMBER) => {
                let parts: Vec<&str> = piece.split(NUMBER).collect();
                let mut s = pre.clone();
                for i in 0..n {
                    s += &parts.join(&i.to_string());
                }
                s + post
            }
            What::Pump { pre, piece, post, .. } => format!("{}{}{}", pre, piece.repeat(n), post),
        }
    }
    /// about so many bytes
    pub fn sized(&self, bytes: usize) -> String {
        let (a, b) = (self.times(1000).len(), self.times(2000).len());
        let per = ((b - a) as f64 / 1000.0).max(0.02);
        self.times((bytes as f64 / per) as usize)
    }
}

fn dict_word(x: &str) -> bool {
    crate::dict::KEYWORDS.contains(&x)
}

pub fn random_what(r: &mut Rng, d: &Dict) -> What {
    let lang = *r.pick(&[Lang::Query, Lang::Schema]);
    if r.pct(25) {
        // characters repeated inside a literal, a comment or between tokens
        let pre = *r.pick(&["{a(b:\"", "{a(b:\"\"\"", "{a #", "{a ", "\"", "\"\"\"", "#", "", "{a(b:", "type T{\"\"\"", "\"\"\"\n x\n"]);
        let post = *r.pick(&["\")}", "\"\"\")}", "\n}", "}", "\"scalar T", "\"\"\"scalar T", "", "{a}", ")}"]);
        let mut piece = String::new();
        for _ in 0..r.range(1, 5) {
            if r.pct(50) {
                piece.push(gen::any_char(r, d));
            } else {
                piece.push_str(r.pick(&["\\\"\"\"", "\\n", "\\u0041", "\n", " ", "\"", "\\", "\r\n", "\t", "#", ",", "\u{feff}", "a b", "\n  "]));
            }
        }
        return What::Pump { lang, pre: pre.into(), piece, post: post.into() };
    }
    // a run of tokens of a document, repeated in place
    let t = if r.pct(10) {
        let n = r.range(2, 40);
        gen::tokens(&deep_text(r, lang, n))
    } else {
        let mut t = gen::doc_tokens(r, d, lang, 0);
        t.truncate(300);
        t
    };
    let i = r.below(t.len());
    let j = (i + 1 + r.small(40)).min(t.len());
    let mut t = t;
    if r.pct(30) {
        // something that does not fit, in the piece or after it
        let at = i + r.below(t.len() - i);
        t[at] = r
            .pick(&["}", "]", ")", "{", "a", "...", "@", ":", "1", "1.5", "\"s\"", "\"\\q\"", "|", "&", "on", "query", "?", "99999999999999999999", "implements", "$"])
            .to_string();
    }
    if r.pct(50) {
        // another name each time
        for x in &mut t[i..j] {
            if !r.pct(60) || dict_word(x) {
                continue;
            }
            if crate::dict::is_name(x) {
                x.push(NUMBER);
            } else if x.len() > 1 && x.starts_with('"') && x.ends_with('"') && !x.starts_with("\"\"\"") {
                x.insert(x.len() - 1, NUMBER);
            }
        }
    }
    let sep = if r.pct(30) { gen::Sep::Lines } else { gen::Sep::Space };
    let mut f = |x: &[String]| {
        let mut s = gen::render(r, d, x, sep);
        s.push(' ');
        s
    };
    What::Pump {
        lang,
        pre: f(&t[..i]),
        piece: f(&t[i..j]),
        post: f(&t[j..]),
    }
}

pub fn cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

enum Prep<'a> {
    Text,
    Q(graphql_parser::query::Document<'a, &'a str>),
    S(graphql_parser::schema::Document<'a, &'a str>),
}

/// Runs one operation and gives its CPU time and peak memory; None if it does
/// not apply
pub fn measure(op: &str, lang: Lang, t: &str) -> Option<(f64, isize)> {
    let prep = match op {
        "print" | "print-multiline" | "clone-drop" => match lang {
            Lang::Query => Prep::Q(lib(|| graphql_parser::parse_query::<&str>(t)).ok()?),
            Lang::Schema => Prep::S(lib(|| graphql_parser::parse_schema::<&str>(t)).ok()?),
        },
        _ => Prep::Text,
    };
    let owned = t.to_string();
    let at = cpu();
    let (peak, ()) = alloc::peak(|| {
        lib(|| match (op, &prep) {
            ("parse_query", _) => match graphql_parser::parse_query::<String>(t) {
                Ok(d) => drop(std::hint::black_box(d)),
                Err(e) => drop(std::hint::black_box((e.to_string(), format!("{:?}", e)))),
            },
            ("parse_schema", _) => match graphql_parser::parse_schema::<&str>(t) {
                Ok(d) => drop(std::hint::black_box(d)),
                Err(e) => drop(std::hint::black_box((e.to_string(), format!("{:?}", e)))),
            },
            ("minify_query", _) => match graphql_parser::minify_query(owned) {
                Ok(d) => drop(std::hint::black_box(d)),
                Err(e) => drop(std::hint::black_box(e.to_string())),
            },
            ("consume_definition", _) => match graphql_parser::query::consume_definition::<&str>(t) {
                Ok(d) => drop(std::hint::black_box(d)),
                Err(e) => drop(std::hint::black_box(e.to_string())),
            },
            ("print", Prep::Q(d)) => drop(std::hint::black_box(d.to_string())),
            ("print", Prep::S(d)) => drop(std::hint::black_box(d.to_string())),
            ("print-multiline", Prep::Q(d)) => drop(std::hint::black_box(d.format(&style(1, true)))),
            ("print-multiline", Prep::S(d)) => drop(std::hint::black_box(d.format(&style(1, true)))),
            ("clone-drop", Prep::Q(d)) => drop(std::hint::black_box(d.clone() == *d)),
            ("clone-drop", Prep::S(d)) => drop(std::hint::black_box(d.clone() == *d)),
            ("consume-all", _) => {
                let mut rest = t;
                while let Ok((d, r)) = graphql_parser::query::consume_definition::<&str>(rest) {
                    drop(std::hint::black_box(d));
                    if r.is_empty() {
                        break;
                    }
                    rest = r;
                }
            }
            _ => {}
        })
    });
    Some((cpu() - at, peak))
}

#[derive(Debug)]
pub struct Suspect {
    pub op: &'static str,
    pub ratio: f64,
    pub memory: bool,
    pub note: String,
}

pub const SMALL: usize = 24 << 10;
pub const FACTOR: usize = 32;

/// The operations that look as if they grew faster than the text
pub fn screen(w: &What, seen: &mut dyn FnMut(&'static str, u64)) -> Vec<Suspect> {
    let mut out = Vec::new();
    let lang = w.lang();
    let (a, b, factor) = if w.nested() {
        (w.times(8), w.times(46), 46.0 / 8.0)
    } else {
        let a = w.sized(SMALL);
        let b = w.sized(SMALL * FACTOR);
        let f = b.len() as f64 / a.len().max(1) as f64;
        (a, b, f.max(1.0))
    };
    let best = |op: &str, t: &str, k: usize| -> Option<(f64, isize)> {
        let mut best: Option<(f64, isize)> = None;
        for _ in 0..k {
            let m = measure(op, lang, t)?;
            best = Some(match best {
                None => m,
                Some(b) => (b.0.min(m.0), b.1.min(m.1)),
            });
        }
        best
    };
    // on the way to the large size: what is slow already is not taken there
    let steps: Vec<(String, f64)> = if w.nested() {
        [12usize, 16, 20, 24, 32].iter().map(|n| (w.times(*n), *n as f64 / 8.0)).collect()
    } else {
        [4usize, 16].iter().map(|n| (w.sized(SMALL * n), *n as f64)).collect()
    };
    let mut slow = false;
    for op in &OPS[1..] {
        // these parse first
        if slow && matches!(*op, "print" | "print-multiline" | "clone-drop") {
            continue;
        }
        let Some(x) = best(op, &a, 3) else { continue };
        let floor = if w.nested() { 100e-6 } else { 30e-6 };
        let mut early = None;
        for (t, f) in &steps {
            let Some(y) = best(op, t, 1) else { break };
            // far beyond the linear, and long enough to go on at once
            if y.0 / x.0.max(floor) > 2.5 * f && y.0 > 0.1 {
                early = Some((y, t.len(), *f));
                break;
            }
        }
        if let Some((y, len, f)) = early {
            slow = true;
            seen("operations measured at two sizes", 1);
            out.push(Suspect {
                op,
                ratio: 1000.0 * y.0 / x.0.max(floor) / f,
                memory: false,
                note: format!("{:.6}s for {} bytes, {:.6}s for {}", x.0, a.len(), y.0, len),
            });
            continue;
        }
        let Some(y) = best(op, &b, 1) else { continue };
        seen("operations measured at two sizes", 1);
        // a floor under what is too short to measure
        let mut ratio = y.0 / x.0.max(floor);
        if ratio > 3.5 * factor && y.0 < 5.0 {
            if let Some(y2) = best(op, &b, 2) {
                ratio = y.0.min(y2.0) / x.0.max(floor);
            }
        }
        if ratio > 3.5 * factor {
            out.push(Suspect {
                op,
                ratio: ratio / factor,
                memory: false,
                note: format!("{:.6}s for {} bytes, {:.6}s for {}", x.0, a.len(), y.0, b.len()),
            });
        }
        let floor = 4096.0 * if w.nested() { 16.0 } else { 1.0 };
        let mratio = y.1 as f64 / (x.1 as f64).max(floor);
        if mratio > 4.0 * factor {
            out.push(Suspect {
                op,
                ratio: mratio / factor,
                memory: true,
                note: format!("peak of {} bytes held for a text of {} bytes, {} for {}", x.1, a.len(), y.1, b.len()),
            });
        }
    }
    out
}

pub fn all(seed: u64, d: &Dict, random: u64, k: u64, n: u64, f: &mut dyn FnMut(u64, What) -> bool) {
    let shapes = sys::shapes().len() as u64;
    let mut i = k;
    while i < shapes + random {
        let w = if i < shapes {
            What::Shape(i as usize)
        } else {
            random_what(&mut Rng::new(mix(mix(seed ^ 0x5701) ^ i)), d)
        };
        if !f(i, w) {
            return;
        }
        i += n;
    }
}
