//! H01: the same texts in other orders, threads, addresses and company.
use crate::checks::{Case, Mon, Verdict};
use crate::ev::{self, short};
use crate::lex::{self, K};
use crate::lib_api::*;
use crate::refparse::Lang;
use crate::rng::Rng;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

/// all a caller can see of a text
pub fn digest(t: &str) -> String {
    let mut o = String::new();
    for lang in [Lang::Query, Lang::Schema] {
        match parse::<&str>(lang, t) {
            Ok(d) => {
                o += &format!("{:?}\n", d.trace());
                o += &d.format(2, false);
                o += &d.format(5, true);
                o += &lib(|| match &d {
                    Doc::Q(d) => format!("{:?}", d),
                    Doc::S(d) => format!("{:?}", d),
                });
            }
            Err(e) => {
                o += &e;
            }
        }
        lib(|| match lang {
            Lang::Query => {
                if let Err(e) = graphql_parser::parse_query::<String>(t) {
                    o += &format!("{:?}", e)
                }
            }
            Lang::Schema => {
                if let Err(e) = graphql_parser::parse_schema::<String>(t) {
                    o += &format!("{:?}", e)
                }
            }
        });
        o.push('\n');
    }
    match consume::<String>(t) {
        Ok((d, r)) => o += &format!("{:?}{}\n", def_trace(&d), r.len()),
        Err(e) => o += &e,
    }
    o += &format!("{:?}", minify(t));
    o
}

fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let f = |s: &str| {
        let b = s.as_bytes();
        String::from_utf8_lossy(&b[i.saturating_sub(30).min(b.len())..(i + 50).min(b.len())]).into_owned()
    };
    format!("…{:?}… and …{:?}…", f(a), f(b))
}

pub const SEPARATOR: char = '\u{1e}';

fn spawn<R: Send>(s: Vec<Box<dyn FnOnce() -> R + Send + '_>>) -> Vec<std::thread::Result<R>> {
    std::thread::scope(|sc| {
        let h: Vec<_> = s.into_iter().map(|f| sc.spawn(f)).collect();
        h.into_iter().map(|h| h.join()).collect()
    })
}

/// A text of the same length with the same kinds of tokens in the same places
fn twin(t: &str, p: u64) -> Option<String> {
    let lx = lex::lex(t);
    let mut r = Rng::new(p);
    let mut b = t.as_bytes().to_vec();
    let most = r.pct(50);
    let mut changed = false;
    for i in 0..lx.n() {
        let k = &lx.toks[i];
        if !matches!(k.k, K::Name | K::Str | K::Block | K::Int | K::Float) || r.pct(if most { 20 } else { 80 }) {
            continue;
        }
        let (from, to) = (k.start, k.start + lx.text(i).len());
        // not the first: keywords and the kind of a number stay what they are
        let at: Vec<usize> = (from + 1..to).filter(|&j| b[j].is_ascii_alphanumeric() && b[j - 1] != b'\\').collect();
        if at.is_empty() || (k.k == K::Name && to - from > 3 && r.pct(70)) {
            continue;
        }
        let j = at[r.below(at.len())];
        b[j] = match b[j] {
            b'0'..=b'9' => b'1' + (b[j] - b'0') % 9,
            b'e' | b'E' if k.k == K::Float => b[j],
            b'a'..=b'z' => b'a' + (b[j] - b'a' + 1) % 26,
            x => b'A' + (x - b'A' + 1) % 26,
        };
        changed |= b[j] != t.as_bytes()[j];
    }
    if changed {
        String::from_utf8(b).ok()
    } else {
        None
    }
}

pub fn h01(c: &Case, m: &mut Mon) -> Verdict {
    let texts: Vec<&str> = c.text.split(SEPARATOR).collect();
    let n = texts.len();
    m.nontrivial = n > 1;
    m.add("texts", n);
    // each text alone on a fresh thread
    let mut base = Vec::new();
    for t in &texts {
        let mut r = spawn(vec![Box::new(|| digest(t))]);
        base.push(r.pop().unwrap().unwrap_or_else(|_| "panic".into()));
    }
    let same = |i: usize, d: &str, wh: &str| -> Verdict {
        if d != base[i] {
            return Err(format!("{}, {:?} gives another result: {}", wh, short(texts[i]), differ(&base[i], d)));
        }
        Ok(())
    };
    // one after the other on this thread
    for (i, t) in texts.iter().enumerate() {
        same(i, &digest(t), "after other calls")?;
        m.see("calls repeated in another history");
    }
    for (i, t) in texts.iter().enumerate().rev() {
        same(i, &digest(t), "in reverse order")?;
        same(i, &digest(t), "a second time")?;
        m.see("calls repeated in another history");
    }
    // the same buffer used for one text after the other, and texts inside
    // others at every alignment
    let cap = texts.iter().map(|t| t.len()).max().unwrap_or(0) + 64;
    let mut buf = String::with_capacity(cap * 2);
    for k in 0..4 {
        for (i, t) in texts.iter().enumerate() {
            buf.clear();
            let pad = match k {
                0 => 0,
                _ => (c.p as usize / 3 + i + k * 5) % 17,
            };
            for j in 0..pad {
                buf.push(if j % 3 == 0 { '"' } else { '#' });
            }
            let at = buf.len();
            buf.push_str(t);
            let end = buf.len();
            buf.push_str(["", "a", "\"", "}\n"][(k + i) % 4]);
            same(i, &digest(&buf[at..end]), "at another address")?;
            m.see("calls repeated at another address");
        }
    }
    // texts alike in length and shape, at the very same address, by turns
    for (i, t) in texts.iter().enumerate() {
        for k in 0..2 {
            let Some(other) = twin(t, c.p ^ (k << 32) ^ i as u64) else { continue };
            let mut r = spawn(vec![Box::new(|| digest(&other))]);
            let want = r.pop().unwrap().unwrap_or_else(|_| "panic".into());
            for j in 0..3 {
                buf.clear();
                buf.push_str(if j == 1 { &other } else { t });
                let d = digest(&buf);
                m.see("calls repeated with a text like it at the same address before");
                if j != 1 {
                    same(i, &d, "after a text of the same length at the same address")?;
                } else if d != want {
                    return Err(format!(
                        "after {:?} at the same address, {:?} gives another result: {}",
                        short(t),
                        short(&other),
                        differ(&want, &d)
                    ));
                }
            }
        }
    }
    // one AST in many styles, in changing orders
    for (i, t) in texts.iter().enumerate() {
        for lang in [Lang::Query, Lang::Schema] {
            let Ok(doc) = parse::<&str>(lang, t) else { continue };
            let mut r = Rng::new(c.p ^ i as u64);
            let mut styles = Vec::new();
            let widths = [r.below(4), 2, 4, *r.pick(&[1, 3, 5, 6, 7, 8, 16])];
            for w in widths {
                styles.extend([(w, false), (w, true)]);
            }
            let want: Vec<String> = spawn(
                styles
                    .iter()
                    .map(|&(w, multi)| {
                        let doc = &doc;
                        Box::new(move || doc.format(w, multi)) as Box<dyn FnOnce() -> _ + Send + '_>
                    })
                    .collect(),
            )
            .into_iter()
            .map(|r| r.unwrap_or_else(|_| "panic".into()))
            .collect();
            let display = doc.display();
            let mut last = "Display".to_string();
            // each style after each other one, in time
            let mut order: Vec<usize> = Vec::new();
            for a in 0..styles.len() {
                for b in [a ^ 1, r.below(styles.len())] {
                    order.extend([a, b]);
                }
            }
            if t.len() > 2000 {
                order.truncate(8);
            }
            for k in order {
                let (w, multi) = styles[k];
                m.see("prints repeated after prints in other styles");
                let got = doc.format(w, multi);
                if got != want[k] {
                    return Err(format!(
                        "width {}, multi-line {} after {}, {:?} is printed otherwise: {}",
                        w,
                        multi,
                        last,
                        short(t),
                        differ(&want[k], &got)
                    ));
                }
                last = format!("width {}, multi-line {}", w, multi);
                if r.pct(20) && doc.display() != display {
                    return Err(format!("after {}, Display of {:?} differs", last, short(t)));
                }
            }
        }
    }
    // all at once
    let threads = 4;
    let gate = AtomicUsize::new(0);
    let work: Vec<Box<dyn FnOnce() -> Vec<(usize, String)> + Send + '_>> = (0..threads)
        .map(|k| {
            let (texts, gate) = (&texts, &gate);
            Box::new(move || {
                gate.fetch_add(1, Ordering::SeqCst);
                let mut spins = 0;
                while gate.load(Ordering::SeqCst) < threads && spins < 10_000 {
                    spins += 1;
                    std::thread::yield_now();
                }
                let mut o = Vec::new();
                for i in 0..n {
                    let i = if k % 2 == 0 { (i + k * n / threads) % n } else { n - 1 - i };
                    o.push((i, digest(texts[i])));
                }
                o
            }) as Box<dyn FnOnce() -> _ + Send + '_>
        })
        .collect();
    for r in spawn(work) {
        let r = r.map_err(|_| "a call panics while other threads make calls".to_string())?;
        for (i, d) in r {
            m.see("calls repeated beside other threads");
            same(i, &d, "while other threads make calls")?;
        }
    }
    // one AST, several threads
    for (i, t) in texts.iter().enumerate() {
        for lang in [Lang::Query, Lang::Schema] {
            let Ok(doc) = parse::<String>(lang, t) else { continue };
            let want = (ev::strip(&doc.trace()), doc.format(2, false), doc.format(3, true));
            let work: Vec<Box<dyn FnOnce() -> bool + Send + '_>> = (0..3)
                .map(|k| {
                    let (doc, want) = (&doc, &want);
                    Box::new(move || {
                        let same = match doc {
                            Doc::Q(d) => lib(|| *d == *d && d.clone() == *d),
                            Doc::S(d) => lib(|| *d == *d && d.clone() == *d),
                        };
                        same && (if k % 2 == 0 {
                            doc.format(2, false) == want.1 && doc.format(3, true) == want.2
                        } else {
                            doc.format(3, true) == want.2 && doc.format(2, false) == want.1
                        }) && ev::strip(&doc.trace()) == want.0
                    }) as Box<dyn FnOnce() -> bool + Send + '_>
                })
                .collect();
            for r in spawn(work) {
                m.see("shared ASTs printed by several threads");
                if !r.map_err(|_| "a call panics on an AST shared by threads".to_string())? {
                    return Err(format!("printed or compared by several threads, text {} of {} differs", i + 1, n));
                }
            }
        }
    }
    Ok(())
}

/// What a long life of the process does: few texts, millions of calls, and
/// every result compared with the first of its kind. Gives the bytes and blocks
/// held at eight times, or what differed.
pub fn endure(texts: &[String], secs: f64, seed: u64, calls: &AtomicU64) -> Result<Vec<(isize, isize)>, String> {
    use graphql_parser as g;
    let mut styled = g::Style::default();
    styled.indent(3).multiline_arguments(true);
    struct First<'a> {
        q: Result<g::query::Document<'a, String>, String>,
        s: Result<g::schema::Document<'a, &'a str>, String>,
        q_static: Result<g::query::Document<'static, String>, String>,
        s_static: Result<g::schema::Document<'static, String>, String>,
        print: Vec<String>,
        rest: Result<(g::query::Definition<'a, &'a str>, &'a str), String>,
        mini: Result<String, String>,
    }
    fn parse_q(t: &str) -> Result<g::query::Document<'_, String>, String> {
        g::parse_query(t).map_err(|e| e.to_string())
    }
    fn parse_owned(t: &str) -> Result<g::schema::Document<'_, String>, String> {
        g::parse_schema(t).map_err(|e| e.to_string())
    }
    fn parse_s(t: &str) -> Result<g::schema::Document<'_, &str>, String> {
        g::parse_schema::<&str>(t).map_err(|e| e.to_string())
    }
    fn eat(t: &str) -> Result<(g::query::Definition<'_, &str>, &str), String> {
        g::query::consume_definition::<&str>(t).map_err(|e| e.to_string())
    }
    let mini = |t: &str| g::minify_query(t.to_string()).map_err(|e| e.to_string());
    let first: Vec<First> = texts
        .iter()
        .map(|t| {
            let (q, s) = (parse_q(t), parse_s(t));
            let mut print = Vec::new();
            if let Ok(d) = &q {
                print = vec![d.to_string(), d.format(&styled)];
            } else if let Ok(d) = &s {
                print = vec![d.to_string(), d.format(&styled)];
            }
            First {
                q,
                s,
                q_static: parse_q(t).map(|d| d.into_static()),
                s_static: parse_owned(t).map(|d| d.into_static()),
                print,
                rest: eat(t),
                mini: mini(t),
            }
        })
        .collect();
    let mut r = Rng::new(seed);
    let t0 = std::time::Instant::now();
    let mut n = 0u64;
    let mut held = Vec::with_capacity(8);
    loop {
        let i = r.below(texts.len());
        let (t, f) = (texts[i].as_str(), &first[i]);
        let k = r.below(10);
        let bad = match k {
            0 | 1 => parse_q(t) != f.q,
            2 | 3 => parse_s(t) != f.s,
            4 => match (&f.q, &f.s) {
                (Ok(d), _) => d.to_string() != f.print[0],
                (_, Ok(d)) => d.to_string() != f.print[0],
                _ => false,
            },
            5 => match (&f.q, &f.s) {
                (Ok(d), _) => d.format(&styled) != f.print[1],
                (_, Ok(d)) => d.format(&styled) != f.print[1],
                _ => false,
            },
            6 => eat(t) != f.rest,
            8 => match parse_q(t) {
                Ok(d) => Ok(d.into_static()) != f.q_static,
                Err(e) => Err(e) != f.q_static,
            },
            9 => match parse_owned(t) {
                Ok(d) => Ok(d.into_static()) != f.s_static,
                Err(e) => Err(e) != f.s_static,
            },
            _ => mini(t) != f.mini,
        };
        n += 1;
        calls.store(n, Ordering::Relaxed);
        if bad {
            let what = ["parse_query", "parse_query", "parse_schema", "parse_schema", "Display", "format", "consume_definition", "minify_query", "into_static", "into_static"][k];
            return Err(format!("call {} of the process, {} of {:?}, gives another result than the first", n, what, short(t)));
        }
        if n % 1024 == 0 && t0.elapsed().as_secs_f64() > secs * (held.len() + 1) as f64 / 8.0 {
            held.push(crate::alloc::held());
            if held.len() == 8 {
                return Ok(held);
            }
        }
    }
}

/// what the library returns may go to other threads; build errors here are
/// reported as violations of H01
#[allow(dead_code)]
fn threads_may_share() {
    fn t<T: Send + Sync>() {}
    t::<graphql_parser::query::Document<'static, String>>();
    t::<graphql_parser::query::Document<'static, &'static str>>();
    t::<graphql_parser::schema::Document<'static, String>>();
    t::<graphql_parser::schema::Document<'static, &'static str>>();
    t::<graphql_parser::query::ParseError>();
    t::<graphql_parser::schema::ParseError>();
    t::<graphql_parser::Style>();
}
