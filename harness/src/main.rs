//! gqlmon: runs graphql-parser under workloads and judges what it observes.
//!
//!   gqlmon run PROP k n seed quick|thorough count seconds DIR
//!   gqlmon one PROP FILE         one case, from a file
//!   gqlmon shrink PROP FILE OUT  makes a failing case smaller
//!   gqlmon op OP q|s FILE        one operation (for instruction counts)
//!   gqlmon digest FILE ORDER     H01 across processes
//!   gqlmon groups seed count FILE
mod alloc;
mod build;
mod checks;
mod conv;
#[cfg(feature = "cov")]
mod cov;
#[cfg(feature = "cov")]
mod guide;
mod dict;
mod effects;
mod equal;
mod ev;
mod expect;
mod gen;
mod history;
mod join;
mod lex;
mod lib_api;
mod memory;
mod nodes;
mod refparse;
mod refprint;
mod rng;
mod sys;
#[cfg(feature = "texts")]
mod texts;
mod work;
mod workload;

use checks::{Case, Check, Mon, Verdict};
use refparse::Lang;
use rng::{hash, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! {
    static PANIC: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
}
/// the last panic of another thread
static OTHER: Mutex<Option<String>> = Mutex::new(None);

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<effects::Probe>() {
            effects::PROBED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            return;
        }
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let inside = lib_api::IN_LIB.try_with(|x| x.replace(false)).unwrap_or(false);
        let text = format!("panic at {}: {}", at, msg);
        if let Ok(mut o) = OTHER.lock() {
            *o = Some(format!("{}{}", if inside { "" } else { "(outside the library) " }, text));
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((inside, text)));
    }));
}

/// of this thread: whether inside the library, and what it said
pub fn last_panic() -> (bool, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or((false, "panic".into()))
}

enum Out {
    Ok,
    Bad(String),
    Harness(String),
}

fn judge(check: Check, c: &Case, m: &mut Mon) -> Out {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(c, m)));
    conv::NAMES.with(|n| *n.borrow_mut() = None);
    conv::STATICS.with(|n| *n.borrow_mut() = None);
    let r: Verdict = match r {
        Ok(r) => r,
        Err(_) => {
            let p = PANIC.with(|p| p.borrow_mut().take());
            match p {
                Some((true, m)) => Err(m),
                Some((false, m)) => return Out::Harness(m),
                None => return Out::Harness("panic".into()),
            }
        }
    };
    match r {
        Ok(()) => Out::Ok,
        Err(m) => Out::Bad(m),
    }
}

fn encode(c: &Case) -> Vec<u8> {
    let mut v = format!(
        "{} {} {}\n",
        if c.lang == Lang::Query { "q" } else { "s" },
        c.p,
        c.text.len()
    )
    .into_bytes();
    v.extend_from_slice(c.text.as_bytes());
    v
}

fn decode(b: &[u8]) -> Option<Case> {
    // lines starting with % are comments before the case
    let mut b = b;
    while b.first() == Some(&b'%') {
        let e = b.iter().position(|c| *c == b'\n')?;
        b = &b[e + 1..];
    }
    let e = b.iter().position(|c| *c == b'\n')?;
    let h = std::str::from_utf8(&b[..e]).ok()?;
    let mut h = h.split_whitespace();
    let lang = match h.next()? {
        "q" => Lang::Query,
        "s" => Lang::Schema,
        _ => return None,
    };
    let p = h.next()?.parse().ok()?;
    let n: usize = h.next()?.parse().ok()?;
    let t = b.get(e + 1..e + 1 + n)?;
    Some(Case {
        lang,
        p,
        text: String::from_utf8(t.to_vec()).ok()?,
    })
}

fn one_line(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '\n' => "\\n".to_string(),
            '\r' => "\\r".to_string(),
            c if c.is_control() => format!("\\u{{{:x}}}", c as u32),
            c => c.to_string(),
        })
        .collect()
}

fn shrink(check: Check, c: Case, secs: u64) -> (Case, String) {
    let t0 = Instant::now();
    let mut msg = String::new();
    let mut best = c;
    let bad = |c: &Case, msg: &mut String| -> bool {
        match judge(check, c, &mut Mon::default()) {
            Out::Bad(m) => {
                *msg = m;
                true
            }
            _ => false,
        }
    };
    if !bad(&best, &mut msg) {
        return (best, "does not fail again".into());
    }
    let out = |t0: Instant| t0.elapsed() > Duration::from_secs(secs);
    loop {
        let before = best.text.len();
        let mut n = 2usize;
        loop {
            let cs: Vec<char> = best.text.chars().collect();
            if cs.is_empty() {
                break;
            }
            let size = (cs.len() + n - 1) / n;
            let mut any = false;
            let mut i = 0;
            while i < cs.len() {
                let mut v: String = cs[..i].iter().collect();
                v.extend(&cs[(i + size).min(cs.len())..]);
                let k = Case { text: v, ..best.clone() };
                if bad(&k, &mut msg) {
                    best = k;
                    any = true;
                    break;
                }
                if out(t0) {
                    break;
                }
                i += size;
            }
            if out(t0) {
                break;
            }
            if any {
                n = n.saturating_sub(1).max(2);
            } else if size <= 1 {
                break;
            } else {
                n = (n * 2).min(cs.len());
            }
        }
        if best.text.len() == before || out(t0) {
            break;
        }
    }
    // the message that belongs to it
    bad(&best, &mut msg);
    (best, msg)
}

struct Run {
    check: Check,
    cur: std::fs::File,
    n: u64,
    mon: Mon,
    hashes: HashSet<u64>,
    samples: Vec<String>,
    nontrivial: u64,
    failed: Option<(Case, String)>,
    error: Option<String>,
}

impl Run {
    fn case(&mut self, c: Case) -> bool {
        self.n += 1;
        let mut b = format!("%{}\n", self.n).into_bytes();
        b.extend(encode(&c));
        let _ = self.cur.write_all_at(&b, 0);
        self.mon.nontrivial = false;
        match judge(self.check, &c, &mut self.mon) {
            Out::Ok => {}
            Out::Bad(m) => {
                self.failed = Some((c, m));
                return false;
            }
            Out::Harness(m) => {
                self.error = Some(format!("{} on {:?}", m, ev::short(&c.text)));
                return false;
            }
        }
        if self.mon.nontrivial {
            self.nontrivial += 1;
            let fresh = self.hashes.insert(hash(c.text.as_bytes()) ^ mix(c.lang as u64));
            if fresh && self.samples.len() < 4 && self.nontrivial % 701 == 1 {
                self.samples.push(one_line(&ev::short(&c.text)));
            }
        }
        true
    }
}

fn arg<T: std::str::FromStr>(a: &[String], i: usize) -> T {
    a.get(i)
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            eprintln!("bad arguments");
            std::process::exit(2)
        })
}

fn write_result(dir: &str, k: u64, r: &Run, random_done: u64, secs: f64) {
    let mut s = String::new();
    s += &format!("evaluations\t{}\n", r.n);
    s += &format!("random\t{}\n", random_done);
    s += &format!("nontrivial\t{}\n", r.nontrivial);
    s += &format!("calls\t{}\n", lib_api::CALLS.with(|c| c.get()));
    s += &format!("secs\t{:.1}\n", secs);
    for (k, v) in &r.mon.seen {
        s += &format!("seen\t{}\t{}\n", k, v);
    }
    for x in &r.samples {
        s += &format!("sample\t{}\n", x);
    }
    let mut h = Vec::with_capacity(r.hashes.len() * 8);
    for x in &r.hashes {
        h.extend_from_slice(&x.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}/{}.hashes", dir, k), h);
    let _ = std::fs::write(format!("{}/{}.result", dir, k), s);
}

fn run(a: Vec<String>) -> i32 {
    let prop = a[2].clone();
    let (k, n, seed): (u64, u64, u64) = (arg(&a, 3), arg(&a, 4), arg(&a, 5));
    let deep = a.get(6).map_or(false, |s| s == "thorough");
    let (count, secs): (u64, f64) = (arg(&a, 7), arg(&a, 8));
    let dir: String = arg(&a, 9);
    let t0 = Instant::now();
    let cur = std::fs::File::create(format!("{}/{}.current", dir, k)).expect("case file");
    let is_tiny = std::env::var("GQLMON_TINY").is_ok();
    let d = if is_tiny { dict::Dict::fixed() } else { dict::Dict::load() };
    if prop == "W01" {
        return run_work(k, n, seed, count, secs, &dir, cur, &d);
    }
    let Some(check) = checks::check_of(&prop) else { return 2 };
    let mut r = Run {
        check,
        cur,
        n: 0,
        mon: Mon::default(),
        hashes: HashSet::new(),
        samples: Vec::new(),
        nontrivial: 0,
        failed: None,
        error: None,
    };
    let mut i = 0u64;
    let max: usize = std::env::var("GQLMON_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
    let sys_part = !std::env::var("GQLMON_RANDOM_ONLY").is_ok();
    if sys_part {
        // a part of the systematic cases only, where the build is slow
        let every: u64 = std::env::var("GQLMON_EVERY").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let (mut stop, mut left) = (false, 0);
        let mut f = |c: Case| {
            i += 1;
            if !stop && i % n == k && (every <= 1 || mix(i) % every == 0) && c.text.len() <= max {
                stop = !r.case(c);
            }
            if is_tiny && t0.elapsed().as_secs_f64() > secs {
                stop = true;
            }
            // a deep run has its random cases too
            if deep && !stop && t0.elapsed().as_secs_f64() > 0.7 * secs {
                stop = true;
                left = i;
            }
        };
        if is_tiny {
            workload::tiny(&mut f);
        } else {
            workload::systematic(&prop, &d, deep, &mut f);
        }
        if left > 0 {
            r.mon.add("systematic cases left out for want of time, sum over workers", ((i - left) / n) as usize);
        }
    }
    let mut j = k;
    let mut done = 0;
    let systematic = if deep { 0.0 } else { t0.elapsed().as_secs_f64() };
    while j < count && r.failed.is_none() && r.error.is_none() {
        if t0.elapsed().as_secs_f64() - systematic > secs {
            break;
        }
        let mut g = Rng::new(mix(mix(seed ^ hash(prop.as_bytes())) ^ j));
        let c = workload::random(&prop, &mut g, &d);
        j += n;
        if c.text.len() > max {
            continue;
        }
        done += 1;
        if !r.case(c) {
            break;
        }
    }
    #[cfg(feature = "cov")]
    guided(&mut r, &prop, &d, k, n, seed, secs);
    write_result(&dir, k, &r, done, t0.elapsed().as_secs_f64());
    if let Some(e) = &r.error {
        eprintln!("harness error: {}", e);
        return 2;
    }
    if let Some((c, m)) = r.failed.take() {
        // as found first: shrinking may not survive a fatal case
        let _ = std::fs::write(format!("{}/{}.fail", dir, k), encode(&c));
        let _ = std::fs::write(format!("{}/{}.message", dir, k), one_line(&m));
        let (c, m2) = shrink(check, c, 8);
        let m = if m2.is_empty() || m2 == "does not fail again" { m } else { m2 };
        let _ = std::fs::write(format!("{}/{}.fail", dir, k), encode(&c));
        let _ = std::fs::write(format!("{}/{}.message", dir, k), one_line(&m));
        return 10;
    }
    0
}

/// varies what reaches new code of the library
#[cfg(feature = "cov")]
fn guided(r: &mut Run, prop: &str, d: &dict::Dict, k: u64, n: u64, seed: u64, secs: f64) {
    let count: u64 = std::env::var("GQLMON_GUIDED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    if count == 0 || r.failed.is_some() || r.error.is_some() {
        return;
    }
    let t0 = Instant::now();
    let mut g = guide::Guide::new(prop);
    // what the other workloads reach
    let mut i = 0u64;
    workload::systematic(prop, d, false, &mut |c| {
        i += 1;
        if (mix(i ^ k) % 257 == 0 || i < 60) && c.text.len() < 2000 {
            g.offer(&c);
        }
    });
    for j in 0..1500 {
        let c = workload::random(prop, &mut Rng::new(mix(mix(seed ^ hash(prop.as_bytes())) ^ (j * n + k))), d);
        if c.text.len() < 3000 {
            g.offer(&c);
        }
    }
    g.seeded();
    let start = g.corpus.len();
    let mut j = k;
    let mut done = 0u64;
    let mut fresh = 0u64;
    while j < count && t0.elapsed().as_secs_f64() < secs {
        let c = g.next(&mut guide::rng(seed ^ hash(prop.as_bytes()), j), d);
        j += n;
        done += 1;
        if !r.case(c.clone()) {
            break;
        }
        fresh += g.offer(&c) as u64;
    }
    r.mon.add("guided: cases", done as usize);
    r.mon.add("guided: cases that reached something new", fresh as usize);
    r.mon.add("guided: kept from the other workloads, sum over workers", start as usize);
    r.mon.add("guided: edges of the library seen in other workloads, sum over workers", g.first_edges as usize);
    r.mon.add("guided: edges seen, sum over workers", g.map.edges_seen as usize);
    r.mon.add("guided: edges that exist, sum over workers", g.map.total() as usize);
    r.mon.add("guided: comparison outcomes seen in other workloads, sum over workers", g.first_cmps as usize);
    r.mon.add("guided: comparison outcomes seen, sum over workers", g.map.cmps_seen as usize);
}

#[allow(clippy::too_many_arguments)]
fn run_work(k: u64, n: u64, seed: u64, count: u64, secs: f64, dir: &str, cur: std::fs::File, d: &dict::Dict) -> i32 {
    let t0 = Instant::now();
    let mut seen: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut done = 0;
    let mut found = 0;
    let mut samples = Vec::new();
    let mut names = HashSet::new();
    work::all(seed, d, count, k, n, &mut |i, w| {
        if t0.elapsed().as_secs_f64() > secs {
            return false;
        }
        let head = format!("%{:08}.{:04}\n%{}\n", i, 0, one_line(&w.name()));
        let mut b = head.into_bytes();
        b.extend(encode(&Case {
            lang: w.lang(),
            text: if w.nested() { w.times(46) } else { w.sized(work::SMALL * work::FACTOR) },
            p: 0,
        }));
        let _ = cur.write_all_at(&b, 0);
        done += 1;
        names.insert(hash(w.name().as_bytes()));
        if samples.len() < 3 && i % 5 == 1 {
            samples.push(one_line(&ev::short(&w.name())));
        }
        let mut step = 0;
        let progress = &mut |k, v| {
            *seen.entry(k).or_insert(0) += v;
            step += 1;
            let _ = cur.write_all_at(format!("%{:08}.{:04}", i, step).as_bytes(), 0);
        };
        for s in work::screen(&w, progress) {
            // sizes for the confirmation
            let base = format!("{}/{}.suspect{}", dir, k, found);
            found += 1;
            let mut o = format!(
                "{}\n{}\n{}\n{:.2}\n{}\n{}\n",
                s.op,
                if w.lang() == Lang::Query { "q" } else { "s" },
                if s.memory { "memory" } else { "time" },
                s.ratio,
                one_line(&s.note),
                one_line(&w.name())
            );
            let sizes: Vec<String> = if w.nested() {
                [12, 24, 48].iter().map(|n| w.times(*n)).collect()
            } else {
                [8 << 10, 32 << 10, 128 << 10, 512 << 10].iter().map(|n| w.sized(*n)).collect()
            };
            for (j, t) in sizes.iter().enumerate() {
                let f = format!("{}.text{}", base, j);
                let _ = std::fs::write(&f, t);
                o += &format!("{}\n", f);
            }
            let _ = std::fs::write(base, o);
        }
        true
    });
    let mut s = format!(
        "evaluations\t{}\nrandom\t0\nnontrivial\t{}\ncalls\t{}\nsecs\t{:.1}\n",
        done,
        done,
        lib_api::CALLS.with(|c| c.get()),
        t0.elapsed().as_secs_f64()
    );
    s += &format!("seen\tgrowth suspects to confirm\t{}\n", found);
    for (k, v) in &seen {
        s += &format!("seen\t{}\t{}\n", k, v);
    }
    for x in &samples {
        s += &format!("sample\t{}\n", x);
    }
    let mut h = Vec::new();
    for x in &names {
        h.extend_from_slice(&x.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}/{}.hashes", dir, k), h);
    let _ = std::fs::write(format!("{}/{}.result", dir, k), s);
    0
}

fn one(a: Vec<String>) -> i32 {
    let bytes = std::fs::read(&a[3]).expect("case");
    let Some(c) = decode(&bytes) else {
        eprintln!("no case in {}", a[3]);
        return 2;
    };
    if a[2] == "W01" {
        for op in &work::OPS[1..] {
            let m = work::measure(op, c.lang, &c.text);
            println!("{} of {} bytes: {:?}", op, c.text.len(), m);
        }
        return 0;
    }
    let Some(check) = checks::check_of(&a[2]) else { return 2 };
    if a[1] == "shrink" {
        let (c, m) = shrink(check, c, 10);
        let _ = std::fs::write(&a[4], encode(&c));
        println!("{}", one_line(&m));
        return 0;
    }
    match judge(check, &c, &mut Mon::default()) {
        Out::Ok => {
            println!("holds");
            0
        }
        Out::Bad(m) => {
            println!("{}", one_line(&m));
            10
        }
        Out::Harness(m) => {
            println!("harness error: {}", one_line(&m));
            2
        }
    }
}

fn op(a: Vec<String>) -> i32 {
    let t = std::fs::read_to_string(&a[4]).expect("text");
    let lang = if a[3] == "q" { Lang::Query } else { Lang::Schema };
    // preparing costs the same with the operation left out
    let r = match a[2].as_str() {
        "none-print" => work::measure("clone-drop-none", lang, &t),
        x => work::measure(x, lang, &t),
    };
    println!("{:?}", r.map(|x| x.1));
    0
}

fn digest(a: Vec<String>) -> i32 {
    let t = std::fs::read_to_string(&a[2]).expect("texts");
    let texts: Vec<&str> = t.split('\u{1d}').collect();
    let n = texts.len();
    let idx: Vec<usize> = match a[3].as_str() {
        "forward" => (0..n).collect(),
        "reverse" => (0..n).rev().collect(),
        i => vec![i.parse().expect("index")],
    };
    let mut out = std::io::stdout().lock();
    for i in idx {
        let d = history::digest(texts[i]);
        let _ = writeln!(out, "{} {:016x}", i, hash(d.as_bytes()));
    }
    0
}

/// endure TEXTS SECONDS SEED
fn endure(a: Vec<String>) -> i32 {
    let t = std::fs::read_to_string(&a[2]).expect("texts");
    let all: Vec<String> = t.split('\u{1d}').map(|s| s.to_string()).collect();
    let (secs, seed): (f64, u64) = (arg(&a, 3), arg(&a, 4));
    // short ones, for the number of calls
    let mut r = Rng::new(mix(seed));
    let mut texts: Vec<String> = sys::SEEDS_Q.iter().chain(sys::SEEDS_S.iter()).map(|s| s.to_string()).filter(|s| s.len() < 100).collect();
    texts.extend(all.into_iter().filter(|s| s.len() < 160 && r.pct(50)).take(60));
    // what is just within the limits and just beyond them
    for l in [Lang::Query, Lang::Schema] {
        for n in [49, 50, 50, 51] {
            let t = workload::deep_text(&mut r, l, n);
            texts.push(format!("{}\n", t));
            texts.push(t);
        }
    }
    for t in [
        "{a(b:9223372036854775807 c:-9223372036854775808)}", "{a(b:9223372036854775808)}", "{a(b:1.7976931348623157e308)}",
        "{a(b:1e309)}", "{a(b:\"\\uD7FF\\uE000\")}\n", "{a(b:\"\\uD800\")}\n",
    ] {
        texts.push(t.to_string());
    }
    // those whose results cannot be had at all are T01's
    texts.retain(|t| std::panic::catch_unwind(|| history::digest(t)).is_ok());
    let calls = std::sync::atomic::AtomicU64::new(0);
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history::endure(&texts, secs, seed, &calls)));
    let n = calls.load(std::sync::atomic::Ordering::Relaxed);
    println!("calls {}", n);
    match got {
        Ok(Ok(held)) => {
            for (bytes, blocks) in held {
                println!("held {} {}", bytes, blocks);
            }
            0
        }
        Ok(Err(m)) => {
            println!("{}", one_line(&m));
            10
        }
        Err(_) => {
            println!("call {} of the process panics, its like did not before", n + 1);
            10
        }
    }
}

fn groups(a: Vec<String>) -> i32 {
    let (seed, count): (u64, u64) = (arg(&a, 2), arg(&a, 3));
    let d = dict::Dict::load();
    let mut r = Rng::new(mix(seed ^ 0xd16e57));
    let mut v: Vec<String> = sys::SEEDS_Q.iter().chain(sys::SEEDS_S.iter()).map(|s| s.to_string()).collect();
    while (v.len() as u64) < count {
        let c = workload::random("H01", &mut r, &d);
        v.extend(c.text.split(history::SEPARATOR).map(|s| s.replace('\u{1d}', " ")));
    }
    v.truncate(count as usize);
    // mixed, so kinds follow each other
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
    std::fs::write(&a[4], v.join("\u{1d}")).expect("write");
    println!("{}", v.len());
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    hook();
    if let Some(c) = std::env::var("GQLMON_CAP").ok().and_then(|s| s.parse().ok()) {
        alloc::CAP.store(c, std::sync::atomic::Ordering::Relaxed);
    }
    let f: fn(Vec<String>) -> i32 = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run,
        Some("one") | Some("shrink") => one,
        Some("op") => op,
        Some("digest") => digest,
        Some("groups") => groups,
        Some("endure") => endure,
        Some("nothing") => |_| 0,
        _ => {
            eprintln!("see the head of main.rs");
            std::process::exit(2)
        }
    };
    if std::env::var("GQLMON_MAIN").is_ok() {
        // results must not depend on being the first thread
        std::process::exit(f(a));
    }
    // what std gives a thread, whatever RUST_MIN_STACK says
    let stack = std::env::var("GQLMON_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(2 << 20);
    let code = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            if std::env::var("GQLMON_NO_LEAKS").is_ok() {
                memory::LEAKS.with(|l| l.set(false));
            }
            f(a)
        })
        .expect("thread")
        .join()
        .unwrap_or_else(|_| {
            eprintln!("harness error: {:?}", PANIC.with(|p| p.borrow().clone()));
            eprintln!("{:?}", OTHER.lock().map(|o| o.clone()));
            2
        });
    std::process::exit(code);
}
