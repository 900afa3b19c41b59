//! N01: a call does nothing but return its result. The calls run on a thread
//! that may ask the system for memory, locks, clocks and random numbers only:
//! a filter turns any other system call into a signal that is written down.
//! What does not need a system call (text waiting in the buffer of standard
//! output, the environment, the panic hook, the mode of the floating point
//! unit, the argument itself) is looked at after each call.
use crate::checks::{t01, wide_style, Case, Mon, Verdict};
use crate::lib_api;
use crate::rng::hash;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, OnceLock};

/// a panic of the monitor's own, to see that its hook is still there
pub struct Probe;
pub static PROBED: AtomicU64 = AtomicU64::new(0);

static TRAPPED: AtomicI64 = AtomicI64::new(-1);
static TRAP_ARG: AtomicI64 = AtomicI64::new(0);
static TRAPS: AtomicU64 = AtomicU64::new(0);
/// what the allocator asked for when nothing else ran: not judged
static OWN: [AtomicBool; 512] = [const { AtomicBool::new(false) }; 512];
static CALIBRATING: AtomicBool = AtomicBool::new(false);

/// allocates and frees as the library might, until every habit of the
/// allocator has been seen
fn exercise() {
    for round in 0..3usize {
        let mut v: Vec<Vec<u8>> = Vec::new();
        for i in 0..4000usize {
            let n = [24, 200, 3000, 70_000, 120_000][(i + round) % 5];
            v.push(std::hint::black_box(vec![i as u8; n]));
            if i % 7 == 3 {
                v.swap_remove(i / 3 % v.len());
            }
        }
        for n in [1usize << 18, 1 << 20, 1 << 23] {
            let mut s = String::new();
            while s.len() < n {
                s.push_str("0123456789abcdef");
            }
            v.push(s.into_bytes());
        }
        if round == 1 {
            v.reverse();
        }
        while v.pop().is_some() {}
    }
}

extern "C" {
    fn prctl(option: i32, ...) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(old: i32, new: i32) -> i32;
    #[cfg(target_arch = "x86_64")]
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
}

#[cfg(target_arch = "x86_64")]
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

#[repr(C)]
struct Filter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}

#[repr(C)]
struct Program {
    len: u16,
    filter: *const Filter,
}

/// memory, locks, clocks, random numbers; the return from a signal
#[cfg(target_arch = "x86_64")]
const ALLOWED: [u32; 15] = [
    10,  // mprotect
    11,  // munmap
    12,  // brk
    15,  // rt_sigreturn
    24,  // sched_yield
    25,  // mremap
    28,  // madvise
    39,  // getpid
    96,  // gettimeofday
    186, // gettid
    201, // time
    202, // futex
    228, // clock_gettime
    309, // getcpu
    318, // getrandom
];

#[cfg(target_arch = "x86_64")]
const NAMES: [(i64, &str); 40] = [
    (0, "read"), (1, "write"), (2, "open"), (3, "close"), (5, "fstat"), (9, "mmap of a file"), (13, "rt_sigaction"),
    (14, "rt_sigprocmask"), (16, "ioctl"), (20, "writev"), (22, "pipe"), (32, "dup"), (33, "dup2"), (34, "pause"),
    (35, "nanosleep"), (37, "alarm"), (38, "setitimer"), (41, "socket"), (42, "connect"), (44, "sendto"), (56, "clone"),
    (57, "fork"), (59, "execve"), (60, "exit"), (62, "kill"), (80, "chdir"), (83, "mkdir"), (87, "unlink"),
    (131, "sigaltstack"), (157, "prctl"), (160, "setrlimit"), (203, "sched_setaffinity"), (204, "sched_getaffinity"),
    (230, "clock_nanosleep"), (231, "exit_group"), (234, "tgkill"), (257, "openat"), (262, "newfstatat"), (332, "statx"), (435, "clone3"),
];

#[cfg(target_arch = "x86_64")]
extern "C" fn on_sys(_: i32, info: *const u8, context: *mut u8) {
    unsafe {
        // siginfo_t._sifields._sigsys._syscall, ucontext_t.uc_mcontext.gregs
        let nr = *(info.add(24) as *const i32) as i64;
        let regs = context.add(40) as *mut i64;
        if let Some(x) = OWN.get(nr as usize) {
            if CALIBRATING.load(SeqCst) {
                x.store(true, SeqCst);
            }
            if x.load(SeqCst) {
                *regs.add(13) = -38;
                return;
            }
        }
        if TRAPS.fetch_add(1, SeqCst) == 0 {
            TRAPPED.store(nr, SeqCst);
            TRAP_ARG.store(*regs.add(8), SeqCst);
        }
        // it fails: no such call
        *regs.add(13) = -38;
    }
}

/// from here on this thread may do little
#[cfg(target_arch = "x86_64")]
fn confine() -> bool {
    const TRAP: u32 = 0x0003_0000;
    const ALLOW: u32 = 0x7fff_0000;
    let f = |code, jt, jf, k| Filter { code, jt, jf, k };
    let n = ALLOWED.len();
    let mut p = vec![
        f(0x20, 0, 0, 4),                             // the architecture
        f(0x15, 0, (n + 2) as u8, 0xc000_003e),       // else: TRAP
        f(0x20, 0, 0, 0),                             // the number
        f(0x15, n as u8 + 2, 0, 9),                   // mmap: see there
    ];
    for (i, a) in ALLOWED.iter().enumerate() {
        p.push(f(0x15, (n - i) as u8, 0, *a));
    }
    p.push(f(0x06, 0, 0, TRAP));
    p.push(f(0x06, 0, 0, ALLOW));
    p.push(f(0x20, 0, 0, 40));                        // flags of mmap
    p.push(f(0x45, 0, 1, 0x20));                      // MAP_ANONYMOUS
    p.push(f(0x06, 0, 0, ALLOW));
    p.push(f(0x06, 0, 0, TRAP));
    let prog = Program { len: p.len() as u16, filter: p.as_ptr() };
    unsafe {
        let a = SigAction {
            handler: on_sys as extern "C" fn(i32, *const u8, *mut u8) as usize,
            mask: [0; 16],
            flags: 4 | 0x4000_0000,
            restorer: 0,
        };
        sigaction(31, &a, std::ptr::null_mut()) == 0
            && prctl(38, 1usize, 0usize, 0usize, 0usize) == 0
            && prctl(22, 2usize, &prog as *const Program) == 0
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn confine() -> bool {
    let _ = (prctl as usize, Program { len: 0, filter: std::ptr::null() }, Filter { code: 0, jt: 0, jf: 0, k: 0 });
    false
}

/// rounding and the treatment of tiny numbers, without the sticky flags
fn float_mode() -> u32 {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        let mut v: u32 = 0;
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut v);
        return v & !0x3f;
    }
    #[cfg(not(target_arch = "x86_64"))]
    0
}

struct Job {
    text: Option<Case>,
    done: Option<(Verdict, Option<(bool, String)>, Mon, u64)>,
}
struct Runner {
    job: Mutex<Job>,
    wake: Condvar,
    confined: AtomicI64,
}
static RUNNER: OnceLock<&'static Runner> = OnceLock::new();

fn serve(r: &'static Runner) {
    // what a thread sets up on its first allocation and panic
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(Probe));
    exercise();
    // which reads the words of the sources the first time
    for p in 0..200 {
        let _ = wide_style(p, 1);
    }
    CALIBRATING.store(true, SeqCst);
    let ok = confine();
    if ok {
        exercise();
        let _ = std::panic::catch_unwind(|| std::panic::panic_any(Probe));
    }
    CALIBRATING.store(false, SeqCst);
    r.confined.store(ok as i64, SeqCst);
    r.wake.notify_all();
    loop {
        let mut j = r.job.lock().unwrap();
        while j.text.is_none() {
            j = r.wake.wait(j).unwrap();
        }
        let c = j.text.take().unwrap();
        drop(j);
        let mut m = Mon::default();
        let before = float_mode();
        let calls = lib_api::CALLS.with(|c| c.get());
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t01(&c, &mut m)));
        let after = float_mode();
        let calls = lib_api::CALLS.with(|c| c.get()) - calls;
        let mut v = Ok(());
        let mut panic = None;
        if x.is_err() {
            panic = Some(crate::last_panic());
        }
        if before != after {
            v = Err(format!("the mode of the floating point unit was {:x}, then {:x}", before, after));
        }
        let mut j = r.job.lock().unwrap();
        j.done = Some((v, panic, m, calls));
        drop(j);
        r.wake.notify_all();
    }
}

fn runner() -> &'static Runner {
    RUNNER.get_or_init(|| {
        let r: &'static Runner = Box::leak(Box::new(Runner {
            job: Mutex::new(Job { text: None, done: None }),
            wake: Condvar::new(),
            confined: AtomicI64::new(-1),
        }));
        let stack = std::env::var("GQLMON_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(2 << 20);
        std::thread::Builder::new().stack_size(stack).spawn(move || serve(r)).expect("thread");
        while r.confined.load(SeqCst) < 0 {
            std::thread::yield_now();
        }
        r
    })
}

fn environment() -> (u64, usize) {
    let mut h = 0u64;
    let mut n = 0;
    for (k, v) in std::env::vars_os() {
        h ^= hash(k.as_encoded_bytes()).rotate_left(7) ^ hash(v.as_encoded_bytes()).wrapping_mul(3);
        n += 1;
    }
    (h, n)
}

/// what the process has, where no filter watches
fn threads_and_files() -> (usize, usize) {
    let n = |p| std::fs::read_dir(p).map(|d| d.count()).unwrap_or(0);
    (n("/proc/self/task"), n("/proc/self/fd"))
}

/// a file in place of standard output and standard error
struct Diverted {
    file: std::fs::File,
    out: i32,
    err: i32,
}
fn divert() -> Diverted {
    let name = format!("gqlmon-{}.out", std::process::id());
    let path = std::env::temp_dir().join(name);
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("file");
    let _ = std::fs::remove_file(&path);
    unsafe {
        let d = Diverted { out: dup(1), err: dup(2), file };
        assert!(d.out > 2 && d.err > 2);
        d
    }
}

pub fn n01(c: &Case, m: &mut Mon) -> Verdict {
    static FILE: OnceLock<Mutex<Diverted>> = OnceLock::new();
    let r = runner();
    let watched = r.confined.load(SeqCst) == 1;
    let mut d = FILE.get_or_init(|| Mutex::new(divert())).lock().unwrap();
    let env = environment();
    let has = if watched { (0, 0) } else { threads_and_files() };
    let mut hooks = 0;
    TRAPS.store(0, SeqCst);
    let copy = c.clone();
    // nothing of the monitor's own may wait in the buffer
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(d.file.as_raw_fd(), 1);
        dup2(d.file.as_raw_fd(), 2);
    }
    let (done, panic, seen, calls) = {
        let mut j = r.job.lock().unwrap();
        j.text = Some(copy);
        r.wake.notify_all();
        while j.done.is_none() {
            j = r.wake.wait(j).unwrap();
        }
        j.done.take().unwrap()
    };
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(d.out, 1);
        dup2(d.err, 2);
    }
    let traps = TRAPS.load(SeqCst);
    // is the hook still the monitor's
    let before = PROBED.load(SeqCst);
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(Probe));
    hooks += PROBED.load(SeqCst) - before;
    for (k, v) in &seen.seen {
        *m.seen.entry(k).or_insert(0) += v;
    }
    m.nontrivial = seen.nontrivial;
    lib_api::CALLS.with(|x| x.set(x.get() + calls));
    m.see(if watched {
        "texts called with under the system call filter"
    } else {
        "texts called with without a system call filter"
    });

    if traps > 0 {
        let nr = TRAPPED.load(SeqCst);
        #[cfg(target_arch = "x86_64")]
        let name = NAMES.iter().find(|x| x.0 == nr).map_or("?", |x| x.1);
        #[cfg(not(target_arch = "x86_64"))]
        let name = "?";
        return Err(format!(
            "a call asks the system for more than memory: system call {} ({}, first argument {}), {} in all",
            nr,
            name,
            TRAP_ARG.load(SeqCst),
            traps
        ));
    }
    let mut wrote = Vec::new();
    let len = d.file.seek(SeekFrom::End(0)).unwrap_or(0);
    if len > 0 {
        let _ = d.file.seek(SeekFrom::Start(0));
        let _ = Read::by_ref(&mut d.file).take(300).read_to_end(&mut wrote);
        let _ = d.file.set_len(0);
        let _ = d.file.seek(SeekFrom::Start(0));
        return Err(format!("a call writes to the standard streams: {:?}", String::from_utf8_lossy(&wrote)));
    }
    if hooks != 1 {
        crate::hook();
        return Err("a call replaces the panic hook".into());
    }
    let now = environment();
    if now != env {
        return Err(format!("a call changes the environment: {} variables, then {}", env.1, now.1));
    }
    if !watched && has != threads_and_files() {
        return Err(format!("threads and open files were {:?}, then {:?}", has, threads_and_files()));
    }
    done?;
    match panic {
        Some((true, p)) => Err(p),
        Some((false, p)) => panic!("{}", p),
        None => Ok(()),
    }
}
