//! Counters of the instrumented build: edges of the library's code and operands
//! of its comparisons, observed while `signal` runs.
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

struct Global<T>(UnsafeCell<T>);
// one thread runs `signal`; the sections are announced before main
unsafe impl<T> Sync for Global<T> {}

static SECTIONS: Global<Vec<(usize, usize)>> = Global(UnsafeCell::new(Vec::new()));
static ON: AtomicBool = AtomicBool::new(false);
const CMP: usize = 1 << 17;
static HITS: Global<[u8; CMP]> = Global(UnsafeCell::new([0; CMP]));
static LIST: Global<Vec<u32>> = Global(UnsafeCell::new(Vec::new()));

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let v = &mut *SECTIONS.0.get();
    if start < stop && !v.contains(&(start as usize, stop as usize)) {
        v.push((start as usize, stop as usize));
    }
}

unsafe extern "C" fn note(a: u64, b: u64, pc: u64) {
    if !ON.load(Relaxed) {
        return;
    }
    // the same in every process
    let pc = pc.wrapping_sub(note as *const () as u64);
    let x = pc.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;
    // how many bits differ, and how large the difference is
    let near = (a ^ b).count_ones() as u64;
    let far = 64 + (64 - a.wrapping_sub(b).unsigned_abs_diff().leading_zeros()) as u64;
    for k in [near, far] {
        let i = ((x * 130 + k) % CMP as u64) as usize;
        let h = &mut *HITS.0.get();
        if h[i] == 0 {
            h[i] = 1;
            (*LIST.0.get()).push(i as u32);
        }
    }
}

trait Abs {
    fn unsigned_abs_diff(self) -> u64;
}
impl Abs for u64 {
    fn unsigned_abs_diff(self) -> u64 {
        (self as i64).unsigned_abs()
    }
}

unsafe extern "C" fn switched(v: u64, cases: *const u64, pc: u64) {
    if !ON.load(Relaxed) {
        return;
    }
    // number of cases, width, cases
    let n = *cases as usize;
    for i in 0..n.min(64) {
        note(v, *cases.add(2 + i), pc.wrapping_add(i as u64 * 0x1_0001));
    }
}

macro_rules! traced {
    ($($name:ident $load:literal)*) => { $(
        // hands the return address on
        #[unsafe(naked)]
        #[no_mangle]
        pub unsafe extern "C" fn $name() {
            std::arch::naked_asm!($load, "mov rdx, [rsp]", "jmp {}", sym note)
        }
    )* }
}
traced! {
    __sanitizer_cov_trace_cmp1 "movzx edi, dil\nmovzx esi, sil"
    __sanitizer_cov_trace_cmp2 "movzx edi, di\nmovzx esi, si"
    __sanitizer_cov_trace_cmp4 "mov edi, edi\nmov esi, esi"
    __sanitizer_cov_trace_cmp8 ""
    __sanitizer_cov_trace_const_cmp1 "movzx edi, dil\nmovzx esi, sil"
    __sanitizer_cov_trace_const_cmp2 "movzx edi, di\nmovzx esi, si"
    __sanitizer_cov_trace_const_cmp4 "mov edi, edi\nmov esi, esi"
    __sanitizer_cov_trace_const_cmp8 ""
}
#[unsafe(naked)]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch() {
    std::arch::naked_asm!("mov rdx, [rsp]", "jmp {}", sym switched)
}

pub struct Map {
    edges: Vec<u8>,
    cmps: Vec<u8>,
    ends: std::collections::HashSet<u64>,
    pub edges_seen: usize,
    pub cmps_seen: usize,
}

/// what a run showed for the first time
#[derive(Clone, Copy, Default, PartialEq)]
pub struct New {
    pub edges: usize,
    pub counts: usize,
    pub cmps: usize,
    pub ends: usize,
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

impl Map {
    pub fn new() -> Map {
        let n: usize = unsafe { &*SECTIONS.0.get() }.iter().map(|(a, b)| b - a).sum();
        Map {
            edges: vec![0; n],
            cmps: vec![0; CMP],
            ends: Default::default(),
            edges_seen: 0,
            cmps_seen: 0,
        }
    }
    pub fn total(&self) -> usize {
        self.edges.len()
    }
    /// runs the library on a text and notes what of its code that reached
    pub fn signal(&mut self, schema: bool, text: &str, ops: u32, width: u32, multi: bool) -> New {
        let mut new = New::default();
        let sections = unsafe { &*SECTIONS.0.get() };
        for (a, b) in sections {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
        }
        ON.store(true, Relaxed);
        let end = std::panic::catch_unwind(|| gqlinst::run(schema, text, ops, width, multi)).unwrap_or(1);
        ON.store(false, Relaxed);
        let mut k = 0;
        for (a, b) in sections {
            for p in *a..*b {
                let c = unsafe { *(p as *const u8) };
                if c != 0 {
                    let bit = bucket(c);
                    if self.edges[k] & bit == 0 {
                        if self.edges[k] == 0 {
                            new.edges += 1;
                            self.edges_seen += 1;
                        } else {
                            new.counts += 1;
                        }
                        self.edges[k] |= bit;
                    }
                }
                k += 1;
            }
        }
        let list = unsafe { &mut *LIST.0.get() };
        let hits = unsafe { &mut *HITS.0.get() };
        for i in list.drain(..) {
            hits[i as usize] = 0;
            if self.cmps[i as usize] == 0 {
                self.cmps[i as usize] = 1;
                self.cmps_seen += 1;
                new.cmps += 1;
            }
        }
        if self.ends.len() < 4096 && self.ends.insert(end) {
            new.ends = 1;
        }
        new
    }
}
