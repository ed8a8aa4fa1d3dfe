//! Deterministic scheduler: real threads, exactly one of which runs at a time.
//!
//! Preemption points are every control-flow edge of the instrumented crates
//! (SanitizerCoverage callback, see rustc-wrap.sh), every call boundary and
//! every disk operation.  Blocking is intercepted at the futex system call, so
//! the real std locks of the library run unchanged, with their wait queues
//! decided here.  A thread that must wait while nobody can run is a deadlock.
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Blocked,
    Join,
    Done,
}

struct Th {
    baton: AtomicU32,
    st: St,
    addr: usize,
    bitset: u32,
    deadline: Option<u64>,
    timed_out: bool,
    what: u32,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, Default)]
pub struct SchedSpec {
    /// seed of the scheduling decisions
    pub seed: u64,
    /// log2 of the mean number of edges between preemptions; 0: none
    pub gap_bits: u32,
    /// at most this many preemptions
    pub max_preempt: u32,
    /// x/100 chance of a switch at a call boundary or disk operation
    pub yield_pct: u32,
    /// when present: recorded preemptions (edges since the last, thread)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub preempts: Option<Vec<(u64, u32)>>,
    /// when present: recorded free choices
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub choices: Option<Vec<u32>>,
}

pub struct Sched {
    th: Vec<Box<Th>>,
    cur: usize,
    rng: Rng,
    spec: SchedSpec,
    pub on: bool,
    npre: u32,
    gap: u64,
    choice_idx: usize,
    pub rec_pre: Vec<(u64, u32)>,
    pub rec_choice: Vec<u32>,
    held: bool,
    pub deadlock: Option<String>,
    pub hash: u64,
    pub switches: u64,
    pub blocks: u64,
    pub now: u64,
}

pub static mut S: Sched = Sched {
    th: Vec::new(),
    cur: 0,
    rng: Rng::zero(),
    spec: SchedSpec {
        seed: 0,
        gap_bits: 0,
        max_preempt: 0,
        yield_pct: 0,
        preempts: None,
        choices: None,
    },
    on: false,
    npre: 0,
    gap: 0,
    choice_idx: 0,
    rec_pre: Vec::new(),
    rec_choice: Vec::new(),
    held: false,
    deadlock: None,
    hash: 0,
    switches: 0,
    blocks: 0,
    now: 0,
};
/// edges left until the next planned preemption
static mut BUDGET: u64 = u64::MAX;
pub static mut EDGES: u64 = 0;
pub static mut EDGE_LIMIT: u64 = u64::MAX;
pub const NCOV: usize = 1 << 17;
static mut COV0: [u8; NCOV] = [0; NCOV];
/// edges seen; moved to shared memory so that forked children add to it
pub static mut COVP: *mut u8 = std::ptr::addr_of_mut!(COV0) as *mut u8;
static mut NGUARD: u32 = 0;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

#[allow(static_mut_refs)]
pub fn s() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}

pub fn me() -> usize {
    ME.with(|m| m.get())
}
pub fn is_sim_thread() -> bool {
    s().on && me() != usize::MAX
}
pub fn set_in_lib(v: bool) -> bool {
    IN_LIB.with(|i| i.replace(v))
}

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        let i = *g;
        *COVP.add((i as usize) & (NCOV - 1)) = 1;
        if IN_LIB.with(|i| i.get()) {
            EDGES += 1;
            if EDGES >= EDGE_LIMIT {
                crate::child::livelock();
            }
            BUDGET -= 1;
            if BUDGET == 0 {
                preempt(i);
            }
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, end: *mut u32) {
    unsafe {
        let mut p = start;
        while p < end {
            NGUARD += 1;
            *p = NGUARD;
            p = p.add(1);
        }
    }
}

pub fn total_edges() -> u32 {
    unsafe { NGUARD }
}

fn real_futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        crate::seam::raw_syscall(
            libc::SYS_futex,
            [
                a as *const _ as usize,
                (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize,
                v as usize,
                0,
                0,
                0,
            ],
        );
    }
}
fn real_futex_wake(a: &AtomicU32) {
    unsafe {
        crate::seam::raw_syscall(
            libc::SYS_futex,
            [
                a as *const _ as usize,
                (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize,
                1,
                0,
                0,
                0,
            ],
        );
    }
}

/// Registers the calling thread as sim thread 0 and starts a simulation.
pub fn start(spec: &SchedSpec) {
    let sc = s();
    sc.th.clear();
    sc.th.push(Box::new(new_th()));
    sc.cur = 0;
    sc.spec = spec.clone();
    sc.rng = Rng::new(spec.seed);
    sc.npre = 0;
    sc.choice_idx = 0;
    sc.rec_pre.clear();
    sc.rec_choice.clear();
    sc.deadlock = None;
    sc.hash = 0;
    sc.on = true;
    ME.with(|m| m.set(0));
    next_gap();
}

fn new_th() -> Th {
    Th {
        baton: AtomicU32::new(0),
        st: St::Run,
        addr: 0,
        bitset: 0,
        deadline: None,
        timed_out: false,
        what: 0,
    }
}

/// no preemption by edge count until release()
pub fn hold() {
    unsafe {
        s().held = true;
        BUDGET = u64::MAX;
    }
}
pub fn release() {
    s().held = false;
    next_gap();
}
pub fn what() -> u32 {
    let m = me();
    if m == usize::MAX || !s().on { 0 } else { s().th[m].what }
}

fn next_gap() {
    let sc = s();
    if sc.held {
        unsafe { BUDGET = u64::MAX };
        return;
    }
    let b = if let Some(p) = &sc.spec.preempts {
        match p.get(sc.npre as usize) {
            Some((g, _)) => *g,
            None => u64::MAX,
        }
    } else if sc.spec.gap_bits == 0 || sc.npre >= sc.spec.max_preempt {
        u64::MAX
    } else {
        // geometric-like around 2^gap_bits, heavy on small gaps
        let m = 1u64 << sc.spec.gap_bits;
        let u = sc.rng.below(1 << 20) as f64 / (1u64 << 20) as f64;
        let x = -(1.0 - u).ln() * m as f64;
        1 + x as u64
    };
    sc.gap = b;
    unsafe { BUDGET = b }
}

fn runnable(except: usize) -> Vec<usize> {
    let sc = s();
    (0..sc.th.len())
        .filter(|i| *i != except && sc.th[*i].st == St::Run)
        .collect()
}

/// one free choice among n alternatives
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let sc = s();
    let c = if let Some(ch) = &sc.spec.choices {
        let c = ch.get(sc.choice_idx).copied().unwrap_or(0) as usize;
        sc.choice_idx += 1;
        c % n
    } else {
        sc.rng.idx(n)
    };
    sc.rec_choice.push(c as u32);
    c
}

fn note(x: u64) {
    let sc = s();
    sc.hash = crate::rng::mix(sc.hash, x);
}

fn preempt(guard: u32) {
    let saved = set_in_lib(false);
    let sc = s();
    let i = sc.npre;
    sc.npre += 1;
    let cand = runnable(me());
    let used = sc.gap;
    if cand.is_empty() {
        sc.rec_pre.push((used, u32::MAX));
        next_gap();
        set_in_lib(saved);
        return;
    }
    let t = if let Some(p) = &sc.spec.preempts {
        let want = p[i as usize].1 as usize;
        if cand.contains(&want) { Some(want) } else { None }
    } else {
        Some(cand[sc.rng.idx(cand.len())])
    };
    sc.rec_pre.push((used, t.map(|x| x as u32).unwrap_or(u32::MAX)));
    next_gap();
    if let Some(t) = t {
        note((guard as u64) << 16 | (me() as u64) << 8 | t as u64);
        switch_to(t);
    }
    set_in_lib(saved);
}

fn switch_to(t: usize) {
    let sc = s();
    let m = me();
    if t == m {
        return;
    }
    sc.switches += 1;
    sc.cur = t;
    let mine: &AtomicU32 = unsafe { &*(&sc.th[m].baton as *const AtomicU32) };
    let other = &sc.th[t].baton;
    other.store(1, Ordering::SeqCst);
    real_futex_wake(other);
    wait_baton(mine);
}

fn wait_baton(b: &AtomicU32) {
    while b.load(Ordering::SeqCst) == 0 {
        real_futex_wait(b, 0);
    }
    b.store(0, Ordering::SeqCst);
}

/// Call boundaries and disk operations: switch with some probability.
pub fn yield_point(tag: u32) {
    if !is_sim_thread() {
        return;
    }
    let sc = s();
    if sc.th.len() < 2 {
        return;
    }
    let cand = runnable(me());
    if cand.is_empty() {
        return;
    }
    let go = if sc.spec.choices.is_some() {
        choose(2) == 1
    } else {
        let g = sc.rng.chance(sc.spec.yield_pct as u64, 100);
        sc.rec_choice.push(g as u32);
        g
    };
    if go {
        let saved = set_in_lib(false);
        let t = cand[choose(cand.len())];
        note(1 << 48 | (tag as u64) << 16 | (me() as u64) << 8 | t as u64);
        switch_to(t);
        set_in_lib(saved);
    }
}

/// The current thread cannot go on: hand over to somebody who can.
fn hand_over() {
    let sc = s();
    loop {
        let cand = runnable(usize::MAX);
        if !cand.is_empty() {
            let t = cand[choose(cand.len())];
            note(2 << 48 | (me() as u64) << 8 | t as u64);
            switch_to(t);
            return;
        }
        // nobody runnable: earliest timer
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in sc.th.iter().enumerate() {
            if t.st == St::Blocked {
                if let Some(d) = t.deadline {
                    if best.is_none() || d < best.unwrap().0 {
                        best = Some((d, i));
                    }
                }
            }
        }
        if let Some((d, i)) = best {
            sc.now = sc.now.max(d);
            sc.th[i].st = St::Run;
            sc.th[i].timed_out = true;
            continue;
        }
        // the joiner, if all others are done
        let alldone = sc
            .th
            .iter()
            .all(|t| t.st == St::Done || t.st == St::Join);
        if alldone {
            if let Some(j) = sc.th.iter().position(|t| t.st == St::Join) {
                sc.th[j].st = St::Run;
                continue;
            }
        }
        let desc: Vec<String> = sc
            .th
            .iter()
            .enumerate()
            .map(|(i, t)| format!("t{}:{:?}@op{}", i, t.st, t.what as i32))
            .collect();
        sc.deadlock = Some(desc.join(" "));
        crate::child::deadlock();
    }
}

pub fn set_what(op: u32) {
    if me() != usize::MAX {
        s().th[me()].what = op;
    }
}

/// Emulation of futex(2) for simulated threads.
pub unsafe fn futex(addr: usize, op: i32, val: u32, timeout: usize, val3: u32) -> i64 {
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let sc = s();
    let saved = set_in_lib(false);
    let r = match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if cur != val {
                -(libc::EAGAIN as i64)
            } else {
                let m = me();
                let bits = if cmd == libc::FUTEX_WAIT { u32::MAX } else { val3 };
                let deadline = if timeout == 0 {
                    None
                } else {
                    let ts = unsafe { &*(timeout as *const libc::timespec) };
                    let v = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                    Some(if cmd == libc::FUTEX_WAIT { sc.now + v } else { v })
                };
                sc.blocks += 1;
                let t = &mut sc.th[m];
                t.st = St::Blocked;
                t.addr = addr;
                t.bitset = bits;
                t.deadline = deadline;
                t.timed_out = false;
                hand_over();
                if s().th[m].timed_out {
                    -(libc::ETIMEDOUT as i64)
                } else {
                    0
                }
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let bits = if cmd == libc::FUTEX_WAKE { u32::MAX } else { val3 };
            let mut n = 0i64;
            while (n as u64) < val as u64 {
                let w: Vec<usize> = (0..sc.th.len())
                    .filter(|i| {
                        sc.th[*i].st == St::Blocked
                            && sc.th[*i].addr == addr
                            && (sc.th[*i].bitset & bits) != 0
                    })
                    .collect();
                if w.is_empty() {
                    break;
                }
                let k = w[choose(w.len())];
                sc.th[k].st = St::Run;
                sc.th[k].deadline = None;
                n += 1;
            }
            n
        }
        _ => -(libc::ENOSYS as i64),
    };
    set_in_lib(saved);
    r
}

/// Sleep in simulated time, letting others run.
pub fn sleep_ns(ns: u64) {
    let sc = s();
    if !is_sim_thread() {
        sc.now += ns;
        return;
    }
    let saved = set_in_lib(false);
    let m = me();
    let d = sc.now + ns;
    sc.th[m].st = St::Blocked;
    sc.th[m].addr = 0;
    sc.th[m].deadline = Some(d);
    sc.th[m].timed_out = false;
    hand_over();
    set_in_lib(saved);
}

/// Runs the closures as simulated threads and waits until all are done.
pub fn run_clients(fs: Vec<Box<dyn FnOnce() + Send>>) {
    let sc = s();
    let base = sc.th.len();
    for _ in 0..fs.len() {
        sc.th.push(Box::new(new_th()));
    }
    for (i, f) in fs.into_iter().enumerate() {
        let id = base + i;
        let b = &sc.th[id].baton as *const AtomicU32 as usize;
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                let b: &AtomicU32 = unsafe { &*(b as *const AtomicU32) };
                wait_baton(b);
                ME.with(|m| m.set(id));
                f();
                s().th[id].st = St::Done;
                hand_over();
                // never reached: nobody hands the baton to a finished thread
            })
            .unwrap();
    }
    let m = me();
    sc.th[m].st = St::Join;
    hand_over();
    // drop finished threads from the table (they stay parked until exit)
}

pub fn edges() -> u64 {
    unsafe { EDGES }
}
