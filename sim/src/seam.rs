//! Interposed C symbols: every source of nondeterminism the library reaches
//! outside of its own code.  Defined in the executable, they take precedence
//! over libc / libcrypto for calls made by the library under test.
use crate::rng::Rng;
use crate::sched;
use libc::{c_int, c_long, c_uchar, c_uint, c_void, size_t};
use std::arch::asm;
use std::collections::HashMap;

/// simulation is active in this process (set in the warm parent before any
/// library code runs, so that hash seeds etc. are deterministic from the start)
pub static mut SIM: bool = false;

#[inline(always)]
pub unsafe fn raw_syscall(n: c_long, a: [usize; 6]) -> i64 {
    let ret: i64;
    unsafe {
        asm!("syscall", inlateout("rax") n => ret,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    ret
}

fn ret_errno(r: i64) -> c_long {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = (-r) as c_int };
        -1
    } else {
        r
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a1: usize,
    a2: usize,
    a3: usize,
    a4: usize,
    a5: usize,
    a6: usize,
) -> c_long {
    unsafe {
        if n == libc::SYS_futex && sched::is_sim_thread() {
            return ret_errno(sched::futex(a1, a2 as i32, a3 as u32, a4, a6 as u32));
        }
        if n == libc::SYS_getrandom && SIM {
            fill(a1 as *mut u8, a2);
            return a2 as c_long;
        }
        ret_errno(raw_syscall(n, [a1, a2, a3, a4, a5, a6]))
    }
}

pub struct RandState {
    pub rng: Rng,
    pub ctxs: Option<HashMap<usize, (u64, Rng)>>,
    pub nctx: u64,
    /// DRBG calls so far (generate + instantiate + RAND_METHOD)
    pub calls: u64,
    pub fails: u64,
}
pub static mut RAND: RandState = RandState {
    rng: Rng::zero(),
    ctxs: None,
    nctx: 0,
    calls: 0,
    fails: 0,
};
#[allow(static_mut_refs)]
pub fn rand() -> &'static mut RandState {
    unsafe { &mut *std::ptr::addr_of_mut!(RAND) }
}

unsafe fn fill(p: *mut u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts_mut(p, n) };
    rand().rng.fill(b);
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> isize {
    unsafe {
        if SIM {
            // (the hash seeds of the standard library ask with a flag, and
            // take no for an answer only once)
            if flags == 0 && sched::is_sim_thread() && rand_fault("getrandom") {
                *libc::__errno_location() = libc::EIO;
                return -1;
            }
            fill(buf as *mut u8, len);
            return len as isize;
        }
        ret_errno(raw_syscall(
            libc::SYS_getrandom,
            [buf as usize, len, flags as usize, 0, 0, 0],
        )) as isize
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    let r = unsafe { getrandom(buf, len, 0) };
    if r == len as isize { 0 } else { -1 }
}

/// base of simulated time: 2026-01-01
pub const T0: u64 = 1_767_225_600;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    unsafe {
        if SIM {
            let now = sched::s().now;
            (*ts).tv_sec = (T0 + now / 1_000_000_000) as i64;
            (*ts).tv_nsec = (now % 1_000_000_000) as i64;
            return 0;
        }
        ret_errno(raw_syscall(
            libc::SYS_clock_gettime,
            [clk as usize, ts as usize, 0, 0, 0, 0],
        )) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, _rem: *mut libc::timespec) -> c_int {
    unsafe {
        if SIM {
            let r = &*req;
            sched::sleep_ns(r.tv_sec as u64 * 1_000_000_000 + r.tv_nsec as u64);
            return 0;
        }
        ret_errno(raw_syscall(
            libc::SYS_nanosleep,
            [req as usize, 0, 0, 0, 0, 0],
        )) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    unsafe {
        if SIM {
            let r = &*req;
            let mut ns = r.tv_sec as u64 * 1_000_000_000 + r.tv_nsec as u64;
            if flags & libc::TIMER_ABSTIME != 0 {
                ns = ns.saturating_sub(T0 * 1_000_000_000 + sched::s().now);
            }
            sched::sleep_ns(ns);
            return 0;
        }
        -(raw_syscall(
            libc::SYS_clock_nanosleep,
            [clk as usize, flags as usize, req as usize, rem as usize, 0, 0],
        )) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    sched::yield_point(0xfffe);
    0
}

// ---------------------------------------------------------------- OpenSSL RNG

unsafe fn real(name: &std::ffi::CStr) -> *mut c_void {
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) };
    if p.is_null() {
        eprintln!("missing symbol {:?}", name);
        std::process::exit(3);
    }
    p
}

macro_rules! real_fn {
    ($name:literal, $t:ty) => {{
        static mut P: usize = 0;
        unsafe {
            if P == 0 {
                P = real($name) as usize;
            }
            std::mem::transmute::<usize, $t>(P)
        }
    }};
}

fn ctxs() -> &'static mut HashMap<usize, (u64, Rng)> {
    rand().ctxs.get_or_insert_with(HashMap::new)
}

/// asks the fault plan whether this use of the random source fails
fn rand_fault(kind: &'static str) -> bool {
    rand().calls += 1;
    let f = crate::child::rand_fault(kind);
    if f {
        rand().fails += 1;
    }
    f
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_RAND_instantiate(
    ctx: *mut c_void,
    strength: c_uint,
    pr: c_int,
    pstr: *const c_uchar,
    pstr_len: size_t,
    params: *const c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut c_void,
        c_uint,
        c_int,
        *const c_uchar,
        size_t,
        *const c_void,
    ) -> c_int;
    let f = real_fn!(c"EVP_RAND_instantiate", F);
    unsafe {
        if SIM {
            if rand_fault("inst") {
                return 0;
            }
            let r = f(ctx, strength, pr, pstr, pstr_len, params);
            if r == 1 {
                let st = rand();
                st.nctx += 1;
                let rng = st.rng.fork();
                ctxs().insert(ctx as usize, (st.nctx, rng));
            }
            return r;
        }
        f(ctx, strength, pr, pstr, pstr_len, params)
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_RAND_generate(
    ctx: *mut c_void,
    out: *mut c_uchar,
    outlen: size_t,
    strength: c_uint,
    pr: c_int,
    addin: *const c_uchar,
    addin_len: size_t,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut c_void,
        *mut c_uchar,
        size_t,
        c_uint,
        c_int,
        *const c_uchar,
        size_t,
    ) -> c_int;
    let f = real_fn!(c"EVP_RAND_generate", F);
    unsafe {
        if SIM {
            if rand_fault("gen") {
                return 0;
            }
            let r = f(ctx, out, outlen, strength, pr, addin, addin_len);
            if r == 1 {
                match ctxs().get_mut(&(ctx as usize)) {
                    Some((_, rng)) => {
                        let b = std::slice::from_raw_parts_mut(out, outlen);
                        rng.fill(b);
                        crate::child::rand_issued(b);
                    }
                    None => return 0,
                }
            }
            return r;
        }
        f(ctx, out, outlen, strength, pr, addin, addin_len)
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_RAND_reseed(
    ctx: *mut c_void,
    pr: c_int,
    ent: *const c_uchar,
    ent_len: size_t,
    addin: *const c_uchar,
    addin_len: size_t,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut c_void,
        c_int,
        *const c_uchar,
        size_t,
        *const c_uchar,
        size_t,
    ) -> c_int;
    let f = real_fn!(c"EVP_RAND_reseed", F);
    unsafe {
        if SIM && rand_fault("reseed") {
            return 0;
        }
        f(ctx, pr, ent, ent_len, addin, addin_len)
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_RAND_CTX_free(ctx: *mut c_void) {
    type F = unsafe extern "C" fn(*mut c_void);
    let f = real_fn!(c"EVP_RAND_CTX_free", F);
    unsafe {
        if SIM && sched::is_sim_thread() {
            ctxs().remove(&(ctx as usize));
        }
        f(ctx)
    }
}

unsafe extern "C" fn m_bytes(buf: *mut c_uchar, n: c_int) -> c_int {
    if rand_fault("bytes") {
        return 0;
    }
    unsafe {
        fill(buf, n as usize);
        crate::child::rand_issued(std::slice::from_raw_parts(buf, n as usize));
    }
    1
}
unsafe extern "C" fn m_seed(_: *const c_void, _: c_int) -> c_int {
    1
}
unsafe extern "C" fn m_add(_: *const c_void, _: c_int, _: f64) -> c_int {
    1
}
unsafe extern "C" fn m_cleanup() {}
unsafe extern "C" fn m_status() -> c_int {
    1
}

#[repr(C)]
struct RandMethod {
    seed: unsafe extern "C" fn(*const c_void, c_int) -> c_int,
    bytes: unsafe extern "C" fn(*mut c_uchar, c_int) -> c_int,
    cleanup: unsafe extern "C" fn(),
    add: unsafe extern "C" fn(*const c_void, c_int, f64) -> c_int,
    pseudorand: unsafe extern "C" fn(*mut c_uchar, c_int) -> c_int,
    status: unsafe extern "C" fn() -> c_int,
}
static METHOD: RandMethod = RandMethod {
    seed: m_seed,
    bytes: m_bytes,
    cleanup: m_cleanup,
    add: m_add,
    pseudorand: m_bytes,
    status: m_status,
};
unsafe extern "C" {
    fn RAND_set_rand_method(m: *const RandMethod) -> c_int;
}

/// Switches the process to simulated sources.  Called once in the warm parent.
pub fn enable() {
    unsafe {
        SIM = true;
        RAND.rng = Rng::new(0x6b72796f);
        if RAND_set_rand_method(&METHOD) != 1 {
            eprintln!("RAND_set_rand_method failed");
            std::process::exit(3);
        }
    }
}

/// Re-seeds the random source for one run.  Generators made before (in the
/// warm parent) get fresh streams too.
pub fn reseed(seed: u64) {
    let st = rand();
    st.rng = Rng::new(seed);
    let mut v: Vec<(u64, usize)> = ctxs().iter().map(|(k, v)| (v.0, *k)).collect();
    v.sort();
    for (i, k) in v {
        ctxs().insert(k, (i, Rng::new(crate::rng::mix(seed, i))));
    }
    st.calls = 0;
    st.fails = 0;
}

/// real time, for the limits of the driver only
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Wall(u64);
impl Wall {
    pub fn now() -> Wall {
        let mut ts = [0i64; 2];
        unsafe {
            raw_syscall(
                libc::SYS_clock_gettime,
                [libc::CLOCK_MONOTONIC as usize, ts.as_mut_ptr() as usize, 0, 0, 0, 0],
            )
        };
        Wall(ts[0] as u64 * 1_000_000_000 + ts[1] as u64)
    }
    pub fn secs(&self) -> f64 {
        (Wall::now().0 - self.0) as f64 / 1e9
    }
    pub fn plus(&self, s: u64) -> Wall {
        Wall(self.0 + s * 1_000_000_000)
    }
}
