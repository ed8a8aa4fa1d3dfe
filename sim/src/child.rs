//! One incarnation of the library: runs in a forked child and hands its
//! history, disk image and schedule back through shared memory.
use crate::plan::*;
use crate::sched;
use crate::simfs;
use crate::{p11, rng, seam};
use std::collections::HashMap;

const LOG_SZ: usize = 48 << 20;
const IMG_SZ: usize = 64 << 20;
const META_SZ: usize = 16 << 20;

#[repr(C)]
pub struct Shm {
    status: u64, // 0 running 1 done 2 killed 3 power 4 deadlock 5 livelock
    log_len: u64,
    img_len: u64,
    meta_len: u64,
    note_len: u64,
    note: [u8; 4096],
}

pub struct Area {
    base: *mut u8,
}
pub static mut SHM: Area = Area {
    base: std::ptr::null_mut(),
};

fn hdr() -> &'static mut Shm {
    unsafe { &mut *(SHM.base as *mut Shm) }
}
fn log_area() -> *mut u8 {
    unsafe { SHM.base.add(8192) }
}
fn img_area() -> *mut u8 {
    unsafe { SHM.base.add(8192 + LOG_SZ) }
}
fn meta_area() -> *mut u8 {
    unsafe { SHM.base.add(8192 + LOG_SZ + IMG_SZ) }
}

pub fn setup_shm() {
    unsafe {
        let sz = 8192 + LOG_SZ + IMG_SZ + META_SZ;
        let p = libc::mmap(
            std::ptr::null_mut(),
            sz,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            eprintln!("mmap failed");
            std::process::exit(3);
        }
        SHM.base = p as *mut u8;
        let c = libc::mmap(
            std::ptr::null_mut(),
            sched::NCOV,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if c == libc::MAP_FAILED {
            eprintln!("mmap failed");
            std::process::exit(3);
        }
        sched::COVP = c as *mut u8;
    }
}

pub fn log(e: &Ev) {
    let b = serde_json::to_vec(e).unwrap();
    let h = hdr();
    let n = h.log_len as usize;
    if n + b.len() + 1 > LOG_SZ {
        return;
    }
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), log_area().add(n), b.len());
        *log_area().add(n + b.len()) = b'\n';
    }
    h.log_len = (n + b.len() + 1) as u64;
}

pub fn note(s: String) {
    log(&Ev::Note { s });
}

// ------------------------------------------------------------ the fault plan

struct FState {
    f: Fault,
    armed: bool,
    seen: u32,
}

pub struct Ctx {
    faults: Vec<FState>,
    pub vars_s: HashMap<V, u64>,
    pub vars_o: HashMap<V, u64>,
    pub blobs: HashMap<V, Vec<u8>>,
    pub msgs: HashMap<V, MsgRec>,
    power_seed: u64,
    /// everything the random source gave out
    pub issued: Vec<u8>,
    /// operation running on each simulated thread
    pub knobs: std::collections::BTreeMap<String, i64>,
}
pub static mut CTX: Option<Box<Ctx>> = None;
#[allow(static_mut_refs)]
pub fn ctx() -> Option<&'static mut Ctx> {
    unsafe { CTX.as_deref_mut() }
}

fn cur_op() -> u32 {
    sched::what()
}

fn fault_at(io: Io, name: &str) -> Option<FaultKind> {
    let cx = ctx()?;
    let op = cur_op();
    let mut hit: Option<FaultKind> = None;
    for fs in cx.faults.iter_mut() {
        if !fs.armed {
            continue;
        }
        let m = match fs.f.io {
            Io::Any => io != Io::Rng,
            Io::Change => matches!(io, Io::Write | Io::Trunc | Io::Sync | Io::Delete),
            x => x == io,
        };
        if !m || (fs.f.only && fs.f.op != op) {
            continue;
        }
        if !fs.f.file.is_empty() {
            let neg = fs.f.file.starts_with('!');
            let pat = fs.f.file.trim_start_matches('!');
            if name.contains(pat) == neg {
                continue;
            }
        }
        let n = fs.seen;
        fs.seen += 1;
        if n >= fs.f.nth && n - fs.f.nth < fs.f.count && hit.is_none() {
            hit = Some(fs.f.kind);
        }
    }
    if let Some(kind) = hit {
        log(&Ev::Fault {
            id: op,
            io,
            kind,
            file: name.rsplit('/').next().unwrap_or("").to_string(),
        });
        match kind {
            FaultKind::Kill => die(2, true),
            FaultKind::Power => die(3, true),
            _ => {}
        }
    }
    hit
}

/// another process still holds the database: the running call feels it too
pub fn foreign_busy(name: &str) {
    static mut LAST: u32 = 0;
    let op = cur_op();
    unsafe {
        if LAST == op {
            return;
        }
        LAST = op;
    }
    log(&Ev::Fault {
        id: op,
        io: Io::Lock,
        kind: FaultKind::Busy(0),
        file: name.rsplit('/').next().unwrap_or("").to_string(),
    });
}

pub fn io_event(io: Io, name: &str) -> Option<FaultKind> {
    fault_at(io, name)
}

pub fn rand_fault(kind: &'static str) -> bool {
    let saved = sched::set_in_lib(false);
    let r = fault_at(Io::Rng, kind).is_some();
    sched::set_in_lib(saved);
    r
}

pub fn rand_issued(b: &[u8]) {
    if let Some(cx) = ctx() {
        if cx.issued.len() < 1 << 20 {
            cx.issued.extend_from_slice(b);
        }
    }
}

pub fn fault_choice(n: usize) -> usize {
    if sched::s().on { sched::choose(n) } else { 0 }
}

fn arm(id: u32) {
    if let Some(cx) = ctx() {
        for f in cx.faults.iter_mut() {
            if f.f.op == id {
                f.armed = true;
            }
        }
    }
}

// --------------------------------------------------------------- the endings

fn put_image(img: &simfs::Image) {
    let mut v: Vec<u8> = Vec::new();
    for (k, d) in img {
        v.extend_from_slice(&(k.len() as u32).to_le_bytes());
        v.extend_from_slice(k.as_bytes());
        v.extend_from_slice(&(d.len() as u32).to_le_bytes());
        v.extend_from_slice(d);
    }
    if v.len() > IMG_SZ {
        unsafe { libc::_exit(4) };
    }
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), img_area(), v.len()) };
    hdr().img_len = v.len() as u64;
}

fn get_image() -> simfs::Image {
    let n = hdr().img_len as usize;
    let b = unsafe { std::slice::from_raw_parts(img_area(), n) };
    let mut o = 0;
    let mut img = simfs::Image::new();
    let u = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
    while o + 4 <= n {
        let l = u(o);
        o += 4;
        let k = String::from_utf8_lossy(&b[o..o + l]).to_string();
        o += l;
        let d = u(o);
        o += 4;
        img.insert(k, b[o..o + d].to_vec());
        o += d;
    }
    img
}

/// Ends the process at once, as a crash does, leaving what survives.
pub fn die(status: u64, _crash: bool) -> ! {
    sched::set_in_lib(false);
    let cx = ctx();
    let power = status == 3;
    let img = if power {
        let mut r = rng::Rng::new(cx.map(|c| c.power_seed).unwrap_or(0));
        simfs::image_power(&mut r)
    } else {
        simfs::image_live()
    };
    put_image(&img);
    let sc = sched::s();
    let f = simfs::fs();
    let m = Meta {
        pre: sc.rec_pre.clone(),
        choices: sc.rec_choice.clone(),
        hash: sc.hash,
        switches: sc.switches,
        blocks: sc.blocks,
        now: sc.now,
        edges: sched::edges(),
        fs: f.stats.clone(),
        rng_calls: seam::rand().calls,
        leaks: f.leaks.clone(),
        rand_dups: vec![],
        npreempt: sc.rec_pre.len() as u64,
    };
    let b = serde_json::to_vec(&m).unwrap();
    if b.len() <= META_SZ {
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), meta_area(), b.len()) };
        hdr().meta_len = b.len() as u64;
    }
    hdr().status = status;
    unsafe {
        seam::raw_syscall(libc::SYS_exit_group, [0, 0, 0, 0, 0, 0]);
        libc::_exit(0)
    }
}

pub fn deadlock() -> ! {
    let d = sched::s().deadlock.clone().unwrap_or_default();
    set_note(&d);
    die(4, true)
}
pub fn livelock() -> ! {
    die(5, true)
}
fn set_note(s: &str) {
    let h = hdr();
    let n = s.len().min(4000);
    h.note[..n].copy_from_slice(&s.as_bytes()[..n]);
    h.note_len = n as u64;
}

// ------------------------------------------------------------- an incarnation

fn run_ops(c: u32, ops: &[OpRec]) {
    for o in ops {
        sched::yield_point(0xe000);
        sched::set_what(o.id);
        arm(o.id);
        log(&Ev::Inv { c, id: o.id });
        let (r, _) = p11::exec(&o.op);
        log(&Ev::Ret { c, id: o.id, r });
        sched::set_what(0);
    }
}

pub fn child_main(plan: &Plan, k: usize, image: &simfs::Image) -> ! {
    unsafe {
        libc::alarm(120);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if n >= 0 && std::env::var("KSIM_STDERR").is_err() {
            libc::dup2(n, 2);
        }
    }
    let inc = &plan.incs[k];
    let seed = rng::mix(plan.seed, 0x1000 + k as u64);
    seam::reseed(seed);
    {
        let f = simfs::fs();
        f.secrets = plan
            .secrets
            .iter()
            .map(|(n, v)| (n.clone(), v.0.clone()))
            .collect();
        f.unlink_lazy = plan.lazy_unlink;
    }
    simfs::load(image);
    sched::s().now = 0;
    for t in &inc.tamper {
        crate::tamper::apply(t);
    }
    simfs::fs().stats = Default::default();
    unsafe {
        sched::EDGES = 0;
        sched::EDGE_LIMIT = 200_000_000;
        CTX = Some(Box::new(Ctx {
            faults: inc
                .faults
                .iter()
                .map(|f| FState {
                    f: f.clone(),
                    armed: false,
                    seen: 0,
                })
                .collect(),
            vars_s: HashMap::new(),
            vars_o: HashMap::new(),
            blobs: HashMap::new(),
            msgs: HashMap::new(),
            power_seed: rng::mix(seed, 77),
            issued: Vec::new(),
            knobs: plan.knobs.clone(),
        }));
    }
    std::panic::set_hook(Box::new(|i| {
        let saved = sched::set_in_lib(false);
        note(format!("panic: {}", i));
        sched::set_in_lib(saved);
    }));
    // a fresh thread: per-thread state of the parent (hash seeds) must not
    // influence the run
    std::thread::scope(|sc| {
        let t = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, || sim_main(inc))
            .unwrap();
        let _ = t.join();
    });
    unsafe { libc::_exit(5) }
}

fn sim_main(inc: &Inc) -> ! {
    sched::start(&inc.sched);
    // only the concurrent part is subject to preemption
    sched::hold();
    run_ops(0, &inc.pre);
    if !inc.clients.is_empty() {
        sched::release();
        let fs: Vec<Box<dyn FnOnce() + Send>> = inc
            .clients
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let ops = ops.clone();
                let f: Box<dyn FnOnce() + Send> = Box::new(move || run_ops(i as u32 + 1, &ops));
                f
            })
            .collect();
        sched::run_clients(fs);
        sched::hold();
    }
    run_ops(0, &inc.post);
    die(if inc.end_power { 3 } else { 1 }, false)
}

/// Forks, runs one incarnation, collects its results.
pub fn run_inc(plan: &Plan, k: usize, image: &simfs::Image) -> (IncOut, simfs::Image) {
    let h = hdr();
    h.status = 0;
    h.log_len = 0;
    h.img_len = 0;
    h.meta_len = 0;
    h.note_len = 0;
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        eprintln!("fork failed");
        std::process::exit(3);
    }
    if pid == 0 {
        child_main(plan, k, image);
    }
    let mut st: libc::c_int = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if *libc::__errno_location() != libc::EINTR {
                eprintln!("waitpid failed");
                std::process::exit(3);
            }
        }
    }
    let note = String::from_utf8_lossy(&h.note[..h.note_len as usize]).to_string();
    let status = if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGALRM {
            Status::Timeout
        } else {
            Status::Signal(s)
        }
    } else {
        match h.status {
            1 => Status::Done,
            2 => Status::Killed,
            3 => {
                if libc::WEXITSTATUS(st) == 0 {
                    Status::PowerLost
                } else {
                    Status::Exit(libc::WEXITSTATUS(st))
                }
            }
            4 => Status::Deadlock(note),
            5 => Status::Livelock,
            _ => Status::Exit(libc::WEXITSTATUS(st)),
        }
    };
    let logb = unsafe { std::slice::from_raw_parts(log_area(), h.log_len as usize) };
    let mut ev = Vec::new();
    for l in logb.split(|c| *c == b'\n') {
        if l.is_empty() {
            continue;
        }
        match serde_json::from_slice::<Ev>(l) {
            Ok(e) => ev.push(e),
            Err(_) => break,
        }
    }
    let meta: Meta = if h.meta_len > 0 {
        let b = unsafe { std::slice::from_raw_parts(meta_area(), h.meta_len as usize) };
        serde_json::from_slice(b).unwrap_or_default()
    } else {
        Meta::default()
    };
    let img = get_image();
    (IncOut { status, ev, meta }, img)
}

pub struct RunOut {
    pub incs: Vec<IncOut>,
    pub images: Vec<simfs::Image>,
}

/// Runs all incarnations of a plan.  Stops early when one ends in a way that
/// no later one can follow (deadlock, abort, ...).
pub fn run_plan(plan: &Plan, templates: &dyn Fn(&str) -> simfs::Image) -> RunOut {
    let mut img = templates(&plan.image);
    let mut out = RunOut {
        incs: vec![],
        images: vec![],
    };
    for k in 0..plan.incs.len() {
        let (o, i) = run_inc(plan, k, &img);
        let go = matches!(
            o.status,
            Status::Done | Status::Killed | Status::PowerLost
        );
        out.incs.push(o);
        out.images.push(i.clone());
        if !go {
            break;
        }
        img = i;
    }
    out
}
