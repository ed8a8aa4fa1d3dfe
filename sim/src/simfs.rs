//! Simulated disk behind the SQLite VFS interface (registered as the default
//! VFS, so the library's real SQLite code runs on it unchanged).
//!
//! Each file keeps its live bytes (what the running process sees) and its
//! durable bytes plus the list of un-synced writes.  A crash of the process
//! keeps the live bytes; a power loss keeps the durable bytes plus any subset
//! of the un-synced writes, each possibly torn at a 512-byte sector; directory
//! changes become durable when the directory is synced.
use crate::rng::Rng;
use crate::sched;
use rusqlite::ffi;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CStr};

pub const SECTOR: usize = 512;

#[derive(Clone, Debug)]
enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}

#[derive(Clone, Debug, Default)]
struct Inode {
    live: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<Pend>,
    shared: u32,
    reserved: Option<usize>,
    pend: Option<usize>,
    excl: Option<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Fs {
    inodes: Vec<Inode>,
    dir: BTreeMap<String, usize>,
    ddir: BTreeMap<String, usize>,
    handles: Vec<Option<Handle>>,
    /// other process holds the lock until this simulated time
    pub foreign_until: u64,
    pub stats: FsStats,
    /// byte strings that must never be written
    pub secrets: Vec<(String, Vec<u8>)>,
    pub leaks: Vec<String>,
    pub dead: bool,
    pub unlink_lazy: bool,
}

#[derive(Clone, Debug)]
struct Handle {
    ino: usize,
    lock: c_int,
    name: String,
    ro: bool,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct FsStats {
    pub reads: u64,
    pub writes: u64,
    pub syncs: u64,
    pub opens: u64,
    pub deletes: u64,
    pub truncs: u64,
    pub locks: u64,
    pub bytes: u64,
    pub busy_waits: u64,
}

pub static mut FS: Option<Box<Fs>> = None;
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe { FS.get_or_insert_with(|| Box::new(Fs::default())) }
}

pub type Image = BTreeMap<String, Vec<u8>>;

/// Loads a disk image: everything durable, nothing pending.
pub fn load(img: &Image) {
    let f = fs();
    let secrets = std::mem::take(&mut f.secrets);
    let lazy = f.unlink_lazy;
    *f = Fs::default();
    f.secrets = secrets;
    f.unlink_lazy = lazy;
    for (k, v) in img {
        let i = f.inodes.len();
        f.inodes.push(Inode {
            live: v.clone(),
            durable: v.clone(),
            ..Default::default()
        });
        f.dir.insert(k.clone(), i);
        f.ddir.insert(k.clone(), i);
    }
}

/// What survives when only the process dies.
pub fn image_live() -> Image {
    let f = fs();
    f.dir
        .iter()
        .map(|(k, i)| (k.clone(), f.inodes[*i].live.clone()))
        .collect()
}

fn apply(buf: &mut Vec<u8>, p: &Pend, keep: usize) {
    match p {
        Pend::Write(off, d) => {
            let n = keep.min(d.len());
            if n == 0 {
                return;
            }
            if buf.len() < off + n {
                buf.resize(off + n, 0);
            }
            buf[*off..off + n].copy_from_slice(&d[..n]);
        }
        Pend::Trunc(n) => buf.resize(*n, 0),
    }
}

/// What survives a power loss.  `mode` 0: nothing un-synced survives,
/// 1: a prefix, 2: any subset with torn writes.
pub fn image_power(rng: &mut Rng) -> Image {
    let f = fs();
    let mode = rng.below(4);
    let mut names: BTreeMap<String, usize> = f.ddir.clone();
    // pending directory changes
    let all: Vec<String> = f.dir.keys().chain(f.ddir.keys()).cloned().collect();
    for n in all {
        let l = f.dir.get(&n).copied();
        let d = f.ddir.get(&n).copied();
        if l != d && rng.chance(1, 2) {
            match l {
                Some(i) => {
                    names.insert(n.clone(), i);
                }
                None => {
                    names.remove(&n);
                }
            }
        }
    }
    let mut out = Image::new();
    for (n, i) in names {
        let ino = &f.inodes[i];
        let mut b = ino.durable.clone();
        let np = ino.pending.len();
        match mode {
            0 => {}
            1 => {
                let k = if np == 0 { 0 } else { rng.idx(np + 1) };
                for p in &ino.pending[..k] {
                    apply(&mut b, p, usize::MAX);
                }
            }
            _ => {
                for p in &ino.pending {
                    let r = rng.below(10);
                    if r < 4 {
                        apply(&mut b, p, usize::MAX);
                    } else if r < 6 {
                        if let Pend::Write(_, d) = p {
                            let ns = d.len().div_ceil(SECTOR);
                            let k = rng.idx(ns + 1) * SECTOR;
                            apply(&mut b, p, k);
                        }
                    }
                }
            }
        }
        out.insert(n, b);
    }
    out
}

fn sync_inode(i: usize) {
    let f = fs();
    let ino = &mut f.inodes[i];
    if !ino.pending.is_empty() {
        ino.durable = ino.live.clone();
        ino.pending.clear();
    }
    // creation of the file itself (the unix VFS syncs the directory of new
    // journals on their first sync)
    let names: Vec<String> = f
        .dir
        .iter()
        .filter(|(_, v)| **v == i)
        .map(|(k, _)| k.clone())
        .collect();
    for n in names {
        if f.ddir.get(&n) != Some(&i) {
            f.ddir = f.dir.clone();
        }
    }
}

fn scan(data: &[u8], name: &str) {
    let f = fs();
    f.stats.bytes += data.len() as u64;
    if f.secrets.is_empty() {
        return;
    }
    for (n, s) in &f.secrets {
        if s.len() <= data.len() && find(data, s) {
            if f.leaks.len() < 8 {
                f.leaks.push(format!("{} written in clear to {}", n, name));
            }
        }
    }
}

pub fn find(h: &[u8], n: &[u8]) -> bool {
    if n.is_empty() || n.len() > h.len() {
        return false;
    }
    unsafe {
        !libc::memmem(
            h.as_ptr() as *const c_void,
            h.len(),
            n.as_ptr() as *const c_void,
            n.len(),
        )
        .is_null()
    }
}

// ------------------------------------------------------------------- the VFS

#[repr(C)]
struct File {
    base: ffi::sqlite3_file,
    id: usize,
}

fn hid(f: *mut ffi::sqlite3_file) -> usize {
    unsafe { (*(f as *mut File)).id }
}
fn h(f: *mut ffi::sqlite3_file) -> &'static mut Handle {
    fs().handles[hid(f)].as_mut().unwrap()
}

/// consult the fault plan; Some(rc) = fail with rc
fn gate(class: crate::plan::Io, name: &str) -> Option<crate::plan::FaultKind> {
    let saved = sched::set_in_lib(false);
    sched::yield_point(0xf000 + class as u32);
    let r = crate::child::io_event(class, name);
    sched::set_in_lib(saved);
    r
}

use crate::plan::{FaultKind, Io};

unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    unsafe { x_unlock(f, ffi::SQLITE_LOCK_NONE) };
    fs().handles[hid(f)] = None;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_read(
    f: *mut ffi::sqlite3_file,
    buf: *mut c_void,
    n: c_int,
    off: ffi::sqlite3_int64,
) -> c_int {
    let name = h(f).name.clone();
    fs().stats.reads += 1;
    let fault = gate(Io::Read, &name);
    let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n as usize) };
    if fault.is_some() {
        return ffi::SQLITE_IOERR_READ;
    }
    let ino = &fs().inodes[h(f).ino];
    let off = off as usize;
    let have = ino.live.len().saturating_sub(off).min(b.len());
    if have > 0 {
        b[..have].copy_from_slice(&ino.live[off..off + have]);
    }
    if have < b.len() {
        b[have..].fill(0);
        return ffi::SQLITE_IOERR_SHORT_READ;
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_write(
    f: *mut ffi::sqlite3_file,
    buf: *const c_void,
    n: c_int,
    off: ffi::sqlite3_int64,
) -> c_int {
    let name = h(f).name.clone();
    fs().stats.writes += 1;
    let fault = gate(Io::Write, &name);
    let mut b = unsafe { std::slice::from_raw_parts(buf as *const u8, n as usize) };
    if h(f).ro {
        return ffi::SQLITE_READONLY;
    }
    scan(b, &name);
    let mut rc = ffi::SQLITE_OK;
    if let Some(k) = fault {
        // part of the data may have reached the disk
        let part = crate::child::fault_choice(3);
        b = match part {
            0 => &b[..0],
            1 => &b[..(b.len() / 2) & !(SECTOR - 1)],
            _ => &b[..b.len().saturating_sub(1)],
        };
        rc = match k {
            FaultKind::Full => ffi::SQLITE_FULL,
            _ => ffi::SQLITE_IOERR_WRITE,
        };
    }
    if !b.is_empty() {
        let ino = &mut fs().inodes[h(f).ino];
        let p = Pend::Write(off as usize, b.to_vec());
        apply(&mut ino.live, &p, usize::MAX);
        ino.pending.push(p);
    }
    rc
}

unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, sz: ffi::sqlite3_int64) -> c_int {
    let name = h(f).name.clone();
    fs().stats.truncs += 1;
    if gate(Io::Trunc, &name).is_some() {
        return ffi::SQLITE_IOERR_TRUNCATE;
    }
    let ino = &mut fs().inodes[h(f).ino];
    ino.live.resize(sz as usize, 0);
    ino.pending.push(Pend::Trunc(sz as usize));
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let name = h(f).name.clone();
    fs().stats.syncs += 1;
    if gate(Io::Sync, &name).is_some() {
        return ffi::SQLITE_IOERR_FSYNC;
    }
    sync_inode(h(f).ino);
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_size(f: *mut ffi::sqlite3_file, sz: *mut ffi::sqlite3_int64) -> c_int {
    unsafe { *sz = fs().inodes[h(f).ino].live.len() as i64 };
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_lock(f: *mut ffi::sqlite3_file, lvl: c_int) -> c_int {
    let name = h(f).name.clone();
    fs().stats.locks += 1;
    match gate(Io::Lock, &name) {
        Some(FaultKind::Busy(ms)) => {
            fs().foreign_until = sched::s().now + ms * 1_000_000;
        }
        Some(_) => return ffi::SQLITE_IOERR_LOCK,
        None => {}
    }
    let me = hid(f);
    let hd = h(f);
    if hd.lock >= lvl {
        return ffi::SQLITE_OK;
    }
    if fs().foreign_until > sched::s().now {
        crate::child::foreign_busy(&name);
        return ffi::SQLITE_BUSY;
    }
    let ino = &mut fs().inodes[hd.ino];
    match lvl {
        ffi::SQLITE_LOCK_SHARED => {
            if ino.excl.is_some_and(|x| x != me) || ino.pend.is_some_and(|x| x != me) {
                return ffi::SQLITE_BUSY;
            }
            ino.shared += 1;
        }
        ffi::SQLITE_LOCK_RESERVED => {
            if ino.reserved.is_some_and(|x| x != me) {
                return ffi::SQLITE_BUSY;
            }
            ino.reserved = Some(me);
        }
        _ => {
            if ino.pend.is_some_and(|x| x != me) || ino.reserved.is_some_and(|x| x != me) {
                return ffi::SQLITE_BUSY;
            }
            ino.pend = Some(me);
            if ino.shared > 1 {
                hd.lock = ffi::SQLITE_LOCK_PENDING;
                return ffi::SQLITE_BUSY;
            }
            ino.excl = Some(me);
        }
    }
    hd.lock = lvl;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_unlock(f: *mut ffi::sqlite3_file, lvl: c_int) -> c_int {
    let me = hid(f);
    let hd = h(f);
    if hd.lock <= lvl {
        return ffi::SQLITE_OK;
    }
    let ino = &mut fs().inodes[hd.ino];
    for l in [&mut ino.excl, &mut ino.pend, &mut ino.reserved] {
        if *l == Some(me) {
            *l = None;
        }
    }
    if lvl == ffi::SQLITE_LOCK_NONE && hd.lock >= ffi::SQLITE_LOCK_SHARED {
        ino.shared = ino.shared.saturating_sub(1);
    }
    hd.lock = lvl;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_check_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let ino = &fs().inodes[h(f).ino];
    let foreign = fs().foreign_until > sched::s().now;
    unsafe { *out = (ino.reserved.is_some() || ino.excl.is_some() || foreign) as c_int };
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_fcntl(_f: *mut ffi::sqlite3_file, _op: c_int, _p: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector(_f: *mut ffi::sqlite3_file) -> c_int {
    SECTOR as c_int
}
unsafe extern "C" fn x_devchar(_f: *mut ffi::sqlite3_file) -> c_int {
    0
}

static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 1,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_check_reserved),
    xFileControl: Some(x_fcntl),
    xSectorSize: Some(x_sector),
    xDeviceCharacteristics: Some(x_devchar),
    xShmMap: None,
    xShmLock: None,
    xShmBarrier: None,
    xShmUnmap: None,
    xFetch: None,
    xUnfetch: None,
};

unsafe extern "C" fn v_open(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    file: *mut ffi::sqlite3_file,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    unsafe {
        (*file).pMethods = std::ptr::null();
        let f = fs();
        f.stats.opens += 1;
        let nm = if name.is_null() {
            format!("/tmp-anon-{}", f.handles.len())
        } else {
            CStr::from_ptr(name).to_string_lossy().to_string()
        };
        if gate(Io::Open, &nm).is_some() {
            return ffi::SQLITE_CANTOPEN;
        }
        let ino = match f.dir.get(&nm) {
            Some(i) => *i,
            None => {
                if flags & ffi::SQLITE_OPEN_CREATE == 0 {
                    return ffi::SQLITE_CANTOPEN;
                }
                let i = f.inodes.len();
                f.inodes.push(Inode::default());
                f.dir.insert(nm.clone(), i);
                i
            }
        };
        let id = f.handles.len();
        f.handles.push(Some(Handle {
            ino,
            lock: ffi::SQLITE_LOCK_NONE,
            name: nm,
            ro: flags & ffi::SQLITE_OPEN_READONLY != 0,
        }));
        let fl = file as *mut File;
        (*fl).id = id;
        (*fl).base.pMethods = &METHODS;
        if !out.is_null() {
            *out = flags;
        }
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_delete(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    sync_dir: c_int,
) -> c_int {
    let nm = unsafe { CStr::from_ptr(name).to_string_lossy().to_string() };
    let f = fs();
    f.stats.deletes += 1;
    if gate(Io::Delete, &nm).is_some() {
        return ffi::SQLITE_IOERR_DELETE;
    }
    if f.dir.remove(&nm).is_none() {
        return ffi::SQLITE_IOERR_DELETE_NOENT;
    }
    if sync_dir != 0 || !f.unlink_lazy {
        f.ddir = f.dir.clone();
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_access(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    let nm = unsafe { CStr::from_ptr(name).to_string_lossy().to_string() };
    let f = fs();
    let r = match f.dir.get(&nm) {
        // the unix VFS treats empty files as absent for existence checks
        Some(i) => !(flags == ffi::SQLITE_ACCESS_EXISTS && f.inodes[*i].live.is_empty()),
        None => false,
    };
    unsafe { *out = r as c_int };
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_full(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    n: c_int,
    out: *mut c_char,
) -> c_int {
    unsafe {
        let b = CStr::from_ptr(name).to_bytes_with_nul();
        if b.len() > n as usize {
            return ffi::SQLITE_CANTOPEN;
        }
        std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len());
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_random(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let b = unsafe { std::slice::from_raw_parts_mut(out as *mut u8, n as usize) };
    crate::seam::rand().rng.fill(b);
    n
}
unsafe extern "C" fn v_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    fs().stats.busy_waits += 1;
    sched::sleep_ns(us as u64 * 1000);
    us
}
unsafe extern "C" fn v_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    unsafe {
        *out = 2440587.5
            + (crate::seam::T0 as f64 + sched::s().now as f64 / 1e9) / 86400.0
    };
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_lasterr(_v: *mut ffi::sqlite3_vfs, _n: c_int, _o: *mut c_char) -> c_int {
    0
}

pub fn register() {
    let v = Box::new(ffi::sqlite3_vfs {
        iVersion: 1,
        szOsFile: std::mem::size_of::<File>() as c_int,
        mxPathname: 512,
        pNext: std::ptr::null_mut(),
        zName: c"simfs".as_ptr(),
        pAppData: std::ptr::null_mut(),
        xOpen: Some(v_open),
        xDelete: Some(v_delete),
        xAccess: Some(v_access),
        xFullPathname: Some(v_full),
        xDlOpen: None,
        xDlError: None,
        xDlSym: None,
        xDlClose: None,
        xRandomness: Some(v_random),
        xSleep: Some(v_sleep),
        xCurrentTime: Some(v_time),
        xGetLastError: Some(v_lasterr),
        xCurrentTimeInt64: None,
        xSetSystemCall: None,
        xGetSystemCall: None,
        xNextSystemCall: None,
    });
    let rc = unsafe { ffi::sqlite3_vfs_register(Box::into_raw(v), 1) };
    if rc != ffi::SQLITE_OK {
        eprintln!("sqlite3_vfs_register: {}", rc);
        std::process::exit(3);
    }
}

/// every file content, live and durable, plus un-synced data (leak checks)
pub fn file_names() -> Vec<String> {
    fs().dir.keys().cloned().collect()
}
