//! Stands between the code under test and the system calls that change files, for one thread and
//! one directory: records every change, or makes the process appear to die at one of them (nothing
//! after it takes effect), or makes one of them fail.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    /// Opened for writing; created or emptied.
    Create(String),
    /// Opened for writing at the end or without being emptied.
    Open(String),
    Write(String, usize, Vec<u8>),
    Truncate(String, usize),
    Rename(String, String),
    Unlink(String),
    Mkdir(String),
    Rmdir(String),
    /// A change this layer has no model of.
    Other(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// From change `at` on nothing takes effect; if it is a write, its first `torn` bytes do.
    Die { at: usize, torn: usize },
    /// Change `at` fails with an input/output error, nothing else does.
    Fail { at: usize },
}

struct Session {
    root: String,
    fault: Fault,
    count: usize,
    log: Vec<Op>,
    fds: HashMap<c_int, (String, usize)>,
}

thread_local!(static SESSION: RefCell<Option<Session>> = const { RefCell::new(None) });

/// Runs `f` on this thread with the fault in place and returns the attempted changes under `root`.
pub fn with_fault<T>(root: &str, fault: Fault, f: impl FnOnce() -> T) -> (T, Vec<Op>) {
    SESSION.with(|s| *s.borrow_mut() = Some(Session { root: format!("{root}/"), fault, count: 0, log: vec![], fds: HashMap::new() }));
    let r = f();
    let log = SESSION.with(|s| s.borrow_mut().take()).map(|s| s.log).unwrap_or_default();
    (r, log)
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const EIO: c_int = 5;

enum Verdict {
    Go,
    /// Take effect for this many bytes only, then report success.
    Partial(usize),
    Fail,
}

/// What becomes of a change.
fn judge(op: impl FnOnce(&Session) -> Option<Op>) -> Verdict {
    SESSION
        .try_with(|cell| {
            let Ok(mut b) = cell.try_borrow_mut() else { return Verdict::Go };
            let Some(s) = b.as_mut() else { return Verdict::Go };
            let Some(op) = op(s) else { return Verdict::Go };
            let n = s.count;
            s.count += 1;
            s.log.push(op);
            match s.fault {
                Fault::Die { at, torn } if n == at && torn > 0 => Verdict::Partial(torn),
                Fault::Die { at, .. } if n >= at => Verdict::Fail,
                Fault::Fail { at } if n == at => Verdict::Fail,
                _ => Verdict::Go,
            }
        })
        .unwrap_or(Verdict::Go)
}

fn inside(s: &Session, path: *const c_char) -> Option<String> {
    let p = unsafe { CStr::from_ptr(path) }.to_str().ok()?;
    p.strip_prefix(&s.root).map(|r| r.to_string())
}

fn fail() -> c_long {
    unsafe { *__errno_location() = EIO };
    -1
}

const O_ACCMODE: c_int = 3;
const O_CREAT: c_int = 0o100;
const O_TRUNC: c_int = 0o1000;
const O_APPEND: c_int = 0o2000;

fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let writing = flags & O_ACCMODE != 0;
    let mut name = None;
    if writing {
        let v = judge(|s| {
            let p = inside(s, path)?;
            name = Some(p.clone());
            let exists = std::path::Path::new(&format!("{}{p}", s.root)).exists();
            Some(if flags & O_TRUNC != 0 || (flags & O_CREAT != 0 && !exists) { Op::Create(p) } else { Op::Open(p) })
        });
        if matches!(v, Verdict::Fail | Verdict::Partial(_)) {
            return fail() as c_int;
        }
    }
    let fd = unsafe { syscall(2, path, flags, mode) } as c_int;
    if fd >= 0 {
        let _ = SESSION.try_with(|c| {
            if let Ok(mut b) = c.try_borrow_mut() {
                if let Some(s) = b.as_mut() {
                    match name {
                        Some(n) => {
                            let at = if flags & O_APPEND != 0 { std::fs::metadata(format!("{}{n}", s.root)).map(|m| m.len() as usize).unwrap_or(0) } else { 0 };
                            s.fds.insert(fd, (n, at));
                        }
                        None => { s.fds.remove(&fd); }
                    }
                }
            }
        });
    }
    fd
}

#[no_mangle]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(path, flags, mode) }

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(path, flags, mode) }

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let v = judge(|s| {
        let (p, at) = s.fds.get(&fd)?.clone();
        Some(Op::Write(p, at, unsafe { std::slice::from_raw_parts(buf as *const u8, n) }.to_vec()))
    });
    let len = match v {
        Verdict::Go => n,
        Verdict::Partial(k) => k.min(n),
        Verdict::Fail => return fail() as isize,
    };
    let r = unsafe { syscall(1, fd, buf, len) } as isize;
    if r > 0 {
        let _ = SESSION.try_with(|c| {
            if let Ok(mut b) = c.try_borrow_mut() {
                if let Some(e) = b.as_mut().and_then(|s| s.fds.get_mut(&fd)) { e.1 += r as usize; }
            }
        });
    }
    if matches!(v, Verdict::Partial(_)) { return n as isize; }
    r
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const c_void, n: c_int) -> isize {
    let v = judge(|s| s.fds.get(&fd).map(|(p, _)| Op::Other(format!("writev {p}"))));
    if matches!(v, Verdict::Fail) { return fail() as isize; }
    unsafe { syscall(20, fd, iov, n) as isize }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let v = judge(|s| s.fds.get(&fd).map(|(p, _)| Op::Truncate(p.clone(), len as usize)));
    if matches!(v, Verdict::Fail) { return fail() as c_int; }
    unsafe { syscall(77, fd, len) as c_int }
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let v = judge(|s| match (inside(s, a), inside(s, b)) {
        (Some(a), Some(b)) => Some(Op::Rename(a, b)),
        (None, None) => None,
        (a, b) => Some(Op::Other(format!("rename {a:?} {b:?}"))),
    });
    if matches!(v, Verdict::Fail) { return fail() as c_int; }
    unsafe { syscall(82, a, b) as c_int }
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let v = judge(|s| inside(s, a).map(Op::Unlink));
    if matches!(v, Verdict::Fail) { return fail() as c_int; }
    unsafe { syscall(87, a) as c_int }
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    let v = judge(|s| inside(s, a).map(Op::Mkdir));
    if matches!(v, Verdict::Fail) { return fail() as c_int; }
    unsafe { syscall(83, a, mode) as c_int }
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    let v = judge(|s| inside(s, a).map(Op::Rmdir));
    if matches!(v, Verdict::Fail) { return fail() as c_int; }
    unsafe { syscall(84, a) as c_int }
}

pub type Disk = BTreeMap<String, Vec<u8>>;

/// The effect of a change on a model of the directory.
pub fn apply(disk: &mut Disk, op: &Op) {
    match op {
        Op::Create(p) => { disk.insert(p.clone(), vec![]); }
        Op::Open(_) | Op::Mkdir(_) | Op::Rmdir(_) | Op::Other(_) => {}
        Op::Write(p, at, bytes) => {
            let f = disk.entry(p.clone()).or_default();
            if f.len() < at + bytes.len() { f.resize(at + bytes.len(), 0); }
            f[*at..at + bytes.len()].copy_from_slice(bytes);
        }
        Op::Truncate(p, n) => { disk.entry(p.clone()).or_default().resize(*n, 0); }
        Op::Rename(a, b) => { if let Some(f) = disk.remove(a) { disk.insert(b.clone(), f); } }
        Op::Unlink(p) => { disk.remove(p); }
    }
}
