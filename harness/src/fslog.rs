//! A log of everything that is written to the files of a directory, so that their state at any
//! point (of a crash, that is) can be had. The functions of the C library that change files are
//! replaced by ones which make the same system call, and log it.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};

#[derive(Debug, Clone)]
pub enum Op {
    Create(PathBuf),
    Write(PathBuf, u64, Vec<u8>),
    Truncate(PathBuf, u64),
    Rename(PathBuf, PathBuf),
    Remove(PathBuf),
}

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static LOGS: Mutex<BTreeMap<PathBuf, Vec<Op>>> = Mutex::new(BTreeMap::new());

thread_local! {
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub struct Log(PathBuf);

impl Log {
    /// Log the changes to the files under the directory.
    pub fn start(root: &Path) -> Log {
        LOGS.lock().unwrap().insert(root.to_path_buf(), vec![]);
        ACTIVE.fetch_add(1, Ordering::SeqCst);
        Log(root.to_path_buf())
    }
    pub fn len(&self) -> usize {
        LOGS.lock().unwrap().get(&self.0).map(|v| v.len()).unwrap_or(0)
    }
    pub fn ops(&self) -> Vec<Op> {
        LOGS.lock().unwrap().get(&self.0).cloned().unwrap_or_default()
    }
}

impl Drop for Log {
    fn drop(&mut self) {
        ACTIVE.fetch_sub(1, Ordering::SeqCst);
        LOGS.lock().unwrap().remove(&self.0);
    }
}

pub type Files = BTreeMap<PathBuf, Vec<u8>>;

/// The files (by path relative to the root) after the first operations, and part of the next one.
pub fn state(root: &Path, start: &Files, ops: &[Op], n: usize, part: Option<usize>) -> Files {
    let mut f = start.clone();
    let rel = |p: &Path| p.strip_prefix(root).unwrap_or(p).to_path_buf();
    for (i, op) in ops.iter().enumerate().take(n + part.is_some() as usize) {
        match op {
            Op::Create(p) => {
                f.entry(rel(p)).or_default();
            }
            Op::Write(p, off, d) => {
                let d = if i == n { &d[..part.unwrap_or(0).min(d.len())] } else { &d[..] };
                let e = f.entry(rel(p)).or_default();
                let end = *off as usize + d.len();
                if e.len() < end {
                    e.resize(end, 0);
                }
                e[*off as usize..end].copy_from_slice(d);
            }
            Op::Truncate(p, l) => f.entry(rel(p)).or_default().resize(*l as usize, 0),
            Op::Rename(a, b) => {
                if let Some(d) = f.remove(&rel(a)) {
                    f.insert(rel(b), d);
                }
            }
            Op::Remove(p) => {
                f.remove(&rel(p));
            }
        }
    }
    f
}

/// The files of a directory.
pub fn read(root: &Path) -> Files {
    fn walk(root: &Path, d: &Path, f: &mut Files) {
        if let Ok(r) = std::fs::read_dir(d) {
            for e in r.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(root, &p, f);
                } else if let Ok(b) = std::fs::read(&p) {
                    f.insert(p.strip_prefix(root).unwrap().to_path_buf(), b);
                }
            }
        }
    }
    let mut f = Files::new();
    walk(root, root, &mut f);
    f
}

pub fn write_to(root: &Path, f: &Files) {
    for (p, d) in f {
        let p = root.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, d).unwrap();
    }
}

/// Does this file belong to a log?
fn logged(p: &Path) -> bool {
    LOGS.lock().map(|l| l.keys().any(|r| p.starts_with(r))).unwrap_or(false)
}

fn log(p: &Path, op: Op) {
    if let Ok(mut l) = LOGS.lock() {
        for (r, v) in l.iter_mut() {
            if p.starts_with(r) {
                v.push(op);
                return;
            }
        }
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    if ACTIVE.load(Ordering::Relaxed) == 0 {
        return None;
    }
    BUSY.try_with(|b| {
        if b.get() {
            return None;
        }
        b.set(true);
        let t = f();
        b.set(false);
        Some(t)
    })
    .ok()
    .flatten()
}

fn fd_path(fd: c_int) -> Option<PathBuf> {
    let p = std::fs::read_link(format!("/proc/self/fd/{}", fd)).ok()?;
    if logged(&p) {
        Some(p)
    } else {
        None
    }
}

unsafe fn path(p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()))
}

/// Before a write at the current position: file and position.
unsafe fn before(fd: c_int) -> Option<(PathBuf, u64)> {
    guard(|| {
        let e = *libc::__errno_location();
        let r = fd_path(fd).map(|p| {
            let append = libc::fcntl(fd, libc::F_GETFL) & libc::O_APPEND != 0;
            let off = if append {
                let mut st: libc::stat64 = std::mem::zeroed();
                libc::fstat64(fd, &mut st);
                st.st_size as u64
            } else {
                libc::lseek64(fd, 0, libc::SEEK_CUR) as u64
            };
            (p, off)
        });
        *libc::__errno_location() = e;
        r
    })
    .flatten()
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let at = before(fd);
    let r = libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    if let (Some((p, off)), true) = (at, r > 0) {
        guard(|| {
            let d = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
            log(&p.clone(), Op::Write(p, off, d));
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let at = before(fd);
    let r = libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
    if let (Some((p, off)), true) = (at, r > 0) {
        guard(|| {
            let mut d = vec![];
            for v in std::slice::from_raw_parts(iov, n as usize) {
                d.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            d.truncate(r as usize);
            log(&p.clone(), Op::Write(p, off, d));
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let r = libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    if r > 0 {
        guard(|| {
            if let Some(p) = fd_path(fd) {
                let d = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
                log(&p.clone(), Op::Write(p, off as u64, d));
            }
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    if r == 0 {
        guard(|| {
            if let Some(p) = fd_path(fd) {
                log(&p.clone(), Op::Truncate(p, len as u64));
            }
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let r = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode as libc::c_uint) as c_int;
    if r >= 0 && flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
        guard(|| {
            let p = path(p);
            if logged(&p) {
                log(&p, if flags & libc::O_TRUNC != 0 { Op::Truncate(p.clone(), 0) } else { Op::Create(p.clone()) });
            }
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let r = libc::syscall(libc::SYS_rename, a, b) as c_int;
    if r == 0 {
        guard(|| {
            let (a, b) = (path(a), path(b));
            if logged(&b) {
                log(&b.clone(), Op::Rename(a, b));
            }
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let r = libc::syscall(libc::SYS_unlink, p) as c_int;
    if r == 0 {
        guard(|| {
            let p = path(p);
            if logged(&p) {
                log(&p, Op::Remove(p.clone()));
            }
        });
    }
    r
}
