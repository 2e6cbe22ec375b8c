//! Simulated file system: the libc calls of this process (`open64`, `read`, `lseek64`,
//! `close`) go through here; paths below `/nomsim/` are served from simulated storage,
//! everything else is passed to the kernel.
use crate::io::Core;
use libc::{c_char, c_int, c_uint, c_void, off64_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::io::{ErrorKind, SeekFrom};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Entry {
    pub core: Core,
    /// errno of an injected read or seek error
    pub errno: i32,
    /// opening fails with this errno
    pub open_err: Option<i32>,
    /// that many opens are interrupted first
    pub open_eintr: u32,
    pub opens: u32,
}
#[derive(Default)]
struct Vfs {
    paths: BTreeMap<Vec<u8>, Entry>,
    fds: BTreeMap<i32, (Core, i32)>,
    opened: u64,
    closed: u64,
}
static VFS: Mutex<Option<Vfs>> = Mutex::new(None);
static ON: AtomicBool = AtomicBool::new(false);
pub const PREFIX: &str = "/nomsim/";

/// Mount one simulated file; everything mounted before is gone.
pub fn mount(path: &str, e: Entry) {
    let mut v = Vfs::default();
    v.paths.insert(path.as_bytes().to_vec(), e);
    *VFS.lock().unwrap() = Some(v);
    ON.store(true, SeqCst);
}
/// (opens, descriptors still open, opens that failed or were interrupted)
pub fn unmount() -> (u64, u64, u32) {
    ON.store(false, SeqCst);
    match VFS.lock().unwrap().take() {
        Some(v) => (v.opened, v.opened - v.closed, v.paths.values().map(|e| e.opens).sum()),
        None => (0, 0, 0),
    }
}

fn fail(e: i32) -> i64 {
    unsafe { *libc::__errno_location() = e };
    -1
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if ON.load(SeqCst) {
        let p = CStr::from_ptr(path).to_bytes();
        if p.starts_with(PREFIX.as_bytes()) {
            let mut g = VFS.lock().unwrap();
            let Some(v) = g.as_mut() else { return fail(libc::ENOENT) as c_int };
            let Some(e) = v.paths.get_mut(p) else { return fail(libc::ENOENT) as c_int };
            e.opens += 1;
            if e.open_eintr > 0 {
                e.open_eintr -= 1;
                return fail(libc::EINTR) as c_int;
            }
            if let Some(x) = e.open_err {
                return fail(x) as c_int;
            }
            if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & libc::O_TRUNC != 0 {
                return fail(libc::EACCES) as c_int;
            }
            let c = (e.core.clone(), e.errno);
            // a real descriptor number, so that descriptor checks elsewhere hold
            let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0) as c_int;
            v.opened += 1;
            v.fds.insert(fd, c);
            return fd;
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}

fn with<T>(fd: c_int, f: impl FnOnce(&mut (Core, i32)) -> T) -> Option<T> {
    VFS.lock().unwrap().as_mut().and_then(|v| v.fds.get_mut(&fd)).map(f)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if ON.load(SeqCst) && with(fd, |_| ()).is_some() {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        return match with(fd, |(c, e)| c.os_read(out).map_err(|k| if k == ErrorKind::Interrupted { libc::EINTR } else { *e })) {
            None => fail(libc::EBADF) as ssize_t,
            Some(Ok(n)) => n as ssize_t,
            Some(Err(e)) => fail(e) as ssize_t,
        };
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if ON.load(SeqCst) && with(fd, |_| ()).is_some() {
        let to = match whence {
            libc::SEEK_SET => SeekFrom::Start(off as u64),
            libc::SEEK_CUR => SeekFrom::Current(off),
            _ => SeekFrom::End(off),
        };
        return match with(fd, |(c, e)| {
            let hard = c.log.lock().unwrap().hard_fired;
            c.os_seek(to).map_err(|_| if c.log.lock().unwrap().hard_fired > hard { *e } else { libc::EINVAL })
        }) {
            None => fail(libc::EBADF),
            Some(Ok(n)) => n as off64_t,
            Some(Err(e)) => fail(e),
        };
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ON.load(SeqCst) {
        if let Some(v) = VFS.lock().unwrap().as_mut() {
            if v.fds.remove(&fd).is_some() {
                v.closed += 1;
            }
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
