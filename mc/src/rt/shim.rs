//! Definitions of the libc functions used by the crate, std, SQLite and tempfile. They take precedence over
//! libc's for everything linked into this binary. Outside a controlled execution they only forward.
use super::sched::{self, me, me_loud};
use super::sys::{ret, set_errno, syscall4, syscall6};
use crate::ev;
use libc::*;
use std::sync::atomic::{AtomicU8, Ordering::*};

macro_rules! real {
    ($n:expr, $($t:tt)*) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = dlsym(RTLD_NEXT, $n.as_ptr() as *const c_char) as usize;
            P.store(p, Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" $($t)*>(p)
    }};
}

// fd classes
pub const C_NONE: u8 = 0;
pub const C_VALUES: u8 = 1;
pub const C_SNAP: u8 = 2;
pub const C_DIR: u8 = 3;
pub const C_MANIFEST: u8 = 4;
pub const C_OTHER: u8 = 5;

static FDC: [AtomicU8; 4096] = [const { AtomicU8::new(0) }; 4096];
static mut ROOT: [u8; 256] = [0; 256];
static mut ROOT_LEN: usize = 0;
/// 0: FICLONE unsupported (EOPNOTSUPP), 1: emulated by copying
static CLONE: AtomicU8 = AtomicU8::new(0);

pub fn set_root(p: &str) {
    unsafe {
        ROOT_LEN = p.len();
        let r = &raw mut ROOT as *mut u8;
        std::ptr::copy_nonoverlapping(p.as_ptr(), r, p.len());
    }
}
pub fn set_clone_support(b: bool) {
    CLONE.store(b as u8, SeqCst);
}
fn root() -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(&raw const ROOT as *const u8, ROOT_LEN) }
}
pub fn fd_class(fd: c_int) -> u8 {
    if fd < 0 || fd as usize >= FDC.len() {
        C_NONE
    } else {
        FDC[fd as usize].load(Relaxed)
    }
}
fn set_class(fd: c_int, c: u8) {
    if fd >= 0 && (fd as usize) < FDC.len() {
        FDC[fd as usize].store(c, Relaxed)
    }
}
unsafe fn cpath<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() {
        return b"";
    }
    std::ffi::CStr::from_ptr(p).to_bytes()
}
pub fn path_class(p: &[u8]) -> u8 {
    let r = root();
    if r.is_empty() || !p.starts_with(r) {
        return C_NONE;
    }
    let base = p.rsplit(|&c| c == b'/').next().unwrap();
    let parent = {
        let l = p.len() - base.len();
        p[..l.saturating_sub(1)].rsplit(|&c| c == b'/').next().unwrap_or(b"")
    };
    if base.starts_with(b"manifest.db") {
        C_MANIFEST
    } else if parent.starts_with(b"snapshot-") {
        C_SNAP
    } else if base.starts_with(b"values-") {
        C_VALUES
    } else if base.starts_with(b"snapshot-") {
        C_DIR
    } else {
        C_OTHER
    }
}
fn short(p: &[u8]) -> String {
    let r = root();
    let q = p.strip_prefix(r).unwrap_or(p);
    String::from_utf8_lossy(q).into_owned()
}
fn is_point(c: u8) -> bool {
    matches!(c, C_VALUES | C_SNAP | C_DIR)
}
macro_rules! point {
    ($c:expr) => {
        if is_point($c) && me_loud().is_some() {
            sched::point()
        }
    };
}

// Faults. Each call site offers a list of errnos; 0 means a short transfer.
fn fault(c: u8, what: &'static str, opts: &[i32]) -> Option<i32> {
    let Some(me) = me_loud() else { return None };
    let s = sched::g();
    if s.fault_mask & (1 << c) == 0 {
        return None;
    }
    if s.fault_pair != 0 {
        if me != 0 {
            return None;
        }
        s.fault_seq += 1;
        if s.fault_pair == 2 {
            if s.fault_at != s.fault_seq {
                return None;
            }
            if s.fault_what != what {
                ev!("not comparable: {} failed, its counterpart is {}", s.fault_what, what);
                sched::finish_ok();
            }
            ev!("FAULT repeated: {} -> errno {}", what, s.fault_err);
            return Some(s.fault_err);
        }
    }
    let k = sched::choose(sched::K_FAULT, 1 + opts.len(), 0x33333330);
    if k == 0 {
        None
    } else {
        ev!("FAULT injected: {} -> errno {}", what, opts[k - 1]);
        if sched::has_shared() {
            sched::note_fault(what, opts[k - 1]);
        }
        if s.fault_pair == 1 {
            s.fault_at = s.fault_seq;
            s.fault_err = opts[k - 1];
            s.fault_what = what;
        }
        Some(opts[k - 1])
    }
}
/// Crash point before a mutating operation; for writes of n bytes also torn at some lengths.
/// Returns the number of bytes to write before dying.
fn crash(c: u8, what: &str, n: usize) -> Option<usize> {
    if me_loud().is_none() {
        return None;
    }
    let s = sched::g();
    if s.crash_mask & (1 << c) == 0 {
        return None;
    }
    let mut lens = [0usize; 5];
    let mut k = 1;
    for l in [1, n / 2, 4096, n.saturating_sub(1)] {
        if l > 0 && l < n && !lens[..k].contains(&l) {
            lens[k] = l;
            k += 1;
        }
    }
    let i = sched::choose(sched::K_CRASH, 1 + k, 0x44444440);
    if i == 0 {
        return None;
    }
    ev!("CRASH at {} after {} of {} bytes", what, lens[i - 1], n);
    sched::note_fault(what, lens[i - 1] as i32);
    Some(lens[i - 1])
}
fn die() -> ! {
    sched::shared().status = sched::ST_CRASHED;
    super::sys::exit_now(0)
}
macro_rules! crash_point {
    ($c:expr, $what:expr) => {
        if crash($c, $what, 0).is_some() {
            die()
        }
    };
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let c = if me().is_some() { path_class(cpath(path)) } else { C_NONE };
    if c != C_NONE {
        point!(c);
        if flags & O_CREAT != 0 {
            crash_point!(c, "open(O_CREAT)");
        }
        // SQLite immediately tries again read-only. Whatever makes opening fail still does so then.
        let s = sched::g();
        if c == C_MANIFEST && s.open_fails != 0 && me_loud().is_some() {
            let e = std::mem::take(&mut s.open_fails);
            if flags & (O_RDWR | O_WRONLY) == 0 {
                set_errno(e);
                return -1;
            }
        }
        if let Some(e) = fault(c, "open", if flags & O_CREAT != 0 { &[EMFILE, ENOSPC] } else { &[EMFILE] }) {
            if c == C_MANIFEST && flags & O_RDWR != 0 {
                s.open_fails = e;
            }
            set_errno(e);
            return -1;
        }
    }
    let r = ret(syscall4(SYS_openat, dirfd as i64, path as i64, flags as i64, mode as i64)) as c_int;
    if r >= 0 {
        set_class(r, c);
    }
    if c != C_NONE {
        ev!("open {} flags {:#x} -> {}", short(cpath(path)), flags, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let c = fd_class(fd);
    if c != C_NONE {
        point!(c);
        if me().is_some() {
            ev!("close fd {}", fd);
        }
    }
    set_class(fd, C_NONE);
    let r = ret(syscall4(SYS_close, fd as i64, 0, 0, 0)) as c_int;
    if c != C_NONE && me().is_some() {
        sched::lock_released();
    }
    r
}
unsafe fn dup_class(old: c_int, new: i64) -> c_int {
    if new >= 0 {
        set_class(new as c_int, fd_class(old));
    }
    new as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    dup_class(fd, ret(syscall4(SYS_dup, fd as i64, 0, 0, 0)))
}
macro_rules! rw {
    ($name:ident ( $($a:ident : $t:ty),* ), $fd:ident, $n:expr, $sys:expr, write=$w:expr, |$m:ident| $short:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> ssize_t {
            let c = fd_class($fd);
            if c != C_NONE && me_loud().is_some() {
                point!(c);
                let n: usize = $n;
                if $w {
                    if let Some(k) = crash(c, stringify!($name), n) {
                        if k > 0 { let $m = k; let _ = $short; }
                        die()
                    }
                }
                let opts: &[i32] = if $w { if n > 1 { &[ENOSPC, EIO, 0] } else { &[ENOSPC, EIO] } } else if n > 1 { &[EIO, 0] } else { &[EIO] };
                if let Some(e) = fault(c, stringify!($name), opts) {
                    if e == 0 { let $m = (n / 2).max(1); return ret($short) as ssize_t; }
                    set_errno(e);
                    return -1;
                }
                let r = ret($sys) as ssize_t;
                ev!("{}(fd {}, n {}) -> {}", stringify!($name), $fd, n, r);
                return r;
            }
            ret($sys) as ssize_t
        }
    };
}
rw!(write(fd: c_int, buf: *const c_void, n: size_t), fd, n, syscall4(SYS_write, fd as i64, buf as i64, n as i64, 0), write = true,
    |m| syscall4(SYS_write, fd as i64, buf as i64, m as i64, 0));
rw!(pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t), fd, n, syscall4(SYS_pwrite64, fd as i64, buf as i64, n as i64, off), write = true,
    |m| syscall4(SYS_pwrite64, fd as i64, buf as i64, m as i64, off));
rw!(read(fd: c_int, buf: *mut c_void, n: size_t), fd, n, syscall4(SYS_read, fd as i64, buf as i64, n as i64, 0), write = false,
    |m| syscall4(SYS_read, fd as i64, buf as i64, m as i64, 0));
rw!(pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t), fd, n, syscall4(SYS_pread64, fd as i64, buf as i64, n as i64, off), write = false,
    |m| syscall4(SYS_pread64, fd as i64, buf as i64, m as i64, off));
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if fd_class(fd) != C_NONE && cnt > 0 {
        // One buffer at a time: a legal short transfer.
        for i in 0..cnt as usize {
            let v = *iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
    }
    ret(syscall4(SYS_writev, fd as i64, iov as i64, cnt as i64, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if fd_class(i) != C_NONE || fd_class(o) != C_NONE {
        // Make every transfer between tracked files go through read/write (std falls back).
        set_errno(EXDEV);
        return -1;
    }
    ret(syscall6(SYS_copy_file_range, i as i64, io as i64, o as i64, oo as i64, n as i64, fl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if fd_class(i) != C_NONE || fd_class(o) != C_NONE {
        set_errno(EINVAL);
        return -1;
    }
    ret(syscall4(SYS_sendfile, o as i64, i as i64, off as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if fd_class(i) != C_NONE || fd_class(o) != C_NONE {
        set_errno(EINVAL);
        return -1;
    }
    ret(syscall6(SYS_splice, i as i64, io as i64, o as i64, oo as i64, n as i64, fl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    let c = fd_class(fd);
    if wh != SEEK_SET && wh != SEEK_CUR {
        point!(c);
    }
    let r = ret(syscall4(SYS_lseek, fd as i64, off, wh as i64, 0));
    if c != C_NONE && me_loud().is_some() {
        ev!("lseek(fd {}, {}, {}) -> {}", fd, off, wh, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, wh: c_int) -> off_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let c = fd_class(fd);
    point!(c);
    if c != C_NONE {
        crash_point!(c, "ftruncate");
        if let Some(e) = fault(c, "ftruncate", &[EIO]) {
            set_errno(e);
            return -1;
        }
    }
    let r = ret(syscall4(SYS_ftruncate, fd as i64, len, 0, 0)) as c_int;
    if c != C_NONE && me_loud().is_some() {
        ev!("ftruncate(fd {}, {}) -> {}", fd, len, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    let c = fd_class(fd);
    point!(c);
    if c != C_NONE {
        crash_point!(c, "fallocate");
        if let Some(e) = fault(c, "fallocate", &[EIO, EOPNOTSUPP]) {
            set_errno(e);
            return -1;
        }
    }
    let r = ret(syscall4(SYS_fallocate, fd as i64, mode as i64, off, len)) as c_int;
    if c != C_NONE && me_loud().is_some() {
        ev!("fallocate(fd {}, mode {:#x}, {}, {}) -> {}", fd, mode, off, len, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: off_t, len: off_t) -> c_int {
    fallocate64(fd, mode, off, len)
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let raw = |cmd: c_int| ret(syscall4(SYS_fcntl, fd as i64, cmd as i64, arg as i64, 0)) as c_int;
    if cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC {
        if let Some(e) = fault(fd_class(fd), "dup", &[EMFILE]) {
            set_errno(e);
            return -1;
        }
        return dup_class(fd, raw(cmd) as i64);
    }
    let c = fd_class(fd);
    if !is_point(c) || me().is_none() {
        return raw(cmd);
    }
    if me_loud().is_none() && !matches!(cmd, F_OFD_SETLKW | F_SETLKW) {
        return raw(cmd);
    }
    if !matches!(cmd, F_OFD_SETLK | F_OFD_SETLKW | F_SETLK | F_SETLKW | F_OFD_GETLK | F_GETLK) {
        return raw(cmd);
    }
    point!(c);
    let fl = &*(arg as *const flock64);
    if let Some(e) = fault(c, "fcntl lock", &[ENOLCK]) {
        set_errno(e);
        return -1;
    }
    loop {
        let wait = cmd == F_OFD_SETLKW || cmd == F_SETLKW;
        let r = raw(match cmd {
            F_OFD_SETLKW => F_OFD_SETLK,
            F_SETLKW => F_SETLK,
            x => x,
        });
        ev!("fcntl lock(fd {}, {}type {} {}+{}) -> {}", fd, if wait { "wait " } else { "" }, fl.l_type, fl.l_start, fl.l_len, r);
        if r == 0 {
            // Unlocks, downgrades: someone may go on.
            sched::lock_released();
            return 0;
        }
        let e = *__errno_location();
        if wait && (e == EAGAIN || e == EACCES) {
            sched::wait_for_lock(me().unwrap());
            continue;
        }
        set_errno(e);
        return r;
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let c = fd_class(fd);
    let raw = |op: c_int| ret(syscall4(SYS_flock, fd as i64, op as i64, 0, 0)) as c_int;
    if !is_point(c) || me().is_none() {
        return raw(op);
    }
    // Even a quiet thread that has to wait must let the others go on.
    if me_loud().is_none() && op & LOCK_NB != 0 {
        return raw(op);
    }
    point!(c);
    if let Some(e) = fault(c, "flock", &[ENOLCK]) {
        set_errno(e);
        return -1;
    }
    let mut first = true;
    loop {
        let r = raw(op | LOCK_NB);
        if std::mem::take(&mut first) {
            // Even a failed conversion drops the lock already held: others may go on.
            sched::lock_released();
        }
        ev!("flock(fd {}, {:#x}) -> {}", fd, op, r);
        if r == 0 {
            sched::lock_released();
            return 0;
        }
        let e = *__errno_location();
        if op & LOCK_NB == 0 && e == EWOULDBLOCK {
            sched::wait_for_lock(me().unwrap());
            continue;
        }
        set_errno(e);
        return r;
    }
}
unsafe fn emulate_ficlone(dst: c_int, src: c_int) -> c_int {
    let size = syscall4(SYS_lseek, dst as i64, 0, SEEK_CUR as i64, 0);
    let _ = size;
    let mut st: stat64 = std::mem::zeroed();
    if syscall4(SYS_fstat, src as i64, &mut st as *mut _ as i64, 0, 0) < 0 {
        set_errno(EIO);
        return -1;
    }
    let len = st.st_size;
    syscall4(SYS_ftruncate, dst as i64, 0, 0, 0);
    syscall4(SYS_ftruncate, dst as i64, len, 0, 0);
    // SEEK_DATA would move the source's file position, so look for holes through another open file.
    let path = format!("/proc/self/fd/{src}\0");
    let look = syscall4(SYS_openat, AT_FDCWD as i64, path.as_ptr() as i64, (O_RDONLY | O_CLOEXEC) as i64, 0);
    let mut buf = [0u8; 4096];
    let mut o = 0i64;
    while o < len {
        if look >= 0 {
            let d = syscall4(SYS_lseek, look, o, SEEK_DATA as i64, 0);
            if d < 0 {
                break;
            }
            o = d / 4096 * 4096;
        }
        let n = syscall4(SYS_pread64, src as i64, buf.as_mut_ptr() as i64, 4096, o);
        if n <= 0 {
            syscall4(SYS_close, look, 0, 0, 0);
            set_errno(EIO);
            return -1;
        }
        if buf[..n as usize].iter().any(|&b| b != 0) {
            syscall4(SYS_pwrite64, dst as i64, buf.as_ptr() as i64, n, o);
        }
        o += n;
    }
    if look >= 0 {
        syscall4(SYS_close, look, 0, 0, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if req as u64 == FICLONE as u64 && me().is_some() {
        let c = fd_class(fd);
        let sc = fd_class(arg as c_int);
        point!(if is_point(c) { c } else { sc });
        crash_point!(c, "ioctl(FICLONE)");
        if let Some(e) = fault(c, "ioctl(FICLONE)", &[EIO, EXDEV, EOPNOTSUPP, ENOSPC]) {
            set_errno(e);
            return -1;
        }
        let cf = sched::g().clone_fails;
        let r = if cf != 0 && c == C_VALUES {
            set_errno(cf);
            -1
        } else if CLONE.load(Relaxed) == 1 {
            emulate_ficlone(fd, arg as c_int)
        } else {
            set_errno(EOPNOTSUPP);
            -1
        };
        ev!("ioctl(FICLONE, dst fd {}, src fd {}) -> {}", fd, arg, r);
        return r;
    }
    ret(syscall4(SYS_ioctl, fd as i64, req as i64, arg as i64, 0)) as c_int
}
macro_rules! pathop {
    ($name:ident ( $($a:ident : $t:ty),* ), $path:ident, $sys:expr, [$($e:expr),*]) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if me_loud().is_some() {
                let p = cpath($path);
                let c = path_class(p);
                if c != C_NONE {
                    point!(c);
                    crash_point!(c, stringify!($name));
                    if let Some(e) = fault(c, stringify!($name), &[$($e),*]) {
                        set_errno(e);
                        return -1;
                    }
                    let r = ret($sys) as c_int;
                    ev!("{} {} -> {}", stringify!($name), short(p), r);
                    return r;
                }
            }
            ret($sys) as c_int
        }
    };
}
pathop!(unlink(p: *const c_char), p, syscall4(SYS_unlink, p as i64, 0, 0, 0), [EIO]);
pathop!(rmdir(p: *const c_char), p, syscall4(SYS_rmdir, p as i64, 0, 0, 0), [EIO]);
pathop!(mkdir(p: *const c_char, m: mode_t), p, syscall4(SYS_mkdir, p as i64, m as i64, 0, 0), [ENOSPC]);
pathop!(rename(p: *const c_char, q: *const c_char), p, syscall4(SYS_rename, p as i64, q as i64, 0, 0), [EIO]);
pathop!(truncate64(p: *const c_char, l: off64_t), p, syscall4(SYS_truncate, p as i64, l, 0, 0), [EIO]);
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if me_loud().is_some() {
        let b = cpath(p);
        let c = if b.starts_with(b"values-") { C_SNAP } else { path_class(b) };
        if c != C_NONE {
            point!(c);
            crash_point!(c, "unlinkat");
            if let Some(e) = fault(c, "unlinkat", &[EIO]) {
                set_errno(e);
                return -1;
            }
            let r = ret(syscall4(SYS_unlinkat, d as i64, p as i64, fl as i64, 0)) as c_int;
            ev!("unlinkat {} -> {}", short(b), r);
            return r;
        }
    }
    ret(syscall4(SYS_unlinkat, d as i64, p as i64, fl as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    if fd >= 0 {
        let c = fd_class(fd);
        if is_point(c) && me_loud().is_some() {
            point!(c);
            if let Some(e) = fault(c, "mmap", &[ENOMEM]) {
                set_errno(e);
                return MAP_FAILED;
            }
            ev!("mmap(fd {}, len {})", fd, l);
        }
    }
    ret(syscall6(SYS_mmap, a as i64, l as i64, p as i64, f as i64, fd as i64, o)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void {
    mmap64(a, l, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if me_loud().is_some() && path_class(cpath(p)) != C_NONE {
        point!(C_DIR);
        ev!("opendir {}", short(cpath(p)));
    }
    real!(b"opendir\0", fn(*const c_char) -> *mut DIR)(p)
}

// ---- time ----
unsafe fn put_ts(ts: *mut timespec, ns: u64) {
    (*ts).tv_sec = (ns / 1_000_000_000) as i64;
    (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if me().is_some() {
        let wall = matches!(clk, CLOCK_REALTIME | CLOCK_REALTIME_COARSE);
        put_ts(ts, if wall { sched::wall_ns() } else { sched::now_ns() });
        return 0;
    }
    ret(syscall4(SYS_clock_gettime, clk as i64, ts as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if me().is_some() {
        let ns = sched::wall_ns();
        (*tv).tv_sec = (ns / 1_000_000_000) as i64;
        (*tv).tv_usec = (ns / 1000 % 1_000_000) as i64;
        return 0;
    }
    ret(syscall4(SYS_gettimeofday, tv as i64, tz as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
unsafe fn ts_ns(ts: *const timespec) -> u64 {
    ((*ts).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const timespec, m: *mut timespec) -> c_int {
    if let Some(t) = me() {
        sched::sleep_ns(t, ts_ns(r));
        return 0;
    }
    ret(syscall4(SYS_nanosleep, r as i64, m as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, fl: c_int, r: *const timespec, m: *mut timespec) -> c_int {
    if let Some(t) = me() {
        let ns = ts_ns(r);
        let d = if fl & TIMER_ABSTIME != 0 { ns.saturating_sub(sched::now_ns()) } else { ns };
        sched::sleep_ns(t, d);
        return 0;
    }
    -(syscall4(SYS_clock_nanosleep, clk as i64, fl as i64, r as i64, m as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: useconds_t) -> c_int {
    if let Some(t) = me() {
        sched::sleep_ns(t, us as u64 * 1000);
        return 0;
    }
    let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    ret(syscall4(SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if me().is_some() {
        sched::point();
        return 0;
    }
    ret(syscall4(SYS_sched_yield, 0, 0, 0, 0)) as c_int
}
// ---- randomness ----
unsafe fn fill_random(b: *mut u8, n: usize) {
    let mut i = 0;
    while i < n {
        let r = sched::rand_u64(me()).to_le_bytes();
        let k = (n - i).min(8);
        std::ptr::copy_nonoverlapping(r.as_ptr(), b.add(i), k);
        i += k;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if me().is_some() {
        fill_random(b as *mut u8, n);
        return n as ssize_t;
    }
    ret(syscall4(SYS_getrandom, b as i64, n as i64, fl as i64, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if let Some(t) = me() {
        match n {
            SYS_getrandom => {
                fill_random(a as *mut u8, b as usize);
                return b;
            }
            SYS_futex => {
                let op = b as i32 & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
                match op {
                    FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                        let bits = if op == FUTEX_WAIT { !0 } else { f as u32 };
                        let dl = if d == 0 {
                            None
                        } else {
                            let ns = ts_ns(d as *const timespec);
                            Some(if op == FUTEX_WAIT { sched::now_ns().saturating_add(ns) } else { ns })
                        };
                        return ret(sched::futex_wait(t, a as usize, c as u32, bits, dl));
                    }
                    FUTEX_WAKE => return sched::futex_wake(a as usize, c as u32, !0),
                    FUTEX_WAKE_BITSET => return sched::futex_wake(a as usize, c as u32, f as u32),
                    _ => sched::engine_error("unexpected futex operation"),
                }
            }
            SYS_copy_file_range | SYS_sendfile | SYS_splice | SYS_openat2 => {
                set_errno(ENOSYS);
                return -1;
            }
            _ => {}
        }
    }
    ret(syscall6(n, a, b, c, d, e, f))
}
// ---- threads ----
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    start: Start,
    arg: *mut c_void,
    id: usize,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    sched::begin_thread(b.id);
    let r = (b.start)(b.arg);
    sched::end_thread(b.id);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, at: *const pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    let f = real!(b"pthread_create\0", fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int);
    if me().is_none() {
        return f(t, at, start, arg);
    }
    let id = sched::new_thread();
    let b = Box::into_raw(Box::new(Boot { start, arg, id }));
    let r = f(t, at, tramp, b as *mut c_void);
    if r != 0 {
        sched::engine_error("pthread_create failed");
    }
    sched::set_pthread(id, *t as u64);
    ev!("spawned t{}", id);
    sched::point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, v: *mut *mut c_void) -> c_int {
    if let Some(me) = me() {
        sched::join_thread(me, t as u64);
    }
    real!(b"pthread_join\0", fn(pthread_t, *mut *mut c_void) -> c_int)(t, v)
}

// ---- sqlite ----
use libsqlite3_sys as ffi;
extern "C" {
    fn __real_sqlite3_step(s: *mut ffi::sqlite3_stmt) -> c_int;
}
unsafe fn sql_of(s: *mut ffi::sqlite3_stmt) -> &'static [u8] {
    let p = ffi::sqlite3_sql(s);
    cpath(p)
}
fn is_end(sql: &[u8]) -> bool {
    let mut i = 0;
    while i < sql.len() && sql[i].is_ascii_whitespace() {
        i += 1;
    }
    let w: Vec<u8> = sql[i..].iter().take(8).map(|c| c.to_ascii_lowercase()).collect();
    w.starts_with(b"commit") || w.starts_with(b"rollback") || w.starts_with(b"end")
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_sqlite3_step(s: *mut ffi::sqlite3_stmt) -> c_int {
    let Some(t) = me_loud() else {
        return __real_sqlite3_step(s);
    };
    if s.is_null() {
        return __real_sqlite3_step(s);
    }
    let db = ffi::sqlite3_db_handle(s);
    let busy = ffi::sqlite3_stmt_busy(s) != 0;
    let auto = ffi::sqlite3_get_autocommit(db) != 0;
    let st = ffi::sqlite3_txn_state(db, std::ptr::null());
    let ro = ffi::sqlite3_stmt_readonly(s) != 0;
    let end = is_end(sql_of(s));
    // Visible to other connections: taking the write lock or a read snapshot, and ending a transaction.
    let visible = !busy && (auto || end || st == 0 || (st == 1 && !ro));
    if visible {
        sched::point();
    }
    sched::set_in_sql(t, true);
    let r = __real_sqlite3_step(s);
    sched::set_in_sql(t, false);
    sched::count_sql();
    if sched::verbose() {
        ev!("sql {}{} -> {}", if visible { "* " } else { "" }, String::from_utf8_lossy(sql_of(s)).replace('\n', " "), r);
    }
    let auto_after = ffi::sqlite3_get_autocommit(db) != 0;
    if end || (auto && auto_after && !ro) {
        sched::sql_progress();
        if visible && !ro | end {
            sched::point();
        }
    }
    r
}
