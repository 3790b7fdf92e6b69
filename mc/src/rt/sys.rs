//! Raw Linux system calls, bypassing libc (whose functions this binary interposes).
use std::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
#[inline]
pub unsafe fn syscall4(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    syscall6(n, a, b, c, d, 0, 0)
}

/// libc convention: -1 and errno.
#[inline]
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
#[inline]
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    syscall6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    syscall6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        syscall4(libc::SYS_exit_group, code as i64, 0, 0, 0);
    }
    unreachable!()
}

pub unsafe fn memfd() -> i32 {
    syscall4(libc::SYS_memfd_create, c"out".as_ptr() as i64, 0, 0, 0) as i32
}
/// Makes `to` refer to the file of `fd`; returns a copy of what it referred to.
pub unsafe fn dup_onto(fd: i32, to: i32) -> i32 {
    let saved = syscall4(libc::SYS_dup, to as i64, 0, 0, 0) as i32;
    syscall4(libc::SYS_dup2, fd as i64, to as i64, 0, 0);
    saved
}
pub unsafe fn restore(saved: i32, to: i32, fd: i32) {
    syscall4(libc::SYS_dup2, saved as i64, to as i64, 0, 0);
    syscall4(libc::SYS_close, saved as i64, 0, 0, 0);
    syscall4(libc::SYS_close, fd as i64, 0, 0, 0);
}
pub unsafe fn contents(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut b = [0u8; 4096];
    loop {
        let n = syscall4(libc::SYS_pread64, fd as i64, b.as_mut_ptr() as i64, b.len() as i64, v.len() as i64);
        if n <= 0 {
            return v;
        }
        v.extend_from_slice(&b[..n as usize]);
    }
}
