//! Raw system calls, so that pass-through never re-enters the interposed symbols.
use std::arch::asm;

#[inline]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

/// libc convention: -1 and errno on failure.
#[inline]
pub unsafe fn pass(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = syscall6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn write_all_fd(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { syscall6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r <= 0 {
            if r == -(libc::EINTR as i64) {
                continue;
            }
            return;
        }
        b = &b[r as usize..];
    }
}

/// Reads a real file by raw system calls.
pub fn read_file(path: &std::ffi::CStr) -> Option<Vec<u8>> {
    unsafe {
        let fd = syscall6(libc::SYS_openat, libc::AT_FDCWD as i64, path.as_ptr() as i64, libc::O_RDONLY as i64, 0, 0, 0);
        if fd < 0 {
            return None;
        }
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let r = syscall6(libc::SYS_read, fd, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0);
            if r == -(libc::EINTR as i64) {
                continue;
            }
            if r <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..r as usize]);
        }
        syscall6(libc::SYS_close, fd, 0, 0, 0, 0, 0);
        Some(out)
    }
}

/// Writes a real file by raw system calls.
pub fn write_file(path: &std::ffi::CStr, data: &[u8]) -> bool {
    unsafe {
        let fd = syscall6(libc::SYS_openat, libc::AT_FDCWD as i64, path.as_ptr() as i64,
            (libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC) as i64, 0o600, 0, 0);
        if fd < 0 {
            return false;
        }
        write_all_fd(fd as i32, data);
        syscall6(libc::SYS_close, fd, 0, 0, 0, 0, 0);
        true
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        syscall6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
