//! The C library calls which the real `std` makes on behalf of inherent methods that can't be replaced
//! (`Path::exists`, `Path::canonicalize`, ..): answered from the simulated world when the
//! simulated program makes them, passed on otherwise.
use crate::rt::{call, in_sim, in_task, norm};
use ::std::ffi::{c_char, c_int, c_uint, CStr};

fn simulated() -> bool {
    in_task() && !in_sim()
}
unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().to_string()
}
unsafe fn fail(e: i32) {
    *libc::__errno_location() = e;
}

/// # Safety
/// as the C function
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if !simulated() || path.is_null() || buf.is_null() || *path == 0 {
        return libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int;
    }
    let p = text(path);
    let r = match p.strip_prefix(crate::fs::FD_NAME) {
        Some(fd) => call(|w| w.vfs_fstat(fd.parse().unwrap())),
        None => call(|w| w.vfs_stat(&p)),
    };
    match r {
        Err(e) => {
            fail(e);
            -1
        }
        Ok((len, dir, mode, ino)) => {
            let special = ino != usize::MAX && call(|w| w.inodes[ino].endless);
            ::std::ptr::write_bytes(buf, 0, 1);
            let kind = if dir { libc::S_IFDIR } else if special || ino == usize::MAX { libc::S_IFCHR } else { libc::S_IFREG };
            (*buf).stx_mask = libc::STATX_BASIC_STATS;
            (*buf).stx_nlink = 1;
            (*buf).stx_mode = (mode | kind) as u16;
            (*buf).stx_ino = ino as u64;
            (*buf).stx_size = len;
            (*buf).stx_dev_minor = 1;
            0
        }
    }
}

/// # Safety
/// as the C function
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let r = if simulated() {
        let p = text(path);
        match call(|w| w.vfs_stat(&p)) {
            Ok(_) => Ok(crate::fs::absolute(&norm(&p))),
            Err(e) => Err(e),
        }
    } else {
        // the harness itself does without
        Err(libc::ENOSYS)
    };
    match r {
        Err(e) => {
            fail(e);
            ::std::ptr::null_mut()
        }
        Ok(s) => {
            let p = if out.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { out };
            ::std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, p, s.len());
            *p.add(s.len()) = 0;
            p
        }
    }
}

/// # Safety
/// as the C function
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if simulated() {
        let s = crate::fs::CWD.as_bytes();
        if buf.is_null() || n < s.len() + 1 {
            fail(libc::ERANGE);
            return ::std::ptr::null_mut();
        }
        ::std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, buf, s.len());
        *buf.add(s.len()) = 0;
        return buf;
    }
    let r = libc::syscall(libc::SYS_getcwd, buf, n);
    if r < 0 { ::std::ptr::null_mut() } else { buf }
}

/// keeps the functions above in the program
pub fn install() {
    ::std::hint::black_box((statx as *const () as usize, realpath as *const () as usize, getcwd as *const () as usize));
}
