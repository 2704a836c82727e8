//! Hook mode of the operating system seam (shim/simos.c).
use std::os::raw::{c_char, c_int, c_long, c_void};

#[repr(C)]
pub struct Hooks {
    pub winsize: Option<extern "C" fn(c_int, *mut libc::winsize) -> c_int>,
    pub isatty: Option<extern "C" fn(c_int) -> c_int>,
    pub random: Option<extern "C" fn(*mut c_void, usize) -> c_int>,
    pub clock: Option<extern "C" fn(c_int, *mut libc::timespec) -> c_int>,
    pub futex: Option<extern "C" fn(*mut u32, c_int, u32, *const libc::timespec, *mut c_long) -> c_int>,
    pub yield_: Option<extern "C" fn() -> c_int>,
    pub touch: Option<extern "C" fn(*const c_char, *const c_char) -> c_int>,
    pub lookup: Option<extern "C" fn(*const c_char) -> c_int>,
    pub env: Option<extern "C" fn(*const c_char) -> *const c_char>,
}
pub const NONE: Hooks = Hooks { winsize: None, isatty: None, random: None, clock: None, futex: None, yield_: None, touch: None, lookup: None, env: None };

pub fn set(h: &Hooks) -> bool {
    unsafe {
        let f = libc::dlsym(libc::RTLD_DEFAULT, b"simos_set_hooks\0".as_ptr() as *const c_char);
        if f.is_null() {
            return false;
        }
        let f: extern "C" fn(*const Hooks) = std::mem::transmute(f);
        f(h);
        true
    }
}
