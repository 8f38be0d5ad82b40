//! Libraries loaded at run time, each load with static memory of its own.
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    pub fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
    pub fn dlclose(lib: *mut c_void) -> c_int;
    fn dlerror() -> *const c_char;
}
const FLAGS: c_int = 2 | 8; // now, own definitions first
static COPIES: AtomicU64 = AtomicU64::new(0);

/// # Safety
/// `lib` is a loaded library.
pub unsafe fn symbol(lib: *mut c_void, name: &str) -> Option<*mut c_void> {
    let n = CString::new(name).unwrap();
    let p = dlsym(lib, n.as_ptr());
    if p.is_null() {
        None
    } else {
        Some(p)
    }
}
/// Loads a private copy of `dir`/`name`.so.
///
/// # Safety
/// The library may be loaded.
pub unsafe fn open(dir: &str, name: &str) -> Result<*mut c_void, String> {
    let from = format!("{}/{}.so", dir, name);
    let to = format!("{}/copy-{}-{}.so", dir, std::process::id(), COPIES.fetch_add(1, SeqCst));
    std::fs::copy(&from, &to).map_err(|e| format!("copying {}: {}", from, e))?;
    let c = CString::new(to.clone()).unwrap();
    let p = dlopen(c.as_ptr(), FLAGS);
    let _ = std::fs::remove_file(&to);
    if p.is_null() {
        return Err(format!("the library {} cannot be loaded: {}", name, CStr::from_ptr(dlerror()).to_string_lossy()));
    }
    Ok(p)
}
