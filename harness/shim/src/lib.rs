//! LD_PRELOAD stand-in for getrandom: makes the hash keys of a child process a function of VH_HASH_SEED.
use std::ffi::{c_char, c_void, CStr};
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn getenv(name: *const c_char) -> *const c_char;
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: u32) -> isize {
    let p = getenv(c"VH_HASH_SEED".as_ptr());
    let mut seed: u64 = 0x1234_5678;
    if !p.is_null() {
        if let Ok(s) = CStr::from_ptr(p).to_str() {
            seed = s.parse().unwrap_or(seed);
        }
    }
    let buf = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for b in buf.iter_mut() {
        let c = COUNTER.fetch_add(1, Ordering::Relaxed);
        let mut z = seed.wrapping_add(c.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        *b = (z ^ (z >> 31)) as u8;
    }
    len as isize
}
