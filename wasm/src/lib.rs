//! The programs of the monitors, on WebAssembly.

static mut OUT: Vec<u8> = Vec::new();

/// Runs the programs lo..hi; the text of their traces is at the returned address, `len` bytes long.
#[no_mangle]
pub extern "C" fn digest(seed: u64, lo: u64, hi: u64) -> *const u8 {
    let mut s = String::new();
    for i in lo..hi {
        s.push_str(&ozzmon::p_prog::digest_lines(seed, i, false));
    }
    unsafe {
        OUT = s.into_bytes();
        (*std::ptr::addr_of!(OUT)).as_ptr()
    }
}

#[no_mangle]
pub extern "C" fn len() -> usize {
    unsafe { (*std::ptr::addr_of!(OUT)).len() }
}
