//! An allocator that watches the code under test: guard words around every block, the layout given back on release, requests
//! for nothing, the balance of what a thread holds, and a chosen filling of fresh memory so that reading it uninitialised shows.

use std::cell::Cell;

#[derive(Clone, Copy, Debug, Default)]
pub struct Balance {
    pub bytes: i64,
    pub blocks: i64,
    pub requests: u64,
}

thread_local! {
    static FILL: Cell<u8> = const { Cell::new(0xA5) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static REQUESTS: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static ERROR: Cell<Option<(&'static str, usize, usize)>> = const { Cell::new(None) };
}

pub fn set_fill(b: u8) {
    FILL.with(|f| f.set(b));
}
pub fn balance() -> Balance {
    Balance { bytes: BYTES.with(Cell::get), blocks: BLOCKS.with(Cell::get), requests: REQUESTS.with(Cell::get) }
}
/// The largest block this thread has asked for since the last call.
pub fn take_largest() -> usize {
    LARGEST.with(|c| c.replace(0))
}
/// The first misuse of memory this thread has made since the last call.
pub fn take_error() -> Option<String> {
    ERROR.with(|e| e.take()).map(|(w, a, b)| format!("{} ({} / {})", w, a, b))
}

/// Whether this build has the watching allocator.
pub const WATCHING: bool = cfg!(all(not(feature = "sanitized"), not(miri), not(target_family = "wasm")));

#[cfg(all(not(feature = "sanitized"), not(miri), not(target_family = "wasm")))]
mod imp {
    use super::*;
    use std::alloc::{GlobalAlloc, Layout, System};

    const HEAD: usize = 32;
    const TAIL: usize = 32;
    const LIVE: u64 = 0x4F5A_5A4D_4F4E_A11E;
    const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
    const GUARD: u64 = 0x6A09_E667_F3BC_C908;

    pub struct Watch;

    #[global_allocator]
    static WATCH: Watch = Watch;

    fn error(what: &'static str, a: usize, b: usize) {
        ERROR.with(|e| {
            if e.get().is_none() {
                e.set(Some((what, a, b)));
            }
        });
    }

    fn front(l: &Layout) -> usize {
        l.align().max(HEAD)
    }
    fn outer(l: &Layout) -> Option<Layout> {
        let size = front(l).checked_add(l.size())?.checked_add(TAIL)?;
        Layout::from_size_align(size, l.align().max(16)).ok()
    }

    unsafe fn tail_words(p: *mut u8, size: usize) -> [u64; 4] {
        let mut w = [0u64; 4];
        std::ptr::copy_nonoverlapping(p.add(size), w.as_mut_ptr() as *mut u8, TAIL);
        w
    }

    unsafe fn start(l: &Layout, zero: bool) -> *mut u8 {
        if l.size() == 0 {
            error("a block of no bytes was requested from the allocator", 0, l.align());
        }
        LARGEST.with(|c| c.set(c.get().max(l.size())));
        let o = match outer(l) {
            Some(o) => o,
            None => return std::ptr::null_mut(),
        };
        let base = System.alloc(o);
        if base.is_null() {
            return base;
        }
        let p = base.add(front(l));
        let h = p.sub(HEAD) as *mut u64;
        h.write(LIVE ^ p as u64);
        h.add(1).write(l.size() as u64);
        h.add(2).write(l.align() as u64);
        h.add(3).write(GUARD ^ p as u64);
        let g = [GUARD ^ p as u64; 4];
        std::ptr::copy_nonoverlapping(g.as_ptr() as *const u8, p.add(l.size()), TAIL);
        std::ptr::write_bytes(p, if zero { 0 } else { FILL.with(Cell::get) }, l.size());
        BYTES.with(|c| c.set(c.get() + l.size() as i64));
        BLOCKS.with(|c| c.set(c.get() + 1));
        REQUESTS.with(|c| c.set(c.get() + 1));
        p
    }

    unsafe impl GlobalAlloc for Watch {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            start(&l, false)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            start(&l, true)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let h = p.sub(HEAD) as *mut u64;
            let magic = h.read() ^ p as u64;
            if magic == DEAD {
                error("a block was freed twice", l.size(), l.align());
                return;
            }
            if magic != LIVE {
                error("what lies before a block was overwritten, or it is no block", l.size(), l.align());
                return;
            }
            let (size, align) = (h.add(1).read() as usize, h.add(2).read() as usize);
            if size != l.size() {
                error("a block was freed with another size than it was allocated with", size, l.size());
            }
            if align != l.align() {
                error("a block was freed with another alignment than it was allocated with", align, l.align());
            }
            if h.add(3).read() ^ p as u64 != GUARD {
                error("what lies before a block was overwritten", size, align);
            }
            if tail_words(p, size) != [GUARD ^ p as u64; 4] {
                error("what lies after a block was overwritten", size, align);
            }
            h.write(DEAD ^ p as u64);
            std::ptr::write_bytes(p, 0xDE, size);
            BYTES.with(|c| c.set(c.get() - size as i64));
            BLOCKS.with(|c| c.set(c.get() - 1));
            let real = Layout::from_size_align_unchecked(size, align);
            System.dealloc(p.sub(front(&real)), outer(&real).unwrap());
        }
    }
}
