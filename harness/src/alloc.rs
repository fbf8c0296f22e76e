//! A checking allocator: counts live blocks, notices a block released twice or
//! with another layout than it was obtained with, and scribbles over released
//! memory (which is kept back for a while) so that stale reads show, and notices
//! writes behind a block.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::SeqCst};

pub struct Checking;

pub static LIVE: AtomicIsize = AtomicIsize::new(0);
/// Live blocks that were obtained while the code under test ran.
pub static TRACKED: AtomicIsize = AtomicIsize::new(0);
pub static FAULTS: AtomicUsize = AtomicUsize::new(0);
pub static FAULT_KIND: AtomicUsize = AtomicUsize::new(0);
/// Scribbling and keeping back are on only while the code under test runs.
pub static STRICT: AtomicBool = AtomicBool::new(false);

const HDR: usize = 64;
/// Bytes behind every block that must stay as they are.
const TAIL: usize = 64;
const TAIL_BYTE: u8 = 0x6B;
const LIVE_MAGIC: u64 = 0xA110_CA7E_D000_0001;
const DEAD_MAGIC: u64 = 0xDEAD_DEAD_D000_0002;

const RING: usize = 256;
static mut QUARANTINE: [(usize, usize, usize); RING] = [(0, 0, 0); RING];
static mut QPOS: usize = 0;

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > HDR {
            return System.alloc(l);
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + HDR + TAIL, HDR));
        if p.is_null() {
            return p;
        }
        let h = p as *mut u64;
        *h = LIVE_MAGIC;
        *h.add(1) = l.size() as u64;
        *h.add(2) = l.align() as u64;
        LIVE.fetch_add(1, SeqCst);
        let q = p.add(HDR);
        std::ptr::write_bytes(q.add(l.size()), TAIL_BYTE, TAIL);
        let strict = STRICT.load(SeqCst);
        *h.add(3) = strict as u64;
        if strict {
            TRACKED.fetch_add(1, SeqCst);
            // Fresh memory holds garbage, as far as the user can tell.
            std::ptr::write_bytes(q, 0xA5, l.size());
        }
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if l.align() > HDR {
            return System.dealloc(q, l);
        }
        let p = q.sub(HDR);
        let h = p as *mut u64;
        if *h != LIVE_MAGIC {
            FAULTS.fetch_add(1, SeqCst);
            FAULT_KIND.store(if *h == DEAD_MAGIC { 1 } else { 2 }, SeqCst);
            return; // leave it alone
        }
        let size = *h.add(1) as usize;
        if size != l.size() || *h.add(2) as usize != l.align() {
            FAULTS.fetch_add(1, SeqCst);
            FAULT_KIND.store(3, SeqCst);
        }
        for i in 0..TAIL {
            if *q.add(size + i) != TAIL_BYTE {
                FAULTS.fetch_add(1, SeqCst);
                FAULT_KIND.store(4, SeqCst);
                break;
            }
        }
        LIVE.fetch_sub(1, SeqCst);
        if *h.add(3) == 1 {
            TRACKED.fetch_sub(1, SeqCst);
        }
        *h = DEAD_MAGIC;
        if STRICT.load(SeqCst) {
            std::ptr::write_bytes(q, 0xDD, size);
            let slot = QPOS % RING;
            let old = QUARANTINE[slot];
            QUARANTINE[slot] = (p as usize, size, 1);
            QPOS = QPOS.wrapping_add(1);
            if old.2 == 1 {
                System.dealloc(
                    old.0 as *mut u8,
                    Layout::from_size_align_unchecked(old.1 + HDR + TAIL, HDR),
                );
            }
        } else {
            System.dealloc(p, Layout::from_size_align_unchecked(size + HDR + TAIL, HDR));
        }
    }
}

pub fn fault_text() -> &'static str {
    match FAULT_KIND.load(SeqCst) {
        1 => "a block of memory was released twice",
        2 => "something that is no live block was released",
        3 => "a block was released with another layout than it was obtained with",
        4 => "memory behind a block was written to",
        _ => "no fault",
    }
}
