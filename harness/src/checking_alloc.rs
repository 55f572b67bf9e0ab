//! Global allocator for native replays: checks layouts and double frees, moves
//! on every reallocation, and poisons memory
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicIsize, Ordering::SeqCst},
};

pub struct Checking;

static LIVE: AtomicIsize = AtomicIsize::new(0);
const ALIVE: usize = 0x5AFE_B10C_5AFE_B10C;
const DEAD: usize = 0xDEAD_B10C_DEAD_B10C;

pub fn live() -> isize {
    LIVE.load(SeqCst)
}

fn header(l: Layout) -> (Layout, usize) {
    let off = l.align().max(32);
    (Layout::from_size_align(l.size() + off, l.align().max(16)).unwrap(), off)
}

fn fail(msg: &str) -> ! {
    eprintln!("ALLOCATOR: {msg}");
    std::process::abort()
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (h, off) = header(l);
        let p = System.alloc(h).add(off);
        (p.sub(8) as *mut usize).write(ALIVE);
        (p.sub(16) as *mut usize).write(l.size());
        (p.sub(24) as *mut usize).write(l.align());
        p.write_bytes(0x1f, l.size());
        LIVE.fetch_add(1, SeqCst);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let state = (p.sub(8) as *mut usize).read();
        if state == DEAD {
            fail("freed twice");
        }
        if state != ALIVE {
            fail("not an allocation");
        }
        if (p.sub(16) as *mut usize).read() != l.size() || (p.sub(24) as *mut usize).read() != l.align() {
            fail("freed with another layout");
        }
        (p.sub(8) as *mut usize).write(DEAD);
        p.write_bytes(0x1f, l.size());
        // never reused
        LIVE.fetch_sub(1, SeqCst);
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let n = Layout::from_size_align_unchecked(size, l.align());
        let q = self.alloc(n);
        core::ptr::copy_nonoverlapping(p, q, l.size().min(size));
        self.dealloc(p, l);
        q
    }
}
