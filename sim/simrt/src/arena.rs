//! Deterministic allocator: two fixed-address bump/free-list arenas.
//!
//! `HOST` serves the harness process itself (plans, statistics, minimiser). `SIM` serves everything
//! allocated while a simulated run is executing; it is empty at the start of every run, so the
//! addresses handed out are a function of the run alone. Only one thread runs at any time (the
//! simulator's baton), so there is no locking.
use std::alloc::{GlobalAlloc, Layout};

pub const HOST_BASE: usize = 0x10_0000_0000;
pub const HOST_SIZE: usize = 0x02_0000_0000;
pub const SIM_BASE: usize = 0x20_0000_0000;
pub const SIM_SIZE: usize = 0x4000_0000;

const NCLASS: usize = 96;

struct Region {
    cur: usize,
    end: usize,
    free: [[usize; NCLASS]; 2],
}

static mut HOST: Region = Region { cur: 0, end: 0, free: [[0; NCLASS]; 2] };
static mut SIM: Region = Region { cur: 0, end: 0, free: [[0; NCLASS]; 2] };
static mut IN_SIM: bool = false;
/// allocations made in the sim arena during this run
pub static mut SIM_ALLOCS: u64 = 0;

pub struct Arena;

fn class(size: usize) -> (usize, usize) {
    // returns (class index, rounded size)
    if size <= 1024 {
        let r = (size.max(1) + 15) & !15;
        (r / 16 - 1, r)
    } else {
        let r = size.next_power_of_two();
        (64 + (r.trailing_zeros() as usize - 11), r)
    }
}

unsafe fn map(base: usize, size: usize) {
    let p = libc::mmap(
        base as *mut _,
        size,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if p as usize != base {
        let m = b"simrt: cannot map arena\n";
        libc::write(2, m.as_ptr() as *const _, m.len());
        libc::_exit(70);
    }
}

#[allow(static_mut_refs)]
unsafe fn alloc_in(r: &mut Region, base: usize, size: usize, layout: Layout) -> *mut u8 {
    if r.end == 0 {
        map(base, size);
        r.cur = base + 4096;
        r.end = base + size;
    }
    let al = (layout.align() > 16) as usize;
    let (c, sz) = class(layout.size());
    if layout.align() <= 128 {
        let p = r.free[al][c];
        if p != 0 {
            r.free[al][c] = *(p as *const usize);
            return p as *mut u8;
        }
    }
    let align = if al == 1 { layout.align().max(128) } else { 16 };
    let p = (r.cur + align - 1) & !(align - 1);
    if p + sz > r.end {
        let m = b"simrt: arena exhausted\n";
        libc::write(2, m.as_ptr() as *const _, m.len());
        libc::_exit(71);
    }
    r.cur = p + sz;
    p as *mut u8
}

unsafe fn free_in(r: &mut Region, p: *mut u8, layout: Layout) {
    if layout.align() > 128 {
        return;
    }
    let al = (layout.align() > 16) as usize;
    let (c, _) = class(layout.size());
    *(p as *mut usize) = r.free[al][c];
    r.free[al][c] = p as usize;
}

#[allow(static_mut_refs)]
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if IN_SIM {
            SIM_ALLOCS += 1;
            alloc_in(&mut SIM, SIM_BASE, SIM_SIZE, layout)
        } else {
            alloc_in(&mut HOST, HOST_BASE, HOST_SIZE, layout)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let a = p as usize;
        if a >= SIM_BASE && a < SIM_BASE + SIM_SIZE {
            free_in(&mut SIM, p, layout)
        } else {
            free_in(&mut HOST, p, layout)
        }
    }
}

/// Switch to the (fresh) sim arena. Called once in the forked child.
pub unsafe fn enter_sim() {
    IN_SIM = true;
}

/// Run `f` with allocations going to the host arena (used by the recorder so that bookkeeping does
/// not move the addresses of the system under test).
pub fn on_host<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let old = IN_SIM;
        IN_SIM = false;
        let r = f();
        IN_SIM = old;
        r
    }
}
