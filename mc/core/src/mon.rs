//! Instrumented global allocator: exact-layout checking, canaries, poison, quarantine, leak
//! detection, deliberate minimal alignment, and (for C16) an arena on pages that can be
//! write-protected.  Single-threaded by design.
use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr;

use crate::rep::{viol, Class};
use crate::step::busy;

pub const FRESH: u8 = 0xA5;
pub const FREED: u8 = 0xD7;
const CANARY: u8 = 0x5C;
const TAIL: usize = 32;
const BIG_ALIGN: usize = 16384;
const POISON_MAX: usize = 1 << 17;

#[derive(Clone, Copy)]
struct Entry {
    ptr: usize, // 0 = empty, 1 = tombstone
    size: usize,
    align: usize,
    pad: usize,
    epoch: u32,
    arena: bool,
}
const NONE: Entry = Entry { ptr: 0, size: 0, align: 0, pad: 0, epoch: 0, arena: false };
const CAP: usize = 1 << 15;
const QCAP: usize = 4096;

pub struct State {
    table: [Entry; CAP],
    used: usize,
    tombs: usize,
    quar: [Entry; QCAP],
    qlen: usize,
    epoch: u32,
    active: bool,
    untracked: u32,
    live: usize,
    pub allocs: usize,
    pub reallocs: usize,
    pub frees: usize,
    pub peak: usize,
    /// Size of the largest block requested since it was last reset.
    pub largest: usize,
    arena_on: bool,
    arena_base: usize,
    arena_len: usize,
    arena_off: usize,
}

static mut ST: State = State {
    table: [NONE; CAP],
    used: 0,
    tombs: 0,
    quar: [NONE; QCAP],
    qlen: 0,
    epoch: 0,
    active: false,
    untracked: 0,
    live: 0,
    allocs: 0,
    reallocs: 0,
    frees: 0,
    peak: 0,
    largest: 0,
    arena_on: false,
    arena_base: 0,
    arena_len: 0,
    arena_off: 0,
};

#[inline(always)]
pub fn st() -> &'static mut State {
    unsafe { &mut *ptr::addr_of_mut!(ST) }
}

fn h(p: usize) -> usize {
    ((p >> 1).wrapping_mul(0x9E3779B97F4A7C15)) >> (64 - 15)
}

impl State {
    fn insert(&mut self, e: Entry) {
        if self.used + self.tombs > CAP * 3 / 4 {
            self.rehash();
        }
        let mut i = h(e.ptr);
        while self.table[i].ptr > 1 {
            i = (i + 1) & (CAP - 1);
        }
        if self.table[i].ptr == 1 {
            self.tombs -= 1;
        }
        self.table[i] = e;
        self.used += 1;
    }
    fn rehash(&mut self) {
        if self.used > CAP / 2 {
            fatal("mon: block table full");
        }
        unsafe {
            let bytes = CAP * std::mem::size_of::<Entry>();
            let copy = System.alloc(Layout::from_size_align_unchecked(bytes, 16)) as *mut Entry;
            ptr::copy_nonoverlapping(self.table.as_ptr(), copy, CAP);
            for e in self.table.iter_mut() {
                *e = NONE;
            }
            self.used = 0;
            self.tombs = 0;
            for i in 0..CAP {
                let e = *copy.add(i);
                if e.ptr > 1 {
                    self.insert(e);
                }
            }
            System.dealloc(copy as *mut u8, Layout::from_size_align_unchecked(bytes, 16));
        }
    }
    fn find(&self, p: usize) -> Option<usize> {
        let mut i = h(p);
        loop {
            let q = self.table[i].ptr;
            if q == p {
                return Some(i);
            }
            if q == 0 {
                return None;
            }
            i = (i + 1) & (CAP - 1);
        }
    }
    fn remove(&mut self, i: usize) -> Entry {
        let e = self.table[i];
        self.used -= 1;
        if self.table[(i + 1) & (CAP - 1)].ptr == 0 {
            self.table[i].ptr = 0;
        } else {
            self.table[i].ptr = 1;
            self.tombs += 1;
        }
        e
    }
}

fn fatal(m: &str) -> ! {
    extern "C" {
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    unsafe {
        write(2, m.as_ptr() as *const _, m.len());
        write(2, b"\n".as_ptr() as *const _, 1);
        _exit(97)
    }
}

fn pad_for(align: usize) -> usize {
    if align >= BIG_ALIGN {
        0
    } else if align >= 32 {
        align
    } else {
        32 + align
    }
}

unsafe fn base_layout(size: usize, align: usize, pad: usize) -> Layout {
    if pad == 0 {
        Layout::from_size_align_unchecked(size, align)
    } else {
        Layout::from_size_align_unchecked(pad + size + TAIL, align * 2)
    }
}

unsafe fn release(e: &Entry) {
    if e.arena {
        return;
    }
    System.dealloc((e.ptr - e.pad) as *mut u8, base_layout(e.size, e.align, e.pad));
}

unsafe fn canaries_ok(e: &Entry) -> bool {
    if e.pad == 0 || e.arena {
        return true;
    }
    let front = (e.ptr - e.pad.min(32)) as *const u8;
    for i in 0..e.pad.min(32) {
        if *front.add(i) != CANARY {
            return false;
        }
    }
    let back = (e.ptr + e.size) as *const u8;
    for i in 0..TAIL {
        if *back.add(i) != CANARY {
            return false;
        }
    }
    true
}

pub struct Mon;

/// A request of the code under test is a point at which another operation may run.
#[inline]
fn point() {
    let s = st();
    if s.active && s.untracked == 0 {
        crate::point::point();
    }
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        let _busy = busy();
        let s = st();
        let (size, align) = (l.size(), l.align());
        if size > 1 << 32 {
            return ptr::null_mut();
        }
        let tracked = s.active && s.untracked == 0;
        if tracked {
            s.allocs += 1;
            s.largest = s.largest.max(size);
        }
        if s.arena_on && tracked {
            let mut a = (s.arena_base + s.arena_off + align * 2 - 1) & !(align * 2 - 1);
            a += align;
            if a + size > s.arena_base + s.arena_len {
                fatal("mon: arena exhausted");
            }
            s.arena_off = a + size - s.arena_base;
            ptr::write_bytes(a as *mut u8, FRESH, size);
            s.insert(Entry { ptr: a, size, align, pad: 0, epoch: s.epoch, arena: true });
            s.live += 1;
            return a as *mut u8;
        }
        let pad = pad_for(align);
        let base = System.alloc(base_layout(size, align, pad));
        if base.is_null() {
            return base;
        }
        let p = base.add(pad);
        if pad != 0 {
            ptr::write_bytes(p.sub(pad.min(32)), CANARY, pad.min(32));
            ptr::write_bytes(p.add(size), CANARY, TAIL);
        }
        if size <= POISON_MAX {
            ptr::write_bytes(p, FRESH, size);
        }
        s.insert(Entry {
            ptr: p as usize,
            size,
            align,
            pad,
            epoch: if tracked { s.epoch } else { 0 },
            arena: false,
        });
        if tracked {
            s.live += 1;
            if s.live > s.peak {
                s.peak = s.live;
            }
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        let _busy = busy();
        let s = st();
        let i = match s.find(p as usize) {
            Some(i) => i,
            None => {
                viol(Class::Mem, "free of a pointer that is not a live block", format_args!("ptr={:p} layout={:?}", p, l));
                return;
            }
        };
        let e = s.table[i];
        if e.size != l.size() || e.align != l.align() {
            s.table[i].size = e.size;
            viol(
                Class::Mem,
                "block released with a layout other than the one it was allocated with",
                format_args!("allocated size={} align={}, released size={} align={}", e.size, e.align, l.size(), l.align()),
            );
        }
        if !canaries_ok(&e) {
            viol(Class::Mem, "write outside an allocated block", format_args!("block size={} align={}", e.size, e.align));
        }
        let i = match st().find(p as usize) {
            Some(i) => i,
            None => return,
        };
        let s = st();
        s.remove(i);
        if e.epoch != 0 && e.epoch == s.epoch {
            s.live -= 1;
            s.frees += 1;
        }
        if e.arena {
            return;
        }
        if e.size <= POISON_MAX && s.active && e.epoch != 0 && s.qlen < QCAP && e.pad != 0 {
            ptr::write_bytes(p, FREED, e.size);
            s.quar[s.qlen] = e;
            s.qlen += 1;
        } else {
            release(&e);
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let _busy = busy();
        let s = st();
        if s.active && s.untracked == 0 {
            s.reallocs += 1;
            // alloc below counts itself; a realloc is not an alloc
            s.allocs = s.allocs.wrapping_sub(1);
        }
        let nl = Layout::from_size_align_unchecked(new_size, l.align());
        let q = self.alloc(nl);
        if q.is_null() {
            return q;
        }
        // copy no more than the real block holds
        let real = match st().find(p as usize) {
            Some(i) => st().table[i].size,
            None => 0,
        };
        ptr::copy_nonoverlapping(p, q, new_size.min(l.size()).min(real));
        self.dealloc(p, l);
        if st().active && st().untracked == 0 {
            st().frees = st().frees.wrapping_sub(1);
        }
        q
    }
}

/// Start tracking one execution.
pub fn begin() {
    let s = st();
    s.epoch += 1;
    s.active = true;
    s.live = 0;
    s.allocs = 0;
    s.reallocs = 0;
    s.frees = 0;
    s.peak = 0;
    s.largest = 0;
}

/// End one execution.  Reports leaks unless `quiet`.
pub fn end(quiet: bool) {
    let s = st();
    s.active = false;
    if s.live != 0 {
        let mut first = NONE;
        for i in 0..CAP {
            let e = s.table[i];
            if e.ptr > 1 && e.epoch == s.epoch {
                if first.ptr == 0 {
                    first = e;
                }
                s.remove(i);
                unsafe { release(&e) };
            }
        }
        let n = s.live;
        s.live = 0;
        if !quiet {
            viol(
                Class::Mem,
                "heap block leaked",
                format_args!("{} block(s) still allocated after every owner is gone; first: size={} align={}", n, first.size, first.align),
            );
        }
    }
    let mut bad = None;
    for k in 0..s.qlen {
        let e = s.quar[k];
        unsafe {
            for j in 0..e.size {
                if *((e.ptr + j) as *const u8) != FREED {
                    bad = Some(e);
                    break;
                }
            }
            release(&e);
        }
    }
    s.qlen = 0;
    if let (Some(e), false) = (bad, quiet) {
        viol(Class::Mem, "write to memory after it was released", format_args!("block size={} align={}", e.size, e.align));
    }
}

/// Run harness code whose allocations are not part of the execution under test.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            st().untracked -= 1;
        }
    }
    st().untracked += 1;
    let _g = G;
    f()
}

/// Size in bytes of the live block starting at `p` (None if there is none).
pub fn block(p: *const u8) -> Option<(usize, usize)> {
    if cfg!(miri) {
        return Some((usize::MAX, 1 << 29));
    }
    st().find(p as usize).map(|i| (st().table[i].size, st().table[i].align))
}

/// Number of live tracked blocks.
pub fn live() -> usize {
    st().live
}

extern "C" {
    fn mmap(a: *mut std::ffi::c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut std::ffi::c_void;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

/// Arena for write-protection exploration (C16).
pub fn arena_init(len: usize) {
    let s = st();
    unsafe {
        let p = mmap(ptr::null_mut(), len, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        s.arena_base = p as usize;
    }
    s.arena_len = len;
}
pub fn arena_reset() {
    let s = st();
    s.arena_off = 0;
}
pub fn arena_on(on: bool) {
    st().arena_on = on;
}
pub fn arena_protect(ro: bool) {
    let s = st();
    unsafe {
        let used = (s.arena_off + 4096) & !4095;
        let r = mprotect(s.arena_base as *mut u8, used.min(s.arena_len), if ro { 1 } else { 3 });
        assert_eq!(r, 0);
    }
}
pub fn arena_contains(p: usize) -> bool {
    let s = st();
    p >= s.arena_base && p < s.arena_base + s.arena_len
}

/// Where the monitor keeps this.
pub fn own() -> (usize, usize) {
    let p = std::ptr::addr_of!(ST) as usize;
    (p, p + std::mem::size_of::<State>())
}
