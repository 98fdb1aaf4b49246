//! Interleaving by single steps: another operation runs to its end after any one machine
//! instruction of the first (or after every one), wherever the monitor is not busy.  Which pairs
//! need it is found by watching the static memory of the program after every instruction.
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::ptr::addr_of;

#[derive(Clone, Copy, PartialEq)]
pub enum When {
    Never,
    Every,
    After(usize),
}
struct State {
    f: Option<*const dyn Fn()>,
    when: When,
    count: usize,
    on: bool,
    watch: bool,
    writes: usize,
    /// The places after the first of them.
    at: [usize; 64],
    /// Static memory other than the monitor's, and a copy of it.
    parts: [(usize, usize); 16],
    nparts: usize,
    copy: *mut u8,
}
static mut S: State = State { f: None, when: When::Never, count: 0, on: false, watch: false, writes: 0, at: [0; 64], parts: [(0, 0); 16], nparts: 0, copy: std::ptr::null_mut() };
static mut BUSY: u32 = 0;

/// While one of these exists no other operation is run.
pub struct Busy(());
#[inline(always)]
pub fn busy() -> Busy {
    unsafe { BUSY += 1 };
    Busy(())
}
impl Drop for Busy {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { BUSY -= 1 }
    }
}

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(s: i32, a: *const Action, o: *mut Action) -> i32;
}
const TRAP: u64 = 0x100;
/// Offset of the saved flags in a `ucontext_t` (x86_64 Linux): uc_mcontext.gregs[REG_EFL].
const FLAGS: usize = 40 + 17 * 8;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
impl State {
    fn prepare(&mut self) {
        if self.nparts > 0 {
            return;
        }
        fn of<T>(p: *const T) -> (usize, usize) {
            (p as usize, p as usize + std::mem::size_of::<T>())
        }
        let mut own = [(0, 0); 16];
        let mut n = 0;
        let more = [crate::mon::own(), crate::elems::own(), crate::point::own()];
        for x in [of(addr_of!(S)), of(addr_of!(BUSY))].into_iter().chain(more).chain(crate::rep::own()) {
            own[n] = x;
            n += 1;
        }
        own[..n].sort();
        let (mut from, to) = unsafe { (addr_of!(__data_start) as usize, addr_of!(_end) as usize) };
        for (a, b) in &own[..n] {
            assert!(from <= *a && *b <= to);
            self.parts[self.nparts] = (from, *a);
            self.nparts += 1;
            from = *b;
        }
        self.parts[self.nparts] = (from, to);
        self.nparts += 1;
        let all = self.parts[..self.nparts].iter().map(|(a, b)| b - a).sum();
        self.copy = unsafe { System.alloc(Layout::from_size_align(all, 16).unwrap()) };
    }
    /// Takes a copy; whether it differs from the one before.
    unsafe fn changed(&mut self) -> bool {
        let (mut q, mut changed) = (self.copy, false);
        for (a, b) in &self.parts[..self.nparts] {
            let n = b - a;
            if memcmp(*a as *const u8, q, n) != 0 {
                changed = true;
                std::ptr::copy_nonoverlapping(*a as *const u8, q, n);
            }
            q = q.add(n);
        }
        changed
    }
}
extern "C" {
    fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}
/// The number of places of `body` and those (at most 64) after an instruction that changed static memory.
pub fn watched(body: impl FnOnce()) -> (usize, &'static [usize]) {
    unsafe {
        (*std::ptr::addr_of_mut!(S)).prepare();
        run_(When::Never, &|| (), true, body);
        let s = &*addr_of!(S);
        (s.count, &s.at[..s.writes.min(64)])
    }
}

extern "C" fn stepped(_: i32, _: *mut u8, context: *mut u8) {
    unsafe {
        let s = &mut *std::ptr::addr_of_mut!(S);
        let flags = context.add(FLAGS) as *mut u64;
        if !s.on {
            *flags &= !TRAP;
            return;
        }
        if BUSY != 0 || std::thread::panicking() {
            return;
        }
        s.count += 1;
        if s.watch && s.changed() {
            s.at[s.writes.min(63)] = s.count - 1;
            s.writes += 1;
        }
        let f = s.f.unwrap();
        match s.when {
            When::Never => {}
            When::Every => (*f)(),
            When::After(k) if s.count == k + 1 => {
                *flags &= !TRAP;
                (*f)()
            }
            When::After(_) => {}
        }
    }
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        unsafe {
            S.on = false;
            asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

/// Runs `body`, and `f` where `when` says; the number of places it has.
pub fn run(when: When, f: &dyn Fn(), body: impl FnOnce()) -> usize {
    run_(when, f, false, body)
}
fn run_(when: When, f: &dyn Fn(), watch: bool, body: impl FnOnce()) -> usize {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let a = Action { handler: stepped as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert!(unsafe { sigaction(5, &a, std::ptr::null_mut()) } == 0);
    });
    let f: &'static dyn Fn() = unsafe { std::mem::transmute(f) };
    unsafe {
        let s = &mut *std::ptr::addr_of_mut!(S);
        if watch {
            s.changed();
        }
        *s = State { f: Some(f), when, count: 0, on: true, watch, writes: 0, ..*s };
        let _off = Off;
        asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        body();
    }
    unsafe { S.count }
}
