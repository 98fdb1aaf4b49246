//! Violation records, crash-surviving progress notes, panic capture, JSON output.
use crate::mon;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    /// wrong contents, length, result, acceptance
    Content,
    /// an operation that should have succeeded panicked, or one that should have panicked did not
    Panic,
    /// double drop, use of a dead value, lost value
    Drop,
    /// allocator-visible misbehaviour, misalignment, corruption
    Mem,
    /// a wrong-type operation was accepted or had an effect
    Type,
    /// storage not reused, moved although promised not to, too many reallocations
    Cap,
    /// anything property-specific
    Other,
}

pub struct Viol {
    pub class: Class,
    pub sig: String,
    pub detail: String,
}

static mut VIOLS: Vec<Viol> = Vec::new();
static mut PANIC_MSG: String = String::new();

#[allow(static_mut_refs)]
fn viols() -> &'static mut Vec<Viol> {
    unsafe { &mut VIOLS }
}

/// Record a violation in the current execution.
pub fn viol(class: Class, sig: &str, detail: fmt::Arguments) {
    mon::untracked(|| {
        let v = viols();
        if v.len() < 16 {
            v.push(Viol { class, sig: sig.to_string(), detail: detail.to_string() });
        }
    })
}

pub fn any() -> bool {
    !viols().is_empty()
}

pub fn take() -> Vec<Viol> {
    mon::untracked(|| std::mem::take(viols()))
}

#[macro_export]
macro_rules! vio {
    ($c:ident, $sig:expr, $($a:tt)*) => { $crate::rep::viol($crate::rep::Class::$c, $sig, format_args!($($a)*)) };
}
#[macro_export]
macro_rules! ck {
    ($cond:expr, $c:ident, $sig:expr, $($a:tt)*) => { if !($cond) { $crate::rep::viol($crate::rep::Class::$c, $sig, format_args!($($a)*)) } };
}

pub struct Injected;

#[allow(static_mut_refs)]
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        mon::untracked(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "injected".to_string()
            };
            unsafe { PANIC_MSG = m };
        })
    }));
    // Warm up lazily allocated panic machinery.
    let _ = catch_unwind(|| panic!("warm {}", 1));
    let _ = catch_unwind(|| std::panic::panic_any(Injected));
}

#[allow(static_mut_refs)]
pub fn panic_msg() -> String {
    mon::untracked(|| unsafe { PANIC_MSG.clone() })
}

/// First line of the last panic message, digits squashed so that it can be part of a signature.
pub fn panic_sig() -> String {
    mon::untracked(|| {
        let m = panic_msg();
        let l = m.lines().next().unwrap_or("");
        let mut out = String::new();
        for c in l.chars() {
            if c.is_ascii_digit() {
                if !out.ends_with('#') {
                    out.push('#');
                }
            } else {
                out.push(c);
            }
        }
        out.truncate(120);
        out
    })
}

/// Run `f`; Err(()) if it panicked.  The payload is dropped.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            drop(p);
            Err(())
        }
    }
}

// ---- progress notes that survive a crash -------------------------------------------------

static mut NOTE: *mut u8 = std::ptr::null_mut();
const NOTE_LEN: usize = 1 << 16;

extern "C" {
    fn mmap(a: *mut std::ffi::c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut std::ffi::c_void;
    fn open(p: *const i8, f: i32, ...) -> i32;
    fn ftruncate(fd: i32, l: i64) -> i32;
}

pub fn note_init(path: &str) {
    let c = format!("{}\0", path);
    unsafe {
        let fd = open(c.as_ptr() as *const i8, 0o102, 0o644i32);
        assert!(fd >= 0);
        assert_eq!(ftruncate(fd, NOTE_LEN as i64), 0);
        let p = mmap(std::ptr::null_mut(), NOTE_LEN, 3, 1, fd, 0);
        assert!(p as isize != -1);
        NOTE = p as *mut u8;
    }
}

/// Remember what is about to be executed: a text line.
#[inline]
pub fn note(s: &[u8]) {
    if cfg!(miri) {
        if s.first() == Some(&b'H') {
            let v: Vec<String> = s[1..].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]]).to_string()).collect();
            eprintln!("CASE {}", v.join(","));
        } else {
            eprintln!("CASE {}", String::from_utf8_lossy(s));
        }
        return;
    }
    unsafe {
        if NOTE.is_null() {
            return;
        }
        let n = s.len().min(NOTE_LEN - 16);
        let seq = NOTE as *mut u64;
        seq.write_volatile(seq.read_volatile().wrapping_add(1));
        (NOTE.add(8) as *mut u32).write_volatile(n as u32);
        std::ptr::copy_nonoverlapping(s.as_ptr(), NOTE.add(12), n);
    }
}

// ---- results -----------------------------------------------------------------------------

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
pub struct Results {
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub nontrivial: u64,
    pub max_depth: u64,
    pub capped: bool,
    pub samples: Vec<String>,
    pub found: Vec<(Class, String, String, String)>, // class, sig, case, detail
    pub outcomes: std::collections::BTreeMap<String, u64>,
}

impl Results {
    pub fn add(&mut self, case: &str, vs: Vec<Viol>) {
        mon::untracked(|| {
            for v in vs {
                if self.found.len() < 200 && !self.found.iter().any(|f| f.0 == v.class && f.1 == v.sig) {
                    self.found.push((v.class, v.sig, case.to_string(), v.detail));
                }
            }
        })
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        mon::untracked(|| {
            if self.samples.len() < 4 {
                self.samples.push(s());
            }
        })
    }
    pub fn outcome(&mut self, s: &str) {
        mon::untracked(|| {
            if let Some(n) = self.outcomes.get_mut(s) {
                *n += 1;
            } else {
                self.outcomes.insert(s.to_string(), 1);
            }
        })
    }
    pub fn print(&self) {
        let f: Vec<String> = self
            .found
            .iter()
            .map(|(c, s, k, d)| {
                format!("{{\"class\":{},\"sig\":{},\"case\":{},\"detail\":{}}}", esc(&format!("{:?}", c)), esc(s), esc(k), esc(d))
            })
            .collect();
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let o: Vec<String> = self.outcomes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        println!(
            "RESULT {{\"states\":{},\"transitions\":{},\"execs\":{},\"nontrivial\":{},\"max_depth\":{},\"capped\":{},\"samples\":[{}],\"outcomes\":{{{}}},\"found\":[{}]}}",
            self.states, self.transitions, self.execs, self.nontrivial, self.max_depth, self.capped,
            s.join(","), o.join(","), f.join(",")
        );
    }
}

/// Enumeration runner: runs named cases, each one tracked execution.
pub struct Cases {
    pub res: Results,
    pub only: Option<String>,
}

impl Cases {
    pub fn new(only: Option<String>) -> Self {
        Cases { res: Results::default(), only }
    }
    /// One execution.  `f` returns whether the case was non-trivial.
    pub fn run(&mut self, name: fmt::Arguments, f: impl FnOnce() -> bool) {
        let name = name.to_string();
        if let Some(o) = &self.only {
            if *o != name {
                return;
            }
        }
        note(name.as_bytes());
        self.res.execs += 1;
        let n = self.res.execs;
        crate::elems::reset();
        mon::begin();
        let r = guarded(f);
        if r.is_err() {
            let s = panic_sig();
            viol(Class::Panic, &mon::untracked(|| format!("unexpected panic: {}", s)), format_args!("{}", panic_msg()));
        }
        let bad = any();
        crate::elems::disarm();
        mon::end(bad);
        if !bad {
            crate::elems::expect_none_live();
        }
        if let Ok(true) = r {
            self.res.nontrivial += 1;
        }
        if any() {
            let v = take();
            self.res.add(&name, v);
        }
        if n == 1 || n == 100 || n == 10000 {
            self.res.sample(|| name.clone());
        }
    }
}

/// Where the monitor keeps this.
pub fn own() -> [(usize, usize); 3] {
    fn of<T>(p: *const T) -> (usize, usize) {
        (p as usize, p as usize + std::mem::size_of::<T>())
    }
    [of(std::ptr::addr_of!(VIOLS)), of(std::ptr::addr_of!(PANIC_MSG)), of(std::ptr::addr_of!(NOTE))]
}
