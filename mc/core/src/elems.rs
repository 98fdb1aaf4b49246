//! Instrumented element types over many layouts, the ledger of live values, and fault injection.
use crate::step::busy;
use crate::{ck, vio};
use std::any::Any;
use std::cell::Cell;
use std::fmt;
use std::hash::{Hash, Hasher};

// ---- ledger ------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum S {
    Unused,
    Live,
    Dead,
}
struct Ledger {
    st: [S; 256],
    label: [u8; 256],
    next: usize,
    live: usize,
}
static mut LEDGER: Ledger = Ledger { st: [S::Unused; 256], label: [0; 256], next: 0, live: 0 };
#[allow(static_mut_refs)]
#[inline(always)]
fn lg() -> &'static mut Ledger {
    unsafe { &mut LEDGER }
}
const BAD_IDS: [u8; 4] = [0, crate::mon::FRESH, crate::mon::FREED, 0x5C];

impl Ledger {
    fn fresh(&mut self, label: u8) -> u8 {
        for pass in 0..2 {
            for _ in 0..256 {
                self.next = (self.next + 1) & 255;
                let i = self.next as u8;
                if BAD_IDS.contains(&i) {
                    continue;
                }
                if self.st[self.next] == S::Unused || (pass == 1 && self.st[self.next] == S::Dead) {
                    self.st[self.next] = S::Live;
                    self.label[self.next] = label;
                    self.live += 1;
                    return i;
                }
            }
        }
        panic!("ledger exhausted");
    }
}

pub fn reset() {
    let l = lg();
    l.st = [S::Unused; 256];
    l.next = 0;
    l.live = 0;
    disarm();
    FAULT.with(|f| f.count.set([0; 6]));
}
pub fn live() -> usize {
    lg().live
}
pub fn expect_live(n: usize) {
    let l = lg().live;
    ck!(l <= n, Drop, "value lost or duplicated: more values live than there are owners for", "live={} owned={}", l, n);
    ck!(l >= n, Drop, "value dropped while still owned", "live={} owned={}", l, n);
}
pub fn expect_none_live() {
    let l = lg().live;
    ck!(l == 0, Drop, "value leaked: never dropped although every owner is gone", "{} value(s)", l);
}

// ---- faults ------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cb {
    Clone = 0,
    Drop = 1,
    Eq = 2,
    Hash = 3,
    Debug = 4,
    Iter = 5,
}
struct Fault {
    kind: Cell<usize>,
    left: Cell<usize>,
    fired: Cell<bool>,
    count: Cell<[usize; 6]>,
}
thread_local! {
    static FAULT: Fault = const { Fault { kind: Cell::new(99), left: Cell::new(0), fired: Cell::new(false), count: Cell::new([0; 6]) } };
}
/// Arm: the k-th (from 0) callback of this kind panics.
pub fn arm(kind: Cb, k: usize) {
    FAULT.with(|f| {
        f.kind.set(kind as usize);
        f.left.set(k);
        f.fired.set(false);
    })
}
pub fn disarm() {
    FAULT.with(|f| f.kind.set(99))
}
pub fn fired() -> bool {
    FAULT.with(|f| f.fired.get())
}
pub fn counts() -> [usize; 6] {
    FAULT.with(|f| f.count.get())
}
#[inline]
pub fn callback(kind: Cb) {
    crate::point::point();
    FAULT.with(|f| {
        let mut c = f.count.get();
        c[kind as usize] += 1;
        f.count.set(c);
        if f.kind.get() == kind as usize {
            if f.left.get() == 0 {
                f.kind.set(99);
                f.fired.set(true);
                std::panic::panic_any(crate::rep::Injected);
            }
            f.left.set(f.left.get() - 1);
        }
    })
}

// ---- element traits ----------------------------------------------------------------------

/// Elements of the non-Copy containers.
pub trait TElem: Clone + PartialEq + Eq + Hash + fmt::Debug + Any {
    /// Distinct type of identical layout.
    type Twin: TElem;
    const NAME: &'static str;
    /// True if values are counted by the ledger.
    const COUNTED: bool;
    fn make(label: u8) -> Self;
    /// Verified read of the label (255 after reporting if the value is not valid).
    fn label(&self) -> u8;
    /// Overwrite the label in place (no drop, no new value).
    fn relabel(&mut self, label: u8);
}

pub fn aligned<T>(p: *const T) -> bool {
    let ok = (p as usize) % std::mem::align_of::<T>() == 0;
    ck!(ok, Mem, "typed reference is misaligned", "align {} address mod 2*align = {}", std::mem::align_of::<T>(), p as usize % (2 * std::mem::align_of::<T>()));
    ok
}

fn pat(id: u8, j: usize) -> u8 {
    id.wrapping_mul(31).wrapping_add((j as u8).wrapping_mul(7)).wrapping_add(13)
}

fn fill(b: &mut [u8], id: u8) {
    let n = b.len();
    b[0] = id;
    if n <= 512 {
        for j in 1..n {
            b[j] = pat(id, j);
        }
    } else {
        // sparse for very large elements
        let mut j = 1;
        while j < n {
            b[j] = pat(id, j);
            j += 61;
        }
        b[n - 1] = pat(id, n - 1);
    }
}
fn intact(b: &[u8]) -> bool {
    let n = b.len();
    let id = b[0];
    if n <= 512 {
        (1..n).all(|j| b[j] == pat(id, j))
    } else {
        let mut j = 1;
        while j < n {
            if b[j] != pat(id, j) {
                return j == n - 1;
            }
            j += 61;
        }
        b[n - 1] == pat(id, n - 1)
    }
}

fn verify(b: &[u8], what: &str) -> Option<u8> {
    let id = b[0];
    match lg().st[id as usize] {
        S::Live => {
            if intact(b) {
                return Some(id);
            }
            viol_bytes(b, "value bytes corrupted or only partially moved", what);
        }
        S::Dead => viol_dead(id, what),
        S::Unused => viol_bytes(b, "use of bytes that are not a value", what),
    }
    None
}
fn viol_dead(id: u8, what: &str) {
    if what == "drop" {
        vio!(Drop, "value dropped twice", "id {}", id)
    } else {
        vio!(Drop, "dropped value used", "id {} in {}", id, what)
    }
}
fn viol_bytes(b: &[u8], sig: &str, what: &str) {
    vio!(Mem, sig, "first byte {:#x} in {}", b[0], what)
}

macro_rules! tracked1 {
    ($name:ident, $twin:ident, $size:literal, $align:literal) => {
        #[repr(C, align($align))]
        pub struct $name {
            b: [u8; $size],
        }
        impl TElem for $name {
            type Twin = $twin;
            const NAME: &'static str = stringify!($name);
            const COUNTED: bool = true;
            fn make(label: u8) -> Self {
                let _busy = busy();
                let mut s = $name { b: [0; $size] };
                fill(&mut s.b, lg().fresh(label));
                s
            }
            fn label(&self) -> u8 {
                let _busy = busy();
                if !aligned(self as *const Self) {
                    return 255;
                }
                match verify(&self.b, "read") {
                    Some(id) => lg().label[id as usize],
                    None => 255,
                }
            }
            fn relabel(&mut self, label: u8) {
                let _busy = busy();
                aligned(self as *const Self);
                if let Some(id) = verify(&self.b, "write") {
                    lg().label[id as usize] = label;
                }
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let l = self.label();
                callback(Cb::Clone);
                Self::make(l)
            }
            fn clone_from(&mut self, src: &Self) {
                let l = src.label();
                verify(&self.b, "clone_from destination");
                callback(Cb::Clone);
                self.relabel(l);
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                aligned(self as *const Self);
                {
                    let _busy = busy();
                    if let Some(id) = verify(&self.b, "drop") {
                        lg().st[id as usize] = S::Dead;
                        lg().live -= 1;
                    }
                }
                callback(Cb::Drop);
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                let r = self.label() == o.label();
                callback(Cb::Eq);
                r
            }
        }
        impl Eq for $name {}
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                let l = self.label();
                callback(Cb::Hash);
                h.write_u8(l);
                h.write_u32(0x1000 + l as u32);
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let l = self.label();
                callback(Cb::Debug);
                f.debug_tuple("E").field(&l).finish()
            }
        }
    };
}
macro_rules! tracked {
    ($($name:ident, $twin:ident, $size:literal, $align:literal;)*) => { $(
        tracked1!($name, $twin, $size, $align);
        tracked1!($twin, $name, $size, $align);
    )* };
}
tracked! {
    K1x1, K1x1b, 1, 1;
    K2x1, K2x1b, 2, 1;
    K3x1, K3x1b, 3, 1;
    K5x1, K5x1b, 5, 1;
    K2x2, K2x2b, 2, 2;
    K6x2, K6x2b, 6, 2;
    K4x4, K4x4b, 4, 4;
    K12x4, K12x4b, 12, 4;
    K8x8, K8x8b, 8, 8;
    K16x8, K16x8b, 16, 8;
    K24x8, K24x8b, 24, 8;
    K16x16, K16x16b, 16, 16;
    K48x16, K48x16b, 48, 16;
    K32x32, K32x32b, 32, 32;
    K64x32, K64x32b, 64, 32;
    K64x64, K64x64b, 64, 64;
    K128x128, K128x128b, 128, 128;
    K256x256, K256x256b, 256, 256;
    K768x256, K768x256b, 768, 256;
    K512x512, K512x512b, 512, 512;
    K1024x1024, K1024x1024b, 1024, 1024;
    K2048x2048, K2048x2048b, 2048, 2048;
    K4096x4096, K4096x4096b, 4096, 4096;
    K8192x8192, K8192x8192b, 8192, 8192;
    K1100x1, K1100x1b, 1100, 1;
    K3000x4, K3000x4b, 3000, 4;
}

macro_rules! stdelem {
    ($t:ty, $name:literal, $twin:ty, |$l:ident| $make:expr, |$s:ident| $label:expr) => {
        impl TElem for $t {
            type Twin = $twin;
            const NAME: &'static str = $name;
            const COUNTED: bool = false;
            fn make($l: u8) -> Self {
                $make
            }
            fn label(&self) -> u8 {
                if !aligned(self as *const Self) {
                    return 255;
                }
                let $s = self;
                $label
            }
            fn relabel(&mut self, l: u8) {
                *self = Self::make(l);
            }
        }
    };
}
fn parse(s: &str) -> u8 {
    match s.strip_prefix("label-").and_then(|s| s.strip_suffix("-end")).and_then(|s| s.parse().ok()) {
        Some(l) => l,
        None => {
            vio!(Mem, "string contents corrupted", "length {}", s.len());
            255
        }
    }
}
/// Same layout as String, different type.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct StrTwin(pub String);
stdelem!(String, "String", StrTwin, |l| format!("label-{}-end", l), |s| parse(s));
stdelem!(StrTwin, "StrTwin", String, |l| StrTwin(format!("label-{}-end", l)), |s| parse(&s.0));
/// Heap-owning element holding a counted value.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct BoxK(pub Box<K8x8>);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct BoxKb(pub Box<K8x8>);
macro_rules! boxelem {
    ($t:ident, $twin:ident) => {
        impl TElem for $t {
            type Twin = $twin;
            const NAME: &'static str = stringify!($t);
            const COUNTED: bool = true;
            fn make(l: u8) -> Self {
                $t(Box::new(K8x8::make(l)))
            }
            fn label(&self) -> u8 {
                if !aligned(self as *const Self) {
                    return 255;
                }
                let p = &*self.0 as *const K8x8 as *const u8;
                if crate::mon::block(p).is_none() {
                    vio!(Drop, "dropped value used", "box points to no live block");
                    return 255;
                }
                self.0.label()
            }
            fn relabel(&mut self, l: u8) {
                if crate::mon::block(&*self.0 as *const K8x8 as *const u8).is_some() {
                    self.0.relabel(l)
                }
            }
        }
    };
}
boxelem!(BoxK, BoxKb);
boxelem!(BoxKb, BoxK);

// ---- Copy elements -----------------------------------------------------------------------

pub trait CElem: Copy + PartialEq + Eq + Hash + fmt::Debug + Any {
    type Twin: CElem;
    const NAME: &'static str;
    fn make(label: u8) -> Self;
    fn label(&self) -> u8;
}
macro_rules! copyelem1 {
    ($name:ident, $twin:ident, $size:literal, $align:literal, $tag:literal) => {
        #[derive(Clone, Copy)]
        #[repr(C, align($align))]
        pub struct $name {
            b: [u8; $size],
        }
        impl CElem for $name {
            type Twin = $twin;
            const NAME: &'static str = stringify!($name);
            fn make(label: u8) -> Self {
                let mut s = $name { b: [0; $size] };
                fill(&mut s.b, label.wrapping_add($tag));
                s
            }
            fn label(&self) -> u8 {
                if !aligned(self as *const Self) {
                    return 255;
                }
                if intact(&self.b) && (self.b[0] >= $tag && self.b[0] < $tag + 16) {
                    self.b[0] - $tag
                } else {
                    viol_bytes(&self.b, "use of bytes that are not a value", "copy element");
                    255
                }
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                let r = self.label() == o.label();
                callback(Cb::Eq);
                r
            }
        }
        impl Eq for $name {}
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                let l = self.label();
                callback(Cb::Hash);
                h.write_u8(l);
                h.write_u32(0x2000 + l as u32);
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let l = self.label();
                callback(Cb::Debug);
                f.debug_tuple("C").field(&l).finish()
            }
        }
    };
}
macro_rules! copyelems {
    ($($name:ident, $twin:ident, $size:literal, $align:literal;)*) => { $(
        copyelem1!($name, $twin, $size, $align, 0x10);
        copyelem1!($twin, $name, $size, $align, 0x30);
    )* };
}
copyelems! {
    C1x1, C1x1b, 1, 1;
    C2x1, C2x1b, 2, 1;
    C3x1, C3x1b, 3, 1;
    C5x1, C5x1b, 5, 1;
    C2x2, C2x2b, 2, 2;
    C6x2, C6x2b, 6, 2;
    C4x4, C4x4b, 4, 4;
    C12x4, C12x4b, 12, 4;
    C8x8, C8x8b, 8, 8;
    C16x8, C16x8b, 16, 8;
    C24x8, C24x8b, 24, 8;
    C16x16, C16x16b, 16, 16;
    C48x16, C48x16b, 48, 16;
    C32x32, C32x32b, 32, 32;
    C64x32, C64x32b, 64, 32;
    C64x64, C64x64b, 64, 64;
    C128x128, C128x128b, 128, 128;
    C256x256, C256x256b, 256, 256;
    C768x256, C768x256b, 768, 256;
    C512x512, C512x512b, 512, 512;
    C1024x1024, C1024x1024b, 1024, 1024;
    C2048x2048, C2048x2048b, 2048, 2048;
    C4096x4096, C4096x4096b, 4096, 4096;
    C8192x8192, C8192x8192b, 8192, 8192;
    C1100x1, C1100x1b, 1100, 1;
    C3000x4, C3000x4b, 3000, 4;
}

/// Hasher that records exactly what it is fed.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0.iter().fold(0, |a, b| a.wrapping_mul(257).wrapping_add(*b as u64))
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b'w');
        self.0.extend_from_slice(b);
    }
    fn write_u8(&mut self, b: u8) {
        self.0.push(1);
        self.0.push(b);
    }
    fn write_u32(&mut self, b: u32) {
        self.0.push(4);
        self.0.extend_from_slice(&b.to_ne_bytes());
    }
}
pub fn rec_hash<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

/// Where the monitor keeps this.
pub fn own() -> (usize, usize) {
    let p = std::ptr::addr_of!(LEDGER) as usize;
    (p, p + std::mem::size_of::<Ledger>())
}
