//! Elements of every alignment the compiler supports beyond those of the other engines (C01-C04):
//! all histories of a bounded depth, in lockstep with a typed model, under the checking allocator.
use dync::traits::CloneVTable;
use dync::*;
use mc::rep::Cases;
use mc::ck;
use std::mem::{align_of, size_of};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};

type VD = VecDyn<CloneVTable>;
type VC = VecCopy<CloneVTable>;

static LIVE: AtomicIsize = AtomicIsize::new(0);

pub trait Big: Clone + 'static {
    fn make(l: u8) -> Self;
    fn label(&self) -> u8;
}
pub trait BigCopy: Copy + 'static {
    fn make(l: u8) -> Self;
    fn label(&self) -> u8;
    unsafe fn init(p: *mut Self, l: u8);
}
macro_rules! bigs {
    ($($k:ident $c:ident $m:ident $a:expr, $s:expr;)*) => {
        $(
            mod $m {
                use super::*;
                #[repr(C, align($a))]
                pub struct $k(u8, [u8; $s], u8);
                impl Big for $k {
                    fn make(l: u8) -> Self {
                        LIVE.fetch_add(1, SeqCst);
                        $k(l, [0; $s], l)
                    }
                    fn label(&self) -> u8 {
                        if self.0 == self.1.last().copied().unwrap_or(0) + self.2 && self as *const Self as usize % $a == 0 { self.0 } else { 255 }
                    }
                }
                impl Clone for $k {
                    fn clone(&self) -> Self {
                        Self::make(self.label())
                    }
                }
                impl Drop for $k {
                    fn drop(&mut self) {
                        LIVE.fetch_sub(1, SeqCst);
                        self.0 = 254;
                    }
                }
                #[repr(C, align($a))]
                #[derive(Copy, Clone)]
                pub struct $c(u8, [u8; $s], u8);
                impl BigCopy for $c {
                    fn make(l: u8) -> Self {
                        $c(l, [0; $s], l)
                    }
                    unsafe fn init(p: *mut Self, l: u8) {
                        std::ptr::addr_of_mut!((*p).0).write(l);
                        std::ptr::addr_of_mut!((*p).1).write([0; $s]);
                        std::ptr::addr_of_mut!((*p).2).write(l);
                    }
                    fn label(&self) -> u8 {
                        if self.0 == self.1.last().copied().unwrap_or(0) + self.2 && self as *const Self as usize % $a == 0 { self.0 } else { 255 }
                    }
                }
            }
        )*
        const NAMES: &[(&str, usize)] = &[$((stringify!($k), $a), (stringify!($c), $a)),*];
        fn dispatch(n: &str, c: &mut Cases, t: bool) {
            $(
                if n == stringify!($k) { return dynamic::<$m::$k>(c, depth($a, t)); }
                if n == stringify!($c) { return copies::<$m::$c>(c, depth($a, t)); }
            )*
            $(
                if $a > 1 << 26 && n == "huge" {
                    huge::<$m::$c>(c, t);
                }
            )*
            if n != "huge" {
                panic!("no job {}", n)
            }
        }
    };
}
// one unit of alignment, and two
bigs! {
    K8k C8k m0 8192, 0; K16k C16k m1 16384, 0; K32k C32k m2 32768, 0; K64k C64k m3 65536, 0; K128k C128k m4 131072, 0;
    K256k C256k m5 262144, 0; K512k C512k m6 524288, 0; K1m C1m m7 1048576, 0; K2m C2m m8 2097152, 0; K4m C4m m9 4194304, 0;
    K8m C8m m10 8388608, 0; K16m C16m m11 16777216, 0; K32m C32m m12 33554432, 0; K64m C64m m13 67108864, 0;
    K128m C128m m14 134217728, 0; K256m C256m m15 268435456, 0; K512m C512m m16 536870912, 0;
    K8kx2 C8kx2 m20 8192, 8200; K16kx2 C16kx2 m21 16384, 20000; K64kx2 C64kx2 m23 65536, 65535; K1mx2 C1mx2 m27 1048576, 1048576;
}
fn depth(align: usize, thorough: bool) -> usize {
    let d = match align {
        0..=65536 => 3,
        65537..=1048576 => 2,
        _ => 1,
    };
    if thorough && align <= 4194304 { d + 1 } else { d }
}

const DYN: &[&str] = &[
    "push_as", "push", "push_cloned", "grow", "shrink", "rotate_left", "rotate_right", "clone", "append", "reserve", "clear", "into_vec", "type_from", "swap", "slice_rotate", "assign", "fill",
    "clone_value", "clone_from", "subslices", "wrong",
];
const COPY: &[&str] = &[
    "push_as", "push", "extend", "collect", "grow", "shrink", "rotate_left", "rotate_right", "clone", "append", "reserve", "clear", "into_vec", "type_from", "swap", "slice_rotate", "copy", "fill",
    "copy_from_slice", "clone_from", "subslices", "wrong",
];
/// All histories of the depth, each from an empty vector and from one of two elements.
fn histories(names: &[&str], d: usize, mut f: impl FnMut(&str, usize, &[usize])) {
    for start in [0usize, 2] {
        let mut h = vec![0usize; d];
        loop {
            let name = format!("{}:{}", start, h.iter().map(|&o| names[o]).collect::<Vec<_>>().join(","));
            f(&name, start, &h);
            let mut i = d;
            while i > 0 {
                i -= 1;
                h[i] += 1;
                if h[i] < names.len() {
                    break;
                }
                h[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if i == usize::MAX || d == 0 {
                break;
            }
        }
    }
}

fn dynamic<E: Big>(c: &mut Cases, d: usize) {
    histories(DYN, d, |name, start, h| {
        c.run(format_args!("{} {}", size_of::<E>(), name), || {
            LIVE.store(0, SeqCst);
            {
                let mut m: Vec<u8> = (0..start as u8).collect();
                let mut v: VD = VecDyn::from_vec((0..start as u8).map(E::make).collect::<Vec<E>>());
                for &o in h {
                    v = dyn_op::<E>(DYN[o], v, &mut m);
                    let got: Vec<u8> = v.iter_as::<E>().unwrap().map(E::label).collect();
                    ck!(got == m, Content, "contents differ from the model", "{:?} instead of {:?}", got, m);
                    let refs: Vec<u8> = v.iter().map(|r| if r.value_alignment() == align_of::<E>() && r.size() == size_of::<E>() { r.downcast::<E>().map_or(252, E::label) } else { 253 }).collect();
                    ck!(refs == m && v.len() == m.len(), Content, "element references differ from the model", "{:?} instead of {:?}", refs, m);
                    ck!(LIVE.load(SeqCst) == m.len() as isize, Drop, "number of live values", "{} instead of {}", LIVE.load(SeqCst), m.len());
                    if mc::rep::any() {
                        break;
                    }
                }
            }
            ck!(LIVE.load(SeqCst) == 0, Drop, "values left after the vector is gone", "{}", LIVE.load(SeqCst));
            true
        })
    })
}
fn boxed<E: Big>(l: u8) -> BoxValue<CloneVTable> {
    BoxValue::new(E::make(l))
}
fn dyn_op<E: Big>(op: &str, mut v: VD, m: &mut Vec<u8>) -> VD {
    let n = m.len();
    match op {
        "push_as" => {
            v.push_as(E::make(7)).unwrap();
            m.push(7);
        }
        "push" => {
            v.push(boxed::<E>(8)).unwrap();
            m.push(8);
        }
        "push_cloned" => {
            let b = boxed::<E>(9);
            v.push_cloned(b.as_ref()).unwrap();
            m.push(9);
        }
        "grow" => {
            v.resize(n + 1, E::make(5)).unwrap();
            m.push(5);
        }
        "shrink" => {
            v.resize(n / 2, E::make(5)).unwrap();
            m.truncate(n / 2);
        }
        "rotate_left" => {
            v.rotate_left(n.min(1));
            m.rotate_left(n.min(1));
        }
        "rotate_right" => {
            v.rotate_right(n.min(1));
            m.rotate_right(n.min(1));
        }
        "clone" => v = v.clone(),
        "append" => {
            let mut o = v.clone();
            v.append(&mut o).unwrap();
            m.extend_from_within(..);
            ck!(o.is_empty(), Content, "appended vector keeps elements", "");
        }
        "reserve" => v = {
            let mut w: VD = VecDyn::with_capacity::<E>(n + 2);
            w.append(&mut v).unwrap();
            w
        },
        "clear" => {
            v.clear();
            m.clear();
        }
        "into_vec" => {
            let t = v.into_vec::<E>().unwrap();
            ck!(t.iter().map(E::label).collect::<Vec<_>>() == *m, Content, "typed vector differs from the model", "");
            v = t.into();
        }
        "type_from" => {
            let mut w: VD = VecDyn::with_type_from(v.as_slice());
            for r in v.iter() {
                w.push_cloned(r).unwrap();
            }
            v = w;
        }
        "swap" => {
            if n > 1 {
                v.as_mut_slice().swap(0, n - 1);
                m.swap(0, n - 1);
            }
        }
        "slice_rotate" => {
            v.as_mut_slice().rotate_left(n.min(1));
            m.rotate_left(n.min(1));
        }
        "assign" => {
            if n > 0 {
                v.get_mut(0).assign(boxed::<E>(4));
                m[0] = 4;
            }
        }
        "fill" => {
            v.fill(E::make(3)).unwrap();
            m.iter_mut().for_each(|x| *x = 3);
        }
        "clone_value" => {
            if n > 0 {
                let b = v.get(n - 1).clone_value();
                let t = b.downcast::<E>().unwrap();
                ck!(t.label() == m[n - 1], Content, "cloned value differs", "");
            }
        }
        "clone_from" => {
            if n > 0 {
                let b = boxed::<E>(6);
                v.get_mut(n - 1).clone_from_other(b.as_ref()).unwrap();
                m[n - 1] = 6;
                let mut w: VD = VecDyn::with_type::<E>();
                w.clone_from(&v);
                v = w;
            }
        }
        "subslices" => {
            for i in 0..=n {
                let s = v.as_slice();
                let (a, b) = s.split_at(i);
                let l = |s: &Slice<CloneVTable>| s.iter_as::<E>().unwrap().map(E::label).collect::<Vec<_>>();
                ck!(l(&a) == m[..i] && l(&b) == m[i..] && l(&s.subslice(i..)) == m[i..], Content, "subslices differ from the model", "");
            }
        }
        "wrong" => {
            ck!(v.push_as(1u8).is_none() && v.push(BoxValue::<CloneVTable>::new(1u8)).is_none() && v.fill(1u8).is_none() && (n == 0 || v.get_ref_as::<u8>(0).is_none()), Type, "wrong type accepted", "");
            ck!(v.as_slice_as::<u8>().is_none(), Type, "wrong type accepted", "");
        }
        o => panic!("no operation {}", o),
    }
    v
}

fn copies<E: BigCopy>(c: &mut Cases, d: usize) {
    histories(COPY, d, |name, start, h| {
        c.run(format_args!("{} {}", size_of::<E>(), name), || {
            let mut m: Vec<u8> = (0..start as u8).collect();
            let mut v: VC = VecCopy::from_vec((0..start as u8).map(E::make).collect::<Vec<E>>());
            for &o in h {
                v = copy_op::<E>(COPY[o], v, &mut m);
                let got: Vec<u8> = v.iter_as::<E>().unwrap().map(E::label).collect();
                ck!(got == m, Content, "contents differ from the model", "{:?} instead of {:?}", got, m);
                let refs: Vec<u8> = v.iter().map(|r| if r.value_alignment() == align_of::<E>() && r.size() == size_of::<E>() { r.downcast::<E>().map_or(252, E::label) } else { 253 }).collect();
                ck!(refs == m && v.len() == m.len(), Content, "element references differ from the model", "{:?} instead of {:?}", refs, m);
                if mc::rep::any() {
                    break;
                }
            }
            true
        })
    })
}
fn copy_op<E: BigCopy>(op: &str, mut v: VC, m: &mut Vec<u8>) -> VC {
    let n = m.len();
    match op {
        "push_as" => {
            v.push_as(E::make(7)).unwrap();
            m.push(7);
        }
        "push" => {
            let e = Box::new(E::make(8));
            v.push(CopyValueRef::<CloneVTable>::new(&*e)).unwrap();
            m.push(8);
        }
        "extend" => {
            let o = v.clone();
            v.extend(o.iter());
            m.extend_from_within(..);
        }
        "collect" => {
            if n > 0 {
                v = (0..n).rev().map(|i| v.get_ref(i)).collect();
                m.reverse();
            }
        }
        "grow" => {
            v.resize(n + 1, E::make(5)).unwrap();
            m.push(5);
        }
        "shrink" => {
            v.resize(n / 2, E::make(5)).unwrap();
            m.truncate(n / 2);
        }
        "rotate_left" => {
            v.rotate_left(n.min(1));
            m.rotate_left(n.min(1));
        }
        "rotate_right" => {
            v.rotate_right(n.min(1));
            m.rotate_right(n.min(1));
        }
        "clone" => v = v.clone(),
        "append" => {
            let mut o = v.clone();
            v.append(&mut o).unwrap();
            m.extend_from_within(..);
            ck!(o.is_empty(), Content, "appended vector keeps elements", "");
        }
        "reserve" => {
            v.reserve(2);
            ck!(v.capacity() >= n + 2, Cap, "reserve did not provide the capacity", "");
        }
        "clear" => {
            v.clear();
            m.clear();
        }
        "into_vec" => {
            let t = v.into_vec::<E>().unwrap();
            ck!(t.iter().map(E::label).collect::<Vec<_>>() == *m, Content, "typed vector differs from the model", "");
            v = t.into();
        }
        "type_from" => {
            let mut w: VC = VecCopy::with_type_from(v.as_slice());
            for r in v.iter() {
                w.push(r).unwrap();
            }
            v = w;
        }
        "swap" => {
            if n > 1 {
                v.as_mut_slice().swap(0, n - 1);
                m.swap(0, n - 1);
            }
        }
        "slice_rotate" => {
            v.as_mut_slice().rotate_left(n.min(1));
            m.rotate_left(n.min(1));
        }
        "copy" => {
            if n > 0 {
                let e = Box::new(E::make(4));
                v.get_mut(0).copy(CopyValueRef::new(&*e)).unwrap();
                m[0] = 4;
            }
        }
        "fill" => {
            v.fill(E::make(3)).unwrap();
            m.iter_mut().for_each(|x| *x = 3);
        }
        "copy_from_slice" => {
            let t: Vec<E> = (0..n).map(|i| E::make(20 + i as u8)).collect();
            v.copy_from_slice(&t).unwrap();
            m.iter_mut().enumerate().for_each(|(i, x)| *x = 20 + i as u8);
        }
        "clone_from" => {
            let mut w: VC = VecCopy::with_type::<E>();
            w.clone_from(&v);
            v = w;
        }
        "subslices" => {
            for i in 0..=n {
                let s = v.as_slice();
                let (a, b) = s.split_at(i);
                let l = |s: &SliceCopy<CloneVTable>| s.iter_as::<E>().unwrap().map(E::label).collect::<Vec<_>>();
                ck!(l(&a) == m[..i] && l(&b) == m[i..] && l(&s.subslice(i..)) == m[i..], Content, "subslices differ from the model", "");
            }
        }
        "wrong" => {
            ck!(v.push_as(1u8).is_none() && v.as_slice_as::<u8>().is_none() && v.resize(0, 1u8).is_none() && v.fill(1u8).is_none(), Type, "wrong type accepted", "");
        }
        o => panic!("no operation {}", o),
    }
    v
}

/// Elements too large for the stack: only what moves them within or between vectors.
const HUGE: &[&str] = &["with_capacity", "one", "two", "clone", "append", "reserve", "rotate", "swap", "clear", "into_vec", "clone_from", "dyn", "subslice"];
fn huge<E: BigCopy>(c: &mut Cases, t: bool) {
    let new = |n: u8| -> Vec<E> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            // SAFETY: The element is within the capacity, and only its padding stays as it is.
            unsafe {
                E::init((v.as_mut_ptr() as *mut E).add(i as usize), i + 1);
                v.set_len(i as usize + 1);
            }
        }
        v
    };
    // All pairs take a minute.
    let starts = if t { HUGE } else { &["one"] };
    for first in starts {
        for second in HUGE {
            c.run(format_args!("{} {},{}", size_of::<E>(), first, second), || {
                let mut m: Vec<u8> = vec![];
                let mut v: VC = VecCopy::with_type::<E>();
                for op in [first, second] {
                    let n = m.len();
                    match *op {
                        "with_capacity" => {
                            v = VecCopy::with_type::<E>();
                            v.reserve(2);
                            ck!(v.capacity() >= 2, Content, "reserve did not provide the capacity", "");
                            m.clear();
                        }
                        "one" | "two" => {
                            m = if *op == "one" { vec![1] } else { vec![1, 2] };
                            v = new(m.len() as u8).into();
                        }
                        "clone" => v = v.clone(),
                        "append" => {
                            let mut w: VC = new(1).into();
                            v.append(&mut w).unwrap();
                            m.push(1);
                        }
                        "reserve" => v.reserve(1),
                        "rotate" => {
                            v.rotate_left(n.min(1));
                            m.rotate_left(n.min(1));
                            v.rotate_right(n);
                        }
                        "swap" => {
                            if n > 0 {
                                v.as_mut_slice().swap(0, n - 1);
                                m.swap(0, n - 1);
                            }
                        }
                        "clear" => {
                            v.clear();
                            m.clear();
                        }
                        "into_vec" => v = v.into_vec::<E>().unwrap().into(),
                        "clone_from" => {
                            let mut w: VC = new(1).into();
                            w.clone_from(&v);
                            v = w;
                        }
                        "dyn" => {
                            let mut d: VD = VecDyn::from_vec(v.into_vec::<E>().unwrap());
                            let mut e = d.clone();
                            d.append(&mut e).unwrap();
                            m.extend_from_within(..);
                            v = d.into_vec::<E>().unwrap().into();
                        }
                        "subslice" => {
                            let s = v.as_slice();
                            let (a, b) = s.split_at(n / 2);
                            ck!(a.len() == n / 2 && b.len() == n - n / 2 && s.subslice(n / 2..).as_slice::<E>().unwrap().as_ptr() == b.as_slice::<E>().unwrap().as_ptr(), Content, "subslices differ from the model", "");
                        }
                        o => panic!("no operation {}", o),
                    }
                    let got: Vec<u8> = v.iter_as::<E>().unwrap().map(E::label).collect();
                    ck!(got == m, Content, "contents differ from the model", "{:?} instead of {:?}", got, m);
                    ck!(v.iter().all(|r| r.value_alignment() == align_of::<E>() && r.size() == size_of::<E>()) && v.len() == m.len(), Content, "element references differ from the model", "");
                    if mc::rep::any() {
                        break;
                    }
                }
                true
            })
        }
    }
}

fn main() {
    let a = mc::args();
    if a.list {
        for (n, align) in NAMES {
            if *align <= 1 << 26 {
                println!("{}", n);
            }
        }
        println!("huge");
        return;
    }
    // A few elements live on the stack at a time.
    let t = std::thread::Builder::new().stack_size(4 << 30).spawn(move || {
        let mut cs = Cases::new(a.only.clone());
        dispatch(&a.job, &mut cs, a.thorough);
        cs.res.states = cs.res.execs;
        cs.res.transitions = cs.res.execs;
        cs.res.print();
    });
    if t.unwrap().join().is_err() {
        std::process::exit(101);
    }
}
