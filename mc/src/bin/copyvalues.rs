//! Handles to Copy values (C07): copy, swap, writes and conversions between container elements,
//! typed values and handles, searched to closure.
use dync::traits::DropFn;
use dync::*;
use mc::bfs::{drive, Bounds, Sys};
use mc::elems::*;
use mc::vd::VA;
use mc::{ck, vio};
use std::any::TypeId;
use std::marker::PhantomData;
use std::mem::{align_of, size_of};

// Places: 0, 1 elements of a container; 2, 3 typed values; 4, 5 typed values of the twin type.
const N: usize = 6;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Copy(usize, usize, u8),
    CopyUnrelated(usize, usize),
    Swap(usize, usize, u8),
    Write(usize, u8, u8),
    FullSwap(usize, usize),
    FullClone(usize, usize),
    FullAssign(usize, usize),
    SliceCopy(usize, usize),
}
struct W<E: CElem> {
    d: VecCopy<VA>,
    t: [E; 2],
    u: [E::Twin; 2],
    m: [u8; N],
}
fn twin(p: usize) -> bool {
    p >= 4
}
struct S<E> {
    ops: Vec<Op>,
    _e: PhantomData<E>,
}
macro_rules! kind {
    ($twin:expr, $T:ident => $body:expr) => {
        if $twin {
            type $T<E> = <E as CElem>::Twin;
            $body
        } else {
            type $T<E> = E;
            $body
        }
    };
}
fn muts<E: CElem>(w: &mut W<E>) -> [Option<CopyValueMut<'_, VA>>; N] {
    let [a, b] = &mut w.t;
    let [c, e] = &mut w.u;
    let mut it = w.d.iter_mut();
    [it.next(), it.next(), Some(CopyValueMut::new(a)), Some(CopyValueMut::new(b)), Some(CopyValueMut::new(c)), Some(CopyValueMut::new(e))]
}
fn refs<E: CElem>(w: &W<E>) -> [CopyValueRef<'_, VA>; N] {
    [w.d.get_ref(0), w.d.iter().nth(1).unwrap(), CopyValueRef::new(&w.t[0]), CopyValueRef::new(&w.t[1]), CopyValueRef::new(&w.u[0]), CopyValueRef::new(&w.u[1])]
}
impl<E: CElem> S<E> {
    fn new() -> Self {
        use Op::*;
        let mut o = Vec::new();
        for a in 0..N {
            for b in 0..N {
                if a != b {
                    for how in 0..3 {
                        o.push(Copy(a, b, how));
                        o.push(Swap(a, b, how));
                    }
                    o.extend([CopyUnrelated(a, b), FullSwap(a, b), FullClone(a, b), FullAssign(a, b)]);
                    if a < 2 {
                        o.push(SliceCopy(a, b));
                    }
                }
            }
            for l in 0..2 {
                o.extend([Write(a, l, 0), Write(a, l, 1)]);
            }
        }
        S { ops: o, _e: PhantomData }
    }
}
fn full<'a>(v: CopyValueMut<'a, VA>) -> ValueMut<'a, (DropFn, VA)> {
    v.into()
}
impl<E: CElem> Sys for S<E> {
    type W = W<E>;
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn opname(&self, op: usize) -> String {
        format!("{:?}", self.ops[op])
    }
    fn fresh(&self) -> W<E> {
        W { d: VecCopy::from_vec(vec![E::make(0), E::make(1)]), t: [E::make(0), E::make(1)], u: [E::Twin::make(0), E::Twin::make(1)], m: [0, 1, 0, 1, 0, 1] }
    }
    fn enabled(&self, _: &W<E>, _: usize) -> bool {
        true
    }
    fn owned(&self, _: &W<E>) -> Option<usize> {
        None
    }
    fn canon(&self, w: &W<E>, out: &mut Vec<u8>) {
        out.extend_from_slice(&w.m);
    }
    fn apply(&self, w: &mut W<E>, op: usize) {
        use Op::*;
        let op = self.ops[op];
        let m = w.m;
        let same = |a: usize, b: usize| twin(a) == twin(b);
        match op {
            Write(a, l, how) => {
                let mut v = muts(w);
                let mut x = v[a].take().unwrap();
                let ok = kind!(twin(a), T => if how == 0 { x.downcast::<T<E>>() } else { x.upcast::<VA>().downcast::<T<E>>() }.map(|r| *r = T::<E>::make(l)).is_some());
                ck!(ok, Content, "right-type operation refused", "downcast of mutable handle");
                w.m[a] = l;
            }
            CopyUnrelated(a, b) => {
                // from a value that is not one of the places
                let t = twin(b);
                let (e, f) = (E::make(1), E::Twin::make(1));
                let mut v = muts(w);
                let r = v[a].take().unwrap().copy(if t { CopyValueRef::new(&f) } else { CopyValueRef::new(&e) }).is_some();
                ck!(r == same(a, b), Type, "copy accepts exactly the wrong types", "{} {}", a, b);
                if same(a, b) {
                    w.m[a] = 1;
                }
            }
            SliceCopy(a, b) => {
                if !same(a, b) {
                    return;
                }
                let x = E::make(w.m[b]);
                let mut v = w.d.as_mut_slice();
                ck!(v.get_mut(a).copy(CopyValueRef::new(&x)).is_some(), Content, "right-type operation refused", "copy");
                w.m[a] = m[b];
            }
            Copy(a, b, how) => {
                let mut v = muts(w);
                let (mut x, y) = (v[a].take().unwrap(), v[b].take().unwrap());
                let y = CopyValueRef::from(y);
                let r = match how {
                    0 => x.copy(y).is_some(),
                    1 => x.upcast::<VA>().copy(y.upcast::<VA>()).is_some(),
                    _ => match x.copy(y.clone()) {
                        Some(z) => z.copy(y.upcast_ref::<VA>()).is_some(),
                        None => false,
                    },
                };
                if same(a, b) {
                    ck!(r, Content, "right-type operation refused", "copy {} {}", a, b);
                    w.m[a] = m[b];
                } else {
                    ck!(!r, Type, "wrong-type operation accepted", "copy {} {}", a, b);
                }
            }
            Swap(a, b, how) => {
                let mut v = muts(w);
                let (mut x, mut y) = (v[a].take().unwrap(), v[b].take().unwrap());
                match how {
                    0 => x.swap(&mut y),
                    1 => x.upcast::<VA>().swap(&mut y.upcast::<VA>()),
                    _ => {
                        x.swap(&mut y);
                        y.swap(&mut x);
                        x.swap(&mut y);
                    }
                }
                if same(a, b) {
                    w.m.swap(a, b);
                }
            }
            FullSwap(a, b) => {
                let mut v = muts(w);
                let (x, y) = (v[a].take().unwrap(), v[b].take().unwrap());
                full(x).swap(&mut full(y));
                if same(a, b) {
                    w.m.swap(a, b);
                }
            }
            FullClone(a, b) => {
                let mut v = muts(w);
                let (x, y) = (v[a].take().unwrap(), v[b].take().unwrap());
                let r = full(x).clone_from_other(ValueRef::from(CopyValueRef::from(y))).is_ok();
                if same(a, b) {
                    ck!(r, Content, "right-type operation refused", "clone_from_other {} {}", a, b);
                    w.m[a] = m[b];
                } else {
                    ck!(!r, Type, "wrong-type operation accepted", "clone_from_other {} {}", a, b);
                }
            }
            FullAssign(a, b) => {
                let mut v = muts(w);
                let (x, y) = (v[a].take().unwrap(), v[b].take().unwrap());
                let y: ValueRef<(DropFn, VA)> = CopyValueRef::from(y).into();
                let own = y.clone_value();
                full(x).assign(own);
                if same(a, b) {
                    w.m[a] = m[b];
                }
            }
        }
    }
    fn observe(&self, w: &mut W<E>) {
        let m = w.m;
        let (d, t, u) = (w.d.as_slice_as::<E>().map(|s| s.as_ptr()), w.t.as_ptr(), w.u.as_ptr());
        let d = match d {
            Some(d) => d,
            None => return vio!(Content, "right-type operation refused", "as_slice_as"),
        };
        ck!(w.d.len() == 2, Content, "wrong length", "container of the values");
        let at: [usize; N] = [d as usize, d as usize + size_of::<E>(), t as usize, t as usize + size_of::<E>(), u as usize, u as usize + size_of::<E>()];
        let th: [Vec<u8>; N] = std::array::from_fn(|p| kind!(twin(p), T => rec_hash(&T::<E>::make(m[p]))));
        let td: [String; N] = std::array::from_fn(|p| kind!(twin(p), T => format!("{:?}", T::<E>::make(m[p]))));
        let r = refs(w);
        for p in 0..N {
            kind!(twin(p), T => {
                see::<T<E>>(r[p].clone(), m[p], at[p], "reference");
                see::<T<E>>(r[p].upcast_ref::<VA>(), m[p], at[p], "upcast_ref reference");
                see::<T<E>>(r[p].clone().upcast::<VA>(), m[p], at[p], "upcast reference");
                let v: ValueRef<(DropFn, VA)> = r[p].clone().into();
                ck!(v.downcast::<T<E>>().map(|x| x as *const T<E> as usize) == Some(at[p]), Content, "reference points to another element", "converted reference");
                let v: ValueRef<(DropFn, VA)> = r[p].clone().into();
                match v.clone_value().downcast::<T<E>>() {
                    Some(x) => ck!(x.label() == m[p], Content, "wrong element contents", "clone of converted reference"),
                    None => vio!(Content, "right-type operation refused", "downcast of clone of converted reference"),
                }
                ck!(v == v.reborrow() && rec_hash(&v) == th[p] && format!("{:?}", v) == td[p], Content, "value hashes differently from the typed value", "converted {}", p);
                let b = BoxValue::<(DropFn, VA)>::new(T::<E>::make(m[p]));
                ck!(b.as_ref() == v && b.clone() == b, Content, "equality of values is not that of the typed values", "converted {}", p);
            });
            ck!(rec_hash(&r[p]) == th[p], Content, "value hashes differently from the typed value", "place {}", p);
            ck!(format!("{:?}", r[p]) == td[p], Content, "value prints differently from the typed value", "place {}", p);
            for q in 0..N {
                ck!((r[p] == r[q]) == (twin(p) == twin(q) && m[p] == m[q]), Content, "equality of values is not that of the typed values", "{} {}", p, q);
            }
        }
        drop(r);
        let mut v = muts(w);
        for p in 0..N {
            for q in 0..N {
                if let (Some(a), Some(b)) = (&v[p], &v[q]) {
                    ck!((a == b) == (twin(p) == twin(q) && m[p] == m[q]), Content, "equality of values is not that of the typed values", "mutable {} {}", p, q);
                }
            }
            let mut x = v[p].take().unwrap();
            ck!(rec_hash(&x) == th[p] && format!("{:?}", x) == td[p], Content, "value hashes differently from the typed value", "mutable {}", p);
            kind!(twin(p), T => {
                ck!(x.size() == size_of::<T<E>>() && x.value_alignment() == align_of::<T<E>>() && x.is::<T<E>>() && !x.is::<<T<E> as CElem>::Twin>(),
                    Content, "value reference reports wrong size, alignment or type", "mutable {}", p);
                ck!(x.upcast::<VA>().downcast::<<T<E> as CElem>::Twin>().is_none(), Type, "wrong-type operation accepted", "mutable {}", p);
                ck!(x.upcast::<VA>().downcast::<T<E>>().map(|r| r as *mut T<E> as usize) == Some(at[p]), Content, "reference points to another element", "mutable {}", p);
                see::<T<E>>(x.into(), m[p], at[p], "mutable handle turned shared");
            });
        }
    }
}
fn see<T: CElem>(v: CopyValueRef<VA>, l: u8, at: usize, what: &str) {
    ck!(v.size() == size_of::<T>() && v.value_alignment() == align_of::<T>() && v.value_type_id() == TypeId::of::<T>() && v.is::<T>() && !v.is::<T::Twin>(),
        Content, "value reference reports wrong size, alignment or type", "{}", what);
    ck!(v.clone().downcast::<T::Twin>().is_none(), Type, "wrong-type operation accepted", "downcast of {}", what);
    match v.downcast::<T>() {
        Some(r) => {
            ck!(r as *const T as usize == at, Content, "reference points to another element", "{}", what);
            ck!(r.label() == l, Content, "wrong element contents", "{}: got {} want {}", what, r.label(), l);
        }
        None => vio!(Content, "right-type operation refused", "downcast of {}", what),
    }
}
macro_rules! types {
    ($($t:ident),*) => {
        const NAMES: &[&str] = &[$(stringify!($t)),*];
        fn dispatch(ty: &str, f: bool, th: bool, only: &Option<String>) {
            $(if ty == stringify!($t) { return go::<$t>(f, th, only); })*
            panic!("no type {}", ty)
        }
    };
}
types!(C1x1, C2x1, C3x1, C2x2, C6x2, C4x4, C12x4, C8x8, C24x8, C16x16, C48x16, C64x32, C128x128, C256x256, C1024x1024, C8192x8192, C1100x1, C3000x4);

fn go<E: CElem>(flat: bool, thorough: bool, only: &Option<String>) {
    let b = Bounds { max_depth: 60, max_states: 1_000_000 };
    let d = if thorough { 3 } else { 2 };
    drive(&S::<E>::new(), only, b, if flat { Some(d) } else { None }).print();
}
fn main() {
    let a = mc::args();
    if a.list {
        for n in NAMES {
            println!("{}:m", n);
            if ["C3x1", "C8x8", "C12x4", "C48x16"].contains(n) {
                println!("{}:u", n);
            }
        }
        return;
    }
    let (ty, mode) = a.job.split_once(':').unwrap();
    dispatch(ty, mode == "u", a.thorough, &a.only);
}
