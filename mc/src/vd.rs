//! Explicit-state model of VecDyn histories: two containers A and B whose element types may be E or
//! its same-layout twin, driven against plain vectors of labels.
use crate::bfs::Sys;
use crate::elems::*;
use crate::mon;
use crate::rep::guarded;
use crate::{ck, vio};
use dync::*;
use std::any::TypeId;
use std::marker::PhantomData;
use std::mem::{align_of, size_of};

#[dync_trait]
pub trait All: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
impl<T> All for T where T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
pub type VA = AllVTable;
pub type VD = VecDyn<VA>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    NewType(bool),
    NewCap(bool, usize),
    FromVec(bool, usize, usize), // n elements 0,1,0..., spare capacity
    FromSlice(usize),
    WithSize(usize, u8),
    TypeFromVec,
    TypeFromSlice,
    TypeFromSliceMut,
    TypeFromVal,
    TypeFromValMut,
    CloneB,
    Swap,
    RtVec(bool),
    RtRaw,
    RtCheck,
    CheckWrong,
    IntoWrong,
    PushAs(u8),
    PushAsWrong,
    PushBox(u8),
    PushBoxWrong,
    PushBoxOtherTable(u8),
    PushRef(u8),
    PushRefWrong,
    PushFromB(usize),
    AppendB,
    Clear,
    RotL(usize),
    RotR(usize),
    Resize(usize, u8),
    ResizeWrong,
    Fill(u8),
    FillWrong,
    SetAs(usize, u8),
    SetIterAs(usize, u8),
    SetSliceAs(usize, u8),
    SetGetMut(usize, u8),
    SetIterMut(usize, u8),
    Relabel(usize, u8),
    AssignBox(usize, u8),
    AssignWrong(usize),
    AssignSmall(usize, u8),
    CloneFromB(usize, usize),
    CloneFromBox(usize, u8),
    SwapVals(usize, usize),
    SliceSwap(usize, usize),
    SliceRotL(usize),
    SliceRotR(usize),
    SliceClone(u8),
    SliceCloneWrong,
    TakeB, // A's storage replaced: drop A, move B there, B fresh
}

#[derive(Clone, Default)]
pub struct M {
    pub twin: bool,
    pub v: Vec<u8>,
}
pub struct W<E> {
    a: Option<VD>,
    b: Option<VD>,
    ma: M,
    mb: M,
    _e: PhantomData<E>,
}

pub struct S<E> {
    l: usize,
    lb: usize,
    ops: Vec<Op>,
    _e: PhantomData<E>,
}

impl<E: TElem> S<E> {
    /// `l`: bound on A's length and `lb` on B's.  `rich`: full argument domains.
    pub fn new(l: usize, lb: usize, rich: bool) -> Self {
        let mut o = Vec::new();
        use Op::*;
        for t in [false, true] {
            o.push(NewType(t));
            for n in [0, 1, 3] {
                o.push(NewCap(t, n));
            }
            for (n, s) in [(0, 2), (1, 0), (2, 0), (2, 1)] {
                if n <= l {
                    o.push(FromVec(t, n, s));
                }
            }
        }
        for n in 0..=l.min(2) {
            o.push(FromSlice(n));
        }
        o.push(WithSize(0, 0));
        o.push(WithSize(l, 1));
        o.extend([TypeFromVec, TypeFromSlice, TypeFromSliceMut, TypeFromVal, TypeFromValMut, CloneB, Swap]);
        o.extend([RtVec(false), RtVec(true), RtRaw, RtCheck, CheckWrong, IntoWrong]);
        for x in 0..2 {
            o.extend([PushAs(x), PushBox(x), PushRef(x)]);
        }
        o.extend([PushBoxOtherTable(1), PushAsWrong, PushBoxWrong, PushRefWrong]);
        for j in 0..lb {
            o.push(PushFromB(j));
        }
        o.extend([AppendB, Clear, TakeB]);
        for k in 0..=l {
            o.extend([RotL(k), RotR(k), SliceRotL(k), SliceRotR(k)]);
        }
        for n in 0..=l {
            o.push(Resize(n, 1));
        }
        o.extend([ResizeWrong, Fill(0), Fill(1), FillWrong, SliceClone(0), SliceClone(1), SliceCloneWrong]);
        for i in 0..l {
            let xs: &[u8] = if rich { &[0, 1] } else { &[1] };
            for &x in xs {
                o.extend([SetAs(i, x), SetIterAs(i, x), SetSliceAs(i, x), SetGetMut(i, x), SetIterMut(i, x), Relabel(i, x)]);
                o.extend([AssignBox(i, x), AssignSmall(i, x), CloneFromBox(i, x)]);
            }
            o.push(AssignWrong(i));
            for j in 0..lb {
                o.extend([CloneFromB(i, j), SwapVals(i, j)]);
            }
            for j in 0..l {
                o.push(SliceSwap(i, j));
            }
        }
        S { l, lb, ops: o, _e: PhantomData }
    }
    /// Few operations, long containers.
    pub fn long(l: usize) -> Self {
        use Op::*;
        let o = vec![
            PushAs(0), PushRef(1), PushBox(1), AppendB, CloneB, Swap, RotL(1), RotL(2), RotR(1), Clear, Resize(l, 1), Resize(l / 2, 0), RtVec(false),
            RtVec(true), SliceSwap(0, l - 1),
        ];
        S { l, lb: l, ops: o, _e: PhantomData }
    }
}

fn labels<T: TElem>(n: usize, spare: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n + spare);
    for i in 0..n {
        v.push(T::make((i % 2) as u8));
    }
    v
}

macro_rules! kind {
    ($twin:expr, $T:ident => $body:expr) => {
        if $twin {
            type $T<E> = <E as TElem>::Twin;
            $body
        } else {
            type $T<E> = E;
            $body
        }
    };
}

impl<E: TElem> Sys for S<E> {
    type W = W<E>;
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn opname(&self, op: usize) -> String {
        format!("{:?}", self.ops[op])
    }
    fn fresh(&self) -> W<E> {
        W {
            a: Some(VD::with_type::<E>()),
            b: Some(VD::with_type::<E>()),
            ma: M::default(),
            mb: M::default(),
            _e: PhantomData,
        }
    }
    fn enabled(&self, w: &W<E>, op: usize) -> bool {
        use Op::*;
        let n = w.ma.v.len();
        let nb = w.mb.v.len();
        let same = w.ma.twin == w.mb.twin;
        match self.ops[op] {
            PushAs(_) | PushBox(_) | PushBoxOtherTable(_) | PushRef(_) => n < self.l,
            PushFromB(j) => j < nb && (n < self.l || !same),
            AppendB => n + nb <= self.l || !same,
            Swap => n <= self.lb,
            CloneB | TakeB => true,
            TypeFromVal | TypeFromValMut => nb > 0,
            RotL(k) | RotR(k) | SliceRotL(k) | SliceRotR(k) => k <= n,
            SetAs(i, _) | SetIterAs(i, _) | SetSliceAs(i, _) | SetGetMut(i, _) | SetIterMut(i, _) | Relabel(i, _) | AssignBox(i, _) | AssignWrong(i)
            | CloneFromBox(i, _) => i < n,
            AssignSmall(i, _) => i < n && size_of::<E>() == size_of::<usize>(),
            CloneFromB(i, j) | SwapVals(i, j) => i < n && j < nb,
            SliceSwap(i, j) => i < n && j < n,
            _ => true,
        }
    }
    fn owned(&self, w: &W<E>) -> Option<usize> {
        if E::COUNTED {
            Some(w.ma.v.len() + w.mb.v.len())
        } else {
            None
        }
    }
    fn canon(&self, w: &W<E>, out: &mut Vec<u8>) {
        for (c, m) in [(&w.a, &w.ma), (&w.b, &w.mb)] {
            out.push(m.twin as u8);
            out.push(m.v.len() as u8);
            out.extend_from_slice(&m.v);
            let cap = match c {
                Some(c) => {
                    let p = kind!(m.twin, T => c.as_slice_as::<T<E>>().map(|s| s.as_ptr() as *const u8));
                    p.and_then(|p| mon::block(p)).map(|b| b.0).unwrap_or(0)
                }
                None => 0,
            };
            out.extend_from_slice(&(cap as u32).to_le_bytes());
        }
    }
    fn apply(&self, w: &mut W<E>, op: usize) {
        let op = self.ops[op];
        let at = w.ma.twin;
        kind!(at, T => step::<E, T<E>>(w, op));
    }
    fn observe(&self, w: &mut W<E>) {
        let W { a, b, ma, mb, .. } = w;
        for (c, m) in [(a, &*ma), (b, &*mb)] {
            let c = match c {
                Some(c) => c,
                None => {
                    vio!(Content, "container lost", "");
                    continue;
                }
            };
            kind!(m.twin, T => observe::<T<E>>(c, &m.v));
        }
    }
}

pub fn ids<T: TElem>(s: &[T], m: &[u8], what: &str) {
    if s.len() != m.len() {
        vio!(Content, "wrong number of elements", "{}: got {} want {}", what, s.len(), m.len());
        return;
    }
    for (i, x) in s.iter().enumerate() {
        let l = x.label();
        ck!(l == m[i], Content, "wrong element contents", "{}: index {} got {} want {}", what, i, l, m[i]);
    }
}

/// `Some` results of a typed entry point with the right type; `None` with the wrong one.
fn want<R>(r: &Option<R>, some: bool, what: &str) {
    if some {
        ck!(r.is_some(), Content, "right-type operation refused", "{}", what);
    } else {
        ck!(r.is_none(), Type, "wrong-type operation accepted", "{}", what);
    }
}

/// T is the element type currently stored in A.
fn step<E: TElem, T: TElem>(w: &mut W<E>, op: Op) {
    use Op::*;
    let same = w.ma.twin == w.mb.twin;
    if let Swap = op {
        std::mem::swap(&mut w.a, &mut w.b);
        std::mem::swap(&mut w.ma, &mut w.mb);
        return;
    }
    let n = w.ma.v.len();
    match op {
        NewType(t) => {
            w.a = None;
            w.a = Some(kind!(t, X => VD::with_type::<X<E>>()));
            w.ma = M { twin: t, v: vec![] };
        }
        NewCap(t, c) => {
            w.a = None;
            w.a = Some(kind!(t, X => VD::with_capacity::<X<E>>(c)));
            w.ma = M { twin: t, v: vec![] };
        }
        FromVec(t, c, s) => {
            w.a = Some(kind!(t, X => if c == 1 { VD::from(labels::<X<E>>(c, s)) } else { VD::from_vec(labels::<X<E>>(c, s)) }));
            w.ma = M { twin: t, v: (0..c).map(|i| (i % 2) as u8).collect() };
        }
        FromSlice(c) => {
            let v = labels::<E>(c, 0);
            w.a = Some(if c == 1 { VD::from(v.as_slice()) } else { VD::from_slice(&v) });
            w.ma = M { twin: false, v: (0..c).map(|i| (i % 2) as u8).collect() };
            ids(&v, &w.ma.v, "source of from_slice");
        }
        WithSize(c, x) => {
            w.a = Some(VD::with_size(c, E::make(x)));
            w.ma = M { twin: false, v: vec![x; c] };
        }
        TypeFromVec => {
            let r = VD::with_type_from(w.b.as_ref().unwrap());
            w.a = Some(r);
            w.ma = M { twin: w.mb.twin, v: vec![] };
        }
        TypeFromSlice => {
            let r = VD::with_type_from(w.b.as_ref().unwrap().as_slice());
            w.a = Some(r);
            w.ma = M { twin: w.mb.twin, v: vec![] };
        }
        TypeFromSliceMut => {
            let r = VD::with_type_from(w.b.as_mut().unwrap().as_mut_slice());
            w.a = Some(r);
            w.ma = M { twin: w.mb.twin, v: vec![] };
        }
        TypeFromVal => {
            let r = VD::with_type_from(w.b.as_ref().unwrap().get(0));
            w.a = Some(r);
            w.ma = M { twin: w.mb.twin, v: vec![] };
        }
        TypeFromValMut => {
            let r = VD::with_type_from(w.b.as_mut().unwrap().get_mut(0));
            w.a = Some(r);
            w.ma = M { twin: w.mb.twin, v: vec![] };
        }
        CloneB => {
            let r = w.b.as_ref().unwrap().clone();
            w.a = Some(r);
            w.ma = w.mb.clone();
        }
        TakeB => {
            w.a = None;
            w.a = w.b.take();
            w.ma = std::mem::take(&mut w.mb);
            w.b = Some(VD::with_type::<E>());
        }
        Swap => unreachable!(),
        RtVec(shrink) => {
            let v: Option<Vec<T>> = if shrink { w.a.take().unwrap().into_vec::<T>() } else { w.a.take().unwrap().into() };
            want(&v, true, "into_vec");
            if let Some(mut v) = v {
                ids(&v, &w.ma.v, "into_vec");
                if shrink {
                    v.shrink_to_fit();
                }
                w.a = Some(VD::from_vec(v));
            }
        }
        RtRaw => {
            let (d, v) = w.a.take().unwrap().into_raw_parts();
            w.a = Some(unsafe { VD::from_raw_parts(d, v) });
        }
        RtCheck => {
            let r = w.a.take().unwrap().check::<T>();
            want(&r, true, "check");
            w.a = r;
        }
        CheckWrong => {
            let r = w.a.take().unwrap().check::<T::Twin>();
            want(&r, false, "check");
            w.a = Some(VD::with_type::<T>());
            w.ma.v.clear();
        }
        IntoWrong => {
            let r = w.a.take().unwrap().into_vec::<T::Twin>();
            want(&r, false, "into_vec");
            std::mem::forget(r);
            w.a = Some(VD::with_type::<T>());
            w.ma.v.clear();
        }
        _ => {}
    }
    let W { a, b, ma, mb, .. } = w;
    let a = match a {
        Some(a) => a,
        None => return,
    };
    let b = match b {
        Some(b) => b,
        None => return,
    };
    match op {
        PushAs(x) => {
            want(&a.push_as(T::make(x)).map(|_| ()), true, "push_as");
            ma.v.push(x);
        }
        PushAsWrong => want(&a.push_as(T::Twin::make(1)).map(|_| ()), false, "push_as"),
        PushBox(x) => {
            want(&a.push(BoxValue::<VA>::new(T::make(x))).map(|_| ()), true, "push");
            ma.v.push(x);
        }
        PushBoxWrong => want(&a.push(BoxValue::<VA>::new(T::Twin::make(1))).map(|_| ()), false, "push"),
        PushBoxOtherTable(x) => {
            want(&a.push(BoxValue::<traits::DropVTable>::new(T::make(x))).map(|_| ()), true, "push with other table");
            ma.v.push(x);
        }
        PushRef(x) => {
            let t = T::make(x);
            want(&a.push_cloned(ValueRef::new(&t)).map(|_| ()), true, "push_cloned");
            ck!(t.label() == x, Content, "push_cloned changed its source", "");
            ma.v.push(x);
        }
        PushRefWrong => {
            let t = T::Twin::make(1);
            want(&a.push_cloned(ValueRef::new(&t)).map(|_| ()), false, "push_cloned");
        }
        PushFromB(j) => {
            want(&a.push_cloned(b.get(j)).map(|_| ()), same, "push_cloned from container");
            if same {
                ma.v.push(mb.v[j]);
            }
        }
        AppendB => {
            want(&a.append(b).map(|_| ()), same, "append");
            if same {
                ma.v.append(&mut mb.v);
            }
        }
        Clear => {
            a.clear();
            ma.v.clear();
        }
        RotL(k) => {
            a.rotate_left(k);
            ma.v.rotate_left(k);
        }
        RotR(k) => {
            a.rotate_right(k);
            ma.v.rotate_right(k);
        }
        Resize(c, x) => {
            want(&a.resize(c, T::make(x)).map(|_| ()), true, "resize");
            ma.v.resize(c, x);
        }
        ResizeWrong => {
            want(&a.resize(n + 1, T::Twin::make(1)).map(|_| ()), false, "resize grow");
            want(&a.resize(n.saturating_sub(1), T::Twin::make(1)).map(|_| ()), false, "resize shrink");
        }
        Fill(x) => {
            want(&a.fill(T::make(x)).map(|_| ()), true, "fill");
            ma.v.iter_mut().for_each(|y| *y = x);
        }
        FillWrong => want(&a.fill(T::Twin::make(1)).map(|_| ()), false, "fill"),
        SetAs(i, x) => {
            match a.get_mut_as::<T>(i) {
                Some(r) => *r = T::make(x),
                None => vio!(Content, "right-type operation refused", "get_mut_as"),
            }
            ma.v[i] = x;
        }
        SetIterAs(i, x) => {
            match a.iter_mut_as::<T>().and_then(|mut it| it.nth(i)) {
                Some(r) => *r = T::make(x),
                None => vio!(Content, "right-type operation refused", "iter_mut_as"),
            }
            ma.v[i] = x;
        }
        SetSliceAs(i, x) => {
            match a.as_mut_slice_as::<T>() {
                Some(r) => r[i] = T::make(x),
                None => vio!(Content, "right-type operation refused", "as_mut_slice_as"),
            }
            ma.v[i] = x;
        }
        SetGetMut(i, x) => {
            match a.get_mut(i).downcast::<T>() {
                Some(r) => *r = T::make(x),
                None => vio!(Content, "right-type operation refused", "get_mut().downcast"),
            }
            ma.v[i] = x;
        }
        SetIterMut(i, x) => {
            match a.iter_mut().nth(i).and_then(|v| v.downcast::<T>()) {
                Some(r) => *r = T::make(x),
                None => vio!(Content, "right-type operation refused", "iter_mut().downcast"),
            }
            ma.v[i] = x;
        }
        Relabel(i, x) => {
            match a.as_mut_slice().get_mut(i).downcast::<T>() {
                Some(r) => r.relabel(x),
                None => vio!(Content, "right-type operation refused", "slice get_mut().downcast"),
            }
            ma.v[i] = x;
        }
        AssignBox(i, x) => {
            a.get_mut(i).assign(BoxValue::<VA>::new(T::make(x)));
            ma.v[i] = x;
        }
        AssignSmall(i, x) => {
            a.get_mut(i).assign(SmallValue::<VA>::new(T::make(x)));
            ma.v[i] = x;
        }
        AssignWrong(i) => {
            a.get_mut(i).assign(BoxValue::<VA>::new(T::Twin::make(1)));
        }
        CloneFromB(i, j) => {
            let r = a.get_mut(i).clone_from_other(b.get(j));
            if same {
                ck!(r.is_ok(), Content, "right-type operation refused", "clone_from_other");
                ma.v[i] = mb.v[j];
            } else {
                ck!(r.is_err(), Type, "wrong-type operation accepted", "clone_from_other");
            }
        }
        CloneFromBox(i, x) => {
            let bx = BoxValue::<VA>::new(T::make(x));
            let r = a.get_mut(i).clone_from_other(&bx);
            ck!(r.is_ok(), Content, "right-type operation refused", "clone_from_other");
            ma.v[i] = x;
        }
        SwapVals(i, j) => {
            a.get_mut(i).swap(&mut b.get_mut(j));
            if same {
                std::mem::swap(&mut ma.v[i], &mut mb.v[j]);
            }
        }
        SliceSwap(i, j) => {
            a.as_mut_slice().swap(i, j);
            ma.v.swap(i, j);
        }
        SliceRotL(k) => {
            a.as_mut_slice().rotate_left(k);
            ma.v.rotate_left(k);
        }
        SliceRotR(k) => {
            a.as_mut_slice().rotate_right(k);
            ma.v.rotate_right(k);
        }
        SliceClone(x) => {
            let src: Vec<T> = (0..n).map(|i| T::make((x + i as u8) % 2)).collect();
            want(&a.as_mut_slice().clone_from_slice(&src).map(|_| ()), true, "clone_from_slice");
            for i in 0..n {
                ma.v[i] = (x + i as u8) % 2;
            }
        }
        SliceCloneWrong => {
            let src: Vec<T::Twin> = (0..n).map(|_| T::Twin::make(1)).collect();
            want(&a.as_mut_slice().clone_from_slice(&src).map(|_| ()), false, "clone_from_slice");
        }
        _ => {}
    }
}

pub fn val_ref<T: TElem>(v: ValueRef<VA>, l: u8, addr: *const T, what: &str) {
    ck!(v.size() == size_of::<T>(), Content, "value reference reports wrong size", "{}", what);
    ck!(v.value_alignment() == align_of::<T>(), Content, "value reference reports wrong alignment", "{}", what);
    ck!(v.value_type_id() == TypeId::of::<T>(), Content, "value reference reports wrong type", "{}", what);
    ck!(v.is::<T>() && !v.is::<T::Twin>(), Content, "value reference reports wrong type", "{}", what);
    ck!(v.reborrow().downcast::<T::Twin>().is_none(), Type, "wrong-type operation accepted", "downcast of {}", what);
    match v.downcast::<T>() {
        Some(r) => {
            ck!(r as *const T == addr, Content, "reference points to another element", "{}", what);
            if r as *const T == addr {
                let g = r.label();
                ck!(g == l, Content, "wrong element contents", "{}: got {} want {}", what, g, l);
            }
        }
        None => vio!(Content, "right-type operation refused", "downcast of {}", what),
    }
}
pub fn val_mut<T: TElem>(mut v: ValueMut<VA>, l: u8, addr: *const T, what: &str) {
    ck!(v.size() == size_of::<T>(), Content, "value reference reports wrong size", "{}", what);
    ck!(v.value_alignment() == align_of::<T>(), Content, "value reference reports wrong alignment", "{}", what);
    ck!(v.is::<T>() && !v.is::<T::Twin>(), Content, "value reference reports wrong type", "{}", what);
    ck!(v.reborrow_mut().downcast::<T::Twin>().is_none(), Type, "wrong-type operation accepted", "downcast of {}", what);
    val_ref::<T>(v.reborrow(), l, addr, what);
    match v.downcast::<T>() {
        Some(r) => ck!(r as *const T == addr, Content, "reference points to another element", "{}", what),
        None => vio!(Content, "right-type operation refused", "downcast of {}", what),
    }
}

/// Every way of reading `c`, compared with the model.
pub fn observe<T: TElem>(c: &mut VD, m: &[u8]) {
    let n = m.len();
    ck!(c.len() == n, Content, "wrong length", "len() = {}, want {}", c.len(), n);
    ck!(c.is_empty() == (n == 0), Content, "wrong length", "is_empty() = {}, want {}", c.is_empty(), n == 0);
    if c.len() != n {
        return;
    }
    ck!(c.element_size() == size_of::<T>(), Content, "wrong element size", "{}", c.element_size());
    ck!(c.element_type_id() == TypeId::of::<T>(), Content, "wrong element type", "");
    ck!(c.check_ref::<T>().is_some() && c.check_mut::<T>().is_some(), Content, "right-type operation refused", "check_ref/check_mut");
    // wrong type
    want(&c.as_slice_as::<T::Twin>(), false, "as_slice_as");
    want(&c.iter_as::<T::Twin>(), false, "iter_as");
    want(&c.as_mut_slice_as::<T::Twin>(), false, "as_mut_slice_as");
    want(&c.iter_mut_as::<T::Twin>(), false, "iter_mut_as");
    want(&c.check_ref::<T::Twin>(), false, "check_ref");
    want(&c.check_mut::<T::Twin>(), false, "check_mut");
    want(&c.clone_into_vec::<T::Twin>(), false, "clone_into_vec");
    // typed
    let base = match c.as_slice_as::<T>() {
        Some(s) => {
            if !aligned(s.as_ptr()) {
                return;
            }
            // The storage must be one live block that is large enough.
            match mon::block(s.as_ptr() as *const u8) {
                Some((sz, al)) => {
                    ck!(sz >= n * size_of::<T>(), Mem, "storage smaller than the contents", "{} bytes for {} elements", sz, n);
                    ck!(al >= align_of::<T>(), Mem, "storage under-aligned", "requested alignment {} for type alignment {}", al, align_of::<T>());
                    if sz < n * size_of::<T>() {
                        return;
                    }
                }
                None => {
                    vio!(Mem, "storage is not a live heap block", "");
                    return;
                }
            }
            ids(s, m, "as_slice_as");
            s.as_ptr()
        }
        None => {
            vio!(Content, "right-type operation refused", "as_slice_as");
            return;
        }
    };
    if crate::rep::any() {
        return;
    }
    let at = |i: usize| unsafe { base.add(i) };
    match c.iter_as::<T>() {
        Some(it) => ids(it.as_slice(), m, "iter_as"),
        None => vio!(Content, "right-type operation refused", "iter_as"),
    }
    for i in 0..n {
        match c.get_ref_as::<T>(i) {
            Some(r) => ck!(r as *const T == at(i), Content, "reference points to another element", "get_ref_as({})", i),
            None => vio!(Content, "right-type operation refused", "get_ref_as"),
        }
        match c.get_mut_as::<T>(i) {
            Some(r) => ck!(r as *const T == at(i), Content, "reference points to another element", "get_mut_as({})", i),
            None => vio!(Content, "right-type operation refused", "get_mut_as"),
        }
        want(&c.get_ref_as::<T::Twin>(i), false, "get_ref_as");
        want(&c.get_mut_as::<T::Twin>(i), false, "get_mut_as");
        ck!(unsafe { c.get_unchecked_ref::<T>(i) } as *const T == at(i), Content, "reference points to another element", "get_unchecked_ref({})", i);
        ck!(unsafe { c.get_unchecked_mut::<T>(i) } as *const T == at(i), Content, "reference points to another element", "get_unchecked_mut({})", i);
        val_ref::<T>(c.get(i), m[i], at(i), "get");
        val_mut::<T>(c.get_mut(i), m[i], at(i), "get_mut");
    }
    let mut k = 0;
    for v in c.iter() {
        if k < n {
            val_ref::<T>(v, m[k], at(k), "iter");
        }
        k += 1;
    }
    ck!(k == n, Content, "iterator yields wrong number of elements", "iter: {} want {}", k, n);
    k = 0;
    for v in c.iter_mut() {
        if k < n {
            val_mut::<T>(v, m[k], at(k), "iter_mut");
        }
        k += 1;
    }
    ck!(k == n, Content, "iterator yields wrong number of elements", "iter_mut: {} want {}", k, n);
    match c.iter_mut_as::<T>() {
        Some(it) => ck!(it.as_slice().as_ptr() == base && it.as_slice().len() == n, Content, "reference points to another element", "iter_mut_as"),
        None => vio!(Content, "right-type operation refused", "iter_mut_as"),
    }
    match c.as_mut_slice_as::<T>() {
        Some(s) => ck!(s.as_ptr() == base && s.len() == n, Content, "reference points to another element", "as_mut_slice_as"),
        None => vio!(Content, "right-type operation refused", "as_mut_slice_as"),
    }
    // slice views
    {
        let s = c.as_slice();
        ck!(s.len() == n && s.is_empty() == (n == 0), Content, "wrong length", "as_slice");
        ck!(s.element_size() == size_of::<T>() && s.element_type_id() == TypeId::of::<T>(), Content, "wrong element type", "as_slice");
        match s.as_slice::<T>() {
            Some(t) => ck!(t.as_ptr() == base && t.len() == n, Content, "reference points to another element", "as_slice().as_slice"),
            None => vio!(Content, "right-type operation refused", "as_slice().as_slice"),
        }
        want(&s.as_slice::<T::Twin>(), false, "slice as_slice");
        let mut k = 0;
        for v in s.iter() {
            if k < n {
                val_ref::<T>(v, m[k], at(k), "as_slice().iter");
            }
            k += 1;
        }
        ck!(k == n, Content, "iterator yields wrong number of elements", "slice iter: {} want {}", k, n);
        for i in 0..n {
            val_ref::<T>(s.get(i), m[i], at(i), "as_slice().get");
            ck!(s.get_as::<T>(i).map(|r| r as *const T) == Some(at(i)), Content, "reference points to another element", "as_slice().get_as({})", i);
        }
    }
    {
        let mut s = c.as_mut_slice();
        ck!(s.len() == n && s.is_empty() == (n == 0), Content, "wrong length", "as_mut_slice");
        match s.as_slice::<T>() {
            Some(t) => ck!(t.as_ptr() == base && t.len() == n, Content, "reference points to another element", "as_mut_slice().as_slice"),
            None => vio!(Content, "right-type operation refused", "as_mut_slice().as_slice"),
        }
        want(&s.as_slice::<T::Twin>(), false, "mutable slice as_slice");
        for i in 0..n {
            val_ref::<T>(s.get(i), m[i], at(i), "as_mut_slice().get");
            val_mut::<T>(s.get_mut(i), m[i], at(i), "as_mut_slice().get_mut");
        }
        let mut k = 0;
        for v in s.iter() {
            if k < n {
                val_mut::<T>(v, m[k], at(k), "as_mut_slice().iter");
            }
            k += 1;
        }
        ck!(k == n, Content, "iterator yields wrong number of elements", "mutable slice iter: {} want {}", k, n);
    }
    // owned copies
    match c.clone_into_vec::<T>() {
        Some(v) => ids(&v, m, "clone_into_vec"),
        None => vio!(Content, "right-type operation refused", "clone_into_vec"),
    }
    {
        let mut v = vec![T::make(7)];
        want(&c.append_cloned_to_vec(&mut v).map(|_| ()), true, "append_cloned_to_vec");
        ck!(v.len() == n + 1 && v[0].label() == 7, Content, "wrong number of elements", "append_cloned_to_vec");
        if v.len() == n + 1 {
            ids(&v[1..], m, "append_cloned_to_vec");
        }
        let mut v = vec![T::Twin::make(7)];
        want(&c.append_cloned_to_vec(&mut v).map(|_| ()), false, "append_cloned_to_vec");
        ck!(v.len() == 1, Type, "refused operation changed its operand", "append_cloned_to_vec");
    }
    let _ = guarded(|| ());
    ck!(c.len() == n, Content, "reading changed the length", "");
}
