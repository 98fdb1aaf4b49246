//! Explicit-state model of VecCopy histories: two containers whose element types may be E or its
//! same-layout twin, driven against plain vectors of labels.
use crate::bfs::Sys;
use crate::elems::*;
use crate::mon;
use crate::{ck, vio};
use dync::*;
use std::any::TypeId;
use std::marker::PhantomData;
use std::mem::{align_of, size_of};

pub trait Tab<E: CElem>: VTable<E> + VTable<E::Twin> + Clone + 'static {}
impl<E: CElem, V: VTable<E> + VTable<E::Twin> + Clone + 'static> Tab<E> for V {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    NewType(bool),
    NewCap(bool, usize),
    FromVec(bool, usize, usize),
    FromSlice(usize),
    WithSize(usize, u8),
    TypeFromVec,
    TypeFromSlice,
    TypeFromSliceMut,
    TypeFromVal,
    CloneB,
    CloneFromB,
    Swap,
    RtVec(bool),
    RtRaw,
    RtCheck,
    CheckWrong,
    IntoWrong,
    PushAs(u8),
    PushAsWrong,
    PushRef(u8),
    PushRefUnit(u8),
    PushRefWrong,
    PushFromB(usize),
    AppendB,
    ExtendB,
    ExtendBSlice,
    ExtendEmpty,
    ExtendWrong,
    CollectB,
    CollectBRev,
    CollectEmpty,
    ExtendHint(u8),
    CollectHint(u8),
    Reserve(usize),
    Clear,
    RotL(usize),
    RotR(usize),
    Resize(usize, u8),
    ResizeWrong,
    Fill(u8),
    FillWrong,
    CopyFrom(u8),
    CopyFromWrong,
    SetAs(usize, u8),
    SetIterAs(usize, u8),
    SetSliceAs(usize, u8),
    SetGetMut(usize, u8),
    SetIterMut(usize, u8),
    SetSliceGetMut(usize, u8),
    CopyVal(usize, u8),
    CopyValWrong(usize),
    CopyFromB(usize, usize),
    SwapVals(usize, usize),
    SliceSwap(usize, usize),
    SliceRotL(usize),
    SliceRotR(usize),
    SliceCopy(u8),
    SliceCopyWrong,
    TakeB,
    DropB,
}

#[derive(Clone, Default)]
pub struct M {
    pub twin: bool,
    pub v: Vec<u8>,
}
pub struct W<E, V> {
    a: Option<VecCopy<V>>,
    b: Option<VecCopy<V>>,
    ma: M,
    mb: M,
    _e: PhantomData<E>,
}
pub struct S<E, V> {
    l: usize,
    lb: usize,
    ops: Vec<Op>,
    _e: PhantomData<(E, V)>,
}

impl<E: CElem, V: Tab<E>> S<E, V> {
    pub fn new(l: usize, lb: usize, rich: bool) -> Self {
        use Op::*;
        let mut o = Vec::new();
        for t in [false, true] {
            o.push(NewType(t));
            for n in [0, 1, 3] {
                o.push(NewCap(t, n));
            }
            for (n, s) in [(0, 2), (1, 0), (2, 0), (2, 1)] {
                if n <= l {
                    o.push(FromVec(t, n, s));
                }
            }
        }
        for n in 0..=l.min(2) {
            o.push(FromSlice(n));
        }
        o.extend([WithSize(0, 0), WithSize(l, 1)]);
        o.extend([TypeFromVec, TypeFromSlice, TypeFromSliceMut, TypeFromVal, CloneB, CloneFromB, Swap, TakeB, DropB]);
        o.extend([RtVec(false), RtVec(true), RtRaw, RtCheck, CheckWrong, IntoWrong]);
        for x in 0..2 {
            o.extend([PushAs(x), PushRef(x)]);
        }
        o.extend([PushRefUnit(1), PushAsWrong, PushRefWrong]);
        for j in 0..lb {
            o.push(PushFromB(j));
        }
        o.extend([AppendB, ExtendB, ExtendBSlice, ExtendEmpty, ExtendWrong, CollectB, CollectBRev, CollectEmpty, Clear]);
        o.extend((0..HINTS).map(ExtendHint));
        o.extend((0..HINTS).map(CollectHint));
        for n in [0, 1, 2, 5] {
            o.push(Reserve(n));
        }
        for k in 0..=l {
            o.extend([RotL(k), RotR(k), SliceRotL(k), SliceRotR(k)]);
        }
        for n in 0..=l {
            o.push(Resize(n, 1));
        }
        o.extend([ResizeWrong, Fill(0), Fill(1), FillWrong, CopyFrom(0), CopyFrom(1), CopyFromWrong, SliceCopy(0), SliceCopy(1), SliceCopyWrong]);
        for i in 0..l {
            let xs: &[u8] = if rich { &[0, 1] } else { &[1] };
            for &x in xs {
                o.extend([SetAs(i, x), SetIterAs(i, x), SetSliceAs(i, x), SetGetMut(i, x), SetIterMut(i, x), SetSliceGetMut(i, x), CopyVal(i, x)]);
            }
            o.push(CopyValWrong(i));
            for j in 0..lb {
                o.extend([CopyFromB(i, j), SwapVals(i, j)]);
            }
            for j in 0..l {
                o.push(SliceSwap(i, j));
            }
        }
        S { l, lb, ops: o, _e: PhantomData }
    }
    /// Few operations, long containers.
    pub fn long(l: usize) -> Self {
        use Op::*;
        let mut o = vec![PushAs(0), PushRef(1), AppendB, ExtendB, CloneB, Swap, RotL(1), RotL(2), RotR(1), Clear, Resize(l, 1), Resize(l / 2, 0), RtVec(false), Reserve(3)];
        o.push(SliceSwap(0, l - 1));
        S { l, lb: l, ops: o, _e: PhantomData }
    }
}

/// An iterator that reports one of `HINTS` size hints (all that `Vec::extend` copes with), and
/// panics when it is asked for another item after its end.
pub struct Hinted<I> {
    inner: I,
    hint: (usize, Option<usize>),
    ended: bool,
}
pub const HINTS: u8 = 8;
impl<I> Hinted<I> {
    pub fn new(inner: I, k: u8, n: usize) -> Self {
        let hint = match k {
            0 => (0, None),
            1 => (0, Some(n)),
            2 => (0, Some(usize::MAX)),
            3 => (n, Some(usize::MAX)),
            4 => (0, Some(usize::MAX / 2)),
            5 => (n / 2, None),
            // Wrong ones must do no harm.
            6 => (n + 3, Some(0)),
            _ => (0, Some(0)),
        };
        Hinted { inner, hint, ended: false }
    }
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        assert!(!self.ended, "asked for an item after the end");
        let r = self.inner.next();
        self.ended = r.is_none();
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

macro_rules! kind {
    ($twin:expr, $T:ident => $body:expr) => {
        if $twin {
            type $T<E> = <E as CElem>::Twin;
            $body
        } else {
            type $T<E> = E;
            $body
        }
    };
}
fn labels<T: CElem>(n: usize, spare: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n + spare);
    for i in 0..n {
        v.push(T::make((i % 2) as u8));
    }
    v
}

impl<E: CElem, V: Tab<E> + VTable<E>> Sys for S<E, V>
where
    V: VTable<<E::Twin as CElem>::Twin>,
{
    type W = W<E, V>;
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn opname(&self, op: usize) -> String {
        format!("{:?}", self.ops[op])
    }
    fn fresh(&self) -> W<E, V> {
        W {
            a: Some(VecCopy::with_type::<E>()),
            b: Some(VecCopy::with_type::<E>()),
            ma: M::default(),
            mb: M::default(),
            _e: PhantomData,
        }
    }
    fn enabled(&self, w: &W<E, V>, op: usize) -> bool {
        use Op::*;
        let n = w.ma.v.len();
        let nb = w.mb.v.len();
        let same = w.ma.twin == w.mb.twin;
        match self.ops[op] {
            PushAs(_) | PushRef(_) | PushRefUnit(_) => n < self.l,
            PushFromB(j) => j < nb && (n < self.l || !same),
            AppendB => n + nb <= self.l || !same,
            ExtendB | ExtendBSlice | ExtendHint(_) => n + nb <= self.l && same,
            CollectB | CollectBRev | CollectHint(_) => nb > 0,
            Swap => n <= self.lb,
            CloneFromB => same,
            TypeFromVal => nb > 0,
            RotL(k) | RotR(k) | SliceRotL(k) | SliceRotR(k) => k <= n,
            SetAs(i, _) | SetIterAs(i, _) | SetSliceAs(i, _) | SetGetMut(i, _) | SetIterMut(i, _) | SetSliceGetMut(i, _) | CopyVal(i, _) => i < n,
            CopyValWrong(i) => i < n,
            CopyFromB(i, j) | SwapVals(i, j) => i < n && j < nb,
            SliceSwap(i, j) => i < n && j < n,
            _ => true,
        }
    }
    fn owned(&self, _: &W<E, V>) -> Option<usize> {
        None
    }
    fn canon(&self, w: &W<E, V>, out: &mut Vec<u8>) {
        for (c, m) in [(&w.a, &w.ma), (&w.b, &w.mb)] {
            out.push(m.twin as u8);
            out.push(m.v.len() as u8);
            out.extend_from_slice(&m.v);
            let cap = match c {
                Some(c) => {
                    let p = kind!(m.twin, T => c.as_slice_as::<T<E>>().map(|s| s.as_ptr() as *const u8));
                    out.extend_from_slice(&(c.capacity() as u32).to_le_bytes());
                    p.and_then(|p| mon::block(p)).map(|b| b.0).unwrap_or(0)
                }
                None => 0,
            };
            out.extend_from_slice(&(cap as u32).to_le_bytes());
        }
    }
    fn apply(&self, w: &mut W<E, V>, op: usize) {
        let op = self.ops[op];
        let at = w.ma.twin;
        kind!(at, T => step::<E, T<E>, V>(w, op));
    }
    fn observe(&self, w: &mut W<E, V>) {
        let W { a, b, ma, mb, .. } = w;
        for (c, m) in [(a, &*ma), (b, &*mb)] {
            match c {
                Some(c) => kind!(m.twin, T => observe::<T<E>, V>(c, &m.v)),
                None => vio!(Content, "container lost", ""),
            }
        }
    }
}

pub fn ids<T: CElem>(s: &[T], m: &[u8], what: &str) {
    if s.len() != m.len() {
        vio!(Content, "wrong number of elements", "{}: got {} want {}", what, s.len(), m.len());
        return;
    }
    for (i, x) in s.iter().enumerate() {
        let l = x.label();
        ck!(l == m[i], Content, "wrong element contents", "{}: index {} got {} want {}", what, i, l, m[i]);
    }
}
fn want<R>(r: &Option<R>, some: bool, what: &str) {
    if some {
        ck!(r.is_some(), Content, "right-type operation refused", "{}", what);
    } else {
        ck!(r.is_none(), Type, "wrong-type operation accepted", "{}", what);
    }
}
fn pat<T: CElem, R>(r: Option<R>, what: &str, f: impl FnOnce(R)) {
    match r {
        Some(r) => f(r),
        None => vio!(Content, "right-type operation refused", "{}", what),
    }
}

fn step<E: CElem, T: CElem, V: Tab<E> + Tab<T>>(w: &mut W<E, V>, op: Op) {
    use Op::*;
    let same = w.ma.twin == w.mb.twin;
    if let Swap = op {
        std::mem::swap(&mut w.a, &mut w.b);
        std::mem::swap(&mut w.ma, &mut w.mb);
        return;
    }
    let n = w.ma.v.len();
    let nolab = || M { twin: w.mb.twin, v: vec![] };
    match op {
        NewType(t) => {
            w.a = None;
            w.a = Some(kind!(t, X => VecCopy::with_type::<X<E>>()));
            w.ma = M { twin: t, v: vec![] };
        }
        NewCap(t, c) => {
            w.a = None;
            w.a = Some(kind!(t, X => VecCopy::with_capacity::<X<E>>(c)));
            w.ma = M { twin: t, v: vec![] };
        }
        FromVec(t, c, s) => {
            w.a = Some(kind!(t, X => if c == 1 { VecCopy::from(labels::<X<E>>(c, s)) } else { VecCopy::from_vec(labels::<X<E>>(c, s)) }));
            w.ma = M { twin: t, v: (0..c).map(|i| (i % 2) as u8).collect() };
        }
        FromSlice(c) => {
            let v = labels::<E>(c, 0);
            w.a = Some(if c == 1 { VecCopy::from(v.as_slice()) } else { VecCopy::from_slice(&v) });
            w.ma = M { twin: false, v: (0..c).map(|i| (i % 2) as u8).collect() };
            ids(&v, &w.ma.v, "source of from_slice");
        }
        WithSize(c, x) => {
            w.a = Some(VecCopy::with_size(c, E::make(x)));
            w.ma = M { twin: false, v: vec![x; c] };
        }
        TypeFromVec => {
            let r = VecCopy::with_type_from(w.b.as_ref().unwrap());
            w.ma = nolab();
            w.a = Some(r);
        }
        TypeFromSlice => {
            let r = VecCopy::with_type_from(w.b.as_ref().unwrap().as_slice());
            w.ma = nolab();
            w.a = Some(r);
        }
        TypeFromSliceMut => {
            let r = VecCopy::with_type_from(w.b.as_mut().unwrap().as_mut_slice());
            w.ma = nolab();
            w.a = Some(r);
        }
        TypeFromVal => {
            let r = VecCopy::with_type_from(w.b.as_ref().unwrap().get_ref(0));
            w.ma = nolab();
            w.a = Some(r);
        }
        CloneB => {
            let r = w.b.as_ref().unwrap().clone();
            w.a = Some(r);
            w.ma = w.mb.clone();
        }
        CloneFromB => {
            w.a.as_mut().unwrap().clone_from(w.b.as_ref().unwrap());
            w.ma = w.mb.clone();
        }
        CollectB => {
            let r: VecCopy<V> = w.b.as_ref().unwrap().iter().collect();
            w.a = Some(r);
            w.ma = w.mb.clone();
        }
        CollectHint(k) => {
            let r: VecCopy<V> = Hinted::new(w.b.as_ref().unwrap().iter(), k, w.mb.v.len()).collect();
            w.a = Some(r);
            w.ma = w.mb.clone();
        }
        CollectBRev => {
            let b = w.b.as_ref().unwrap();
            let r: VecCopy<V> = (0..b.len()).rev().map(|i| b.get_ref(i)).collect();
            w.a = Some(r);
            w.ma = w.mb.clone();
            w.ma.v.reverse();
        }
        CollectEmpty => {
            let r = crate::rep::guarded(|| w.b.as_ref().unwrap().iter().filter(|_| false).collect::<VecCopy<V>>());
            ck!(r.is_err(), Content, "collecting nothing did not panic as documented", "");
        }
        TakeB => {
            w.a = None;
            w.a = w.b.take();
            w.ma = std::mem::take(&mut w.mb);
            w.b = Some(VecCopy::with_type::<E>());
        }
        DropB => {
            w.b = Some(VecCopy::with_type::<E>());
            w.mb = M::default();
        }
        RtVec(shrink) => {
            let v: Option<Vec<T>> = if shrink { w.a.take().unwrap().into_vec::<T>() } else { w.a.take().unwrap().into() };
            want(&v, true, "into_vec");
            if let Some(mut v) = v {
                ids(&v, &w.ma.v, "into_vec");
                if shrink {
                    v.shrink_to_fit();
                }
                w.a = Some(VecCopy::from_vec(v));
            }
        }
        RtRaw => {
            let (d, v) = w.a.take().unwrap().into_raw_parts();
            w.a = Some(unsafe { VecCopy::from_raw_parts(d, v) });
        }
        RtCheck => {
            let r = w.a.take().unwrap().check::<T>();
            want(&r, true, "check");
            w.a = r;
        }
        CheckWrong => {
            let r = w.a.take().unwrap().check::<T::Twin>();
            want(&r, false, "check");
            w.a = Some(VecCopy::with_type::<T>());
            w.ma.v.clear();
        }
        IntoWrong => {
            let r = w.a.take().unwrap().into_vec::<T::Twin>();
            want(&r, false, "into_vec");
            std::mem::forget(r);
            w.a = Some(VecCopy::with_type::<T>());
            w.ma.v.clear();
        }
        _ => {}
    }
    let W { a, b, ma, mb, .. } = w;
    let (a, b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    match op {
        PushAs(x) => {
            want(&a.push_as(T::make(x)).map(|_| ()), true, "push_as");
            ma.v.push(x);
        }
        PushAsWrong => want(&a.push_as(T::Twin::make(1)).map(|_| ()), false, "push_as"),
        PushRef(x) => {
            let t = T::make(x);
            let r = CopyValueRef::<V>::new(&t);
            ck!(r.size() == size_of::<T>() && r.value_alignment() == align_of::<T>(), Content, "value reference reports wrong size", "CopyValueRef::new");
            want(&a.push(r).map(|_| ()), true, "push");
            ma.v.push(x);
        }
        PushRefUnit(x) => {
            let t = T::make(x);
            want(&a.push(CopyValueRef::<()>::new(&t)).map(|_| ()), true, "push");
            ma.v.push(x);
        }
        PushRefWrong => {
            let t = T::Twin::make(1);
            want(&a.push(CopyValueRef::<()>::new(&t)).map(|_| ()), false, "push");
        }
        PushFromB(j) => {
            want(&a.push(b.get_ref(j)).map(|_| ()), same, "push from container");
            if same {
                ma.v.push(mb.v[j]);
            }
        }
        AppendB => {
            want(&a.append(b).map(|_| ()), same, "append");
            if same {
                ma.v.append(&mut mb.v);
            }
        }
        ExtendB => {
            a.extend(b.iter());
            ma.v.extend_from_slice(&mb.v);
        }
        ExtendBSlice => {
            a.extend(b.as_slice().into_iter());
            ma.v.extend_from_slice(&mb.v);
        }
        ExtendHint(k) => {
            a.extend(Hinted::new(b.iter(), k, mb.v.len()));
            ma.v.extend_from_slice(&mb.v);
        }
        ExtendEmpty => a.extend(b.iter().filter(|_| false)),
        ExtendWrong => {
            let t = T::Twin::make(1);
            let r = crate::rep::guarded(|| a.extend(std::iter::once(CopyValueRef::<V>::new(&t))));
            ck!(r.is_err(), Type, "wrong-type operation accepted", "extend");
        }
        Reserve(c) => {
            a.reserve(c);
            ck!(a.capacity() >= n + c, Content, "reserve did not provide the capacity", "capacity {} after reserving {} at length {}", a.capacity(), c, n);
        }
        Clear => {
            a.clear();
            ma.v.clear();
        }
        RotL(k) => {
            a.rotate_left(k);
            ma.v.rotate_left(k);
        }
        RotR(k) => {
            a.rotate_right(k);
            ma.v.rotate_right(k);
        }
        Resize(c, x) => {
            want(&a.resize(c, T::make(x)).map(|_| ()), true, "resize");
            ma.v.resize(c, x);
        }
        ResizeWrong => {
            want(&a.resize(n + 1, T::Twin::make(1)).map(|_| ()), false, "resize grow");
            want(&a.resize(n.saturating_sub(1), T::Twin::make(1)).map(|_| ()), false, "resize shrink");
        }
        Fill(x) => {
            want(&a.fill(T::make(x)).map(|_| ()), true, "fill");
            ma.v.iter_mut().for_each(|y| *y = x);
        }
        FillWrong => want(&a.fill(T::Twin::make(1)).map(|_| ()), false, "fill"),
        CopyFrom(x) | SliceCopy(x) => {
            let src: Vec<T> = (0..n).map(|i| T::make((x + i as u8) % 2)).collect();
            let r = if let CopyFrom(_) = op { a.copy_from_slice(&src).map(|_| ()) } else { a.as_mut_slice().copy_from_slice(&src).map(|_| ()) };
            want(&r, true, "copy_from_slice");
            for i in 0..n {
                ma.v[i] = (x + i as u8) % 2;
            }
        }
        CopyFromWrong => {
            let src: Vec<T::Twin> = (0..n).map(|_| T::Twin::make(1)).collect();
            want(&a.copy_from_slice(&src).map(|_| ()), false, "copy_from_slice");
        }
        SliceCopyWrong => {
            let src: Vec<T::Twin> = (0..n).map(|_| T::Twin::make(1)).collect();
            want(&a.as_mut_slice().copy_from_slice(&src).map(|_| ()), false, "slice copy_from_slice");
        }
        SetAs(i, x) => {
            pat::<T, _>(a.get_mut_as::<T>(i), "get_mut_as", |r| *r = T::make(x));
            ma.v[i] = x;
        }
        SetIterAs(i, x) => {
            pat::<T, _>(a.iter_mut_as::<T>().and_then(|mut it| it.nth(i)), "iter_mut_as", |r| *r = T::make(x));
            ma.v[i] = x;
        }
        SetSliceAs(i, x) => {
            pat::<T, _>(a.as_mut_slice_as::<T>(), "as_mut_slice_as", |r| r[i] = T::make(x));
            ma.v[i] = x;
        }
        SetGetMut(i, x) => {
            pat::<T, _>(a.get_mut(i).downcast::<T>(), "get_mut().downcast", |r| *r = T::make(x));
            ma.v[i] = x;
        }
        SetIterMut(i, x) => {
            pat::<T, _>(a.iter_mut().nth(i).and_then(|v| v.downcast::<T>()), "iter_mut().downcast", |r| *r = T::make(x));
            ma.v[i] = x;
        }
        SetSliceGetMut(i, x) => {
            pat::<T, _>(a.as_mut_slice().get_mut(i).downcast::<T>(), "slice get_mut", |r| *r = T::make(x));
            ma.v[i] = x;
        }
        CopyVal(i, x) => {
            let t = T::make(x);
            let r = a.get_mut(i).copy(CopyValueRef::new(&t)).map(|_| ());
            want(&r, true, "copy");
            ma.v[i] = x;
        }
        CopyValWrong(i) => {
            let t = T::Twin::make(1);
            let r = a.get_mut(i).copy(CopyValueRef::new(&t)).map(|_| ());
            want(&r, false, "copy");
        }
        CopyFromB(i, j) => {
            let r = a.get_mut(i).copy(b.get_ref(j)).map(|_| ());
            want(&r, same, "copy from container");
            if same {
                ma.v[i] = mb.v[j];
            }
        }
        SwapVals(i, j) => {
            a.get_mut(i).swap(&mut b.get_mut(j));
            if same {
                std::mem::swap(&mut ma.v[i], &mut mb.v[j]);
            }
        }
        SliceSwap(i, j) => {
            a.as_mut_slice().swap(i, j);
            ma.v.swap(i, j);
        }
        SliceRotL(k) => {
            a.as_mut_slice().rotate_left(k);
            ma.v.rotate_left(k);
        }
        SliceRotR(k) => {
            a.as_mut_slice().rotate_right(k);
            ma.v.rotate_right(k);
        }
        _ => {}
    }
}

fn vref<T: CElem, V: Clone>(v: CopyValueRef<V>, addr: *const T, what: &str) {
    ck!(v.size() == size_of::<T>(), Content, "value reference reports wrong size", "{}", what);
    ck!(v.value_alignment() == align_of::<T>(), Content, "value reference reports wrong alignment", "{}", what);
    ck!(v.value_type_id() == TypeId::of::<T>() && v.is::<T>() && !v.is::<T::Twin>(), Content, "value reference reports wrong type", "{}", what);
    ck!(v.clone().downcast::<T::Twin>().is_none(), Type, "wrong-type operation accepted", "downcast of {}", what);
    match v.downcast::<T>() {
        Some(r) => ck!(r as *const T == addr, Content, "reference points to another element", "{}", what),
        None => vio!(Content, "right-type operation refused", "downcast of {}", what),
    }
}
fn vmut<T: CElem, V>(v: CopyValueMut<V>, addr: *const T, what: &str) {
    ck!(v.size() == size_of::<T>(), Content, "value reference reports wrong size", "{}", what);
    ck!(v.value_alignment() == align_of::<T>(), Content, "value reference reports wrong alignment", "{}", what);
    ck!(v.value_type_id() == TypeId::of::<T>() && v.is::<T>() && !v.is::<T::Twin>(), Content, "value reference reports wrong type", "{}", what);
    match v.downcast::<T>() {
        Some(r) => ck!(r as *const T == addr, Content, "reference points to another element", "{}", what),
        None => vio!(Content, "right-type operation refused", "downcast of {}", what),
    }
}
fn addr_is<T>(r: Option<&T>, at: *const T, what: &str) {
    match r {
        Some(r) => ck!(r as *const T == at, Content, "reference points to another element", "{}", what),
        None => vio!(Content, "right-type operation refused", "{}", what),
    }
}

pub fn observe<T: CElem, V: Clone>(c: &mut VecCopy<V>, m: &[u8]) {
    let n = m.len();
    ck!(c.len() == n && c.is_empty() == (n == 0), Content, "wrong length", "len() = {}, is_empty() = {}, want {}", c.len(), c.is_empty(), n);
    ck!(c.capacity() >= n, Content, "capacity smaller than length", "{} < {}", c.capacity(), n);
    if c.len() != n {
        return;
    }
    ck!(c.element_type_id() == TypeId::of::<T>(), Content, "wrong element type", "");
    ck!(c.check_ref::<T>().is_some() && c.check_mut::<T>().is_some(), Content, "right-type operation refused", "check_ref/check_mut");
    want(&c.as_slice_as::<T::Twin>(), false, "as_slice_as");
    want(&c.iter_as::<T::Twin>(), false, "iter_as");
    want(&c.as_mut_slice_as::<T::Twin>(), false, "as_mut_slice_as");
    want(&c.iter_mut_as::<T::Twin>(), false, "iter_mut_as");
    want(&c.check_ref::<T::Twin>(), false, "check_ref");
    want(&c.check_mut::<T::Twin>(), false, "check_mut");
    want(&c.copy_into_vec::<T::Twin>(), false, "copy_into_vec");
    let base = match c.as_slice_as::<T>() {
        Some(s) => {
            if !aligned(s.as_ptr()) {
                return;
            }
            match mon::block(s.as_ptr() as *const u8) {
                Some((sz, al)) => {
                    ck!(sz >= c.capacity() * size_of::<T>(), Mem, "storage smaller than the capacity", "{} bytes for {} elements", sz, c.capacity());
                    ck!(al >= align_of::<T>(), Mem, "storage under-aligned", "requested alignment {} for type alignment {}", al, align_of::<T>());
                    if sz < n * size_of::<T>() {
                        return;
                    }
                }
                None => {
                    vio!(Mem, "storage is not a live heap block", "");
                    return;
                }
            }
            ids(s, m, "as_slice_as");
            s.as_ptr()
        }
        None => {
            vio!(Content, "right-type operation refused", "as_slice_as");
            return;
        }
    };
    if crate::rep::any() {
        return;
    }
    let at = |i: usize| unsafe { base.add(i) };
    pat::<T, _>(c.iter_as::<T>(), "iter_as", |it| ids(it.as_slice(), m, "iter_as"));
    for i in 0..n {
        addr_is(c.get_ref_as::<T>(i), at(i), "get_ref_as");
        addr_is(c.get_mut_as::<T>(i).map(|x| &*x), at(i), "get_mut_as");
        match c.get_as::<T>(i) {
            Some(x) => ck!(x.label() == m[i], Content, "wrong element contents", "get_as({})", i),
            None => vio!(Content, "right-type operation refused", "get_as"),
        }
        want(&c.get_ref_as::<T::Twin>(i), false, "get_ref_as");
        want(&c.get_mut_as::<T::Twin>(i), false, "get_mut_as");
        want(&c.get_as::<T::Twin>(i), false, "get_as");
        addr_is(Some(unsafe { c.get_unchecked_ref::<T>(i) }), at(i), "get_unchecked_ref");
        addr_is(Some(unsafe { &*c.get_unchecked_mut::<T>(i) }), at(i), "get_unchecked_mut");
        vref::<T, V>(c.get_ref(i), at(i), "get_ref");
        vmut::<T, V>(c.get_mut(i), at(i), "get_mut");
        ck!(c.get_mut(i).downcast::<T::Twin>().is_none(), Type, "wrong-type operation accepted", "downcast of get_mut");
        vref::<T, V>(CopyValueRef::from(c.get_mut(i)), at(i), "get_mut into reference");
    }
    let mut k = 0;
    for v in c.iter() {
        if k < n {
            vref::<T, V>(v, at(k), "iter");
        }
        k += 1;
    }
    ck!(k == n, Content, "iterator yields wrong number of elements", "iter: {} want {}", k, n);
    k = 0;
    for v in c.iter_mut() {
        if k < n {
            vmut::<T, V>(v, at(k), "iter_mut");
        }
        k += 1;
    }
    ck!(k == n, Content, "iterator yields wrong number of elements", "iter_mut: {} want {}", k, n);
    match c.iter_mut_as::<T>() {
        Some(it) => ck!(it.as_slice().as_ptr() == base && it.as_slice().len() == n, Content, "reference points to another element", "iter_mut_as"),
        None => vio!(Content, "right-type operation refused", "iter_mut_as"),
    }
    match c.as_mut_slice_as::<T>() {
        Some(s) => ck!(s.as_ptr() == base && s.len() == n, Content, "reference points to another element", "as_mut_slice_as"),
        None => vio!(Content, "right-type operation refused", "as_mut_slice_as"),
    }
    {
        let s = c.as_slice();
        ck!(s.len() == n && s.is_empty() == (n == 0), Content, "wrong length", "as_slice");
        ck!(s.element_size() == size_of::<T>() && s.element_type_id() == TypeId::of::<T>(), Content, "wrong element type", "as_slice");
        match s.as_slice::<T>() {
            Some(t) => ck!(t.as_ptr() == base && t.len() == n, Content, "reference points to another element", "as_slice().as_slice"),
            None => vio!(Content, "right-type operation refused", "as_slice().as_slice"),
        }
        let mut k = 0;
        for v in s.iter() {
            if k < n {
                vref::<T, V>(v, at(k), "as_slice().iter");
            }
            k += 1;
        }
        ck!(k == n, Content, "iterator yields wrong number of elements", "slice iter: {} want {}", k, n);
        pat::<T, _>(s.copy_into_vec::<T>(), "slice copy_into_vec", |v| ids(&v, m, "slice copy_into_vec"));
        want(&s.copy_into_vec::<T::Twin>(), false, "slice copy_into_vec");
    }
    {
        let mut s = c.as_mut_slice();
        ck!(s.len() == n && s.is_empty() == (n == 0), Content, "wrong length", "as_mut_slice");
        match s.as_slice::<T>() {
            Some(t) => ck!(t.as_ptr() == base && t.len() == n, Content, "reference points to another element", "as_mut_slice().as_slice"),
            None => vio!(Content, "right-type operation refused", "as_mut_slice().as_slice"),
        }
        let mut k = 0;
        for v in s.iter() {
            if k < n {
                vmut::<T, V>(v, at(k), "as_mut_slice().iter");
            }
            k += 1;
        }
        ck!(k == n, Content, "iterator yields wrong number of elements", "mutable slice iter: {} want {}", k, n);
        pat::<T, _>(s.copy_into_vec::<T>(), "mutable slice copy_into_vec", |v| ids(&v, m, "mutable slice copy_into_vec"));
    }
    pat::<T, _>(c.copy_into_vec::<T>(), "copy_into_vec", |v| ids(&v, m, "copy_into_vec"));
    let mut v = vec![T::make(7)];
    want(&c.append_copy_to_vec(&mut v).map(|_| ()), true, "append_copy_to_vec");
    ck!(v.len() == n + 1 && v[0].label() == 7, Content, "wrong number of elements", "append_copy_to_vec");
    if v.len() == n + 1 {
        ids(&v[1..], m, "append_copy_to_vec");
    }
    let mut v = vec![T::Twin::make(7)];
    want(&c.append_copy_to_vec(&mut v).map(|_| ()), false, "append_copy_to_vec");
    ck!(v.len() == 1, Type, "refused operation changed its operand", "append_copy_to_vec");
}
