//! Views of views (C06): every composition of view operations up to a depth on every slice length
//! up to a bound, against the same operations on a typed Rust slice.
use dync::*;
use mc::elems::*;
use mc::rep::{Cases, Results};
use mc::vd::VA;
use mc::{ck, vio};
use std::mem::size_of;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rg {
    R(usize, usize),
    To(usize),
    From(usize),
    Full,
    Inc(usize, usize),
    Done(usize),
    ToInc(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Sub(Rg),
    Into(Rg),
    Left(usize),
    Right(usize),
    Chunk(usize, usize),
    Reborrow,
    Check,
    Convert,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Read,
    RotL(usize),
    RotR(usize),
    Swap(usize, usize),
    GetMut(usize),
    GetAs(usize),
    AsSlice(usize),
    Iter(usize),
    IntoIter(usize),
    IterAs(usize),
    FromSlice,
    FromSliceTwin,
    WriteAll,
    SplitWrite(usize),
    ChunkWrite(usize),
    SwapHalves(usize),
}

fn ranges(n: usize) -> Vec<Rg> {
    let mut v = vec![Rg::Full];
    for a in 0..=n {
        v.push(Rg::To(a));
        v.push(Rg::From(a));
        for b in a..=n {
            v.push(Rg::R(a, b));
        }
        for b in a.max(1) - 1..n {
            v.push(Rg::Inc(a, b));
        }
    }
    for b in 0..n {
        v.push(Rg::ToInc(b));
        v.push(Rg::Done(b));
    }
    v
}
fn ops(n: usize, mutable: bool) -> Vec<Op> {
    let mut v = Vec::new();
    for r in ranges(n) {
        v.push(Op::Sub(r));
        v.push(Op::Into(r));
    }
    for m in 0..=n {
        v.push(Op::Left(m));
        v.push(Op::Right(m));
    }
    for c in 1..=n + 1 {
        for k in 0..n / c {
            v.push(Op::Chunk(c, k));
        }
    }
    v.extend([Op::Reborrow, Op::Check]);
    if mutable {
        v.push(Op::Convert);
    }
    v
}
fn acts(n: usize) -> Vec<Act> {
    let mut v = vec![Act::Read, Act::FromSlice, Act::FromSliceTwin, Act::WriteAll];
    for k in 0..=n {
        v.extend([Act::RotL(k), Act::RotR(k), Act::SplitWrite(k)]);
        if 2 * k <= n {
            v.push(Act::SwapHalves(k));
        }
    }
    for c in 1..=n + 1 {
        v.push(Act::ChunkWrite(c));
    }
    for i in 0..n {
        v.extend([Act::GetMut(i), Act::GetAs(i), Act::AsSlice(i), Act::Iter(i), Act::IntoIter(i), Act::IterAs(i)]);
        for j in 0..n {
            v.push(Act::Swap(i, j));
        }
    }
    v
}
fn done(b: usize) -> std::ops::RangeInclusive<usize> {
    let mut r = b..=b;
    r.next();
    r
}
macro_rules! with {
    ($g:expr, $r:ident => $e:expr) => {
        match $g {
            Rg::R(a, b) => { let $r = a..b; $e }
            Rg::To(b) => { let $r = ..b; $e }
            Rg::From(a) => { let $r = a..; $e }
            Rg::Full => { let $r = ..; $e }
            Rg::Inc(a, b) => { let $r = a..=b; $e }
            Rg::Done(b) => { let $r = done(b); $e }
            Rg::ToInc(b) => { let $r = ..=b; $e }
        }
    };
}
/// The oracle: the same operation on a typed slice.
fn typed<T>(s: &[T], op: Op) -> &[T] {
    match op {
        Op::Sub(g) | Op::Into(g) => with!(g, r => &s[r]),
        Op::Left(m) => s.split_at(m).0,
        Op::Right(m) => s.split_at(m).1,
        Op::Chunk(c, k) => s.chunks_exact(c).nth(k).unwrap(),
        _ => s,
    }
}

struct Path([Op; 8], usize);
static mut PATH: Path = Path([Op::Check; 8], 0);
#[allow(static_mut_refs)]
fn path() -> &'static mut Path {
    unsafe { &mut PATH }
}
struct P;
impl std::fmt::Display for P {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let p = path();
        write!(f, "after {:?}", &p.0[..p.1])
    }
}
static mut SEEN: u64 = 0;

macro_rules! views {
    ($md:ident, $El:ident, $Ref:ident, $Mut:ident, $VRef:ident, $VMut:ident, $V:ty, $Vec:ident, $vget:ident, $tovec:ident, $apvec:ident, $fromslice:ident) => {
        mod $md {
            use super::*;
            fn vref<T: $El>(v: $VRef<$V>, at: &T, what: &str) {
                ck!(v.size() == size_of::<T>() && v.value_alignment() == std::mem::align_of::<T>() && v.is::<T>(), Content, "value reference reports wrong size, alignment or type", "{} {}", what, P);
                match v.downcast::<T>() {
                    Some(r) => ck!(std::ptr::eq(r, at), Content, "reference points to another element", "{} {}", what, P),
                    None => vio!(Content, "right-type operation refused", "downcast {} {}", what, P),
                }
            }
            /// Everything a shared view shows, against the typed slice `m` it must be.
            fn check<T: $El>(s: &$Ref<$V>, m: &[T]) {
                unsafe { SEEN += 1 };
                let n = m.len();
                ck!(s.len() == n && s.is_empty() == (n == 0), Content, "wrong length of view", "{} want {} {}", s.len(), n, P);
                if s.len() != n { return; }
                ck!(s.element_size() == size_of::<T>() && s.element_type_id() == std::any::TypeId::of::<T>(), Content, "wrong element type of view", "{}", P);
                match s.as_slice::<T>() {
                    Some(t) => ck!(t.len() == n && (n == 0 || t.as_ptr() == m.as_ptr()), Content, "view selects other elements", "{}", P),
                    None => vio!(Content, "right-type operation refused", "as_slice {}", P),
                }
                ck!(s.as_slice::<T::Twin>().is_none() && s.iter_as::<T::Twin>().is_none() && s.check::<T::Twin>().is_none(), Type, "wrong-type operation accepted", "view {}", P);
                if mc::rep::any() { return; }
                match s.iter_as::<T>() {
                    Some(t) => ck!(t.as_slice().len() == n && t.zip(m).all(|(a, b)| std::ptr::eq(a, b)), Content, "view selects other elements", "iter_as {}", P),
                    None => vio!(Content, "right-type operation refused", "iter_as {}", P),
                }
                ck!(s.iter().size_hint() == (n, Some(n)), Content, "iterator announces wrong number of elements", "{}", P);
                let mut k = 0;
                for v in s.iter() {
                    if k < n { vref(v, &m[k], "iter"); }
                    k += 1;
                }
                ck!(k == n, Content, "iterator yields wrong number of elements", "{} want {} {}", k, n, P);
                for i in 0..n {
                    vref(s.get(i), &m[i], "get");
                    ck!(s.get_as::<T>(i).map(|r| std::ptr::eq(r, &m[i])) == Some(true), Content, "reference points to another element", "get_as {}", P);
                    ck!(s.get_as::<T::Twin>(i).is_none(), Type, "wrong-type operation accepted", "get_as {}", P);
                    match s.iter().nth(i) {
                        Some(v) => vref(v, &m[i], "iter().nth"),
                        None => vio!(Content, "iterator yields wrong number of elements", "nth {}", P),
                    }
                }
                for c in 1..=n + 1 {
                    let mut k = 0;
                    for (s, t) in s.chunks_exact(c).zip(m.chunks_exact(c)) {
                        ck!(s.len() == c && s.as_slice::<T>().map(|x| x.as_ptr()) == Some(t.as_ptr()), Content, "wrong chunk", "chunks_exact({}) {}", c, P);
                        k += 1;
                    }
                    ck!(k == n / c && s.chunks_exact(c).count() == k, Content, "wrong number of chunks", "chunks_exact({}) {}", c, P);
                }
                match s.$tovec::<T>() {
                    Some(v) => ck!(v.len() == n && v.iter().zip(m).all(|(a, b)| a.label() == b.label()), Content, "wrong element contents", "copied out {}", P),
                    None => vio!(Content, "right-type operation refused", "{} {}", stringify!($tovec), P),
                }
            }
            fn explore<T: $El>(s: $Ref<$V>, m: &[T], depth: usize) {
                check(&s, m);
                let mut k = 0;
                for v in s.clone().into_iter() {
                    if k < m.len() { vref(v, &m[k], "into_iter"); }
                    k += 1;
                }
                ck!(k == m.len(), Content, "iterator yields wrong number of elements", "into_iter {} want {} {}", k, m.len(), P);
                if depth == 0 || mc::rep::any() { return; }
                for op in ops(m.len(), false) {
                    let p = path();
                    p.0[p.1] = op;
                    p.1 += 1;
                    one(&s, m, op, depth - 1);
                    path().1 -= 1;
                }
            }
            fn one<T: $El>(s: &$Ref<$V>, m: &[T], op: Op, depth: usize) {
                let tm = typed(m, op);
                match op {
                    Op::Sub(g) => explore(with!(g, r => s.subslice(r)), tm, depth),
                    Op::Into(g) => explore(with!(g, r => s.clone().into_subslice(r)), tm, depth),
                    Op::Left(k) => explore(s.split_at(k).0, tm, depth),
                    Op::Right(k) => explore(s.split_at(k).1, tm, depth),
                    Op::Chunk(c, k) => match s.chunks_exact(c).nth(k) {
                        Some(v) => explore(v, tm, depth),
                        None => vio!(Content, "wrong number of chunks", "{}", P),
                    },
                    Op::Reborrow => explore(s.reborrow(), tm, depth),
                    Op::Check => match s.check::<T>() {
                        Some(v) => explore(v.clone(), tm, depth),
                        None => vio!(Content, "right-type operation refused", "check {}", P),
                    },
                    Op::Convert => {}
                }
            }
            fn fresh<T: $El>(n: usize) -> Vec<T> {
                (0..n).map(|i| T::make(i as u8)).collect()
            }
            /// Shared views.  `src`: where the root view comes from.
            pub fn shared<T: $El>(c: &mut Cases, n: usize, depth: usize) {
                for src in 0..4 {
                    for op in ops(n, false) {
                        c.run(format_args!("{} shared n={} source={} {:?} depth={}", T::NAME, n, src, op, depth), || {
                            let mut v = fresh::<T>(n);
                            path().0[0] = op;
                            path().1 = 1;
                            match src {
                                0 => one(&$Ref::<$V>::from_slice(&v), &v, op, depth - 1),
                                1 => one(&$Ref::<$V>::from(v.as_slice()), &v, op, depth - 1),
                                2 => {
                                    let p: *const [T] = v.as_slice();
                                    let s = $Mut::<$V>::from_slice(&mut v);
                                    one(&$Ref::from(s), unsafe { &*p }, op, depth - 1)
                                }
                                _ => {
                                    let d = $Vec::<$V>::from_vec(v);
                                    one(&d.as_slice(), d.as_slice_as::<T>().unwrap(), op, depth - 1)
                                }
                            }
                            true
                        });
                        if c.res.found.len() > 30 { return; }
                    }
                }
            }
            fn walk<T: $El>(mut s: $Mut<$V>, m: &[*mut T], ops: &[Op], act: Act, model: &mut [u8]) {
                let rest = if ops.is_empty() { ops } else { &ops[1..] };
                let n = m.len();
                if ops.is_empty() {
                    return perform(s, m, act, model);
                }
                let op = ops[0];
                let tm = typed(m, op);
                let off = unsafe { tm.as_ptr().offset_from(m.as_ptr()) as usize };
                let md = &mut model[off..off + tm.len()];
                let _ = n;
                match op {
                    Op::Sub(g) => walk(with!(g, r => s.subslice_mut(r)), tm, rest, act, md),
                    Op::Into(g) => walk(with!(g, r => s.into_subslice(r)), tm, rest, act, md),
                    Op::Left(k) => walk(s.split_at(k).0, tm, rest, act, md),
                    Op::Right(k) => walk(s.split_at(k).1, tm, rest, act, md),
                    Op::Chunk(c, k) => {
                        let v = s.chunks_exact_mut(c).nth(k);
                        match v {
                            Some(v) => walk(v, tm, rest, act, md),
                            None => vio!(Content, "wrong number of chunks", "{}", P),
                        }
                    }
                    Op::Reborrow => walk(s.reborrow_mut(), tm, rest, act, md),
                    Op::Check => match s.check::<T>() {
                        Some(v) => walk(v.reborrow_mut(), tm, rest, act, md),
                        None => vio!(Content, "right-type operation refused", "check {}", P),
                    },
                    Op::Convert => match s.as_slice::<T>() {
                        Some(t) => walk($Mut::from(t), tm, rest, act, md),
                        None => vio!(Content, "right-type operation refused", "as_slice {}", P),
                    },
                }
            }
            fn set<T: $El>(v: Option<&mut T>, want: *mut T, x: u8, what: &str) {
                match v {
                    Some(r) => {
                        ck!(r as *mut T == want, Content, "reference points to another element", "{} {}", what, P);
                        if r as *mut T == want { *r = T::make(x); }
                    }
                    None => vio!(Content, "right-type operation refused", "{} {}", what, P),
                }
            }
            fn perform<T: $El>(mut s: $Mut<$V>, m: &[*mut T], act: Act, model: &mut [u8]) {
                unsafe { SEEN += 1 };
                let n = m.len();
                ck!(s.len() == n && s.is_empty() == (n == 0), Content, "wrong length of view", "{} want {} {}", s.len(), n, P);
                if s.len() != n { return; }
                match act {
                    Act::Read => {
                        let t: &[T] = if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(m[0], n) } };
                        check(&s.reborrow(), t);
                        check(&$Ref::from(&s), t);
                        for i in 0..n { vref(s.get(i), &t[i], "mutable view get"); }
                        with!(Rg::Full, r => check(&s.subslice(r), t));
                        if n > 0 { check(&s.subslice(1..n), &t[1..n]); }
                        for c in 1..=n + 1 {
                            let mut k = 0;
                            for (s, t) in s.chunks_exact(c).zip(t.chunks_exact(c)) { check(&s, t); k += 1; }
                            ck!(k == n / c && s.chunks_exact(c).count() == k, Content, "wrong number of chunks", "chunks_exact({}) {}", c, P);
                        }
                        ck!(s.as_slice::<T>().map(|x| (x.len() == n) && (n == 0 || x.as_ptr() == t.as_ptr())) == Some(true), Content, "view selects other elements", "{}", P);
                        ck!(s.as_slice::<T::Twin>().is_none() && s.iter_as::<T::Twin>().is_none() && s.check::<T::Twin>().is_none(), Type, "wrong-type operation accepted", "mutable view {}", P);
                        let mut v = vec![T::make(9)];
                        ck!(s.$apvec(&mut v).is_some() && v.len() == n + 1 && v[0].label() == 9 && v[1..].iter().zip(t).all(|(a, b)| a.label() == b.label()), Content, "wrong element contents", "{} {}", stringify!($apvec), P);
                        match s.$tovec::<T>() {
                            Some(v) => ck!(v.len() == n && v.iter().zip(t).all(|(a, b)| a.label() == b.label()), Content, "wrong element contents", "copied out {}", P),
                            None => vio!(Content, "right-type operation refused", "{} {}", stringify!($tovec), P),
                        }
                    }
                    Act::RotL(k) => { s.rotate_left(k); model.rotate_left(k); }
                    Act::RotR(k) => { s.rotate_right(k); model.rotate_right(k); }
                    Act::Swap(i, j) => { s.swap(i, j); model.swap(i, j); }
                    Act::GetMut(i) => { set(s.get_mut(i).downcast::<T>(), m[i], 9, "get_mut"); model[i] = 9; }
                    Act::GetAs(i) => { set(s.get_as::<T>(i), m[i], 9, "get_as"); model[i] = 9; }
                    Act::AsSlice(i) => { set(s.as_slice::<T>().map(|t| &mut t[i]), m[i], 9, "as_slice"); model[i] = 9; }
                    Act::Iter(i) => { set(s.iter().nth(i).and_then(|v| v.downcast::<T>()), m[i], 9, "iter"); model[i] = 9; }
                    Act::IntoIter(i) => { set(s.into_iter().nth(i).and_then(|v| v.downcast::<T>()), m[i], 9, "into_iter"); model[i] = 9; }
                    Act::IterAs(i) => { set(s.iter_as::<T>().and_then(|mut t| t.nth(i)), m[i], 9, "iter_as"); model[i] = 9; }
                    Act::FromSlice => {
                        let src: Vec<T> = (0..n).map(|i| T::make(5 + i as u8)).collect();
                        ck!(s.$fromslice(&src).is_some(), Content, "right-type operation refused", "{} {}", stringify!($fromslice), P);
                        for i in 0..n { model[i] = 5 + i as u8; }
                    }
                    Act::FromSliceTwin => {
                        let src: Vec<T::Twin> = (0..n).map(|i| T::Twin::make(5 + i as u8)).collect();
                        ck!(s.$fromslice(&src).is_none(), Type, "wrong-type operation accepted", "{} {}", stringify!($fromslice), P);
                    }
                    Act::WriteAll => {
                        // all elements at once, each exactly once
                        let all: Vec<$VMut<$V>> = s.iter().collect();
                        ck!(all.len() == n, Content, "iterator yields wrong number of elements", "{} want {} {}", all.len(), n, P);
                        for (i, v) in all.into_iter().enumerate() {
                            if i < n { set(v.downcast::<T>(), m[i], 4 + i as u8, "iter"); model[i] = 4 + i as u8; }
                        }
                    }
                    Act::SplitWrite(k) => {
                        let (mut l, mut r) = s.split_at(k);
                        ck!(l.len() == k && r.len() == n - k, Content, "wrong length of view", "split_at({}) {}", k, P);
                        if l.len() != k || r.len() != n - k { return; }
                        for i in 0..k { set(l.get_as::<T>(i), m[i], 4 + i as u8, "left half"); model[i] = 4 + i as u8; }
                        for i in k..n { set(r.get_as::<T>(i - k), m[i], 4 + i as u8, "right half"); model[i] = 4 + i as u8; }
                    }
                    Act::SwapHalves(k) => {
                        let (mut l, mut r) = s.split_at(k);
                        for i in 0..k {
                            l.get_mut(i).swap(&mut r.get_mut(i));
                            model.swap(i, k + i);
                        }
                    }
                    Act::ChunkWrite(c) => {
                        let all: Vec<$Mut<$V>> = s.chunks_exact_mut(c).collect();
                        ck!(all.len() == n / c, Content, "wrong number of chunks", "chunks_exact_mut({}) {} {}", c, all.len(), P);
                        for (k, mut v) in all.into_iter().enumerate() {
                            ck!(v.len() == c, Content, "wrong chunk", "chunks_exact_mut({}) {}", c, P);
                            for j in 0..c {
                                let i = k * c + j;
                                if i < n && j < v.len() { set(v.get_as::<T>(j), m[i], 4 + i as u8, "chunk"); model[i] = 4 + i as u8; }
                            }
                        }
                    }
                }
            }
            fn paths(n: usize, depth: usize, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[Op], usize)) {
                f(cur, n);
                if depth == 0 { return; }
                let idx: Vec<usize> = (0..n).collect();
                for op in ops(n, true) {
                    let k = typed(&idx, op).len();
                    cur.push(op);
                    paths(k, depth - 1, cur, f);
                    cur.pop();
                }
            }
            /// Mutable views: every path of view operations, then every action, then the original is inspected.
            pub fn mutable<T: $El>(c: &mut Cases, n: usize, depth: usize) {
                paths(n, depth, &mut Vec::new(), &mut |p, k| {
                    if c.res.found.len() > 30 { return; }
                    for src in 0..3 {
                        if src != 0 && p.len() > 1 { continue; }
                        for act in acts(k) {
                            c.run(format_args!("{} mutable n={} source={} {:?} {:?}", T::NAME, n, src, p, act), || {
                                for (i, o) in p.iter().enumerate() { path().0[i] = *o; }
                                path().1 = p.len();
                                let mut v = fresh::<T>(n);
                                let mut model: Vec<u8> = (0..n as u8).collect();
                                if src == 2 {
                                    let mut d = $Vec::<$V>::from_vec(v);
                                    let m: Vec<*mut T> = d.as_mut_slice_as::<T>().unwrap().iter_mut().map(|r| r as *mut T).collect();
                                    walk(d.as_mut_slice(), &m, p, act, &mut model);
                                    same(d.as_slice_as::<T>().unwrap(), &model, act);
                                } else {
                                    let m: Vec<*mut T> = v.iter_mut().map(|r| r as *mut T).collect();
                                    walk(if src == 0 { $Mut::<$V>::from_slice(&mut v) } else { $Mut::<$V>::from(v.as_mut_slice()) }, &m, p, act, &mut model);
                                    same(&v, &model, act);
                                }
                                true
                            });
                        }
                    }
                });
            }
            fn same<T: $El>(v: &[T], model: &[u8], act: Act) {
                ck!(v.len() == model.len(), Content, "original changed its length", "{:?} {}", act, P);
                for (i, x) in v.iter().enumerate() {
                    let l = x.label();
                    ck!(l == model[i], Content, "write through a view has another effect than on the typed slice", "{:?} {}: original[{}] is {} want {}", act, P, i, l, model[i]);
                }
            }
        }
    };
}
views!(dy, TElem, Slice, SliceMut, ValueRef, ValueMut, VA, VecDyn, get, clone_into_vec, append_clone_to_vec, clone_from_slice);
views!(cp, CElem, SliceCopy, SliceCopyMut, CopyValueRef, CopyValueMut, (), VecCopy, get_ref, copy_into_vec, append_copy_to_vec, copy_from_slice);

macro_rules! jobs {
    ($a:expr, dy: $($t:ident)*; cp: $($u:ident)*) => {{
        let mut names = Vec::new();
        $(names.push((stringify!($t), size_of::<$t>()));)*
        $(names.push((stringify!($u), size_of::<$u>()));)*
        let d = |size: usize, n: usize, thorough: bool| -> (usize, usize) {
            let big = size > 300;
            match (thorough, big) {
                (false, false) => (if n <= 2 { 3 } else if n <= 5 { 2 } else { 1 }, if n <= 1 { 3 } else if n <= 3 { 2 } else { 1 }),
                (false, true) => (1, 1),
                (true, false) => (if n <= 3 { 4 } else if n <= 4 { 3 } else { 2 }, if n <= 2 { 3 } else if n <= 5 { 2 } else { 1 }),
                (true, true) => (2, 1),
            }
        };
        if $a.list {
            for (t, size) in names {
                for n in 0..=(if size > 300 { 3 } else if $a.thorough { 7 } else { 5 }) {
                    println!("{}:s{}", t, n);
                    println!("{}:m{}", t, n);
                }
            }
            return;
        }
        let (ty, mode) = $a.job.split_once(':').unwrap();
        let n: usize = mode[1..].parse().unwrap();
        let mut c = Cases::new($a.only.clone());
        $(if ty == stringify!($t) {
            let (ds, dm) = d(size_of::<$t>(), n, $a.thorough);
            if mode.starts_with('s') { dy::shared::<$t>(&mut c, n, ds) } else { dy::mutable::<$t>(&mut c, n, dm) }
        })*
        $(if ty == stringify!($u) {
            let (ds, dm) = d(size_of::<$u>(), n, $a.thorough);
            if mode.starts_with('s') { cp::shared::<$u>(&mut c, n, ds) } else { cp::mutable::<$u>(&mut c, n, dm) }
        })*
        c
    }};
}

fn main() {
    let a = mc::args();
    let c = jobs!(a,
        dy: K1x1 K2x1 K3x1 K2x2 K6x2 K4x4 K12x4 K8x8 K24x8 K48x16 K64x32 K256x256 K1100x1 K3000x4 K8192x8192 String;
        cp: C1x1 C2x1 C3x1 C2x2 C6x2 C4x4 C12x4 C8x8 C24x8 C48x16 C64x32 C256x256 C1100x1 C3000x4 C8192x8192);
    let mut r: Results = c.res;
    unsafe {
        r.states = SEEN;
        r.transitions = SEEN;
    }
    r.print();
}
