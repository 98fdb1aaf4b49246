//! Conversions reuse the buffer, views do not copy, capacity promises and amortised growth (C13).
use dync::traits::DropVTable;
use dync::*;
use mc::elems::*;
use mc::rep::Cases;
use mc::vd::{VA, VD};
use mc::{ck, mon};
use std::mem::size_of;

type VC = VecCopy<VA>;

/// What happened since `Watch::new`: blocks requested, moved, clones made, largest block.
struct Watch {
    a: usize,
    r: usize,
    c: usize,
}
impl Watch {
    fn new() -> Self {
        mon::st().largest = 0;
        Watch { a: mon::st().allocs, r: mon::st().reallocs, c: counts()[Cb::Clone as usize] }
    }
    fn allocs(&self) -> usize {
        mon::st().allocs.wrapping_sub(self.a)
    }
    fn reallocs(&self) -> usize {
        mon::st().reallocs - self.r
    }
    fn clones(&self) -> usize {
        counts()[Cb::Clone as usize] - self.c
    }
    /// No element was cloned and nothing but tables was allocated.
    fn nothing(&self, what: &str, tables: usize) {
        ck!(self.clones() == 0, Cap, "elements cloned by a conversion or view", "{}: {} clones", what, self.clones());
        ck!(self.reallocs() == 0, Cap, "storage reallocated by a conversion or view", "{}", what);
        ck!(self.allocs() <= tables, Cap, "storage allocated by a conversion or view", "{}: {} blocks, largest {}", what, self.allocs(), mon::st().largest);
        ck!(mon::st().largest <= 256, Cap, "storage allocated by a conversion or view", "{}: largest block {}", what, mon::st().largest);
    }
}
/// Reallocations that amortised growth to n elements may need, from nothing.
fn log_bound(n: usize) -> usize {
    2 * (usize::BITS - n.leading_zeros()) as usize + 4
}

/// Lengths at which a container might change its ways.
const LENS: &[usize] = &[63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537];
/// Lengths the ledger and the monitor have room for, and that are affordable.
fn fits<E: 'static>(n: usize) -> bool {
    let counted = std::any::type_name::<E>().rsplit("::").next().map_or(false, |s| s.contains('K'));
    n <= if counted { 120 } else if <E as Boxes>::BOXES { 8000 } else { (1 << 20) / size_of::<E>() }
}

macro_rules! family {
    ($modname:ident, $Tr:ident, $D:ty, $DD:ty) => {
        pub mod $modname {
            use super::*;
            pub fn typed<E: $Tr>(n: usize, cap: usize) -> Vec<E> {
                let mut v = Vec::with_capacity(cap);
                v.extend((0..n).map(|i| E::make((i % 16) as u8)));
                v
            }
            pub fn same<E: $Tr>(v: &[E], n: usize, what: &str) {
                ck!(v.len() == n && v.iter().enumerate().all(|(i, e)| e.label() == (i % 16) as u8), Content, "contents changed by a conversion", "{}", what);
            }
            pub fn ptr<E: $Tr>(d: &$D) -> usize {
                d.as_slice_as::<E>().map_or(0, |s| s.as_ptr() as usize)
            }
            /// Typed -> untyped -> ... -> typed keeps the buffer.
            pub fn conversions<E: $Tr>(c: &mut Cases, nmax: usize) {
                let short = (0..=nmax).flat_map(|n| [0usize, 1, 2, 5, 40].map(|s| (n, s)));
                let long = LENS.iter().flat_map(|&n| [(n, 0), (n, 1), (n, n), (n, 40), (2, n), (n / 2, n)]);
                for (n, spare) in short.chain(long.filter(|&(n, s)| fits::<E>(n + s))) {
                    {
                        // a vector that owns no buffer has none to keep
                        if n + spare == 0 {
                            continue;
                        }
                        type Via<E> = (&'static str, usize, fn(Vec<E>) -> Option<Vec<E>>);
                        let ways: Vec<Via<E>> = vec![
                            ("from_vec, into_vec", 1, |v| <$D>::from_vec(v).into_vec::<E>()),
                            ("From<Vec>, Into<Option<Vec>>", 1, |v| {
                                let d: $D = v.into();
                                d.into()
                            }),
                            ("check, into_vec", 1, |v| <$D>::from_vec(v).check::<E>()?.into_vec::<E>()),
                            ("raw parts", 1, |v| {
                                let (x, t) = <$D>::from_vec(v).into_raw_parts();
                                unsafe { <$D>::from_raw_parts(x, t) }.into_vec::<E>()
                            }),
                            ("upcast", 2, |v| {
                                let d: $DD = <$D>::from_vec(v).upcast();
                                d.into_vec::<E>()
                            }),
                            ("views in between", 1, |v| {
                                let mut d = <$D>::from_vec(v);
                                let w = Watch::new();
                                let n = d.len();
                                d.as_slice_as::<E>()?;
                                d.as_mut_slice_as::<E>()?;
                                d.iter_as::<E>()?.count();
                                d.iter_mut_as::<E>()?.count();
                                d.check_ref::<E>()?;
                                d.check_mut::<E>()?;
                                d.iter().count();
                                for v in d.iter_mut() {
                                    v.downcast::<E>()?;
                                }
                                {
                                    let s = d.as_slice();
                                    let _ = (s.reborrow(), s.subslice(..n / 2), s.split_at(n / 2), s.iter().count(), s.iter_as::<E>()?.count(), s.as_slice::<E>()?);
                                    let _ = s.chunks_exact(1).count();
                                    s.into_subslice(n / 2..).check::<E>()?;
                                }
                                {
                                    let mut s = d.as_mut_slice();
                                    let _ = (s.reborrow(), s.len());
                                    let _ = s.reborrow_mut();
                                    let _ = s.subslice_mut(..n / 2);
                                    let _ = s.split_at(n / 2);
                                    let _ = s.chunks_exact_mut(1).count();
                                    s.as_slice::<E>()?;
                                    s.iter_as::<E>()?.count();
                                    let _ = s.iter().count();
                                    let mut t = s.into_subslice(n / 2..);
                                    t.check::<E>()?;
                                }
                                w.nothing("views", 0);
                                d.into_vec::<E>()
                            }),
                            ("twice", 2, |v| <$D>::from_vec(<$D>::from_vec(v).into_vec::<E>()?).into_vec::<E>()),
                        ];
                        for (name, tables, f) in &ways {
                            c.run(format_args!("{} n={} spare={} {}", E::NAME, n, spare, name), || {
                                let v = typed::<E>(n, n + spare);
                                let before = (v.as_ptr() as usize, v.len(), v.capacity());
                                let w = Watch::new();
                                let v = f(v);
                                w.nothing(name, *tables);
                                match v {
                                    Some(v) => {
                                        let after = (v.as_ptr() as usize, v.len(), v.capacity());
                                        ck!(before.2 == after.2, Cap, "capacity changed by a conversion", "{}: {} -> {}", name, before.2, after.2);
                                        ck!(before.2 == 0 || before == after, Cap, "buffer changed by a conversion", "{}", name);
                                        same(&v, n, name);
                                    }
                                    None => ck!(false, Content, "right-type operation refused", "{}", name),
                                }
                                true
                            });
                        }
                        c.run(format_args!("{} n={} spare={} typed view is the buffer", E::NAME, n, spare), || {
                            let v = typed::<E>(n, n + spare);
                            let p = v.as_ptr() as usize;
                            let mut d = <$D>::from_vec(v);
                            if n > 0 {
                                ck!(ptr::<E>(&d) == p, Cap, "buffer changed by a conversion", "typed view");
                                ck!(d.as_mut_slice_as::<E>().map_or(0, |s| s.as_ptr() as usize) == p, Cap, "buffer changed by a conversion", "mutable typed view");
                                ck!(d.as_slice().as_slice::<E>().map_or(0, |s| s.as_ptr() as usize) == p, Cap, "buffer changed by a conversion", "slice view");
                            }
                            // clearing, shrinking and overwriting in place keep the buffer as well
                            let cap = n + spare;
                            let w = Watch::new();
                            let x = E::make(3);
                            d.fill(x);
                            ck!(ptr::<E>(&d) == p || cap == 0, Cap, "buffer moved by fill", "");
                            d.rotate_left(n / 2);
                            d.rotate_right(n / 2);
                            d.resize(n / 2, E::make(4));
                            ck!(ptr::<E>(&d) == p || cap == 0, Cap, "buffer moved by shrinking", "");
                            d.resize(n, E::make(4));
                            ck!(ptr::<E>(&d) == p || cap == 0, Cap, "buffer moved although there was room", "resize");
                            d.clear();
                            ck!(w.reallocs() == 0, Cap, "storage reallocated although there was room", "");
                            let w = Watch::new();
                            for i in 0..cap {
                                d.push_as(E::make((i % 16) as u8));
                                ck!(ptr::<E>(&d) == p, Cap, "buffer moved although there was room", "push after clear");
                            }
                            ck!(w.reallocs() == 0 && w.allocs() <= cap, Cap, "storage reallocated although there was room", "push after clear");
                            let v = d.into_vec::<E>().unwrap();
                            ck!(v.capacity() == cap, Cap, "capacity changed by a conversion", "after clear and push: {} -> {}", cap, v.capacity());
                            same(&v, cap, "push after clear");
                            true
                        });
                        c.run(format_args!("{} n={} spare={} clone", E::NAME, n, spare), || {
                            let d = <$D>::from_vec(typed::<E>(n, n + spare));
                            let e = d.clone();
                            let p = ptr::<E>(&e);
                            let v = e.into_vec::<E>().unwrap();
                            ck!(v.capacity() == n + spare, Cap, "cloning changes the capacity", "{} -> {}", n + spare, v.capacity());
                            ck!(n == 0 || p == v.as_ptr() as usize, Cap, "buffer changed by a conversion", "of a clone");
                            same(&v, n, "clone");
                            let v = d.into_vec::<E>().unwrap();
                            ck!(v.capacity() == n + spare, Cap, "cloning changes the capacity", "of the original");
                            true
                        });
                    }
                }
            }
            /// with_capacity(n) holds n elements.
            pub fn promises<E: $Tr>(c: &mut Cases, sizes: &[usize], pushes: &[(&'static str, fn(&mut $D, u8))]) {
                for &n in sizes {
                    for (how, f) in pushes {
                        c.run(format_args!("{} with_capacity {} then {}", E::NAME, n, how), || {
                            let mut d = <$D>::with_capacity::<E>(n);
                            f(&mut d, 0);
                            let p = ptr::<E>(&d);
                            let w = Watch::new();
                            for i in 1..n {
                                f(&mut d, (i % 16) as u8);
                                ck!(ptr::<E>(&d) == p, Cap, "buffer moved within the promised capacity", "{} at {} of {}", how, i, n);
                            }
                            ck!(w.reallocs() == 0, Cap, "storage reallocated within the promised capacity", "{}", how);
                            let len = n.max(1);
                            ck!(d.len() == len, Content, "wrong length", "{}", d.len());
                            let v = d.into_vec::<E>().unwrap();
                            ck!(v.capacity() >= n, Cap, "less capacity than promised", "{} of {}", v.capacity(), n);
                            same(&v, len, how);
                            true
                        });
                        c.run(format_args!("{} with_capacity {} cleared then {}", E::NAME, n, how), || {
                            let mut d = <$D>::with_capacity::<E>(n);
                            let e = d.clone();
                            let v = e.into_vec::<E>().unwrap();
                            ck!(v.capacity() >= n, Cap, "cloning changes the capacity", "of an empty container: {} -> {}", n, v.capacity());
                            for i in 0..n {
                                f(&mut d, (i % 16) as u8);
                            }
                            d.clear();
                            let w = Watch::new();
                            for i in 0..n {
                                f(&mut d, (i % 16) as u8);
                            }
                            ck!(w.reallocs() == 0, Cap, "storage reallocated within the promised capacity", "{} after clear", how);
                            same(&d.into_vec::<E>().unwrap(), n, how);
                            true
                        });
                    }
                }
            }
            /// Pushing n elements one by one reallocates O(log n) times.
            pub fn growth<E: $Tr>(c: &mut Cases, n: usize, starts: &[usize], pushes: &[(&'static str, fn(&mut $D, u8))]) {
                for &s in starts {
                    for (how, f) in pushes {
                        c.run(format_args!("{} grow from {} to {} by {}", E::NAME, s, n, how), || {
                            let mut d = if s == 0 { <$D>::with_type::<E>() } else { <$D>::from_vec(typed::<E>(s, s)) };
                            let mut p = ptr::<E>(&d);
                            let w = Watch::new();
                            let mut moves = 0;
                            for i in s..n {
                                f(&mut d, (i % 16) as u8);
                                let q = ptr::<E>(&d);
                                moves += (q != p) as usize;
                                p = q;
                            }
                            ck!(moves <= log_bound(n) && w.reallocs() <= log_bound(n), Cap, "growing moves the buffer too often", "{}: {} moves, {} reallocations for {} elements", how, moves, w.reallocs(), n);
                            let v = d.into_vec::<E>().unwrap();
                            same(&v, n, how);
                            ck!(v.capacity() <= 4 * n + 64, Cap, "capacity grows out of proportion", "{} for {}", v.capacity(), n);
                            true
                        });
                    }
                }
            }
            pub fn bulk<E: $Tr>(c: &mut Cases, nmax: usize) {
                let short = (0..=nmax).flat_map(|n| (0..=2 * nmax).flat_map(move |m| [0, 1, nmax].map(|s| (n, m, s))));
                let long = LENS.iter().flat_map(|&n| {
                    [(n, 0, 0), (n, 1, 0), (n, n - 1, 0), (n, n, 0), (n, n + 1, 0), (n, 2 * n, 0), (n, n, n), (0, n, 0), (0, n, n), (3, n, 0), (n, n / 2, 2), (n, n + 1, 1), (n, n + 2, 1), (n, 2 * n, n), (n, 2 * n + 1, n)]
                });
                for (n, m, spare) in short.chain(long.filter(|&(n, m, s)| fits::<E>(n + m + s + 3))) {
                    {
                        {
                            c.run(format_args!("{} n={} spare={} resize to {}", E::NAME, n, spare, m), || {
                                let mut d = <$D>::from_vec(typed::<E>(n, n + spare));
                                let w = Watch::new();
                                d.resize(m, E::make(3));
                                ck!(w.reallocs() + w.allocs() <= (m > n + spare) as usize + if <E as Boxes>::BOXES { m.saturating_sub(n) + 1 } else { 0 }, Cap, "resize reallocates more than once", "{} -> {}: {}", n, m, w.reallocs() + w.allocs());
                                true
                            });
                            c.run(format_args!("{} n={} spare={} append {}", E::NAME, n, spare, m), || {
                                let mut d = <$D>::from_vec(typed::<E>(n, n + spare));
                                let mut o = <$D>::from_vec(typed::<E>(m, m + 3));
                                let (p, q) = (ptr::<E>(&d), ptr::<E>(&o));
                                let w = Watch::new();
                                d.append(&mut o);
                                ck!(w.reallocs() + w.allocs() <= (m > spare) as usize, Cap, "append reallocates more than once", "{} + {}: {}", n, m, w.reallocs() + w.allocs());
                                ck!(w.clones() == 0, Cap, "elements cloned by append", "");
                                ck!(m > spare || n + spare == 0 || ptr::<E>(&d) == p, Cap, "buffer moved although there was room", "append");
                                let v = o.into_vec::<E>().unwrap();
                                ck!(v.capacity() == m + 3 && (v.as_ptr() as usize == q), Cap, "append takes the capacity of the emptied container", "{}", v.capacity());
                                ck!(v.is_empty(), Content, "appended container is not empty", "");
                                true
                            });
                        }
                    }
                }
            }
        }
    };
}
/// Element types whose values allocate themselves.
trait Boxes {
    const BOXES: bool;
}
impl<T> Boxes for T {
    const BOXES: bool = std::mem::needs_drop::<T>();
}
family!(dynv, TElem, VD, VecDyn<DropVTable>);
family!(copyv, CElem, VC, VecCopy<DropVTable>);

fn dyn_pushes<E: TElem>() -> Vec<(&'static str, fn(&mut VD, u8))> {
    vec![
        ("push_as", |d, l| drop(d.push_as(E::make(l)).is_some())),
        ("push", |d, l| drop(d.push(BoxValue::<VA>::new(E::make(l))).is_some())),
        ("push_cloned", |d, l| {
            let e = E::make(l);
            drop(d.push_cloned(ValueRef::new(&e)).is_some())
        }),
        ("append one", |d, l| {
            let mut o = VD::from_vec(vec![E::make(l)]);
            d.append(&mut o);
        }),
        ("resize by one", |d, l| {
            let n = d.len() + 1;
            d.resize(n, E::make(l));
        }),
    ]
}
fn copy_pushes<E: CElem>() -> Vec<(&'static str, fn(&mut VC, u8))> {
    vec![
        ("push_as", |d, l| drop(d.push_as(E::make(l)).is_some())),
        ("push", |d, l| {
            let e = E::make(l);
            d.push(CopyValueRef::<VA>::new(&e));
        }),
        ("append one", |d, l| {
            let mut o = VC::from_vec(vec![E::make(l)]);
            d.append(&mut o);
        }),
        ("resize by one", |d, l| {
            let n = d.len() + 1;
            d.resize(n, E::make(l));
        }),
        ("extend by one", |d, l| {
            let e = E::make(l);
            d.extend(std::iter::once(CopyValueRef::<VA>::new(&e)));
        }),
        ("reserve one and push", |d, l| {
            d.reserve(1);
            d.push_as(E::make(l));
        }),
    ]
}
/// reserve and extend, which only VecCopy has.
fn reserves<E: CElem>(c: &mut Cases, nmax: usize) {
    let short = (0..=nmax).flat_map(|n| [0, 1, 3, 20].into_iter().flat_map(move |s| (0..=nmax + 2).chain([17, 33, 100]).map(move |a| (n, s, a))));
    let long = LENS.iter().flat_map(|&n| [(n, 0, 0), (n, 0, 1), (n, 0, 5), (n, 0, n), (n, n, 1), (n, n, n), (n, n, n + 1), (n, 1, 2), (0, n, n), (0, n, n + 1), (3, 0, n), (3, n, 1), (3, n, n), (3, n, n + 1), (1, 2, n)]);
    for (n, spare, add) in short.chain(long.filter(|&(n, s, a)| fits::<E>(n + s + a))) {
        {
            if n + spare == 0 {
                continue;
            }
            {
                for (how, f) in &copy_pushes::<E>() {
                    c.run(format_args!("{} n={} spare={} reserve {} then {}", E::NAME, n, spare, add, how), || {
                        let mut d = VC::from_vec(copyv::typed::<E>(n, n + spare));
                        ck!(d.capacity() == n + spare, Cap, "wrong capacity reported", "{} instead of {}", d.capacity(), n + spare);
                        let p = copyv::ptr::<E>(&d);
                        let w = Watch::new();
                        d.reserve(add);
                        if add <= spare {
                            ck!(w.allocs() + w.reallocs() == 0 && copyv::ptr::<E>(&d) == p && d.capacity() == n + spare, Cap, "reserve moves the buffer although there was room", "");
                        }
                        ck!(d.capacity() >= n + add, Cap, "less capacity than promised", "{} < {}", d.capacity(), n + add);
                        let cap = d.capacity();
                        let p = copyv::ptr::<E>(&d);
                        let w = Watch::new();
                        for i in n..n + add {
                            f(&mut d, (i % 16) as u8);
                            ck!(copyv::ptr::<E>(&d) == p, Cap, "buffer moved within the promised capacity", "{}", how);
                        }
                        ck!(w.reallocs() == 0, Cap, "storage reallocated within the promised capacity", "{}", how);
                        ck!(d.capacity() == cap, Cap, "capacity changed within the promised capacity", "");
                        ck!(d.clone().capacity() == cap, Cap, "cloning changes the capacity", "{} -> {}", cap, d.clone().capacity());
                        let v = d.into_vec::<E>().unwrap();
                        ck!(v.capacity() == cap && (cap == 0 || v.as_ptr() as usize == p), Cap, "buffer changed by a conversion", "");
                        copyv::same(&v, n + add, how);
                        true
                    });
                }
            }
        }
    }
    for n in 0..=nmax {
        for m in (0..=40).chain(LENS.iter().copied().filter(|&m| fits::<E>(m))) {
            c.run(format_args!("{} n={} extend by {}", E::NAME, n, m), || {
                let mut d = VC::from_vec(copyv::typed::<E>(n, n));
                let o = VC::from_vec(copyv::typed::<E>(m, m));
                let w = Watch::new();
                d.extend(o.iter());
                ck!(w.reallocs() <= log_bound(n + m), Cap, "growing moves the buffer too often", "extend: {}", w.reallocs());
                if m > 0 {
                    let w = Watch::new();
                    let e: VC = o.iter().collect();
                    ck!(w.reallocs() <= log_bound(m), Cap, "growing moves the buffer too often", "collect: {}", w.reallocs());
                    copyv::same(e.as_slice_as::<E>().unwrap(), m, "collect");
                }
                true
            });
        }
    }
}

fn dynjob<E: TElem>(c: &mut Cases, t: bool) {
    dynv::conversions::<E>(c, if t { 9 } else { 5 });
    let sizes: Vec<usize> = (1..=20).chain([33, 64, 100]).chain(LENS.iter().copied().filter(|&n| fits::<E>(n))).collect();
    dynv::promises::<E>(c, &sizes, &dyn_pushes::<E>());
    dynv::growth::<E>(c, if E::COUNTED { 200 } else if <E as Boxes>::BOXES { 10_000 } else { 30_000 }, &[0, 1, 3, 10], &dyn_pushes::<E>());
    dynv::bulk::<E>(c, if t { 6 } else { 4 });
}
fn copyjob<E: CElem>(c: &mut Cases, t: bool) {
    copyv::conversions::<E>(c, if t { 9 } else { 5 });
    let sizes: Vec<usize> = (1..=20).chain([33, 64, 100]).chain(LENS.iter().copied().filter(|&n| fits::<E>(n))).collect();
    copyv::promises::<E>(c, &sizes, &copy_pushes::<E>());
    copyv::growth::<E>(c, if size_of::<E>() > 1000 { 300 } else if t || size_of::<E>() <= 24 { 100_000 } else { 6000 }, &[0, 1, 3, 10], &copy_pushes::<E>());
    copyv::bulk::<E>(c, if t { 6 } else { 4 });
    reserves::<E>(c, 4);
}

fn main() {
    let a = mc::args();
    if a.list {
        for n in "K8x8 K1x1 K3x1 K16x16 K24x8 BoxK String K1100x1 C1x1 C2x2 C3x1 C4x4 C8x8 C16x16 C24x8 C64x64 C1100x1".split(' ') {
            println!("{}", n);
        }
        return;
    }
    let mut cs = Cases::new(a.only.clone());
    let c = &mut cs;
    macro_rules! jobs {
        ($($k:ident)*; $($d:ident)*) => {
            match a.job.as_str() {
                $(stringify!($k) => dynjob::<$k>(c, a.thorough),)*
                $(stringify!($d) => copyjob::<$d>(c, a.thorough),)*
                j => panic!("no job {}", j),
            }
        };
    }
    jobs!(K8x8 K1x1 K3x1 K16x16 K24x8 BoxK String K1100x1; C1x1 C2x2 C3x1 C4x4 C8x8 C16x16 C24x8 C64x64 C1100x1);
    cs.res.states = cs.res.execs;
    cs.res.transitions = cs.res.execs;
    cs.res.print();
}
