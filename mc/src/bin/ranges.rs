//! Every argument that a Vec or slice could reject, at every entry point that takes one (C10).
use dync::*;
use mc::elems::*;
use mc::rep::{guarded, panic_msg, Cases};
use mc::vd::{VA, VD};
use mc::ck;
use std::mem::size_of;

type VC = VecCopy<VA>;

/// Arguments: everything near the length, everything that overflows or wraps when scaled by `s`.
fn args(n: usize, s: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n + 2).collect();
    for b in [usize::MAX, isize::MAX as usize, usize::MAX / 2 + 1] {
        for d in 0..3 {
            v.push(b - d);
        }
    }
    for w in [1u128 << 64, 1 << 63] {
        let q = w / s as u128;
        for d in -1i128..=(n as i128 + 1) {
            let x = q as i128 + d;
            if x > n as i128 + 2 && x <= usize::MAX as i128 {
                v.push(x as usize);
            }
        }
        for k in 2..4u128 {
            // k * 2^64 / s
            let x = (k * w).div_ceil(s as u128);
            if x <= usize::MAX as u128 {
                v.push(x as usize);
            }
        }
    }
    v.push(usize::MAX - n);
    v.push(usize::MAX - n.saturating_sub(1));
    v.sort();
    v.dedup();
    v
}
/// Fewer, for pairs of arguments.
fn few(n: usize, s: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n + 1).collect();
    v.push(usize::MAX);
    v.push(usize::MAX - 1);
    let q = ((1u128 << 64) / s as u128) as usize;
    if s > 1 {
        v.extend([q, q + 1, q - 1]);
        v.push(((1u128 << 64).div_ceil(s as u128)) as usize);
        v.push(q + n);
    }
    v.push(isize::MAX as usize);
    v.sort();
    v.dedup();
    v
}

macro_rules! family {
    ($modname:ident, $Tr:ident, $D:ty, $Slice:ident, $SliceMut:ident, $ValR:ident, $ValM:ident, $get:ident, $val:ident, $obs:path) => {
        mod $modname {
            use super::*;
            fn mk<E: $Tr>(n: usize, spare: usize) -> Vec<E> {
                let mut v = Vec::with_capacity(n + spare);
                v.extend((0..n).map(|i| E::make(i as u8)));
                v
            }
            fn l<E: $Tr>(s: &[E]) -> Vec<u8> {
                s.iter().map(|e| e.label()).collect()
            }
            pub fn rl<E: $Tr>(v: $ValR<VA>) -> Vec<u8> {
                v.downcast::<E>().map_or(vec![254], |e| vec![e.label()])
            }
            pub fn ml<E: $Tr>(v: $ValM<VA>) -> Vec<u8> {
                v.downcast::<E>().map_or(vec![254], |e| vec![e.label()])
            }
            fn sl<E: $Tr>(v: $Slice<VA>) -> Vec<u8> {
                ck!(v.as_slice::<E>().map_or(true, |s| s.len() == v.len()), Content, "slice view lies about its length", "{}", v.len());
                v.as_slice::<E>().map_or(vec![254], |s| l(s))
            }
            fn sm<E: $Tr>(mut v: $SliceMut<VA>) -> Vec<u8> {
                v.as_slice::<E>().map_or(vec![254], |s| l(s))
            }
            fn one<E: $Tr>(e: Option<&E>) -> Vec<u8> {
                e.map_or(vec![254], |e| vec![e.label()])
            }
            fn one_mut<E: $Tr>(e: Option<&mut E>) -> Vec<u8> {
                e.map_or(vec![254], |e| vec![e.label()])
            }

            pub fn run<E: $Tr>(c: &mut Cases, nmax: usize) {
                let s = size_of::<E>();
                for n in 0..=nmax {
                    macro_rules! op {
                        ($name:expr, $a:expr, |$v:ident| $got:expr, |$t:ident| $want:expr) => {
                            c.run(format_args!("{} n={} {} {:?}", E::NAME, n, $name, $a), || {
                                let mut d: $D = <$D>::from_vec(mk::<E>(n, n % 2));
                                let mut t: Vec<E> = mk::<E>(n, 0);
                                let want: Result<Vec<u8>, ()> = guarded(|| { let $t = &mut t; $want });
                                let got: Result<Vec<u8>, ()> = guarded(|| { let $v = &mut d; $got });
                                judge($name, &got, &want);
                                if !mc::rep::any() {
                                    let la = l(&t);
                                    $obs(&mut d, &la);
                                }
                                if want.is_err() && !mc::rep::any() {
                                    // still usable
                                    ck!(d.push_as(E::make(9)).is_some(), Content, "container unusable after a refused argument", "");
                                    let mut la = l(&t);
                                    la.push(9);
                                    $obs(&mut d, &la);
                                }
                                true
                            })
                        };
                    }
                    for a in args(n, s) {
                        op!(stringify!($get), a, |v| rl::<E>(v.$get(a)), |t| vec![t[a].label()]);
                        op!("get_mut", a, |v| ml::<E>(v.get_mut(a)), |t| vec![t[a].label()]);
                        op!("get_ref_as", a, |v| one(v.get_ref_as::<E>(a)), |t| vec![t[a].label()]);
                        op!("get_mut_as", a, |v| one_mut(v.get_mut_as::<E>(a)), |t| vec![t[a].label()]);
                        op!("rotate_left", a, |v| { v.rotate_left(a); vec![] }, |t| { t.rotate_left(a); vec![] });
                        op!("rotate_right", a, |v| { v.rotate_right(a); vec![] }, |t| { t.rotate_right(a); vec![] });
                        op!("iter nth", a, |v| v.iter().nth(a).map_or(vec![], |x| rl::<E>(x)), |t| t.get(a).map_or(vec![], |e| vec![e.label()]));
                        op!("iter_mut nth", a, |v| v.iter_mut().nth(a).map_or(vec![], |x| ml::<E>(x)), |t| t.get(a).map_or(vec![], |e| vec![e.label()]));
                        op!("iter skip", a, |v| v.iter().skip(a).flat_map(|x| rl::<E>(x)).collect(), |t| l(t.get(a..).unwrap_or(&[])));
                        op!("iter step_by", a, |v| v.iter().step_by(a).flat_map(|x| rl::<E>(x)).collect(), |t| t.iter().step_by(a).map(|e| e.label()).collect());
                        // views of a whole container and of its middle
                        for (lo, hi) in [(0, n), (1, n), (1, n.saturating_sub(1)), (0, n.saturating_sub(1)), (n, n)] {
                            if lo > hi {
                                continue;
                            }
                            let x = (lo, hi, a);
                            let first = lo == 0 && hi == n;
                            macro_rules! sop { // on a shared and on a mutable view
                                ($what:expr, |$q:ident| $got:expr, |$m:ident| $gm:expr, |$u:ident| $want:expr) => {
                                    op!(concat!("Slice::", $what), x, |v| { let $q = v.as_slice().into_subslice(lo..hi); let r = $got; r }, |t| { let $u = &t[lo..hi]; $want });
                                    op!(concat!("SliceMut::", $what), x, |v| { let w = v.as_mut_slice(); #[allow(unused_mut)] let mut $m = w.into_subslice(lo..hi); let r = $gm; r }, |t| { let $u = &t[lo..hi]; $want });
                                };
                            }
                            macro_rules! mop { // on a mutable view only
                                ($what:expr, |$m:ident| $gm:expr, |$u:ident| $want:expr) => {
                                    op!(concat!("SliceMut::", $what), x, |v| { let w = v.as_mut_slice(); #[allow(unused_mut)] let mut $m = w.into_subslice(lo..hi); let r = $gm; r }, |t| { let $u = &mut t[lo..hi]; $want });
                                };
                            }
                            sop!("get", |q| rl::<E>(q.get(a)), |m| rl::<E>(m.get(a)), |u| vec![u[a].label()]);
                            sop!("get_as", |q| one(q.get_as::<E>(a)), |m| one_mut(m.get_as::<E>(a)), |u| vec![u[a].label()]);
                            sop!("split_at", |q| { let (y, z) = q.split_at(a); [sl::<E>(y), vec![200], sl::<E>(z)].concat() },
                                 |m| { let (y, z) = m.split_at(a); [sm::<E>(y), vec![200], sm::<E>(z)].concat() },
                                 |u| { let (y, z) = u.split_at(a); [l(y), vec![200], l(z)].concat() });
                            sop!("chunks_exact", |q| q.chunks_exact(a).flat_map(|y| { let mut r = sl::<E>(y); r.push(200); r }).collect(),
                                 |m| m.chunks_exact(a).flat_map(|y| { let mut r = sl::<E>(y); r.push(200); r }).collect(),
                                 |u| u.chunks_exact(a).flat_map(|y| { let mut r = l(y); r.push(200); r }).collect());
                            sop!("iter nth", |q| q.iter().nth(a).map_or(vec![], |y| rl::<E>(y)), |m| m.iter().nth(a).map_or(vec![], |y| ml::<E>(y)),
                                 |u| u.get(a).map_or(vec![], |e| vec![e.label()]));
                            sop!("into_iter nth", |q| q.into_iter().nth(a).map_or(vec![], |y| rl::<E>(y)), |m| m.into_iter().nth(a).map_or(vec![], |y| ml::<E>(y)),
                                 |u| u.get(a).map_or(vec![], |e| vec![e.label()]));
                            mop!("get_mut", |m| ml::<E>(m.get_mut(a)), |u| vec![u[a].label()]);
                            mop!("chunks_exact_mut", |m| m.chunks_exact_mut(a).flat_map(|y| { let mut r = sm::<E>(y); r.push(200); r }).collect(),
                                 |u| u.chunks_exact(a).flat_map(|y| { let mut r = l(y); r.push(200); r }).collect());
                            mop!("rotate_left", |m| { m.rotate_left(a); vec![] }, |u| { u.rotate_left(a); vec![] });
                            mop!("rotate_right", |m| { m.rotate_right(a); vec![] }, |u| { u.rotate_right(a); vec![] });
                            macro_rules! rg {
                                ($r:expr, $what:expr) => {
                                    sop!(concat!("subslice ", $what), |q| sl::<E>(q.subslice($r)), |m| sl::<E>(m.subslice($r)), |u| l(&u[$r]));
                                    sop!(concat!("into_subslice ", $what), |q| sl::<E>(q.into_subslice($r)), |m| sm::<E>(m.into_subslice($r)), |u| l(&u[$r]));
                                    mop!(concat!("subslice_mut ", $what), |m| sm::<E>(m.subslice_mut($r)), |u| l(&u[$r]));
                                };
                            }
                            rg!(a.., "a..");
                            rg!(..a, "..a");
                            rg!(..=a, "..=a");
                            if first || lo == 1 {
                                for b in few(n, s) {
                                    let x = (lo, hi, a, b);
                                    macro_rules! sop2 {
                                        ($what:expr, |$q:ident| $got:expr, |$m:ident| $gm:expr, |$u:ident| $want:expr) => {
                                            op!(concat!("Slice::", $what), x, |v| { let $q = v.as_slice().into_subslice(lo..hi); let r = $got; r }, |t| { let $u = &t[lo..hi]; $want });
                                            op!(concat!("SliceMut::", $what), x, |v| { let w = v.as_mut_slice(); #[allow(unused_mut)] let mut $m = w.into_subslice(lo..hi); let r = $gm; r }, |t| { let $u = &t[lo..hi]; $want });
                                        };
                                    }
                                    sop2!("subslice a..b", |q| sl::<E>(q.subslice(a..b)), |m| sl::<E>(m.subslice(a..b)), |u| l(&u[a..b]));
                                    sop2!("into_subslice a..b", |q| sl::<E>(q.into_subslice(a..b)), |m| sm::<E>(m.into_subslice(a..b)), |u| l(&u[a..b]));
                                    sop2!("subslice a..=b", |q| sl::<E>(q.subslice(a..=b)), |m| sl::<E>(m.subslice(a..=b)), |u| l(&u[a..=b]));
                                    sop2!("into_subslice a..=b", |q| sl::<E>(q.into_subslice(a..=b)), |m| sm::<E>(m.into_subslice(a..=b)), |u| l(&u[a..=b]));
                                    op!("SliceMut::subslice_mut a..b", x, |v| sm::<E>(v.as_mut_slice().into_subslice(lo..hi).subslice_mut(a..b)), |t| l(&t[lo..hi][a..b]));
                                    op!("SliceMut::subslice_mut a..=b", x, |v| sm::<E>(v.as_mut_slice().into_subslice(lo..hi).subslice_mut(a..=b)), |t| l(&t[lo..hi][a..=b]));
                                    if a != b || a < hi - lo {
                                        op!("SliceMut::swap", x, |v| { v.as_mut_slice().into_subslice(lo..hi).swap(a, b); vec![] }, |t| { t[lo..hi].swap(a, b); vec![] });
                                    }
                                }
                            }
                        }
                        // room for more than any container can hold
                        if (a as u128) * s as u128 > isize::MAX as u128 {
                            op!("with_capacity", a, |_v| { <$D>::with_capacity::<E>(a); vec![] }, |_t| { Vec::<E>::with_capacity(a); vec![] });
                            op!("with_size", a, |_v| { <$D>::with_size::<E>(a, E::make(7)); vec![] }, |_t| { vec![E::make(7); a]; vec![] });
                        }
                        if a > n && (a as u128) * s as u128 > isize::MAX as u128 {
                            op!("resize", a, |v| { v.resize(a, E::make(7)); vec![] }, |t| { t.resize(a, E::make(7)); vec![] });
                        }
                    }
                }
                super::$val::<E>(c, nmax);
            }
        }
    };
}
fn judge(what: &str, got: &Result<Vec<u8>, ()>, want: &Result<Vec<u8>, ()>) {
    match (got, want) {
        (Ok(g), Ok(w)) => ck!(g == w, Content, "argument answered with other elements than the typed operation's", "{}: {:?} instead of {:?}", what, g, w),
        (Err(()), Err(())) => {
            let m = panic_msg();
            ck!(!m.contains("unsafe precondition"), Panic, "out-of-range argument reached undefined behaviour", "{}: {}", what, m);
        }
        (Ok(g), Err(())) => ck!(false, Content, "out-of-range argument accepted", "{} answered {:?}", what, g),
        (Err(()), Ok(w)) => ck!(false, Panic, "argument in range refused", "{}: {} (typed: {:?})", what, panic_msg(), w),
    }
}

family!(dynv, TElem, VD, Slice, SliceMut, ValueRef, ValueMut, get, dyn_rest, mc::vd::observe::<E>);
family!(copyv, CElem, VC, SliceCopy, SliceCopyMut, CopyValueRef, CopyValueMut, get_ref, copy_rest, mc::vc::observe::<E, VA>);

fn dyn_rest<E: TElem>(c: &mut Cases, nmax: usize) {
    for n in 0..=nmax {
        for m in 0..=nmax + 2 {
            for (lo, hi) in [(0, n), (n / 2, n), (0, n / 2)] {
                c.run(format_args!("{} n={} SliceMut::clone_from_slice {:?}", E::NAME, n, (lo, hi, m)), || {
                    let mut t: Vec<E> = (0..n as u8).map(E::make).collect();
                    let mut d = VD::from_vec((0..n as u8).map(E::make).collect::<Vec<_>>());
                    let src: Vec<E> = (0..m as u8).map(|i| E::make(100 + i)).collect();
                    let want = guarded(|| t[lo..hi].clone_from_slice(&src));
                    let got = guarded(|| d.as_mut_slice().subslice_mut(lo..hi).clone_from_slice(&src).is_some());
                    judge("clone_from_slice", &got.map(|b| vec![b as u8]), &want.map(|_| vec![1]));
                    let la: Vec<u8> = t.iter().map(|e| e.label()).collect();
                    mc::vd::observe::<E>(&mut d, &la);
                    true
                });
            }
        }
    }
}
struct Hint<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
fn copy_rest<E: CElem>(c: &mut Cases, nmax: usize) {
    let s = size_of::<E>();
    for n in 0..=nmax {
        let mk = |n: usize, f: u8| (0..n as u8).map(|i| E::make((f + i) % 16)).collect::<Vec<E>>();
        for m in 0..=nmax + 2 {
            for (lo, hi) in [(0, n), (n / 2, n), (0, n / 2)] {
                c.run(format_args!("{} n={} SliceCopyMut::copy_from_slice {:?}", E::NAME, n, (lo, hi, m)), || {
                    let (mut t, src) = (mk(n, 0), mk(m, 7));
                    let mut d = VC::from_vec(mk(n, 0));
                    let want = guarded(|| t[lo..hi].copy_from_slice(&src));
                    let got = guarded(|| d.as_mut_slice().subslice_mut(lo..hi).copy_from_slice(&src).is_some());
                    judge("copy_from_slice", &got.map(|b| vec![b as u8]), &want.map(|_| vec![1]));
                    let la: Vec<u8> = t.iter().map(|e| e.label()).collect();
                    mc::vc::observe::<E, VA>(&mut d, &la);
                    true
                });
            }
            // a size hint is only a hint
            for h in [(0, None), (m, Some(m)), (m + 3, None), (0, Some(0)), (m.saturating_sub(1), Some(m.saturating_sub(1))), (1, Some(usize::MAX))] {
                c.run(format_args!("{} n={} extend by {} hint {:?}", E::NAME, n, m, h), || {
                    let src = VC::from_vec(mk(m, 7));
                    let mut d = VC::from_vec(mk(n, 0));
                    let mut la: Vec<u8> = (0..n as u8).collect();
                    d.extend(Hint(src.iter(), h));
                    la.extend((0..m as u8).map(|i| (7 + i) % 16));
                    mc::vc::observe::<E, VA>(&mut d, &la);
                    if m > 0 {
                        let mut e: VC = Hint(src.iter(), h).collect();
                        mc::vc::observe::<E, VA>(&mut e, &la[n..]);
                    }
                    true
                });
            }
        }
        for spare in [0, 2] {
            for a in args(n, s) {
                if (a as u128 + n as u128) * s as u128 <= isize::MAX as u128 {
                    continue;
                }
                c.run(format_args!("{} n={} spare={} reserve {}", E::NAME, n, spare, a), || {
                    let mut v = Vec::with_capacity(n + spare);
                    v.extend(mk(n, 0));
                    let mut d = VC::from_vec(v);
                    let got = guarded(|| {
                        d.reserve(a);
                        vec![]
                    });
                    judge("reserve", &got, &Err(()));
                    let la: Vec<u8> = (0..n as u8).collect();
                    ck!(d.capacity() < 64, Cap, "impossible capacity claimed", "{}", d.capacity());
                    mc::vc::observe::<E, VA>(&mut d, &la);
                    true
                });
            }
        }
        for a in args(n, s) {
            c.run(format_args!("{} n={} VecCopy::get_as {}", E::NAME, n, a), || {
                let d = VC::from_vec(mk(n, 0));
                let got = guarded(|| d.get_as::<E>(a).map_or(vec![254], |e| vec![e.label()]));
                let want = if a < n { Ok(vec![a as u8]) } else { Err(()) };
                judge("VecCopy::get_as", &got, &want);
                true
            });
        }
    }
}

/// The public helper that scales ranges: the scaled range selects the bytes of the selected elements.
fn scaling(c: &mut Cases) {
    for scale in [1usize, 2, 3, 8, 24] {
        for n in 0..4usize {
            let bytes: Vec<u8> = (0..n * scale).map(|b| (b / scale) as u8).collect();
            let elems: Vec<u8> = (0..n as u8).collect();
            macro_rules! r {
                ($r:expr) => {{
                    let r = $r;
                    c.run(format_args!("scale {} n={} {:?}", scale, n, r), || {
                        let want = guarded(|| elems[r.clone()].to_vec());
                        let got = guarded(|| bytes[r.clone().scale_range(scale)].chunks(scale).map(|b| { ck!(b.len() == scale && b.iter().all(|x| *x == b[0]), Content, "range scaled to part of an element", ""); b[0] }).collect::<Vec<u8>>());
                        judge("scale_range", &got, &want);
                        true
                    })
                }};
            }
            r!(..);
            for a in args(n, scale) {
                r!(a..);
                r!(..a);
                r!(..=a);
                for b in args(n, scale) {
                    r!(a..b);
                    r!(a..=b);
                }
            }
        }
    }
}

fn main() {
    let a = mc::args();
    if a.list {
        for j in "scaling K8x8 K1x1 K3x1 K16x16 K24x8 BoxK C8x8 C1x1 C3x1 C16x16 C24x8 C2x2 C12x4".split(' ') {
            println!("{}", j);
        }
        return;
    }
    let n = if a.thorough { 4 } else { 3 };
    let mut cs = Cases::new(a.only.clone());
    let c = &mut cs;
    match a.job.as_str() {
        "scaling" => scaling(c),
        "K8x8" => dynv::run::<K8x8>(c, n),
        "K1x1" => dynv::run::<K1x1>(c, n),
        "K3x1" => dynv::run::<K3x1>(c, n),
        "K16x16" => dynv::run::<K16x16>(c, n),
        "K24x8" => dynv::run::<K24x8>(c, n),
        "BoxK" => dynv::run::<BoxK>(c, n),
        "C8x8" => copyv::run::<C8x8>(c, n),
        "C1x1" => copyv::run::<C1x1>(c, n),
        "C3x1" => copyv::run::<C3x1>(c, n),
        "C16x16" => copyv::run::<C16x16>(c, n),
        "C24x8" => copyv::run::<C24x8>(c, n),
        "C2x2" => copyv::run::<C2x2>(c, n),
        "C12x4" => copyv::run::<C12x4>(c, n),
        j => panic!("no job {}", j),
    }
    cs.res.states = cs.res.execs;
    cs.res.transitions = cs.res.execs;
    cs.res.print();
}
