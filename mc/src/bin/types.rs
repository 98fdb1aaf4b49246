//! Every typed entry point with every ordered pair of (stored, supplied) types (C05).
use dync::*;
use mc::elems::*;
use mc::rep::{guarded, Cases};
use mc::vd::{VA, VD};
use mc::{ck, vio};
use std::any::TypeId;
use std::mem::{align_of, size_of};

type BV = BoxValue<VA>;
type SV = SmallValue<VA>;
type VC = VecCopy<VA>;

fn labels(n: usize) -> Vec<u8> {
    (0..n).map(|i| i as u8).collect()
}
fn mk<A: TElem>(n: usize) -> VD {
    let mut v = Vec::with_capacity(n + 1);
    v.extend(labels(n).into_iter().map(A::make));
    VD::from_vec(v)
}
fn vals<B: TElem>(n: usize) -> Vec<B> {
    (0..n).map(|i| B::make(5 + i as u8)).collect()
}
fn judge<A: 'static, B: 'static>(ok: bool, what: &str) {
    if TypeId::of::<A>() == TypeId::of::<B>() {
        ck!(ok, Content, "right-type operation refused", "{}", what);
    } else {
        ck!(!ok, Type, "wrong-type operation accepted", "{}", what);
    }
}
/// The supplied operand after a refused or accepted operation.
fn intact<B: TElem>(v: &[B], want: &[u8], what: &str) {
    ck!(v.len() == want.len() && v.iter().zip(want).all(|(a, b)| a.label() == *b), Type, "refused operation changed its operand", "{}", what);
}

fn pair<A: TElem, B: TElem>(c: &mut Cases) {
    let same = TypeId::of::<A>() == TypeId::of::<B>();
    for n in 0..=3usize {
        let l0 = labels(n);
        // $e: accepted?   $after: contents if accepted
        macro_rules! op {
            ($name:expr, |$d:ident| $e:expr, $after:expr) => {
                c.run(format_args!("{} asked as {} n={} {}", A::NAME, B::NAME, n, $name), || {
                    let mut d = mk::<A>(n);
                    let ok = {
                        let $d = &mut d;
                        $e
                    };
                    judge::<A, B>(ok, $name);
                    let after: Vec<u8> = if same { $after } else { l0.clone() };
                    mc::vd::observe::<A>(&mut d, &after);
                    true
                })
            };
        }
        let keep = || l0.clone();
        op!("VecDyn::check_ref", |d| d.check_ref::<B>().is_some(), keep());
        op!("VecDyn::check_mut", |d| d.check_mut::<B>().is_some(), keep());
        op!("VecDyn::as_slice_as", |d| d.as_slice_as::<B>().is_some(), keep());
        op!("VecDyn::as_mut_slice_as", |d| d.as_mut_slice_as::<B>().is_some(), keep());
        op!("VecDyn::iter_as", |d| d.iter_as::<B>().is_some(), keep());
        op!("VecDyn::iter_mut_as", |d| d.iter_mut_as::<B>().is_some(), keep());
        op!("VecDyn::clone_into_vec", |d| d.clone_into_vec::<B>().is_some(), keep());
        op!("VecDyn::append_cloned_to_vec", |d| {
            let mut v = vals::<B>(1);
            let r = d.append_cloned_to_vec(&mut v).is_some();
            if same { intact(&v[..1], &[5], "append_cloned_to_vec") } else { intact(&v, &[5], "append_cloned_to_vec") }
            r
        }, keep());
        op!("VecDyn::push_as", |d| d.push_as(B::make(9)).is_some(), [keep(), vec![9]].concat());
        op!("VecDyn::push", |d| d.push(BV::new(B::make(9))).is_some(), [keep(), vec![9]].concat());
        op!("VecDyn::push_cloned", |d| {
            let b = B::make(9);
            let r = d.push_cloned(ValueRef::new(&b)).is_some();
            intact(&[b], &[9], "push_cloned");
            r
        }, [keep(), vec![9]].concat());
        op!("VecDyn::push_cloned of a container element", |d| {
            let mut e = mk::<B>(2);
            let r = d.push_cloned(e.get(1)).is_some();
            mc::vd::observe::<B>(&mut e, &[0, 1]);
            r
        }, [keep(), vec![1]].concat());
        for k in [0usize, 2] {
            op!(if k == 0 { "VecDyn::append of empty" } else { "VecDyn::append" }, |d| {
                let mut e = mk::<B>(k);
                let r = d.append(&mut e).is_some();
                if same {
                    mc::vd::observe::<B>(&mut e, &[]);
                } else {
                    mc::vd::observe::<B>(&mut e, &labels(k));
                }
                r
            }, [keep(), labels(k)].concat());
        }
        for k in 0..=n + 1 {
            op!(["VecDyn::resize(0)", "VecDyn::resize(1)", "VecDyn::resize(2)", "VecDyn::resize(3)", "VecDyn::resize(4)"][k],
                |d| d.resize(k, B::make(9)).is_some(), (0..k).map(|i| if i < n { i as u8 } else { 9 }).collect());
        }
        op!("VecDyn::fill", |d| d.fill(B::make(9)).is_some(), vec![9; n]);
        op!("Slice::check", |d| d.as_slice().check::<B>().is_some(), keep());
        op!("Slice::iter_as", |d| d.as_slice().iter_as::<B>().is_some(), keep());
        op!("Slice::as_slice", |d| d.as_slice().as_slice::<B>().is_some(), keep());
        op!("Slice::clone_into_vec", |d| d.as_slice().clone_into_vec::<B>().is_some(), keep());
        op!("Slice::append_clone_to_vec", |d| {
            let mut v = vals::<B>(2);
            let r = d.as_slice().append_clone_to_vec(&mut v).is_some();
            intact(&v[..2], &[5, 6], "append_clone_to_vec");
            ck!(v.len() == if same { n + 2 } else { 2 }, Type, "refused operation changed its operand", "append_clone_to_vec");
            r
        }, keep());
        op!("SliceMut::check", |d| d.as_mut_slice().check::<B>().is_some(), keep());
        op!("SliceMut::iter_as", |d| d.as_mut_slice().iter_as::<B>().is_some(), keep());
        op!("SliceMut::as_slice", |d| d.as_mut_slice().as_slice::<B>().is_some(), keep());
        op!("SliceMut::clone_into_vec", |d| d.as_mut_slice().clone_into_vec::<B>().is_some(), keep());
        op!("SliceMut::append_clone_to_vec", |d| {
            let mut v = vals::<B>(2);
            let r = d.as_mut_slice().append_clone_to_vec(&mut v).is_some();
            intact(&v[..2], &[5, 6], "append_clone_to_vec");
            ck!(v.len() == if same { n + 2 } else { 2 }, Type, "refused operation changed its operand", "append_clone_to_vec");
            r
        }, keep());
        op!("SliceMut::clone_from_slice", |d| {
            let v = vals::<B>(n);
            let r = d.as_mut_slice().clone_from_slice(&v).is_some();
            intact(&v, &(0..n).map(|i| 5 + i as u8).collect::<Vec<_>>(), "clone_from_slice");
            r
        }, (0..n).map(|i| 5 + i as u8).collect());
        if !same {
            for k in 0..n + 2 {
                // a wrong type is refused whatever the length
                op!(["clone_from_slice of 0", "clone_from_slice of 1", "clone_from_slice of 2", "clone_from_slice of 3", "clone_from_slice of 4"][k],
                    |d| d.as_mut_slice().clone_from_slice(&vals::<B>(k)).is_some(), keep());
            }
            op!("VecDyn ==", |d| {
                let e = mk::<B>(n);
                *d == e || e == *d || d.as_slice() == e.as_slice() || e.as_slice() == d.as_slice()
            }, keep());
            op!("SliceMut ==", |d| d.as_mut_slice() == mk::<B>(n).as_mut_slice(), keep());
        }
        for i in 0..n {
            let set = |x: u8| { let mut v = labels(n); v[i] = x; v };
            op!("VecDyn::get_ref_as", |d| d.get_ref_as::<B>(i).is_some(), keep());
            op!("VecDyn::get_mut_as", |d| d.get_mut_as::<B>(i).is_some(), keep());
            op!("Slice::get_as", |d| d.as_slice().get_as::<B>(i).is_some(), keep());
            op!("SliceMut::get_as", |d| d.as_mut_slice().get_as::<B>(i).is_some(), keep());
            op!("ValueRef::downcast", |d| d.get(i).downcast::<B>().is_some(), keep());
            op!("ValueRef::is", |d| d.get(i).is::<B>(), keep());
            op!("ValueRef::value_type_id", |d| d.get(i).value_type_id() == TypeId::of::<B>(), keep());
            op!("ValueMut::downcast", |d| d.get_mut(i).downcast::<B>().is_some(), keep());
            op!("ValueMut::is", |d| d.get_mut(i).is::<B>(), keep());
            op!("slice iter downcast", |d| d.as_mut_slice().iter().nth(i).unwrap().downcast::<B>().is_some(), keep());
            op!("ValueMut::assign", |d| { d.get_mut(i).assign(BV::new(B::make(9))); same }, set(9));
            op!("ValueMut::assign small", |d| {
                if let Some(s) = SV::try_new(B::make(9)) {
                    d.get_mut(i).assign(s);
                    same
                } else {
                    ck!(size_of::<B>() != size_of::<usize>(), Content, "value of pointer size refused", "try_new");
                    if same { d.get_mut(i).assign(BV::new(B::make(9))); }
                    same
                }
            }, set(9));
            op!("ValueMut::swap", |d| {
                let mut b = B::make(9);
                d.get_mut(i).swap(&mut ValueMut::new(&mut b));
                ck!(b.label() == if same { i as u8 } else { 9 }, Type, "refused operation changed its operand", "swap");
                same
            }, set(9));
            op!("ValueMut::swap the other way", |d| {
                let mut b = mk::<B>(2);
                b.get_mut(1).swap(&mut d.as_mut_slice().get_mut(i));
                mc::vd::observe::<B>(&mut b, &[0, if same { i as u8 } else { 1 }]);
                same
            }, set(1));
            op!("ValueMut::clone_from_other", |d| {
                let b = B::make(9);
                let r = d.get_mut(i).clone_from_other(ValueRef::new(&b));
                match &r {
                    Err(Error::MismatchedTypes { expected, actual }) => ck!(*expected == TypeId::of::<A>() && *actual == TypeId::of::<B>(), Content, "error names wrong types", ""),
                    Err(_) => vio!(Content, "wrong kind of error", "clone_from_other"),
                    Ok(()) => {}
                }
                intact(&[b], &[9], "clone_from_other");
                r.is_ok()
            }, set(9));
            op!("ValueMut::clone_from_other owned", |d| {
                let b = BV::new(B::make(9));
                d.get_mut(i).clone_from_other(&b).is_ok()
            }, set(9));
            op!("ValueRef ==", |d| {
                let b = B::make(i as u8);
                d.get(i) == ValueRef::new(&b)
            }, keep());
            op!("ValueMut ==", |d| {
                let mut b = B::make(i as u8);
                d.get_mut(i) == ValueMut::new(&mut b)
            }, keep());
            op!("clone_value downcast", |d| match d.get(i).clone_value().downcast::<B>() {
                Some(b) => { ck!(b.label() == i as u8, Content, "wrong element contents", "clone_value"); true }
                None => false,
            }, keep());
            op!("SmallValue downcast", |d| {
                if size_of::<A>() == size_of::<usize>() {
                    d.get(i).clone_small_value().downcast::<B>().is_some()
                } else {
                    ck!(guarded(|| d.get(i).clone_small_value()).is_err(), Content, "value of other than pointer size accepted", "clone_small_value");
                    same
                }
            }, keep());
            op!("BoxValue ==", |d| BV::new(B::make(i as u8)) == d.get(i).clone_value(), keep());
            if size_of::<A>() == size_of::<usize>() && size_of::<B>() == size_of::<usize>() {
                op!("SmallValue ==", |d| SV::new(B::make(i as u8)) == d.get(i).clone_small_value(), keep());
            }
        }
        for how in 0..3 {
            c.run(format_args!("{} asked as {} n={} consuming {}", A::NAME, B::NAME, n, how), || {
                let d = mk::<A>(n);
                match how {
                    0 => {
                        let r = d.check::<B>();
                        judge::<A, B>(r.is_some(), "VecDyn::check");
                        if let (true, Some(mut r)) = (same, r) { mc::vd::observe::<A>(&mut r, &l0); }
                    }
                    1 => {
                        let r = d.into_vec::<B>();
                        judge::<A, B>(r.is_some(), "VecDyn::into_vec");
                        if let (true, Some(r)) = (same, r) { intact(&r, &l0, "into_vec"); }
                    }
                    _ => {
                        let r: Option<Vec<B>> = d.into();
                        judge::<A, B>(r.is_some(), "Option<Vec> from VecDyn");
                    }
                }
                true
            });
        }
    }
}

fn mkc<A: CElem>(n: usize) -> VC {
    VC::from_vec(labels(n).into_iter().map(A::make).collect())
}
fn cvals<B: CElem>(n: usize) -> Vec<B> {
    (0..n).map(|i| B::make(5 + i as u8)).collect()
}
fn cpair<A: CElem, B: CElem>(c: &mut Cases) {
    let same = TypeId::of::<A>() == TypeId::of::<B>();
    let same_size = size_of::<A>() == size_of::<B>() && align_of::<A>() == align_of::<B>();
    for n in 0..=3usize {
        let l0 = labels(n);
        macro_rules! op {
            ($name:expr, |$d:ident| $e:expr, $after:expr) => {
                c.run(format_args!("{} asked as {} n={} {}", A::NAME, B::NAME, n, $name), || {
                    let mut d = mkc::<A>(n);
                    let ok = {
                        let $d = &mut d;
                        $e
                    };
                    judge::<A, B>(ok, $name);
                    let after: Vec<u8> = if same { $after } else { l0.clone() };
                    mc::vc::observe::<A, VA>(&mut d, &after);
                    true
                })
            };
        }
        let keep = || l0.clone();
        op!("VecCopy::check_ref", |d| d.check_ref::<B>().is_some(), keep());
        op!("VecCopy::check_mut", |d| d.check_mut::<B>().is_some(), keep());
        op!("VecCopy::as_slice_as", |d| d.as_slice_as::<B>().is_some(), keep());
        op!("VecCopy::as_mut_slice_as", |d| d.as_mut_slice_as::<B>().is_some(), keep());
        op!("VecCopy::iter_as", |d| d.iter_as::<B>().is_some(), keep());
        op!("VecCopy::iter_mut_as", |d| d.iter_mut_as::<B>().is_some(), keep());
        op!("VecCopy::copy_into_vec", |d| d.copy_into_vec::<B>().is_some(), keep());
        op!("VecCopy::append_copy_to_vec", |d| {
            let mut v = cvals::<B>(1);
            let r = d.append_copy_to_vec(&mut v).is_some();
            ck!(v.len() == if same { 1 + n } else { 1 } && v[0].label() == 5, Type, "refused operation changed its operand", "append_copy_to_vec");
            r
        }, keep());
        op!("VecCopy::push_as", |d| d.push_as(B::make(9)).is_some(), [keep(), vec![9]].concat());
        op!("VecCopy::push", |d| {
            // A value of another size may be refused by a panic.
            let b = B::make(9);
            match guarded(|| d.push(CopyValueRef::<VA>::new(&b)).is_some()) {
                Ok(r) => r,
                Err(()) => {
                    ck!(!same_size, Panic, "push panicked on a value of the container's own size", "");
                    false
                }
            }
        }, [keep(), vec![9]].concat());
        for k in [0usize, 2] {
            op!(if k == 0 { "VecCopy::append of empty" } else { "VecCopy::append" }, |d| {
                let mut e = mkc::<B>(k);
                let r = d.append(&mut e).is_some();
                if same {
                    mc::vc::observe::<B, VA>(&mut e, &[]);
                } else {
                    mc::vc::observe::<B, VA>(&mut e, &labels(k));
                }
                r
            }, [keep(), labels(k)].concat());
        }
        for k in 0..=n + 1 {
            op!(["VecCopy::resize(0)", "VecCopy::resize(1)", "VecCopy::resize(2)", "VecCopy::resize(3)", "VecCopy::resize(4)"][k],
                |d| d.resize(k, B::make(9)).is_some(), (0..k).map(|i| if i < n { i as u8 } else { 9 }).collect());
        }
        op!("VecCopy::fill", |d| d.fill(B::make(9)).is_some(), vec![9; n]);
        op!("VecCopy::copy_from_slice", |d| d.copy_from_slice(&cvals::<B>(n)).is_some(), (0..n).map(|i| 5 + i as u8).collect());
        op!("SliceCopy::check", |d| d.as_slice().check::<B>().is_some(), keep());
        op!("SliceCopy::iter_as", |d| d.as_slice().iter_as::<B>().is_some(), keep());
        op!("SliceCopy::as_slice", |d| d.as_slice().as_slice::<B>().is_some(), keep());
        op!("SliceCopy::copy_into_vec", |d| d.as_slice().copy_into_vec::<B>().is_some(), keep());
        op!("SliceCopy::append_copy_to_vec", |d| {
            let mut v = cvals::<B>(1);
            let r = d.as_slice().append_copy_to_vec(&mut v).is_some();
            ck!(v.len() == if same { 1 + n } else { 1 } && v[0].label() == 5, Type, "refused operation changed its operand", "append_copy_to_vec");
            r
        }, keep());
        op!("SliceCopyMut::check", |d| d.as_mut_slice().check::<B>().is_some(), keep());
        op!("SliceCopyMut::iter_as", |d| d.as_mut_slice().iter_as::<B>().is_some(), keep());
        op!("SliceCopyMut::as_slice", |d| d.as_mut_slice().as_slice::<B>().is_some(), keep());
        op!("SliceCopyMut::copy_into_vec", |d| d.as_mut_slice().copy_into_vec::<B>().is_some(), keep());
        op!("SliceCopyMut::append_copy_to_vec", |d| {
            let mut v = cvals::<B>(1);
            let r = d.as_mut_slice().append_copy_to_vec(&mut v).is_some();
            ck!(v.len() == if same { 1 + n } else { 1 } && v[0].label() == 5, Type, "refused operation changed its operand", "append_copy_to_vec");
            r
        }, keep());
        op!("SliceCopyMut::copy_from_slice", |d| d.as_mut_slice().copy_from_slice(&cvals::<B>(n)).is_some(), (0..n).map(|i| 5 + i as u8).collect());
        if !same {
            for k in 0..n + 2 {
                op!(["copy_from_slice of 0", "copy_from_slice of 1", "copy_from_slice of 2", "copy_from_slice of 3", "copy_from_slice of 4"][k],
                    |d| d.copy_from_slice(&cvals::<B>(k)).is_some() || d.as_mut_slice().copy_from_slice(&cvals::<B>(k)).is_some(), keep());
            }
            if n > 0 {
                // Collections of another type must not get in: a panic or nothing.
                op!("VecCopy::extend", |d| {
                    let e = mkc::<B>(2);
                    let _ = guarded(|| d.extend(e.iter()));
                    false
                }, keep());
                op!("VecCopy from mixed values", |d| {
                    let e = mkc::<B>(1);
                    match guarded(|| d.iter().chain(e.iter()).collect::<VC>()) {
                        Ok(r) => {
                            ck!(r.as_slice_as::<A>().map(|s| s.iter().map(|x| x.label()).collect::<Vec<_>>()) == Some(labels(n)), Type, "wrong-type operation accepted", "collect");
                        }
                        Err(()) => {}
                    }
                    false
                }, keep());
            }
        }
        for i in 0..n {
            let set = |x: u8| { let mut v = labels(n); v[i] = x; v };
            op!("VecCopy::get_as", |d| d.get_as::<B>(i).is_some(), keep());
            op!("VecCopy::get_ref_as", |d| d.get_ref_as::<B>(i).is_some(), keep());
            op!("VecCopy::get_mut_as", |d| d.get_mut_as::<B>(i).is_some(), keep());
            op!("SliceCopy::get_as", |d| d.as_slice().get_as::<B>(i).is_some(), keep());
            op!("SliceCopyMut::get_as", |d| d.as_mut_slice().get_as::<B>(i).is_some(), keep());
            op!("CopyValueRef::downcast", |d| d.get_ref(i).downcast::<B>().is_some(), keep());
            op!("CopyValueRef::is", |d| d.get_ref(i).is::<B>(), keep());
            op!("CopyValueMut::downcast", |d| d.get_mut(i).downcast::<B>().is_some(), keep());
            op!("CopyValueMut::copy", |d| {
                let b = B::make(9);
                d.get_mut(i).copy(CopyValueRef::new(&b)).is_some()
            }, set(9));
            op!("CopyValueMut::copy from an element", |d| {
                let mut b = mkc::<B>(2);
                let r = d.as_mut_slice().get_mut(i).copy(b.get_ref(1)).is_some();
                mc::vc::observe::<B, VA>(&mut b, &[0, 1]);
                r
            }, set(1));
            op!("CopyValueMut::swap", |d| {
                let mut b = mkc::<B>(2);
                d.get_mut(i).swap(&mut b.get_mut(1));
                mc::vc::observe::<B, VA>(&mut b, &[0, if same { i as u8 } else { 1 }]);
                same
            }, set(1));
            op!("CopyValueRef ==", |d| {
                let b = B::make(i as u8);
                d.get_ref(i) == CopyValueRef::new(&b)
            }, keep());
            op!("CopyValueMut ==", |d| {
                let mut b = B::make(i as u8);
                d.get_mut(i) == CopyValueMut::new(&mut b)
            }, keep());
        }
        c.run(format_args!("{} asked as {} n={} consuming", A::NAME, B::NAME, n), || {
            let r = mkc::<A>(n).check::<B>();
            judge::<A, B>(r.is_some(), "VecCopy::check");
            if let (true, Some(mut r)) = (same, r) { mc::vc::observe::<A, VA>(&mut r, &l0); }
            let r = mkc::<A>(n).into_vec::<B>();
            judge::<A, B>(r.is_some(), "VecCopy::into_vec");
            true
        });
    }
}

fn row<A: TElem>(c: &mut Cases) {
    pair::<A, K1x1>(c); pair::<A, K1x1b>(c); pair::<A, K2x1>(c); pair::<A, K2x2>(c); pair::<A, K3x1>(c); pair::<A, K4x4>(c);
    pair::<A, K8x8>(c); pair::<A, K8x8b>(c); pair::<A, K16x8>(c); pair::<A, K16x16>(c); pair::<A, K24x8>(c); pair::<A, String>(c); pair::<A, BoxK>(c);
}
fn crow<A: CElem>(c: &mut Cases) {
    cpair::<A, C1x1>(c); cpair::<A, C1x1b>(c); cpair::<A, C2x1>(c); cpair::<A, C2x2>(c); cpair::<A, C3x1>(c); cpair::<A, C4x4>(c);
    cpair::<A, C8x8>(c); cpair::<A, C8x8b>(c); cpair::<A, C16x8>(c); cpair::<A, C16x16>(c); cpair::<A, C24x8>(c);
}
macro_rules! rows {
    ($job:expr, $c:expr; $($t:ident)*; $($u:ident)*) => {
        $(if $job == stringify!($t) { row::<$t>($c) })*
        $(if $job == stringify!($u) { crow::<$u>($c) })*
    };
}
fn main() {
    let a = mc::args();
    if a.list {
        for n in "K1x1 K1x1b K2x1 K2x2 K3x1 K4x4 K8x8 K8x8b K16x8 K16x16 K24x8 String BoxK C1x1 C1x1b C2x1 C2x2 C3x1 C4x4 C8x8 C8x8b C16x8 C16x16 C24x8".split(' ') {
            println!("{}", n);
        }
        return;
    }
    let mut c = Cases::new(a.only.clone());
    rows!(a.job, &mut c; K1x1 K1x1b K2x1 K2x2 K3x1 K4x4 K8x8 K8x8b K16x8 K16x16 K24x8 String BoxK; C1x1 C1x1b C2x1 C2x2 C3x1 C4x4 C8x8 C8x8b C16x8 C16x16 C24x8);
    c.res.states = c.res.execs;
    c.res.transitions = c.res.execs;
    c.res.print();
}
