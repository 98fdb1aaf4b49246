"""C11: tables for enumerated trait declarations, and programs that exercise them."""
import itertools

TRAITS = ["Clone", "PartialEq", "Eq", "Hash", "Debug", "Send", "Sync"]
PATH = {"Hash": "std::hash::Hash", "Debug": "std::fmt::Debug"}
CHECKS = {"Clone": "clone", "PartialEq": "eq", "Eq": "eqm", "Hash": "hash", "Debug": "debug", "Send": "send", "Sync": "sync"}

HEAD = r'''#![allow(unused, dead_code, unused_mut)]
use dync::*;
use dync::traits::*;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::hash::{Hash, Hasher};
thread_local! { static LIVE: Cell<i64> = Cell::new(0); static CL: Cell<u64> = Cell::new(0); static WHERE: RefCell<String> = RefCell::new(String::new()); }
fn live() -> i64 { LIVE.with(|l| l.get()) }
fn clones() -> u64 { CL.with(|l| l.get()) }
fn at(s: &str) { WHERE.with(|w| *w.borrow_mut() = s.to_string()); }
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { panic!("{}", format!($($a)*)); } } }
// Owned elements: equality, hash and debug output differ from those of the parts.
// As large as a pointer, and less aligned.
pub struct E(u32, u32);
impl E { fn new(n: u32) -> E { LIVE.with(|l| l.set(l.get() + 1)); E(n, n ^ 0xabcd) } fn id(&self) -> u32 { ck!(self.1 == self.0 ^ 0xabcd, "half an element"); self.0 } fn set(&mut self, n: u32) { *self = E::new(n); } }
impl Drop for E { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); ck!(self.id() < 1000, "dropped twice"); self.0 = 5000; self.1 = 5000 ^ 0xabcd; } }
impl Clone for E { fn clone(&self) -> E { CL.with(|l| l.set(l.get() + 1)); E::new(self.id()) } }
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.id() % 8 == o.id() % 8 } }
impl Eq for E {}
impl Hash for E { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u32(self.id() % 8 ^ 0x55); h.write_u8(3); } }
macro_rules! geom { ($v:expr, $t:ty) => { ck!($v.size() == std::mem::size_of::<$t>() && $v.value_alignment() == std::mem::align_of::<$t>() && $v.value_type_id() == std::any::TypeId::of::<$t>(), "a value of size {} alignment {}", $v.size(), $v.value_alignment()); } }
macro_rules! geoms { ($v:expr, $t:ty) => { ck!($v.element_size() == std::mem::size_of::<$t>() && $v.element_type_id() == std::any::TypeId::of::<$t>(), "elements of size {}", $v.element_size()); } }
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "shown") } }
impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "E<{}>", self.0) } }
#[derive(Copy, Clone)]
pub struct C(u16, u8);
impl C { fn new(n: u32) -> C { C(n as u16, 7) } fn id(&self) -> u32 { self.0 as u32 } }
impl PartialEq for C { fn eq(&self, o: &C) -> bool { self.0 % 8 == o.0 % 8 } }
impl Eq for C {}
impl Hash for C { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u16(self.0 % 8 ^ 0x33); } }
impl fmt::Display for C { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "shown") } }
impl fmt::Debug for C { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "C<{}>", self.0) } }
fn es(ids: &[u32]) -> Vec<E> { ids.iter().map(|&i| E::new(i)).collect() }
fn cs(ids: &[u32]) -> Vec<C> { ids.iter().map(|&i| C::new(i)).collect() }
#[derive(Default)]
struct Log(Vec<u8>);
impl Hasher for Log {
    fn finish(&self) -> u64 { self.0.iter().fold(7, |a, &b| a * 31 + b as u64) }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); self.0.push(0xEE); self.0.push(b.len() as u8); }
}
fn log<T: Hash + ?Sized>(t: &T) -> Vec<u8> { let mut l = Log::default(); t.hash(&mut l); l.0 }
fn eqq<X: PartialEq + ?Sized>(a: &X, b: &X) -> bool { let r = a == b; ck!(r == (b == a) && r != (a != b), "inconsistent comparison"); r }
fn is_send<X: Send + ?Sized>(_: &X) {}
fn is_sync<X: Sync + ?Sized>(_: &X) {}
fn is_eq<X: Eq + ?Sized>(_: &X) {}
const IDS: &[u32] = &[4, 1, 2];
const SAME: &[u32] = &[12, 9, 18];
const OTHER: &[u32] = &[4, 1, 3];

// ---- VecDyn
type MkVD<T> = fn(&[u32]) -> VecDyn<T>;
fn vd_ids<T: ?Sized + HasDrop>(v: &VecDyn<T>) -> Vec<u32> { let a: Vec<u32> = v.as_slice_as::<E>().expect("type lost").iter().map(E::id).collect();
    let b: Vec<u32> = v.iter().map(|x| x.downcast::<E>().expect("type lost").id()).collect(); ck!(a == b, "two readings differ: {:?} {:?}", a, b); a }
fn vd_base<T: ?Sized + HasDrop>(mk: MkVD<T>) {
    let l = live();
    let c = clones();
    for ids in [&IDS[..], &[], &[5]] {
        let mut v = mk(ids);
        geoms!(v, E);
        for x in v.iter() { geom!(x, E); }
        ck!(live() == l + ids.len() as i64, "{} values live", live() - l);
        ck!(vd_ids(&v) == ids, "holds {:?}", vd_ids(&v));
        ck!(v.as_slice_as::<C>().is_none() && v.check_ref::<C>().is_none(), "taken for another type");
        v.push_as(E::new(6)).expect("cannot push");
        v.rotate_left(1);
        ck!(v.len() == ids.len() + 1 && v.iter_as::<E>().unwrap().any(|e| e.id() == 6), "push lost");
        v.get_mut(0).downcast::<E>().expect("type lost").set(33);
        ck!(vd_ids(&v)[0] == 33, "write lost");
        v.clear();
        ck!(live() == l, "clear left {} values", live() - l);
        v.push_as(E::new(7)).unwrap();
        drop(v);
        ck!(live() == l, "drop left {} values", live() - l);
    }
    let v = mk(IDS).into_vec::<E>().expect("type lost");
    ck!(v.iter().map(E::id).collect::<Vec<_>>() == IDS, "wrong contents");
    drop(v);
    ck!(live() == l && clones() == c, "cloned or leaked");
}
fn vd_clone<T: ?Sized + HasDrop + HasClone>(mk: MkVD<T>) {
    let l = live();
    let (mut v, w) = (mk(IDS), mk(OTHER));
    let c = clones();
    v.push_cloned(w.get(2)).expect("types agree");
    ck!(clones() == c + 1 && vd_ids(&v) == [4, 1, 2, 3] && live() == l + 7, "push_cloned: {:?}", vd_ids(&v));
    let mut t: Vec<E> = Vec::new();
    v.append_cloned_to_vec(&mut t).expect("types agree");
    ck!(clones() == c + 5 && t.iter().map(E::id).eq(vd_ids(&v)), "append_cloned_to_vec");
    drop(w);
    drop(t);
    ck!(live() == l + 4 && vd_ids(&v) == [4, 1, 2, 3], "clones depend on their originals");
    drop(v);
    ck!(live() == l, "{} values left", live() - l);
}
fn vd_clonev<T: HasDrop + HasClone + Clone>(mk: MkVD<T>) {
    let l = live();
    let v = mk(IDS);
    let c = clones();
    let w = v.clone();
    ck!(clones() == c + 3 && vd_ids(&w) == IDS && live() == l + 6, "clone: {:?}", vd_ids(&w));
    drop(v);
    let b = w.get(1).clone_value();
    ck!(b.downcast::<E>().expect("type lost").id() == 1, "clone_value");
    ck!(vd_ids(&w) == IDS, "clone depends on its original");
    drop(w);
    ck!(live() == l, "{} values left", live() - l);
}
fn vd_eq<T: ?Sized + HasDrop + HasPartialEq>(mk: MkVD<T>) {
    let (a, b, c, d) = (mk(IDS), mk(SAME), mk(OTHER), mk(&[4, 1]));
    ck!(a == b && b == a && a != c && c != a && a != d && a.as_slice() == b.as_slice() && a.as_slice() != c.as_slice(), "comparison");
    ck!(a.get(0) == b.get(0) && a.get(0) != b.get(1), "comparison of elements");
}
fn vd_eqm<T: ?Sized + HasDrop + HasEq>(mk: MkVD<T>) { is_eq(&mk(IDS)); is_eq(&mk(IDS).get(0)); }
fn vd_hash<T: ?Sized + HasDrop + HasHash>(mk: MkVD<T>) {
    for ids in [IDS, OTHER] {
        let (v, t) = (mk(ids), es(ids));
        let mut want = Log::default();
        for e in &t { e.hash(&mut want); }
        ck!(log(&v) == want.0, "hash of the container");
        for i in 0..3 { ck!(log(&v.get(i)) == log(&t[i]), "hash of an element"); }
    }
}
fn vd_debug<T: ?Sized + HasDrop + HasDebug>(mk: MkVD<T>) {
    let (v, t) = (mk(IDS), es(IDS));
    ck!(format!("{:?}", v) == format!("{:?}", t) && format!("{:#?}", v) == format!("{:#?}", t) && format!("{:?}", v.get(1)) == "E<1>", "debug: {:?}", v);
}
fn vd_send<T: ?Sized + HasDrop + HasSend>(mk: MkVD<T>) { is_send(&mk(IDS)); is_send(&mk(IDS).get_mut(0)); }
fn vd_sync<T: ?Sized + HasDrop + HasSync>(mk: MkVD<T>) { is_sync(&mk(IDS)); is_send(&mk(IDS).get(0)); }

// ---- Slice
type MkSL<T> = for<'a> fn(&'a [E], &mut dyn FnMut(&Slice<'a, T>));
fn sl_base<T: ?Sized + HasDrop>(mk: MkSL<T>) {
    let t = es(IDS);
    mk(&t, &mut |s| {
        geoms!(s, E);
        geom!(s.get(0), E);
        ck!(s.len() == 3 && s.as_slice::<E>().expect("type lost").as_ptr() == t.as_ptr() && s.iter().map(|v| v.downcast::<E>().expect("type lost").id()).eq(IDS.iter().copied()), "contents");
        ck!(s.as_slice::<C>().is_none() && s.get(1).downcast::<E>().map(E::id) == Some(1) && s.subslice(1..).len() == 2, "views");
    });
}
fn sl_clone<T: ?Sized + HasDrop + HasClone>(mk: MkSL<T>) { let t = es(IDS); let mut u = Vec::new(); let l = live();
    mk(&t, &mut |s| { s.append_clone_to_vec::<E>(&mut u).expect("types agree"); }); ck!(live() == l + 3 && u.iter().map(E::id).eq(IDS.iter().copied()), "clones"); }
fn sl_clonev<T: HasDrop + HasClone + Clone>(mk: MkSL<T>) { let t = es(IDS); let l = live(); mk(&t, &mut |s| { ck!(s.get(2).clone_value().downcast::<E>().expect("type lost").id() == 2, "clone_value"); }); ck!(live() == l, "leak"); }
fn sl_eq<T: ?Sized + HasDrop + HasPartialEq>(mk: MkSL<T>) { let (a, b, c) = (es(IDS), es(SAME), es(OTHER));
    mk(&a, &mut |x| { mk(&b, &mut |y| ck!(x == y && x.get(0) == y.get(0), "comparison")); mk(&c, &mut |y| ck!(x != y && x.get(2) != y.get(2), "comparison")); }); }
fn sl_eqm<T: ?Sized + HasDrop + HasEq>(mk: MkSL<T>) { let a = es(IDS); mk(&a, &mut |x| is_eq(&x.get(0))); }
fn sl_hash<T: ?Sized + HasDrop + HasHash>(mk: MkSL<T>) { let a = es(IDS); mk(&a, &mut |x| for i in 0..3 { ck!(log(&x.get(i)) == log(&a[i]), "hash"); }); }
fn sl_debug<T: ?Sized + HasDrop + HasDebug>(mk: MkSL<T>) { let a = es(IDS); mk(&a, &mut |x| ck!(format!("{:?}", x) == format!("{:?}", a), "debug")); }
fn sl_send<T: ?Sized + HasDrop + HasSend>(mk: MkSL<T>) {}
fn sl_sync<T: ?Sized + HasDrop + HasSync>(mk: MkSL<T>) { let a = es(IDS); mk(&a, &mut |x| { is_send(x); is_sync(x); }); }

// ---- SliceMut
type MkSM<T> = for<'a> fn(&'a mut [E], &mut dyn FnMut(&mut SliceMut<'a, T>));
fn sm_base<T: ?Sized + HasDrop>(mk: MkSM<T>) {
    let mut t = es(IDS);
    let l = live();
    mk(&mut t, &mut |s| {
        geoms!(s, E);
        geom!(s.get_mut(0), E);
        ck!(s.len() == 3 && s.get(1).downcast::<E>().map(E::id) == Some(1) && s.reborrow().get_as::<C>(0).is_none(), "contents");
        s.swap(0, 2);
        s.get_mut(1).downcast::<E>().expect("type lost").set(40);
        s.rotate_left(1);
    });
    ck!(live() == l && t.iter().map(E::id).eq([40, 4, 2]), "writes: {:?}", t);
}
fn sm_clone<T: ?Sized + HasDrop + HasClone>(mk: MkSM<T>) {}
fn sm_clonev<T: HasDrop + HasClone + Clone>(mk: MkSM<T>) { let mut t = es(IDS); let o = es(OTHER); let l = live(); mk(&mut t, &mut |s| { s.clone_from_slice::<E>(&o).expect("types agree"); });
    ck!(live() == l && t.iter().map(E::id).eq(OTHER.iter().copied()), "clones"); }
fn sm_eq<T: ?Sized + HasDrop + HasPartialEq>(mk: MkSM<T>) { let (mut a, mut b, mut c) = (es(IDS), es(SAME), es(OTHER));
    mk(&mut a, &mut |x| { mk(&mut b, &mut |y| ck!(eqq(&*x, &*y), "comparison")); mk(&mut c, &mut |y| ck!(!eqq(&*x, &*y), "comparison")); }); }
fn sm_eqm<T: ?Sized + HasDrop + HasEq>(mk: MkSM<T>) {}
fn sm_hash<T: ?Sized + HasDrop + HasHash>(mk: MkSM<T>) { let mut a = es(IDS); let b = es(IDS); mk(&mut a, &mut |x| for i in 0..3 { ck!(log(&x.get(i)) == log(&b[i]), "hash"); }); }
fn sm_debug<T: ?Sized + HasDrop + HasDebug>(mk: MkSM<T>) { let mut a = es(IDS); let b = es(IDS); mk(&mut a, &mut |x| ck!(format!("{:?}", x) == format!("{:?}", b), "debug")); }
fn sm_send<T: ?Sized + HasDrop + HasSend>(mk: MkSM<T>) { let mut a = es(IDS); mk(&mut a, &mut |x| is_send(x)); }
fn sm_sync<T: ?Sized + HasDrop + HasSync>(mk: MkSM<T>) { let mut a = es(IDS); mk(&mut a, &mut |x| is_sync(x)); }

// ---- ValueRef
type MkVR<T> = fn(&E, &mut dyn FnMut(&ValueRef<T>));
fn vr_base<T: ?Sized + HasDrop>(mk: MkVR<T>) { let e = E::new(4); let l = live();
    mk(&e, &mut |v| { geom!(v, E); ck!(v.is::<E>() && !v.is::<C>() && v.value_type_id() == std::any::TypeId::of::<E>() && v.reborrow().downcast::<E>().map(E::id) == Some(4) && v.reborrow().downcast::<C>().is_none(), "contents"); });
    ck!(live() == l, "dropped"); }
fn vr_clone<T: ?Sized + HasDrop + HasClone>(mk: MkVR<T>) {}
fn vr_clonev<T: HasDrop + HasClone + Clone>(mk: MkVR<T>) { let e = E::new(4); let l = live(); mk(&e, &mut |v| {
    let b = v.clone_value(); ck!(live() == l + 1, "not cloned"); ck!(b.downcast::<E>().expect("type lost").id() == 4, "clone_value");
    ck!(v.clone_small_value().downcast::<E>().expect("type lost").id() == 4, "clone_small_value"); }); ck!(live() == l, "leak"); }
fn vr_eq<T: ?Sized + HasDrop + HasPartialEq>(mk: MkVR<T>) { let (a, b, c) = (E::new(4), E::new(12), E::new(5)); mk(&a, &mut |x| { mk(&b, &mut |y| ck!(x == y && y == x, "comparison")); mk(&c, &mut |y| ck!(x != y, "comparison")); }); }
fn vr_eqm<T: ?Sized + HasDrop + HasEq>(mk: MkVR<T>) { mk(&E::new(1), &mut |x| is_eq(x)); }
fn vr_hash<T: ?Sized + HasDrop + HasHash>(mk: MkVR<T>) { let e = E::new(11); mk(&e, &mut |x| ck!(log(x) == log(&e), "hash")); }
fn vr_debug<T: ?Sized + HasDrop + HasDebug>(mk: MkVR<T>) { let e = E::new(11); mk(&e, &mut |x| ck!(format!("{:?}", x) == "E<11>", "debug")); }
fn vr_send<T: ?Sized + HasDrop + HasSend>(mk: MkVR<T>) {}
fn vr_sync<T: ?Sized + HasDrop + HasSync>(mk: MkVR<T>) { mk(&E::new(1), &mut |x| { is_send(x); is_sync(x); }); }

// ---- ValueMut
type MkVM<T> = fn(&mut E, &mut dyn FnMut(&mut ValueMut<T>));
fn vm_base<T: ?Sized + HasDrop>(mk: MkVM<T>) { let mut e = E::new(4); let mut o = E::new(9); let l = live();
    mk(&mut e, &mut |v| { geom!(v, E); ck!(v.is::<E>() && !v.is::<C>() && v.reborrow().downcast::<E>().map(E::id) == Some(4), "contents"); mk(&mut o, &mut |w| w.swap(v)); });
    ck!(live() == l && e.id() == 9 && o.id() == 4, "swap"); mk(&mut e, &mut |v| v.reborrow_mut().downcast::<E>().expect("type lost").set(14)); ck!(live() == l && e.id() == 14, "write"); }
fn vm_clone<T: ?Sized + HasDrop + HasClone>(mk: MkVM<T>) { let (mut e, mut o) = (E::new(4), E::new(9)); let (l, c) = (live(), clones());
    mk(&mut e, &mut |v| mk(&mut o, &mut |w| v.clone_from_other(w.reborrow()).expect("types agree"))); ck!(live() == l && clones() > c && e.id() == 9 && o.id() == 9, "clone_from_other"); }
fn vm_clonev<T: HasDrop + HasClone + Clone>(mk: MkVM<T>) { let (mut e, o) = (E::new(4), E::new(9)); let l = live();
    mk(&mut e, &mut |v| { let b = v.reborrow().clone_value(); ck!(live() == l + 1, "clone_value"); v.reborrow_mut().assign(b); }); ck!(live() == l && e.id() == 4, "assign"); }
fn vm_eq<T: ?Sized + HasDrop + HasPartialEq>(mk: MkVM<T>) { let (mut a, mut b, mut c) = (E::new(4), E::new(12), E::new(5)); mk(&mut a, &mut |x| { mk(&mut b, &mut |y| ck!(eqq(&*x, &*y), "comparison")); mk(&mut c, &mut |y| ck!(!eqq(&*x, &*y), "comparison")); }); }
fn vm_eqm<T: ?Sized + HasDrop + HasEq>(mk: MkVM<T>) { mk(&mut E::new(1), &mut |x| is_eq(x)); }
fn vm_hash<T: ?Sized + HasDrop + HasHash>(mk: MkVM<T>) { let mut e = E::new(11); mk(&mut e, &mut |x| ck!(log(x) == log(&E::new(11)), "hash")); }
fn vm_debug<T: ?Sized + HasDrop + HasDebug>(mk: MkVM<T>) { let mut e = E::new(11); mk(&mut e, &mut |x| ck!(format!("{:?}", x) == "E<11>", "debug")); }
fn vm_send<T: ?Sized + HasDrop + HasSend>(mk: MkVM<T>) { mk(&mut E::new(1), &mut |x| is_send(x)); }
fn vm_sync<T: ?Sized + HasDrop + HasSync>(mk: MkVM<T>) { mk(&mut E::new(1), &mut |x| is_sync(x)); }

// ---- BoxValue and SmallValue
macro_rules! owned { ($t:ident, $mk:ident, $base:ident, $clone:ident, $clonev:ident, $eq:ident, $eqm:ident, $hash:ident, $debug:ident, $send:ident, $sync:ident) => {
type $mk<T> = fn(E) -> $t<T>;
fn $base<T: ?Sized + HasDrop>(mk: $mk<T>) { let l = live(); let v = mk(E::new(4)); geom!(v, E); geom!(v.as_ref(), E); ck!(live() == l + 1 && v.is::<E>() && !v.is::<C>() && v.as_ref().downcast::<E>().map(E::id) == Some(4), "contents");
    drop(v); ck!(live() == l, "not dropped"); let e = mk(E::new(5)).downcast::<E>().expect("type lost"); ck!(live() == l + 1 && e.id() == 5, "downcast"); drop(e);
    ck!(mk(E::new(6)).downcast::<C>().is_none() && live() == l, "refused value not dropped");
    let mut v = mk(E::new(7)); v.as_mut().downcast::<E>().expect("type lost").set(8); ck!(v.as_ref().downcast::<E>().unwrap().id() == 8, "write"); drop(v); ck!(live() == l, "leak"); }
fn $clone<T: ?Sized + HasDrop + HasClone>(mk: $mk<T>) {}
fn $clonev<T: HasDrop + HasClone + Clone>(mk: $mk<T>) { let l = live(); let v = mk(E::new(4)); let c = clones(); let w = v.clone(); ck!(clones() == c + 1 && live() == l + 2, "clone"); drop(v);
    ck!(w.as_ref().downcast::<E>().unwrap().id() == 4, "clone"); drop(w); ck!(live() == l, "leak"); }
fn $eq<T: ?Sized + HasDrop + HasPartialEq>(mk: $mk<T>) { ck!(mk(E::new(4)) == mk(E::new(12)) && mk(E::new(4)) != mk(E::new(5)), "comparison"); }
fn $eqm<T: ?Sized + HasDrop + HasEq>(mk: $mk<T>) { is_eq(&mk(E::new(4))); }
fn $hash<T: ?Sized + HasDrop + HasHash>(mk: $mk<T>) { ck!(log(&mk(E::new(4))) == log(&E::new(4)), "hash"); }
fn $debug<T: ?Sized + HasDrop + HasDebug>(mk: $mk<T>) { ck!(format!("{:?}", mk(E::new(4))) == "E<4>", "debug"); }
fn $send<T: ?Sized + HasDrop + HasSend>(mk: $mk<T>) { is_send(&mk(E::new(4))); }
fn $sync<T: ?Sized + HasDrop + HasSync>(mk: $mk<T>) { is_sync(&mk(E::new(4))); } } }
owned!(BoxValue, MkBV, bv_base, bv_clone, bv_clonev, bv_eq, bv_eqm, bv_hash, bv_debug, bv_send, bv_sync);
owned!(SmallValue, MkSV, sv_base, sv_clone, sv_clonev, sv_eq, sv_eqm, sv_hash, sv_debug, sv_send, sv_sync);

// ---- VecCopy
type MkVC<T> = fn(&[u32]) -> VecCopy<T>;
fn vc_base<T: ?Sized + 'static>(mk: MkVC<T>) {
    for ids in [&IDS[..], &[], &[5]] {
        let mut v = mk(ids);
        ck!(v.element_type_id() == std::any::TypeId::of::<C>(), "type");
        for x in v.iter() { geom!(x, C); }
        ck!(v.len() == ids.len() && v.iter().map(|x| x.downcast::<C>().expect("type lost").id()).eq(ids.iter().copied()) && v.as_slice_as::<E>().is_none(), "contents");
        v.push_as(C::new(6)).expect("cannot push");
        v.rotate_left(1);
        v.get_mut(0).downcast::<C>().expect("type lost").0 = 33;
        ck!(v.len() == ids.len() + 1 && v.get_ref_as::<C>(0).map(C::id) == Some(33), "write lost");
        ck!(v.into_vec::<C>().expect("type lost").len() == ids.len() + 1, "length");
    }
}
fn vc_clone<T: ?Sized + HasClone + 'static>(mk: MkVC<T>) {}
fn vc_clonev<T: HasClone + Clone + 'static>(mk: MkVC<T>) { let v = mk(IDS); let mut w = v.clone(); w.push_as(C::new(9)); ck!(v.len() == 3 && w.iter().map(|x| x.downcast::<C>().unwrap().id()).eq([4, 1, 2, 9]), "clone"); }
fn vc_eq<T: ?Sized + HasPartialEq + 'static>(mk: MkVC<T>) { let (a, b, c) = (mk(IDS), mk(SAME), mk(OTHER)); ck!(a.get_ref(0) == b.get_ref(0) && a.get_ref(2) != c.get_ref(2), "comparison"); }
fn vc_eqm<T: ?Sized + HasEq + 'static>(mk: MkVC<T>) { is_eq(&mk(IDS).get_ref(0)); }
fn vc_hash<T: ?Sized + HasHash + 'static>(mk: MkVC<T>) { let a = mk(IDS); for i in 0..3 { ck!(log(&a.get_ref(i)) == log(&C::new(IDS[i])), "hash"); } }
fn vc_debug<T: ?Sized + HasDebug + 'static>(mk: MkVC<T>) { ck!(format!("{:?}", mk(IDS).get_ref(1)) == "C<1>", "debug"); }
fn vc_send<T: ?Sized + HasSend + 'static>(mk: MkVC<T>) { is_send(&mk(IDS).get_mut(0)); }
fn vc_sync<T: ?Sized + HasSync + 'static>(mk: MkVC<T>) { is_send(&mk(IDS).get_ref(0)); is_sync(&mk(IDS).get_ref(0)); is_send(&mk(IDS).as_slice()); }

// ---- SliceCopy
type MkSC<T> = for<'a> fn(&'a [C], &mut dyn FnMut(&SliceCopy<'a, T>));
fn sc_base<T: ?Sized + 'static>(mk: MkSC<T>) { let t = cs(IDS); mk(&t, &mut |s| { geoms!(s, C); geom!(s.get(0), C); ck!(s.len() == 3 && s.as_slice::<C>().expect("type lost").as_ptr() == t.as_ptr() && s.as_slice::<E>().is_none()
    && s.iter().map(|x| x.downcast::<C>().expect("type lost").id()).eq(IDS.iter().copied()) && s.subslice(1..).len() == 2, "contents"); }); }
fn sc_clone<T: ?Sized + HasClone + 'static>(mk: MkSC<T>) {}
fn sc_clonev<T: HasClone + Clone + 'static>(mk: MkSC<T>) {}
fn sc_eq<T: ?Sized + HasPartialEq + 'static>(mk: MkSC<T>) { let (a, b) = (cs(IDS), cs(SAME)); mk(&a, &mut |x| mk(&b, &mut |y| ck!(x.get(0) == y.get(0) && x.get(0) != y.get(1), "comparison"))); }
fn sc_eqm<T: ?Sized + HasEq + 'static>(mk: MkSC<T>) {}
fn sc_hash<T: ?Sized + HasHash + 'static>(mk: MkSC<T>) { let a = cs(IDS); mk(&a, &mut |x| for i in 0..3 { ck!(log(&x.get(i)) == log(&a[i]), "hash"); }); }
fn sc_debug<T: ?Sized + HasDebug + 'static>(mk: MkSC<T>) { let a = cs(IDS); mk(&a, &mut |x| ck!(format!("{:?}", x.get(0)) == "C<4>", "debug")); }
fn sc_send<T: ?Sized + HasSend + 'static>(mk: MkSC<T>) {}
fn sc_sync<T: ?Sized + HasSync + 'static>(mk: MkSC<T>) { let a = cs(IDS); mk(&a, &mut |x| { is_send(x); is_sync(x); }); }

// ---- SliceCopyMut
type MkCM<T> = for<'a> fn(&'a mut [C], &mut dyn FnMut(&mut SliceCopyMut<'a, T>));
fn cm_base<T: ?Sized + 'static>(mk: MkCM<T>) { let mut t = cs(IDS); mk(&mut t, &mut |s| { geom!(s.get_mut(0), C); ck!(s.element_type_id() == std::any::TypeId::of::<C>() && s.len() == 3 && s.get(1).downcast::<C>().map(C::id) == Some(1), "contents"); s.swap(0, 2);
    s.get_mut(1).downcast::<C>().expect("type lost").0 = 40; s.rotate_left(1); }); ck!(t.iter().map(C::id).eq([40, 4, 2]), "writes"); }
fn cm_clone<T: ?Sized + HasClone + 'static>(mk: MkCM<T>) {}
fn cm_clonev<T: HasClone + Clone + 'static>(mk: MkCM<T>) {}
fn cm_eq<T: ?Sized + HasPartialEq + 'static>(mk: MkCM<T>) { let (mut a, mut b) = (cs(IDS), cs(SAME)); mk(&mut a, &mut |x| mk(&mut b, &mut |y| ck!(x.get(0) == y.get(0) && x.get(0) != y.get(1), "comparison"))); }
fn cm_eqm<T: ?Sized + HasEq + 'static>(mk: MkCM<T>) {}
fn cm_hash<T: ?Sized + HasHash + 'static>(mk: MkCM<T>) { let mut a = cs(IDS); let b = a.clone(); mk(&mut a, &mut |x| for i in 0..3 { ck!(log(&x.get(i)) == log(&b[i]), "hash"); }); }
fn cm_debug<T: ?Sized + HasDebug + 'static>(mk: MkCM<T>) { let mut a = cs(IDS); mk(&mut a, &mut |x| ck!(format!("{:?}", x.get(0)) == "C<4>", "debug")); }
fn cm_send<T: ?Sized + HasSend + 'static>(mk: MkCM<T>) { let mut a = cs(IDS); mk(&mut a, &mut |x| is_send(x)); }
fn cm_sync<T: ?Sized + HasSync + 'static>(mk: MkCM<T>) { let mut a = cs(IDS); mk(&mut a, &mut |x| is_sync(x)); }

// ---- CopyValueRef
type MkCR<T> = fn(&C, &mut dyn FnMut(CopyValueRef<T>));
fn cr_base<T: ?Sized + 'static>(mk: MkCR<T>) { let c = C::new(4); mk(&c, &mut |v| { geom!(v, C); ck!(v.is::<C>() && !v.is::<E>() && v.downcast::<C>().map(C::id) == Some(4), "contents") }); }
fn cr_clone<T: ?Sized + HasClone + 'static>(mk: MkCR<T>) {}
fn cr_clonev<T: HasClone + Clone + 'static>(mk: MkCR<T>) {}
fn cr_eq<T: ?Sized + HasPartialEq + 'static>(mk: MkCR<T>) { let (a, b, c) = (C::new(4), C::new(12), C::new(5)); mk(&a, &mut |x| { mk(&b, &mut |y| ck!(eqq(&x, &y), "comparison")); mk(&c, &mut |y| ck!(!eqq(&x, &y), "comparison")); }); }
fn cr_eqm<T: ?Sized + HasEq + 'static>(mk: MkCR<T>) { mk(&C::new(1), &mut |x| is_eq(&x)); }
fn cr_hash<T: ?Sized + HasHash + 'static>(mk: MkCR<T>) { mk(&C::new(11), &mut |x| ck!(log(&x) == log(&C::new(11)), "hash")); }
fn cr_debug<T: ?Sized + HasDebug + 'static>(mk: MkCR<T>) { mk(&C::new(11), &mut |x| ck!(format!("{:?}", x) == "C<11>", "debug")); }
fn cr_send<T: ?Sized + HasSend + 'static>(mk: MkCR<T>) {}
fn cr_sync<T: ?Sized + HasSync + 'static>(mk: MkCR<T>) { mk(&C::new(1), &mut |x| { is_send(&x); is_sync(&x); }); }

// ---- CopyValueMut
type MkCX<T> = fn(&mut C, &mut dyn FnMut(&mut CopyValueMut<T>));
fn cx_base<T: ?Sized + 'static>(mk: MkCX<T>) { let (mut c, mut d) = (C::new(4), C::new(9)); mk(&mut c, &mut |v| { geom!(v, C); ck!(v.is::<C>() && !v.is::<E>(), "type"); mk(&mut d, &mut |w| v.swap(w)); }); ck!(c.id() == 9 && d.id() == 4 && c.1 == 7, "swap"); }
fn cx_clone<T: ?Sized + HasClone + 'static>(mk: MkCX<T>) {}
fn cx_clonev<T: HasClone + Clone + 'static>(mk: MkCX<T>) {}
fn cx_eq<T: ?Sized + HasPartialEq + 'static>(mk: MkCX<T>) { let (mut a, mut b, mut c) = (C::new(4), C::new(12), C::new(5)); mk(&mut a, &mut |x| { mk(&mut b, &mut |y| ck!(eqq(&*x, &*y), "comparison")); mk(&mut c, &mut |y| ck!(!eqq(&*x, &*y), "comparison")); }); }
fn cx_eqm<T: ?Sized + HasEq + 'static>(mk: MkCX<T>) { mk(&mut C::new(1), &mut |x| is_eq(x)); }
fn cx_hash<T: ?Sized + HasHash + 'static>(mk: MkCX<T>) { mk(&mut C::new(11), &mut |x| ck!(log(x) == log(&C::new(11)), "hash")); }
fn cx_debug<T: ?Sized + HasDebug + 'static>(mk: MkCX<T>) { mk(&mut C::new(11), &mut |x| ck!(format!("{:?}", x) == "C<11>", "debug")); }
fn cx_send<T: ?Sized + HasSend + 'static>(mk: MkCX<T>) { mk(&mut C::new(1), &mut |x| is_send(x)); }
fn cx_sync<T: ?Sized + HasSync + 'static>(mk: MkCX<T>) { mk(&mut C::new(1), &mut |x| is_sync(x)); }

fn refused(f: impl FnOnce()) { ck!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err(), "a conversion to another table was not refused"); }
fn vd_wrong<T: HasDrop + 'static>(mk: MkVD<T>) { let l = live(); refused(|| drop(mk(&[1, 2, 3]))); ck!(live() == l, "{} values left by a refused conversion", live() - l); refused(|| drop(mk(&[]))); }
fn vc_wrong<T: HasDrop + 'static>(mk: MkVC<T>) { refused(|| drop(mk(&[1, 2, 3]))); refused(|| drop(mk(&[]))); }
fn sl_wrong<T: HasDrop + 'static>(mk: MkSL<T>) { let (t, l) = (es(IDS), live()); refused(|| mk(&t, &mut |_| ())); ck!(live() == l && t.iter().map(E::id).eq(IDS.iter().copied()), "a refused conversion changed the elements"); }
fn sm_wrong<T: HasDrop + 'static>(mk: MkSM<T>) { let (mut t, l) = (es(IDS), live()); refused(|| mk(&mut t, &mut |_| ())); ck!(live() == l && t.iter().map(E::id).eq(IDS.iter().copied()), "a refused conversion changed the elements"); }
fn sc_wrong<T: HasDrop + 'static>(mk: MkSC<T>) { let t = cs(IDS); refused(|| mk(&t, &mut |_| ())); ck!(t.iter().map(C::id).eq(IDS.iter().copied()), "a refused conversion changed the elements"); }
fn cm_wrong<T: HasDrop + 'static>(mk: MkCM<T>) { let mut t = cs(IDS); refused(|| mk(&mut t, &mut |_| ())); ck!(t.iter().map(C::id).eq(IDS.iter().copied()), "a refused conversion changed the elements"); }

static mut SKIP: usize = 0;
fn run(k: usize, name: &str, f: fn()) {
    println!("CASE {} {}", k, name);
    at("");
    if let Err(e) = std::panic::catch_unwind(f) {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        println!("BAD {} {}: {}", k, WHERE.with(|w| w.borrow().clone()), m);
        LIVE.with(|l| l.set(0));
    }
    if live() != 0 { println!("BAD {} values left at the end: {}", k, live()); LIVE.with(|l| l.set(0)); }
}
'''


class Shape:
    """traits: list of (name, set of declared traits, parents); in the order of declaration."""
    def __init__(self, traits, root=None, mod=True, order=None, note="", noise=(), vis="pub ", pre="", body="", attr="", own="use dync::*;", extra=""):
        self.traits, self.mod, self.order, self.note = traits, mod, order, note
        # further bounds; visibility of the traits; what precedes and is inside each; arguments of the macro; imports; other items
        self.noise, self.vis, self.pre, self.body, self.attr, self.own, self.extra = noise, vis, pre, body, attr, own, extra
        self.by = {n: (frozenset(s), list(p)) for n, s, p in traits}
        self.root = root or traits[-1][0]

    def items(self):
        out = []
        for n, s, ps in self.traits:
            bs = list(ps) + [PATH.get(t, t) for t in TRAITS if t in s]
            for i, b in enumerate(self.noise):
                bs.insert(i * 2 % (len(bs) + 1), b)
            if self.order:
                bs = self.order(bs)
            b = " + ".join(bs)
            b = ": " + b if b else ""
            out.append("%s%strait %s%s {%s} %s impl<T%s> %s for T {}" % (self.pre, self.vis, n, b, self.body, self.extra.replace("{n}", n), b, n))
        return out

    def text(self, name):
        it = self.items()
        if self.mod:
            return "#[dync_mod%s] pub mod %s { %s %s }" % (self.attr, name, self.own, " ".join(it))
        return "pub mod %s { %s #[dync_trait%s] %s }" % (name, self.own, self.attr, " ".join(it))

    def eff(self, n):
        """The traits that the table of n must dispatch."""
        s, ps = self.by[n]
        r = set(s)
        for p in ps:
            r |= self.eff(p)
        if "Eq" in r:
            r.add("PartialEq")
        return r

    def anc(self, n):
        r = []
        for p in self.by[n][1]:
            for q in [p] + self.anc(p):
                if q not in r:
                    r.append(q)
        return r

    def paths(self, n):
        """Every sequence of upcasts from n: (names of tables)."""
        out = [()]
        for p in self.anc(n):
            out += [(p,) + q for q in self.paths(p)]
        return out

    def describe(self):
        return "%s {%s}" % ("mod" if self.mod else "trait", "; ".join("%s: %s" % (n, " + ".join(list(p) + [t for t in TRAITS if t in s])) for n, s, p in self.traits)) + (" " + self.note if self.note else "")


def builtin_eff(t):
    return {t} | ({"PartialEq"} if t == "Eq" else set()) if t != "Drop" else set()


def subsets(ts):
    for n in range(len(ts) + 1):
        for c in itertools.combinations(ts, n):
            yield c


# ---- shapes ------------------------------------------------------------------------------

def singles():
    for s in subsets(TRAITS):
        yield Shape([("A", s, [])], mod=False)
        yield Shape([("A", s, [])], mod=True)


def pairs(ts):
    for s1 in subsets(ts):
        for s2 in subsets(ts):
            yield Shape([("A", s1, []), ("B", s2, ["A"])])


FORMS = {
    "chain3": [("A", []), ("B", ["A"]), ("D", ["B"])],
    "two parents": [("A", []), ("B", []), ("D", ["A", "B"])],
    "diamond": [("A", []), ("B", ["A"]), ("F", ["A"]), ("D", ["B", "F"])],
    "chain4": [("A", []), ("B", ["A"]), ("F", ["B"]), ("D", ["F"])],
    "shortcut": [("A", []), ("B", ["A"]), ("D", ["A", "B"])],
}


def assigned(ts, forms=None):
    """Each trait declared in exactly one of the nodes, or in none, in every way."""
    for name, form in FORMS.items():
        if forms and name not in forms:
            continue
        for where in itertools.product(range(len(form) + 1), repeat=len(ts)):
            yield Shape([(n, [t for t, w in zip(ts, where) if w == i], ps) for i, (n, ps) in enumerate(form)])


def ordered():
    """The same declarations under every order of the items, every naming and every order of the bounds."""
    sets = [("Clone", "Debug"), ("PartialEq", "Hash"), ("Eq", "Send")]
    for form in ("chain3", "two parents", "shortcut"):
        for names in itertools.permutations(["Alpha", "Mid", "Zeta"]):
            for items in itertools.permutations(range(3)):
                ren = {n: names[i] for i, (n, _) in enumerate(FORMS[form])}
                base = [(ren[n], sets[i], [ren[p] for p in ps]) for i, (n, ps) in enumerate(FORMS[form])]
                for o, order in (("", None), ("reversed", lambda b: b[::-1])):
                    yield Shape([base[i] for i in items], root=base[-1][0], order=order, note=o)


def deep():
    """Five levels, and a diamond of four, with the items in every order: what is at the bottom must reach the top."""
    chain = [("A", ("Clone", "Debug"), []), ("B", ("Hash",), ["A"]), ("F", (), ["B"]), ("G", ("PartialEq",), ["F"]), ("D", (), ["G"])]
    fork = [("A", ("Clone", "Hash"), []), ("B", (), ["A"]), ("F", ("Debug",), ["A"]), ("G", ("Eq",), ["B", "F"]), ("D", (), ["G"])]
    for base in (chain, fork):
        for items in itertools.permutations(range(5)):
            yield Shape([base[i] for i in items], root="D", note="order %s" % "".join(map(str, items)))


def long():
    """Chains of up to 12 levels with everything at the bottom, declared upwards, downwards and from the middle."""
    for n in range(2, 13):
        for bottom in (("Clone", "Hash", "Debug"), ("Eq",), ("Send", "Sync")):
            c = [("T%d" % i, bottom if i == 0 else (), ["T%d" % (i - 1)] if i else []) for i in range(n)]
            for note, it in (("up", c), ("down", c[::-1]), ("odd first", c[1::2] + c[::2])):
                yield Shape(it, root="T%d" % (n - 1), note=note)


STYLES = {
    "lifetime": dict(noise=["'static"]),
    "Sized": dict(noise=["Sized"]),
    "other traits": dict(noise=["std::fmt::Display", "ToString"]),
    "generic traits": dict(noise=["Into<Self>", "From<Self>"]),
    "all of these": dict(noise=["std::fmt::Display", "'static", "Into<Self>", "Sized"]),
    "crate": dict(vis="pub(crate) "),
    "methods": dict(body="fn itself(&self) -> &Self { self } fn number() -> usize { 7 }"),
    "attributes": dict(pre="#[doc = \"A trait.\"] #[allow(dead_code)] "),
    "other name": dict(attr='(dync_crate_name = "other")', own="use ::dync as other; use other::*;"),
    "items between": dict(extra="pub struct S{n}; pub fn f{n}() {} pub const C{n}: u8 = 1; pub type T{n} = u8; pub enum E{n} { V } impl S{n} { pub fn g(&self) {} } pub mod m{n} {}"),
}


def styled():
    """Declarations that also have what tables need not know about."""
    sets = [("Clone", "Debug"), ("PartialEq", "Hash"), ("Eq", "Send", "Sync")]
    for note, st in STYLES.items():
        if note != "items between":
            for i in range(4):
                yield Shape([("A", (sets + [("Clone", "PartialEq", "Eq", "Hash", "Debug")])[i], [])], mod=False, note=note, **st)
        for form in ("chain3", "two parents", "shortcut"):
            for perm in itertools.permutations(range(3)):
                base = [(n, sets[i], ps) for i, (n, ps) in zip(perm, FORMS[form])]
                for o, order in (("", None), (" reversed", lambda b: b[::-1])):
                    yield Shape(base, order=order, note=note + o, **st)
                yield Shape(base[::-1], root=base[-1][0], note=note + " from the last", **st)


# ---- compiling only ----------------------------------------------------------------------

COMPILE_HEAD = '''#![allow(unused, dead_code, unused_mut)]
use dync::*;
use dync::traits::*;
fn n_Drop<V: HasDrop + Copy + Clone>() {}
fn n_Clone<V: HasClone>() {}
fn n_PartialEq<V: HasPartialEq>() {}
fn n_Eq<V: HasEq>() {}
fn n_Hash<V: HasHash>() {}
fn n_Debug<V: HasDebug>() {}
fn n_Send<V: HasSend>() {}
fn n_Sync<V: HasSync>() {}
fn conv<V, U: From<V>>() {}
fn built<V: VTable<u32> + VTable<String>>() {}
'''


def compile_line(sh, name):
    t = [sh.text(name), "fn c_%s() {" % name]
    for n in sh.by:
        v = "%s::%sVTable" % (name, n)
        t.append("built::<%s>(); n_Drop::<%s>(); conv::<%s, DropVTable>();" % (v, v, v))
        for tr in TRAITS:
            if tr in sh.eff(n):
                t.append("n_%s::<%s>(); conv::<%s, %sVTable>();" % (tr, v, v, tr))
        for a in sh.anc(n):
            t.append("conv::<%s, %s::%sVTable>();" % (v, name, a))
        for a in [n] + sh.anc(n):
            t.append("{ fn h<V: %s::Has%s>() {} h::<%s>(); }" % (name, a, v))
    return " ".join(t) + " }"


# ---- running -----------------------------------------------------------------------------

KINDS = ["vd", "sl", "sm", "vr", "vm", "bv", "sv", "vc", "sc", "cm", "cr", "cx"]
COPY = {"vc", "sc", "cm", "cr", "cx"}
HAS_UPCAST = {"vd", "sl", "sm", "vr", "vm", "bv", "sv", "vc", "sc", "cm", "cr", "cx"}


def ups(tables, var="v", style="own"):
    out = ""
    for t in tables:
        if style == "own":
            out += "let %s = %s.upcast::<%s>(); " % (var, var, t)
        elif style == "ref":
            out += "let %s = %s.upcast_ref::<%s>(); " % (var, var, t)
        elif style == "mut":
            out += "let mut %s = %s.upcast_mut::<%s>(); " % (var, var, t)
        elif style == "cx":
            out += "let mut %s = %s.upcast::<%s>(); " % (var, var, t)
    return out


def maker(kind, root, target, mid, style="own"):
    """A function that makes a handle of `kind` with table `root` and turns it into one with `target`."""
    m = mid if callable(mid) else (lambda s: ups(mid, "v", s))
    if kind == "vd":
        return "fn mk(ids: &[u32]) -> VecDyn<%s> { let v: VecDyn<%s> = es(ids).into(); %s v }" % (target, root, m("own"))
    if kind == "vc":
        return "fn mk(ids: &[u32]) -> VecCopy<%s> { let v: VecCopy<%s> = cs(ids).into(); %s v }" % (target, root, m("own"))
    if kind == "sl":
        return "fn mk<'a>(e: &'a [E], f: &mut dyn FnMut(&Slice<'a, %s>)) { let v: Slice<'a, %s> = e.into(); %s f(&v) }" % (target, root, m("own"))
    if kind == "sc":
        return "fn mk<'a>(e: &'a [C], f: &mut dyn FnMut(&SliceCopy<'a, %s>)) { let v: SliceCopy<'a, %s> = e.into(); %s f(&v) }" % (target, root, m("own"))
    if kind == "sm":
        return "fn mk<'a>(e: &'a mut [E], f: &mut dyn FnMut(&mut SliceMut<'a, %s>)) { let v: SliceMut<'a, %s> = e.into(); %s let mut v = v; f(&mut v) }" % (target, root, m("own"))
    if kind == "cm":
        return "fn mk<'a>(e: &'a mut [C], f: &mut dyn FnMut(&mut SliceCopyMut<'a, %s>)) { let v: SliceCopyMut<'a, %s> = e.into(); %s let mut v = v; f(&mut v) }" % (target, root, m("own"))
    if kind == "vr":
        return "fn mk(e: &E, f: &mut dyn FnMut(&ValueRef<%s>)) { let v = ValueRef::<%s>::new(e); %s f(&v) }" % (target, root, m("own" if style == "own" else "ref"))
    if kind == "cr":
        return "fn mk(e: &C, f: &mut dyn FnMut(CopyValueRef<%s>)) { let v = CopyValueRef::<%s>::new(e); %s f(v) }" % (target, root, m("own" if style == "own" else "ref"))
    if kind == "vm":
        return "fn mk(e: &mut E, f: &mut dyn FnMut(&mut ValueMut<%s>)) { let mut v = ValueMut::<%s>::new(e); %s let mut v = v; f(&mut v) }" % (target, root, m("own" if style == "own" else "mut"))
    if kind == "cx":
        return "fn mk(e: &mut C, f: &mut dyn FnMut(&mut CopyValueMut<%s>)) { let mut v = CopyValueMut::<%s>::new(e); %s f(&mut v) }" % (target, root, m("cx"))
    return "fn mk(e: E) -> %s<%s> { let v = %s::<%s>::new(e); %s v }" % ("BoxValue" if kind == "bv" else "SmallValue", target, "BoxValue" if kind == "bv" else "SmallValue", root, m("own"))


def checks(kind, eff, sized=True):
    out = ["base"] + [CHECKS[t] for t in TRAITS if t in eff]
    if "Clone" in eff and sized:
        out.append("clonev")
    return out


def block(label, kind, mk, eff, sized=True):
    calls = " ".join('at("%s %s %s"); %s_%s(mk);' % (label, kind, c, kind, c) for c in checks(kind, eff, sized))
    return "{ %s %s }" % (mk, calls)


# the handles a table can be turned into a trait object in
DYN = (("vd", "VecDyn"), ("vc", "VecCopy"), ("sl", "Slice"), ("sm", "SliceMut"), ("sc", "SliceCopy"), ("cm", "SliceCopyMut"))


def run_fn(sh, k, kinds, paths="all"):
    """The function exercising one shape; returns (text, number of (handle, path) blocks)."""
    m = "s%d" % k
    T = lambda n: "%s::%sVTable" % (m, n)
    body = []
    r = sh.root
    todo = sh.paths(r) if paths == "all" else [()] + [(p,) for p in sh.anc(r)]
    for path in todo:
        last = path[-1] if path else r
        for kind in kinds:
            for style in (("own", "ref") if kind in ("vr", "vm", "cr") and path else ("own",)):
                body.append(block(">".join((r,) + path) + (" by reference" if style == "ref" else ""), kind, maker(kind, T(r), T(last), [T(p) for p in path], style), sh.eff(last)))
        # on to the table of a single trait
        for b in ["Drop"] + [t for t in TRAITS if t in sh.eff(last)]:
            if path and paths != "all":
                continue
            for kind in kinds if not path else ("vd", "vc"):
                body.append(block(">".join((r,) + path + (b,)), kind, maker(kind, T(r), b + "VTable", [T(p) for p in path] + [b + "VTable"]), builtin_eff(b)))
    # trait objects
    for n in [r] + sh.anc(r):
        has = "Has%s" % n
        use = "use %s::%s;" % (m, has)
        for kind, ty in DYN:
            if kind not in kinds:
                continue
            into, back = "(into_dyn![%s<dyn %s>])" % (ty, has), lambda t: "(from_dyn![%s<dyn %s as %s>])" % (ty, has, t)
            body.append("{ %s %s }" % (use, block("dyn %s" % has, kind, maker(kind, T(r), "dyn " + has, lambda s: "let v = %s(v);" % into), sh.eff(n), False)))
            body.append("{ %s %s }" % (use, block("dyn %s and back" % has, kind, maker(kind, T(r), T(r), lambda s: "let v = %s(v); let v = %s(v);" % (into, back(T(r)))), sh.eff(r))))
            if n != r:
                # back to the table of another trait: refused, without harm
                mk = maker(kind, T(r), T(n), lambda s: "let v = %s(v); let v = %s(v);" % (into, back(T(n))))
                body.append('{ %s %s at("dyn %s back to another table %s"); %s_wrong(mk); }' % (use, mk, has, kind, kind))
    for kind, ty in DYN:
        if kind in kinds:
            body.append(block("dyn HasDrop", kind, maker(kind, T(r), "dyn HasDrop", lambda s: "let v = (into_dyn![%s<dyn HasDrop>])(v);" % ty), set(), False))
    return "%s fn r%d() { %s }" % (sh.text(m), k, " ".join(body)), len(body)
