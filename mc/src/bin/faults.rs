//! Every callback of every operation panics, one at a time (C09).
use dync::*;
use mc::elems::*;
use mc::rep::{guarded, panic_msg, Cases};
use mc::vd::{VA, VD};
use mc::{ck, mon, vio};
use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};

type BV = BoxValue<VA>;
type SV = SmallValue<VA>;
type VC = VecCopy<VA>;

/// Everything an operation may use.  Every value is owned by exactly one field.
struct W<E: TElem> {
    a: Option<VD>,
    b: Option<VD>,
    c: Option<VD>,
    t: Vec<E>,
    tw: Vec<E::Twin>,
    bx: Option<BV>,
    by: Option<BV>,
    bt: Option<BV>,
    sm: Option<SV>,
    st: Option<SV>,
    out: Vec<E>,
    boxed: Option<Box<E>>,
}
fn labels(n: usize, from: u8) -> Vec<u8> {
    (0..n).map(|i| from + i as u8).collect()
}
fn vd<E: TElem>(n: usize, from: u8, spare: usize) -> VD {
    let mut v = Vec::with_capacity(n + spare);
    v.extend(labels(n, from).into_iter().map(E::make));
    VD::from_vec(v)
}
impl<E: TElem> W<E> {
    fn new(n: usize, spare: usize) -> Self {
        W {
            a: Some(vd::<E>(n, 0, spare)),
            b: Some(vd::<E>(2, 20, 0)),
            c: None,
            t: vec![E::make(40), E::make(41), E::make(42)],
            tw: vec![<E::Twin>::make(50), <E::Twin>::make(51)],
            bx: Some(BV::new(E::make(60))),
            by: Some(BV::new(E::make(61))),
            bt: Some(BV::new(<E::Twin>::make(62))),
            sm: SV::try_new(E::make(63)),
            st: SV::try_new(<E::Twin>::make(64)),
            out: Vec::new(),
            boxed: None,
        }
    }
    fn owned(&self) -> usize {
        let l = |x: &Option<VD>| x.as_ref().map_or(0, |v| v.len());
        l(&self.a) + l(&self.b) + l(&self.c) + self.t.len() + self.tw.len() + self.bx.iter().count() + self.by.iter().count() + self.bt.iter().count()
            + self.sm.iter().count() + self.st.iter().count() + self.out.len() + self.boxed.iter().count()
    }
    fn a(&mut self) -> &mut VD {
        self.a.as_mut().unwrap()
    }
    /// Everything reachable must still be whole.
    fn check(&mut self, what: &str) -> Vec<u8> {
        let mut la = vec![];
        for (i, x) in [&mut self.a, &mut self.b, &mut self.c].into_iter().enumerate() {
            if let Some(v) = x {
                match v.as_slice_as::<E>() {
                    Some(s) => {
                        let l: Vec<u8> = s.iter().map(|e| e.label()).collect();
                        if mc::rep::any() {
                            return la;
                        }
                        mc::vd::observe::<E>(v, &l);
                        if i == 0 {
                            la = l;
                        }
                    }
                    None => vio!(Content, "container lost its element type after a panic", "{}", what),
                }
            }
        }
        for e in self.t.iter().chain(&self.out) {
            e.label();
        }
        for e in &self.tw {
            e.label();
        }
        for v in [&self.bx, &self.by].into_iter().flatten() {
            match v.as_ref().downcast::<E>() {
                Some(e) => {
                    e.label();
                }
                None => vio!(Content, "value lost its type after a panic", "{}", what),
            }
        }
        if let Some(v) = &self.bt {
            match v.as_ref().downcast::<E::Twin>() {
                Some(e) => {
                    e.label();
                }
                None => vio!(Content, "value lost its type after a panic", "{}", what),
            }
        }
        if let Some(v) = &self.sm {
            v.as_ref().downcast::<E>().map(|e| e.label());
        }
        if let Some(v) = &self.st {
            v.as_ref().downcast::<E::Twin>().map(|e| e.label());
        }
        if E::COUNTED && !mc::rep::any() {
            // twins of counted types are counted too
            expect_live(self.owned());
        }
        la
    }
    /// The container goes on working.
    fn go_on(&mut self, la: &[u8]) {
        let mut want = la.to_vec();
        if let Some(a) = &mut self.a {
            ck!(a.push_as(E::make(70)).is_some(), Content, "container unusable after a panic", "push_as");
            ck!(a.push(BV::new(E::make(71))).is_some(), Content, "container unusable after a panic", "push");
            let e = E::make(72);
            ck!(a.push_cloned(ValueRef::new(&e)).is_some(), Content, "container unusable after a panic", "push_cloned");
            want.extend([70, 71, 72]);
            mc::vd::observe::<E>(a, &want);
            let c = a.clone();
            ck!(c == *a, Content, "container unusable after a panic", "clone differs");
        }
        self.check("afterwards");
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Post {
    /// After the panic the first container has the contents it had before.
    Same,
    /// ... at least the old contents as a prefix.
    Prefix,
    /// ... some prefix of the old contents.
    Shorter,
    /// ... the old length.
    Length,
    /// the container was given away
    Any,
}
type Op<E> = (&'static str, &'static [Cb], Post, fn(&mut W<E>));

struct PanicHasher(Rec, usize);
impl Hasher for PanicHasher {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        callback(Cb::Iter);
        self.0.write(b)
    }
}
struct PanicWriter(String);
impl fmt::Write for PanicWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        callback(Cb::Iter);
        self.0.push_str(s);
        Ok(())
    }
}

fn ops<E: TElem>() -> Vec<Op<E>> {
    use Cb::*;
    use Post::*;
    const CL: &[Cb] = &[Cb::Clone];
    const DR: &[Cb] = &[Cb::Drop];
    const CD: &[Cb] = &[Cb::Clone, Cb::Drop];
    const EQ: &[Cb] = &[Cb::Eq];
    const HA: &[Cb] = &[Cb::Hash, Cb::Iter];
    const DB: &[Cb] = &[Cb::Debug, Cb::Iter];
    const _: (Cb, Cb) = (Eq, Debug);
    vec![
        ("clone", CL, Same, |w| w.c = Some(w.a().clone())),
        ("clone_from", CD, Any, |w| {
            let b = w.b.take().unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.a.as_mut().unwrap().clone_from(&b)));
            w.b = Some(b);
            if let Err(p) = r {
                std::panic::resume_unwind(p);
            }
        }),
        ("drop container", DR, Any, |w| drop(w.a.take())),
        ("assign container", DR, Any, |w| {
            let b = w.b.take();
            *w.a() = b.unwrap();
        }),
        ("clear", DR, Shorter, |w| w.a().clear()),
        ("resize to 0", CD, Any, |w| {
            let v = w.t.pop().unwrap();
            w.a().resize(0, v);
        }),
        ("resize to 1", CD, Any, |w| {
            let v = w.t.pop().unwrap();
            w.a().resize(1, v);
        }),
        ("resize to 3", CD, Any, |w| {
            let v = w.t.pop().unwrap();
            w.a().resize(3, v);
        }),
        ("resize to 6", CD, Prefix, |w| {
            let v = w.t.pop().unwrap();
            w.a().resize(6, v);
        }),
        ("resize wrong type", CD, Same, |w| {
            let v = w.tw.pop().unwrap();
            w.a().resize(0, v);
        }),
        ("fill", CD, Length, |w| {
            let v = w.t.pop().unwrap();
            w.a().fill(v);
        }),
        ("fill wrong type", CD, Same, |w| {
            let v = w.tw.pop().unwrap();
            w.a().fill(v);
        }),
        ("with_size", CD, Same, |w| {
            let v = w.t.pop().unwrap();
            w.c = Some(VD::with_size(3, v));
        }),
        ("with_size 0", CD, Same, |w| {
            let v = w.t.pop().unwrap();
            w.c = Some(VD::with_size(0, v));
        }),
        ("from_slice", CL, Same, |w| w.c = Some(VD::from_slice(&w.t))),
        ("from slice via From", CL, Same, |w| w.c = Some(w.t.as_slice().into())),
        ("push_cloned", CL, Same, |w| {
            let W { a, t, .. } = w;
            a.as_mut().unwrap().push_cloned(ValueRef::new(&t[0]));
        }),
        ("push_cloned from container", CL, Same, |w| {
            let W { a, b, .. } = w;
            a.as_mut().unwrap().push_cloned(b.as_ref().unwrap().get(1));
        }),
        ("push_cloned twice", CL, Prefix, |w| {
            let W { a, b, .. } = w;
            for v in b.as_ref().unwrap().iter() {
                a.as_mut().unwrap().push_cloned(v);
            }
        }),
        ("push_as wrong type", DR, Same, |w| {
            let v = w.tw.pop().unwrap();
            w.a().push_as(v);
        }),
        ("push wrong type", DR, Same, |w| {
            let v = w.bt.take().unwrap();
            w.a().push(v);
        }),
        ("into_vec wrong type", DR, Any, |w| {
            w.a.take().unwrap().into_vec::<E::Twin>();
        }),
        ("Option<Vec> wrong type", DR, Any, |w| {
            let _: Option<Vec<E::Twin>> = w.a.take().unwrap().into();
        }),
        ("into_vec", DR, Any, |w| drop(w.a.take().unwrap().into_vec::<E>())),
        ("check wrong type", DR, Any, |w| {
            w.a.take().unwrap().check::<E::Twin>();
        }),
        ("append_cloned_to_vec", CL, Same, |w| {
            let W { a, out, .. } = w;
            a.as_ref().unwrap().append_cloned_to_vec(out);
        }),
        ("clone_into_vec", CL, Same, |w| w.out = w.a().clone_into_vec().unwrap()),
        ("Slice::clone_into_vec", CL, Same, |w| w.out = w.a().as_slice().clone_into_vec().unwrap()),
        ("Slice::append_clone_to_vec", CL, Same, |w| {
            let W { a, out, .. } = w;
            a.as_ref().unwrap().as_slice().append_clone_to_vec(out);
        }),
        ("SliceMut::clone_into_vec", CL, Same, |w| w.out = w.a().as_mut_slice().clone_into_vec().unwrap()),
        ("SliceMut::append_clone_to_vec", CL, Same, |w| {
            let W { a, out, .. } = w;
            a.as_mut().unwrap().as_mut_slice().append_clone_to_vec(out);
        }),
        ("clone_from_slice", CD, Length, |w| {
            let W { a, t, .. } = w;
            let n = a.as_ref().unwrap().len();
            a.as_mut().unwrap().as_mut_slice().clone_from_slice(&t[..n]);
        }),
        ("subslice clone_from_slice", CD, Length, |w| {
            let W { a, t, .. } = w;
            let n = a.as_ref().unwrap().len();
            a.as_mut().unwrap().as_mut_slice().subslice_mut(n / 2..).clone_from_slice(&t[..n - n / 2]);
        }),
        ("assign boxed", DR, Length, |w| {
            let v = w.bx.take().unwrap();
            match w.a().len() {
                0 => drop(v),
                n => w.a().get_mut(n - 1).assign(v),
            }
        }),
        ("assign small", DR, Length, |w| {
            if let Some(v) = w.sm.take() {
                match w.a().len() {
                    0 => drop(v),
                    _ => w.a().get_mut(0).assign(v),
                }
            }
        }),
        ("assign clones to all", CD, Length, |w| {
            let W { a, bx, .. } = w;
            for mut v in a.as_mut().unwrap().iter_mut() {
                v.assign(bx.as_ref().unwrap().clone());
            }
        }),
        ("clone_from_other", CD, Length, |w| {
            let W { a, t, .. } = w;
            for mut v in a.as_mut().unwrap().iter_mut() {
                v.clone_from_other(ValueRef::new(&t[1])).unwrap();
            }
        }),
        ("clone_from_other boxed", CD, Same, |w| {
            let W { bx, by, .. } = w;
            bx.as_mut().unwrap().as_mut().clone_from_other(by.as_ref().unwrap().as_ref()).unwrap();
        }),
        ("swap boxed", DR, Length, |w| {
            let W { a, bx, .. } = w;
            if let Some(v) = a.as_mut().unwrap().iter_mut().next() {
                let mut v = v;
                v.swap(&mut bx.as_mut().unwrap().as_mut());
            }
            bx.take();
        }),
        ("write through typed view", DR, Length, |w| {
            let W { a, t, .. } = w;
            if let (Some(r), Some(v)) = (a.as_mut().unwrap().iter_mut_as::<E>().unwrap().next(), t.pop()) {
                *r = v;
            }
        }),
        ("clone_value", CL, Same, |w| {
            let W { a, bx, .. } = w;
            if let Some(v) = a.as_ref().unwrap().iter().next() {
                let n = v.clone_value();
                let old = bx.replace(n);
                std::mem::forget(std::mem::replace(&mut w.by, old).map(|o| w.t.push(*o.downcast::<E>().unwrap())));
            }
        }),
        ("ValueMut::clone_value", CL, Same, |w| {
            let W { a, .. } = w;
            if let Some(v) = a.as_mut().unwrap().iter_mut().next() {
                let n = v.clone_value();
                w.t.push(*n.downcast::<E>().unwrap());
            }
        }),
        ("clone_small_value", CL, Same, |w| {
            let fits = w.sm.is_some();
            let W { a, t, .. } = w;
            if let (true, Some(v)) = (fits, a.as_ref().unwrap().iter().next()) {
                let n = v.clone_small_value();
                t.push(n.downcast::<E>().unwrap());
            }
        }),
        ("ValueMut::clone_small_value", CL, Same, |w| {
            let fits = w.sm.is_some();
            let W { a, t, .. } = w;
            if let (true, Some(v)) = (fits, a.as_mut().unwrap().iter_mut().next()) {
                let n = v.clone_small_value();
                t.push(n.downcast::<E>().unwrap());
            }
        }),
        ("BoxValue::clone", CL, Same, |w| {
            let n = w.bx.as_ref().unwrap().clone();
            w.boxed = n.downcast::<E>();
        }),
        ("SmallValue::clone", CL, Same, |w| {
            if let Some(v) = &w.sm {
                let n = v.clone();
                w.t.push(n.downcast::<E>().unwrap());
            }
        }),
        ("BoxValue drop", DR, Same, |w| drop(w.bx.take())),
        ("SmallValue drop", DR, Same, |w| drop(w.sm.take())),
        ("BoxValue::downcast wrong type", DR, Same, |w| drop(w.bt.take().unwrap().downcast::<E>())),
        ("BoxValue::downcast", DR, Same, |w| drop(w.bx.take().unwrap().downcast::<E>())),
        ("SmallValue::downcast wrong type", DR, Same, |w| {
            w.st.take().map(|v| drop(v.downcast::<E>()));
        }),
        ("SmallValue::downcast", DR, Same, |w| {
            w.sm.take().map(|v| drop(v.downcast::<E>()));
        }),
        ("replace boxed", DR, Same, |w| {
            let y = w.by.take().unwrap();
            *w.bx.as_mut().unwrap() = y;
        }),
        ("upcast and drop", DR, Any, |w| drop(w.a.take().unwrap().upcast::<DropVTable>())),
        ("upcast boxed and drop", DR, Same, |w| drop(w.bx.take().unwrap().upcast::<DropVTable>())),
        ("upcast small and drop", DR, Same, |w| {
            w.sm.take().map(|v| drop(v.upcast::<DropVTable>()));
        }),
        ("VecDyn ==", EQ, Same, |w| {
            let W { a, .. } = w;
            let a = a.as_ref().unwrap();
            assert!(a == a);
        }),
        ("VecDyn !=", EQ, Same, |w| {
            let W { a, b, .. } = w;
            assert!(a.as_ref().unwrap() != b.as_ref().unwrap());
        }),
        ("Slice ==", EQ, Same, |w| {
            let s = w.a.as_ref().unwrap().as_slice();
            assert!(s == s);
        }),
        ("SliceMut ==", EQ, Same, |w| {
            let s = w.a().as_mut_slice();
            assert!(s == s);
        }),
        ("Value ==", EQ, Same, |w| {
            assert!(w.bx != w.by);
            assert!(w.sm == w.sm);
            let again = w.t.len();
            w.t.push(E::make(60));
            let r: ValueRef<VA> = ValueRef::new(&w.t[again]);
            let l = w.bx.as_ref().unwrap().as_ref();
            assert!(l == r || w.bx.as_ref().unwrap().as_ref().downcast::<E>().unwrap().label() != 60);
        }),
        ("VecDyn hash", HA, Same, |w| w.a().hash(&mut PanicHasher(Rec::default(), 0))),
        ("Value hash", HA, Same, |w| {
            w.bx.hash(&mut PanicHasher(Rec::default(), 0));
            w.sm.hash(&mut PanicHasher(Rec::default(), 0));
            for v in w.a().iter_mut() {
                v.hash(&mut PanicHasher(Rec::default(), 0));
            }
            for v in w.a().iter() {
                v.hash(&mut PanicHasher(Rec::default(), 0));
            }
        }),
        ("VecDyn debug", DB, Same, |w| write!(PanicWriter(String::new()), "{:?}", w.a()).unwrap()),
        ("Slice debug", DB, Same, |w| write!(PanicWriter(String::new()), "{:?}", w.a().as_slice()).unwrap()),
        ("SliceMut debug", DB, Same, |w| write!(PanicWriter(String::new()), "{:#?}", w.a().as_mut_slice()).unwrap()),
        ("Value debug", DB, Same, |w| {
            write!(PanicWriter(String::new()), "{:?}", w.bx).unwrap();
            write!(PanicWriter(String::new()), "{:?}", w.sm).unwrap();
        }),
        ("as hash map keys", &[Cb::Hash, Cb::Eq], Same, |w| {
            let mut m = std::collections::HashMap::with_hasher(std::hash::BuildHasherDefault::<Rec>::default());
            let (x, y) = (w.bx.take().unwrap(), w.by.take().unwrap());
            m.insert(x, 1);
            m.insert(y, 2);
        }),
        ("clone of a clone", CD, Same, |w| {
            let c = w.a().clone();
            let d = c.clone();
            w.c = Some(d);
        }),
        ("collect values", CD, Same, |w| {
            let v: Vec<BV> = w.a().iter().map(|v| v.clone_value()).collect();
            drop(v);
        }),
        ("append then drop the other", DR, Prefix, |w| {
            let W { a, b, .. } = w;
            a.as_mut().unwrap().append(b.as_mut().unwrap());
            drop(b.take());
        }),
        ("append wrong type then drop the other", DR, Same, |w| {
            let t = w.tw.drain(..).collect::<Vec<_>>();
            let mut o = VD::from_vec(t);
            w.a().append(&mut o);
        }),
    ]
}
use dync::traits::DropVTable;
fn step<E: TElem>(w: &mut W<E>, op: &Op<E>, kind: Cb, k: usize) -> bool {
    let before: Option<Vec<u8>> = w.a.as_ref().map(|a| a.as_slice_as::<E>().unwrap().iter().map(|e| e.label()).collect());
    arm(kind, k);
    let r = guarded(|| (op.3)(w));
    disarm();
    let f = fired();
    if f {
        ck!(r.is_err(), Panic, "panic of a callback did not reach the caller", "{}", op.0);
        let m = panic_msg();
        ck!(m == "injected", Panic, "panic of a callback was replaced by another one", "{}: {}", op.0, m);
    } else {
        ck!(r.is_ok(), Panic, "operation panicked by itself", "{}: {}", op.0, panic_msg());
    }
    if mc::rep::any() {
        return f;
    }
    let la = w.check(op.0);
    if let (true, Some(b), true) = (f, before, w.a.is_some()) {
        let ok = match op.2 {
            Post::Same => la == b,
            Post::Prefix => la.len() >= b.len() && la[..b.len()] == b[..],
            Post::Shorter => la.len() <= b.len() && la[..] == b[..la.len()],
            Post::Length => la.len() == b.len(),
            Post::Any => true,
        };
        ck!(ok, Content, "contents wrong after a panic", "{}: {:?} became {:?}", op.0, b, la);
    }
    f
}

fn run<E: TElem>(c: &mut Cases, deep: bool) {
    for (n, spare) in [(0, 0), (0, 3), (1, 0), (2, 0), (2, 3), (3, 0), (3, 1)] {
        for op in &ops::<E>() {
            for kind in op.1 {
                for k in 0..60 {
                    let more = Cell::new(c.only.is_some());
                    c.run(format_args!("{} n={} spare={} {} {:?} {}", E::NAME, n, spare, op.0, kind, k), || {
                        let mut w = W::<E>::new(n, spare);
                        let f = step(&mut w, op, *kind, k);
                        more.set(f);
                        if mc::rep::any() {
                            std::mem::forget(w);
                            return false;
                        }
                        let la: Vec<u8> = w.a.as_ref().map_or(vec![], |a| a.as_slice_as::<E>().unwrap().iter().map(|e| e.label()).collect());
                        w.go_on(&la);
                        drop(w);
                        expect_none_live();
                        f
                    });
                    if !more.get() {
                        break;
                    }
                }
            }
        }
    }
    if !deep {
        return;
    }
    // two faults in a row
    for (n, spare) in [(2, 0), (2, 3)] {
        for o1 in &ops::<E>() {
            for k1 in o1.1 {
                for i1 in 0..60 {
                    let more1 = Cell::new(c.only.is_some());
                    for o2 in &ops::<E>() {
                        for k2 in o2.1 {
                            for i2 in 0..8 {
                                let more2 = Cell::new(c.only.is_some());
                                c.run(format_args!("{} n={} spare={} {} {:?} {} then {} {:?} {}", E::NAME, n, spare, o1.0, k1, i1, o2.0, k2, i2), || {
                                    let mut w = W::<E>::new(n, spare);
                                    let f1 = step(&mut w, o1, *k1, i1);
                                    more1.set(f1);
                                    // the second operation needs its operands
                                    if w.a.is_none() {
                                        w.a = Some(vd::<E>(1, 0, 1));
                                    }
                                    if w.b.is_none() {
                                        w.b = Some(vd::<E>(2, 20, 0));
                                    }
                                    w.bx.get_or_insert_with(|| BV::new(E::make(60)));
                                    w.by.get_or_insert_with(|| BV::new(E::make(61)));
                                    w.bt.get_or_insert_with(|| BV::new(<E::Twin>::make(62)));
                                    while w.t.len() < 6 {
                                        w.t.push(E::make(43));
                                    }
                                    if w.tw.is_empty() {
                                        w.tw.push(<E::Twin>::make(52));
                                    }
                                    if w.boxed.is_some() {
                                        w.boxed = None;
                                    }
                                    w.a().resize(2, E::make(7)); // both operations work on short containers
                                    if w.bx == w.by || w.a == w.b {
                                        // equal operands: the assertions of the comparing operations do not apply
                                        w.by = Some(BV::new(E::make(65)));
                                        w.b = Some(vd::<E>(2, 30, 0));
                                    }
                                    if !mc::rep::any() {
                                        more2.set(step(&mut w, o2, *k2, i2));
                                    }
                                    if mc::rep::any() {
                                        std::mem::forget(w);
                                        return false;
                                    }
                                    drop(w);
                                    expect_none_live();
                                    f1
                                });
                                if !more2.get() {
                                    break;
                                }
                            }
                        }
                    }
                    if !more1.get() {
                        break;
                    }
                }
            }
        }
    }
}

// ---- containers of Copy types -----------------------------------------------------------

/// A Copy type whose Clone is a callback.
#[derive(Copy, PartialEq, Eq, Debug, Hash)]
#[repr(C)]
struct Cc(u32, u8, u8);
impl Clone for Cc {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Self {
        callback(Cb::Clone);
        Cc(self.0, self.1, self.2)
    }
}
fn cc(x: u32) -> Cc {
    Cc(x, x as u8, !(x as u8))
}
fn ccs(n: usize, from: u32) -> Vec<Cc> {
    (0..n as u32).map(|i| cc(from + i)).collect()
}
struct Src<'a, I: Iterator<Item = CopyValueRef<'a, VA>>>(I, (usize, Option<usize>));
impl<'a, I: Iterator<Item = CopyValueRef<'a, VA>>> Iterator for Src<'a, I> {
    type Item = CopyValueRef<'a, VA>;
    fn next(&mut self) -> Option<Self::Item> {
        callback(Cb::Iter);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        callback(Cb::Iter);
        self.1
    }
}

type COp = (&'static str, &'static [Cb], fn(&mut VC, &mut Vec<Cc>, &mut Option<VC>, &VC));
fn cops() -> Vec<COp> {
    const CL: &[Cb] = &[Cb::Clone];
    const IT: &[Cb] = &[Cb::Iter];
    vec![
        ("with_size", CL, |_, _, c, _| *c = Some(VC::with_size(3, cc(9)))),
        ("from_slice", CL, |_, o, c, _| *c = Some(VC::from_slice(o))),
        ("From<&[T]>", CL, |_, o, c, _| *c = Some(o.as_slice().into())),
        ("resize up", CL, |a, _, _, _| drop(a.resize(7, cc(9)).is_some())),
        ("resize down", CL, |a, _, _, _| drop(a.resize(1, cc(9)).is_some())),
        ("fill", CL, |a, _, _, _| drop(a.fill(cc(9)).is_some())),
        ("copy_from_slice", CL, |a, _, _, _| {
            let v = ccs(a.len(), 30);
            a.copy_from_slice(&v);
        }),
        ("SliceCopyMut::copy_from_slice", CL, |a, _, _, _| {
            let v = ccs(a.len(), 30);
            a.as_mut_slice().copy_from_slice(&v);
        }),
        ("append_copy_to_vec", CL, |a, o, _, _| drop(a.append_copy_to_vec(o).is_some())),
        ("copy_into_vec", CL, |a, o, _, _| *o = a.copy_into_vec().unwrap()),
        ("SliceCopy::append_copy_to_vec", CL, |a, o, _, _| drop(a.as_slice().append_copy_to_vec(o).is_some())),
        ("SliceCopy::copy_into_vec", CL, |a, o, _, _| *o = a.as_slice().copy_into_vec().unwrap()),
        ("SliceCopyMut::append_copy_to_vec", CL, |a, o, _, _| drop(a.as_mut_slice().append_copy_to_vec(o).is_some())),
        ("SliceCopyMut::copy_into_vec", CL, |a, o, _, _| *o = a.as_mut_slice().copy_into_vec().unwrap()),
        ("get_as", CL, |a, _, _, _| {
            if a.len() > 0 {
                a.get_as::<Cc>(0);
            }
        }),
        ("clone", CL, |a, _, c, _| *c = Some(a.clone())),
        ("extend", IT, |a, _, _, b| a.extend(Src(b.iter(), (0, None)))),
        ("extend with hint", IT, |a, _, _, b| a.extend(Src(b.iter(), (b.len(), Some(b.len()))))),
        ("collect", IT, |_, _, c, b| *c = Some(Src(b.iter(), (0, None)).collect())),
        ("collect with hint", IT, |_, _, c, b| *c = Some(Src(b.iter(), (b.len(), Some(b.len()))).collect())),
        ("collect chained", IT, |a, _, c, b| *c = Some(Src(a.iter().chain(b.iter()), (2, None)).collect())),
        ("upcast_with", IT, |_, _, c, b| {
            let x = b.clone();
            *c = Some(x.upcast_with(|v| {
                callback(Cb::Iter);
                v
            }))
        }),
    ]
}
fn whole(v: &mut VC, what: &str) -> Vec<u32> {
    match v.as_slice_as::<Cc>() {
        Some(s) => {
            for x in s {
                ck!(x.1 == x.0 as u8 && x.2 == !(x.0 as u8), Mem, "element torn after a panic", "{} {:?}", what, x);
            }
            s.iter().map(|x| x.0).collect()
        }
        None => {
            vio!(Content, "container lost its element type after a panic", "{}", what);
            vec![]
        }
    }
}
fn copies(c: &mut Cases) {
    for (n, spare) in [(0, 0), (0, 4), (1, 0), (3, 0), (3, 2)] {
        for op in &cops() {
            for kind in op.1 {
                for k in 0..40 {
                    let more = Cell::new(c.only.is_some());
                    c.run(format_args!("copy n={} spare={} {} {:?} {}", n, spare, op.0, kind, k), || {
                        let mut v = Vec::with_capacity(n + spare);
                        v.extend(ccs(n, 0));
                        let mut a = VC::from_vec(v);
                        let b = VC::from_vec(ccs(5, 10));
                        let mut o = ccs(2, 20);
                        let mut out = None;
                        let before = whole(&mut a, op.0);
                        arm(*kind, k);
                        let r = guarded(|| (op.2)(&mut a, &mut o, &mut out, &b));
                        disarm();
                        let f = fired();
                        more.set(f);
                        ck!(f == r.is_err(), Panic, if f { "panic of a callback did not reach the caller" } else { "operation panicked by itself" }, "{}: {}", op.0, panic_msg());
                        if f {
                            let m = panic_msg();
                            ck!(m == "injected", Panic, "panic of a callback was replaced by another one", "{}: {}", op.0, m);
                            ck!(out.is_none(), Content, "result produced although a callback panicked", "{}", op.0);
                        }
                        let after = whole(&mut a, op.0);
                        if f {
                            let extends = op.0.starts_with("extend");
                            let all: Vec<u32> = before.iter().copied().chain(10..15).collect();
                            let ok = if extends {
                                after.len() >= before.len() && after.len() <= all.len() && after[..] == all[..after.len()]
                            } else if op.0.starts_with("resize up") {
                                after.len() >= before.len() && after[..before.len()] == before[..]
                            } else if op.0 == "resize down" {
                                after.len() <= before.len().max(1) && after.iter().zip(&before).all(|(x, y)| x == y)
                            } else if op.0 == "fill" || op.0.ends_with("copy_from_slice") {
                                after.len() == before.len()
                            } else {
                                after == before
                            };
                            ck!(ok, Content, "contents wrong after a panic", "{}: {:?} became {:?}", op.0, before, after);
                        }
                        a.push_as(cc(77));
                        let d = a.clone();
                        a.extend(d.iter());
                        let mut want = after;
                        want.push(77);
                        let w2 = want.clone();
                        want.extend(w2);
                        ck!(whole(&mut a, op.0) == want, Content, "container unusable after a panic", "{}", op.0);
                        f
                    });
                    if !more.get() {
                        break;
                    }
                }
            }
        }
    }
    let _ = mon::live();
}

fn main() {
    let a = mc::args();
    if a.list {
        for n in "K8x8 K1x1 K3x1 K16x16 K24x8 BoxK String K4096x4096 copy deep-K8x8 deep-K16x16".split(' ') {
            println!("{}", n);
        }
        return;
    }
    let mut cs = Cases::new(a.only.clone());
    let c = &mut cs;
    match a.job.as_str() {
        "K8x8" => run::<K8x8>(c, false),
        "K1x1" => run::<K1x1>(c, false),
        "K3x1" => run::<K3x1>(c, false),
        "K16x16" => run::<K16x16>(c, false),
        "K24x8" => run::<K24x8>(c, false),
        "BoxK" => run::<BoxK>(c, false),
        "String" => run::<String>(c, false),
        "K4096x4096" => run::<K4096x4096>(c, false),
        "copy" => copies(c),
        "deep-K8x8" => run::<K8x8>(c, true),
        "deep-K16x16" => run::<K16x16>(c, true),
        j => panic!("no job {}", j),
    }
    cs.res.states = cs.res.execs;
    cs.res.transitions = cs.res.execs;
    cs.res.print();
}
