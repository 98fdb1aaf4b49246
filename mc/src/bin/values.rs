//! Value handles (C07): histories over owned, small and borrowed handles, searched to closure.
use dync::*;
use mc::bfs::{drive, named, nested, Bounds, Sys};
use mc::elems::*;
use mc::rep::guarded;
use mc::vd::{val_mut, val_ref, VA, VD};
use mc::{ck, vio};
use std::any::TypeId;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::BuildHasherDefault;
use std::marker::PhantomData;
use std::mem::size_of;

type BV = BoxValue<VA>;
type SV = SmallValue<VA>;

// Places: 0, 1 boxes; 2 small value; 3, 4 elements of a container; 5 a typed E; 6 a typed twin.
const N: usize = 7;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    NewBox(usize, bool, u8),
    NewSmall(bool, u8, bool),
    SmallRefused,
    SmallPanics,
    Drop(usize),
    Swap(usize, usize, u8),
    AssignBox(usize, usize, u8),
    AssignSmall(usize, u8),
    CloneFrom(usize, usize, u8),
    CloneFromOwned(usize, usize),
    CloneVal(usize, usize, u8),
    CloneSmall(usize, u8),
    CloneSmallPanics(usize, u8),
    CloneBox(usize, bool),
    CloneSmallSelf,
    Take(usize),
    TakeWrong(usize),
    Upcast(usize),
    MemSwap,
    Write(usize, u8, u8),
    PushOut(usize),
}

struct W<E: TElem> {
    b: [Option<BV>; 2],
    s: Option<SV>,
    d: VD,
    t: E,
    u: E::Twin,
    m: [Option<(bool, u8)>; N],
}
struct S<E> {
    ops: Vec<Op>,
    _e: PhantomData<E>,
}
macro_rules! kind {
    ($twin:expr, $T:ident => $body:expr) => {
        if $twin {
            type $T<E> = <E as TElem>::Twin;
            $body
        } else {
            type $T<E> = E;
            $body
        }
    };
}
fn muts<E: TElem>(w: &mut W<E>) -> [Option<ValueMut<'_, VA>>; N] {
    let [b0, b1] = &mut w.b;
    let mut it = w.d.iter_mut();
    [
        b0.as_mut().map(|b| b.as_mut()),
        b1.as_mut().map(|b| b.as_mut()),
        w.s.as_mut().map(|s| s.as_mut()),
        it.next(),
        it.next(),
        Some(ValueMut::new(&mut w.t)),
        Some(ValueMut::new(&mut w.u)),
    ]
}
fn refs<E: TElem>(w: &W<E>) -> [Option<ValueRef<'_, VA>>; N] {
    [
        w.b[0].as_ref().map(|b| b.as_ref()),
        w.b[1].as_ref().map(ValueRef::from),
        w.s.as_ref().map(|s| s.as_ref()),
        Some(w.d.get(0)),
        w.d.iter().nth(1),
        Some(ValueRef::new(&w.t)),
        Some(ValueRef::new(&w.u)),
    ]
}
/// Use a handle through one of the ways of deriving another handle from it.
fn via<R>(mut v: ValueMut<VA>, how: u8, f: impl FnOnce(ValueMut<VA>) -> R) -> R {
    match how {
        1 => f(v.reborrow_mut()),
        2 => f(v.upcast::<VA>()),
        3 => f(v.upcast_mut::<VA>()),
        _ => f(v),
    }
}
fn via_ref<R>(v: ValueRef<VA>, how: u8, f: impl FnOnce(ValueRef<VA>) -> R) -> R {
    match how {
        1 => f(v.reborrow()),
        2 => f(v.upcast::<VA>()),
        3 => f(v.upcast_ref::<VA>()),
        4 => f(v.clone()),
        _ => f(v),
    }
}
impl<E: TElem> S<E> {
    fn new(rich: bool) -> Self {
        use Op::*;
        let mut o = Vec::new();
        let small = size_of::<E>() == 8;
        let places: Vec<usize> = (0..N).filter(|p| small || *p != 2).collect();
        let owned: Vec<usize> = (0..3).filter(|p| small || *p != 2).collect();
        for t in [false, true] {
            for l in 0..2 {
                for s in 0..2 {
                    o.push(NewBox(s, t, l));
                }
                if small {
                    o.extend([NewSmall(t, l, false), NewSmall(t, l, true)]);
                }
            }
        }
        if !small {
            o.extend([SmallRefused, SmallPanics]);
        }
        for &p in &owned {
            o.extend([Drop(p), Take(p), TakeWrong(p), Upcast(p), PushOut(p)]);
        }
        for &a in &places {
            for &b in &places {
                if a == b {
                    continue;
                }
                for how in 0..if rich { 4 } else { 1 } {
                    o.push(Swap(a, b, how));
                }
                for how in 0..if rich { 4 } else { 2 } {
                    o.push(CloneFrom(a, b, how));
                }
                if owned.contains(&b) {
                    o.push(CloneFromOwned(a, b));
                    if b == 2 {
                        o.push(AssignSmall(a, 0));
                        o.push(AssignSmall(a, 1));
                    } else {
                        o.push(AssignBox(a, b, 0));
                        o.push(AssignBox(a, b, 1));
                    }
                }
            }
            o.extend([Swap(a, (a + 1) % N, 1), Swap(a, (a + 3) % N, 2), Swap(a, (a + 4) % N, 3)]);
            for how in 0..9 {
                o.push(CloneVal(a, (how as usize + a) % 2, how));
                if small {
                    o.push(CloneSmall(a, how));
                }
            }
            if !small {
                o.extend([CloneSmallPanics(a, 0), CloneSmallPanics(a, 8)]);
            }
            for how in 0..4 {
                o.push(Write(a, how % 2, how));
            }
        }
        o.retain(|x| match x {
            Swap(a, b, _) => a != b && places.contains(b),
            _ => true,
        });
        o.extend([CloneBox(0, false), CloneBox(1, false), CloneBox(0, true), CloneBox(1, true), MemSwap]);
        if small {
            o.push(CloneSmallSelf);
        }
        S { ops: o, _e: PhantomData }
    }
}
impl<E: TElem> Sys for S<E> {
    type W = W<E>;
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn opname(&self, op: usize) -> String {
        format!("{:?}", self.ops[op])
    }
    fn fresh(&self) -> W<E> {
        W {
            b: [None, None],
            s: None,
            d: VD::from_vec(vec![E::make(0), E::make(1)]),
            t: E::make(0),
            u: E::Twin::make(1),
            m: [None, None, None, Some((false, 0)), Some((false, 1)), Some((false, 0)), Some((true, 1))],
        }
    }
    fn enabled(&self, w: &W<E>, op: usize) -> bool {
        use Op::*;
        let m = &w.m;
        match self.ops[op] {
            NewBox(..) | NewSmall(..) | SmallRefused | SmallPanics | MemSwap => true,
            Drop(p) | Take(p) | TakeWrong(p) | Upcast(p) | PushOut(p) => m[p].is_some(),
            Swap(a, b, _) | CloneFrom(a, b, _) | CloneFromOwned(a, b) | AssignBox(a, b, _) => m[a].is_some() && m[b].is_some(),
            AssignSmall(a, _) => m[a].is_some() && m[2].is_some(),
            CloneVal(a, _, _) | CloneSmall(a, _) | CloneSmallPanics(a, _) | Write(a, _, _) => m[a].is_some(),
            CloneBox(a, _) => m[a].is_some(),
            CloneSmallSelf => m[2].is_some(),
        }
    }
    fn owned(&self, w: &W<E>) -> Option<usize> {
        if E::COUNTED {
            Some(w.m.iter().filter(|x| x.is_some()).count())
        } else {
            None
        }
    }
    fn canon(&self, w: &W<E>, out: &mut Vec<u8>) {
        for p in &w.m {
            out.push(match p {
                None => 9,
                Some((t, l)) => *l * 2 + *t as u8,
            });
        }
    }
    fn apply(&self, w: &mut W<E>, op: usize) {
        use Op::*;
        match self.ops[op] {
            NewBox(s, t, l) => {
                w.b[s] = None;
                w.b[s] = Some(kind!(t, T => BV::new(T::<E>::make(l))));
                w.m[s] = Some((t, l));
            }
            NewSmall(t, l, try_) => {
                w.s = kind!(t, T => if try_ { SV::try_new(T::<E>::make(l)) } else { Some(SV::new(T::<E>::make(l))) });
                ck!(w.s.is_some(), Content, "value of pointer size refused", "try_new");
                w.m[2] = Some((t, l));
            }
            SmallRefused => ck!(SV::try_new(E::make(1)).is_none(), Content, "value of other than pointer size accepted", "try_new"),
            SmallPanics => ck!(guarded(|| SV::new(E::make(1))).is_err(), Content, "value of other than pointer size accepted", "new"),
            Drop(p) => {
                if p == 2 { w.s = None } else { w.b[p] = None }
                w.m[p] = None;
            }
            Swap(a, b, how) => {
                let mut v = muts(w);
                let (x, y) = (v[a].take().unwrap(), v[b].take().unwrap());
                via(x, how, |mut x| via(y, if how == 0 { 0 } else { 4 - how }, |mut y| x.swap(&mut y)));
                std::mem::drop(v);
                if w.m[a].unwrap().0 == w.m[b].unwrap().0 {
                    w.m.swap(a, b);
                }
            }
            AssignBox(a, s, how) => {
                let val = w.b[s].take().unwrap();
                let x = w.m[s].take().unwrap();
                let mut v = muts(w);
                via(v[a].take().unwrap(), how, |mut d| d.assign(val));
                std::mem::drop(v);
                if w.m[a].unwrap().0 == x.0 { w.m[a] = Some(x); }
            }
            AssignSmall(a, how) => {
                let val = w.s.take().unwrap();
                let x = w.m[2].take().unwrap();
                let mut v = muts(w);
                via(v[a].take().unwrap(), how, |mut d| d.assign(val));
                std::mem::drop(v);
                if w.m[a].unwrap().0 == x.0 { w.m[a] = Some(x); }
            }
            CloneFrom(a, b, how) => {
                let (ma, mb) = (w.m[a].unwrap(), w.m[b].unwrap());
                let mut v = muts(w);
                let (mut x, mut y) = (v[a].take().unwrap(), v[b].take().unwrap());
                let r = match how {
                    0 => x.clone_from_other(y),
                    1 => x.clone_from_other(y.reborrow()),
                    2 => x.reborrow_mut().clone_from_other(ValueRef::from(y.reborrow_mut())),
                    _ => x.upcast_mut::<VA>().clone_from_other(y.upcast_mut::<VA>()),
                };
                result::<E>(r, ma.0, mb.0);
                std::mem::drop(v);
                if ma.0 == mb.0 { w.m[a] = Some(mb); }
            }
            CloneFromOwned(a, b) => {
                let (ma, mb) = (w.m[a].unwrap(), w.m[b].unwrap());
                if b == 2 {
                    let s = w.s.take().unwrap();
                    let r = muts(w)[a].as_mut().unwrap().clone_from_other(&s);
                    result::<E>(r, ma.0, mb.0);
                    w.s = Some(s);
                } else {
                    let s = w.b[b].take().unwrap();
                    let r = muts(w)[a].as_mut().unwrap().clone_from_other(&s);
                    result::<E>(r, ma.0, mb.0);
                    w.b[b] = Some(s);
                }
                if ma.0 == mb.0 { w.m[a] = Some(mb); }
            }
            CloneVal(a, s, how) => {
                let c = if how < 5 {
                    via_ref(refs(w)[a].take().unwrap(), how, |v| v.clone_value())
                } else {
                    via(muts(w)[a].take().unwrap(), how - 5, |v| v.clone_value())
                };
                let m = w.m[a];
                w.b[s] = Some(c);
                w.m[s] = m;
            }
            CloneSmall(a, how) => {
                let c = if how < 5 {
                    via_ref(refs(w)[a].take().unwrap(), how, |v| v.clone_small_value())
                } else {
                    via(muts(w)[a].take().unwrap(), how - 5, |v| v.clone_small_value())
                };
                let m = w.m[a];
                w.s = Some(c);
                w.m[2] = m;
            }
            CloneSmallPanics(a, how) => {
                let r = guarded(|| {
                    std::mem::drop(if how == 0 { refs(w)[a].take().unwrap().clone_small_value() } else { muts(w)[a].take().unwrap().clone_small_value() })
                });
                ck!(r.is_err(), Content, "value of other than pointer size accepted", "clone_small_value");
            }
            CloneBox(a, from) => {
                if from && w.b[1 - a].is_some() {
                    let [x, y] = &mut w.b;
                    let (x, y) = (x.as_mut().unwrap(), y.as_mut().unwrap());
                    if a == 0 { y.clone_from(x) } else { x.clone_from(y) }
                } else {
                    w.b[1 - a] = w.b[a].clone();
                }
                w.m[1 - a] = w.m[a];
            }
            CloneSmallSelf => {
                let c = w.s.clone();
                w.s = c;
            }
            Take(p) => {
                let (t, l) = w.m[p].take().unwrap();
                if t {
                    let x = if p == 2 { w.s.take().unwrap().downcast::<E::Twin>() } else { w.b[p].take().unwrap().downcast::<E::Twin>().map(|b| *b) };
                    match x {
                        Some(x) => w.u = x,
                        None => vio!(Content, "right-type operation refused", "downcast of owned value"),
                    }
                    w.m[6] = Some((true, l));
                } else {
                    let x = if p == 2 { w.s.take().unwrap().downcast::<E>() } else { w.b[p].take().unwrap().downcast::<E>().map(|b| *b) };
                    match x {
                        Some(x) => w.t = x,
                        None => vio!(Content, "right-type operation refused", "downcast of owned value"),
                    }
                    w.m[5] = Some((false, l));
                }
            }
            TakeWrong(p) => {
                let (t, _) = w.m[p].take().unwrap();
                let none = if p == 2 {
                    let s = w.s.take().unwrap();
                    if t { s.downcast::<E>().is_none() } else { s.downcast::<E::Twin>().is_none() }
                } else {
                    let b = w.b[p].take().unwrap();
                    if t { b.downcast::<E>().is_none() } else { b.downcast::<E::Twin>().is_none() }
                };
                ck!(none, Type, "wrong-type operation accepted", "downcast of owned value");
            }
            Upcast(p) => {
                if p == 2 {
                    let s = w.s.take().unwrap();
                    w.s = Some(s.upcast::<VA>());
                } else {
                    let b = w.b[p].take().unwrap();
                    w.b[p] = Some(b.upcast::<VA>());
                }
            }
            MemSwap => {
                w.b.swap(0, 1);
                w.m.swap(0, 1);
            }
            Write(a, l, how) => {
                let t = w.m[a].unwrap().0;
                let mut v = muts(w);
                let ok = kind!(t, T => via(v[a].take().unwrap(), how, |v| v.downcast::<T<E>>().map(|r| *r = T::<E>::make(l))).is_some());
                ck!(ok, Content, "right-type operation refused", "downcast of mutable handle");
                std::mem::drop(v);
                w.m[a] = Some((t, l));
            }
            PushOut(p) => {
                // An owned value becomes an element, which is assigned back to a box.
                let (t, l) = w.m[p].unwrap();
                let mut d = kind!(t, T => VD::with_type::<T<E>>());
                if p == 2 {
                    let s = w.s.take().unwrap();
                    ck!(d.push_cloned(s.as_ref()).is_some(), Content, "right-type operation refused", "push_cloned");
                    w.s = Some(s);
                } else {
                    ck!(d.push(w.b[p].take().unwrap()).is_some(), Content, "right-type operation refused", "push");
                    ck!(d.len() == 1, Content, "wrong length", "push");
                    w.b[p] = Some(d.get(0).clone_value());
                }
                kind!(t, T => val_ref::<T<E>>(d.get(0), l, d.as_slice_as::<T<E>>().unwrap().as_ptr(), "pushed value"));
            }
        }
    }
    fn observe(&self, w: &mut W<E>) {
        let m = w.m;
        let mut typed_hash: [Vec<u8>; N] = Default::default();
        let mut typed_debug: [String; N] = Default::default();
        for p in 0..N {
            if let Some((t, l)) = m[p] {
                // labels, not identities, determine both
                kind!(t, T => {
                    let x = T::<E>::make(l);
                    typed_hash[p] = rec_hash(&x);
                    typed_debug[p] = format!("{:?}", x);
                });
            }
        }
        let present = |v: &[bool; N]| (0..N).all(|p| v[p] == m[p].is_some());
        let r = refs(w);
        let have = std::array::from_fn(|p| r[p].is_some());
        ck!(present(&have), Content, "handle lost", "{:?}", have);
        if !present(&have) {
            return;
        }
        for p in 0..N {
            let (t, l) = match m[p] {
                Some(x) => x,
                None => continue,
            };
            let v = r[p].as_ref().unwrap();
            kind!(t, T => {
                let at = v.clone().downcast::<T<E>>().map(|x| x as *const T<E>).unwrap_or(std::ptr::null());
                val_ref::<T<E>>(v.reborrow(), l, at, "reference");
                val_ref::<T<E>>(v.clone(), l, at, "cloned reference");
                let o = v.clone_value();
                let at = o.as_ref().downcast::<T<E>>().map(|x| x as *const T<E>).unwrap_or(std::ptr::null());
                ck!(o.size() == size_of::<T<E>>() && o.is::<T<E>>() && !o.is::<<T<E> as TElem>::Twin>() && o.value_type_id() == TypeId::of::<T<E>>()
                    && o.value_alignment() == std::mem::align_of::<T<E>>(), Content, "owned value reports wrong size, alignment or type", "place {}", p);
                val_ref::<T<E>>(o.as_ref(), l, at, "clone_value");
                match o.downcast::<T<E>>() {
                    Some(b) => ck!(b.label() == l, Content, "wrong element contents", "clone_value of place {}: {} want {}", p, b.label(), l),
                    None => vio!(Content, "right-type operation refused", "downcast of clone_value"),
                }
            });
            ck!(rec_hash(v) == typed_hash[p], Content, "value hashes differently from the typed value", "place {}", p);
            ck!(format!("{:?}", v) == typed_debug[p], Content, "value prints differently from the typed value", "place {}: {:?}", p, v);
            for q in 0..N {
                if let Some(u) = &r[q] {
                    ck!((v == u) == (m[p] == m[q]), Content, "equality of values is not that of the typed values", "{} {}: {}", p, q, v == u);
                }
            }
        }
        drop(r);
        let mut v = muts(w);
        for p in 0..N {
            let (t, l) = match m[p] {
                Some(x) => x,
                None => continue,
            };
            for q in 0..N {
                if let (Some(v), Some(u)) = (&v[p], &v[q]) {
                    ck!((v == u) == (m[p] == m[q]), Content, "equality of values is not that of the typed values", "mutable {} {}", p, q);
                }
            }
            let mut x = v[p].take().unwrap();
            ck!(rec_hash(&x) == typed_hash[p], Content, "value hashes differently from the typed value", "mutable handle {}", p);
            ck!(format!("{:?}", x) == typed_debug[p], Content, "value prints differently from the typed value", "mutable {}", p);
            kind!(t, T => {
                let at = x.reborrow().downcast::<T<E>>().map(|x| x as *const T<E>).unwrap_or(std::ptr::null());
                val_mut::<T<E>>(x.reborrow_mut(), l, at, "mutable handle");
                val_mut::<T<E>>(x.upcast_mut::<VA>(), l, at, "upcast_mut handle");
                val_ref::<T<E>>(ValueRef::from(x), l, at, "mutable handle turned shared");
            });
        }
        drop(v);
        // Owned values as keys and in sets.
        let [b0, b1] = &w.b;
        if let (Some(a), Some(b)) = (b0, b1) {
            let same = m[0] == m[1];
            ck!((a == b) == same && (b == a) == same && a == a && (a != b) == !same, Content, "equality of values is not that of the typed values", "boxes");
            ck!(format!("{:?}", a) == format!("{:?}", a.as_ref()) && rec_hash(a) == typed_hash[0], Content, "value prints differently from the typed value", "box");
            let mut set: HashSet<&BV, BuildHasherDefault<DefaultHasher>> = HashSet::default();
            set.insert(a);
            ck!(set.contains(b) == same && !set.insert(a), Content, "value does not work as a key", "set");
            let mut map: HashMap<BV, u32, BuildHasherDefault<DefaultHasher>> = HashMap::default();
            map.insert(a.clone(), 1);
            map.insert(b.clone(), 2);
            ck!(map.len() == if same { 1 } else { 2 } && map.get(b) == Some(&2) && map.get(a) == Some(if same { &2 } else { &1 }), Content, "value does not work as a key", "map");
        }
        if let Some(s) = &w.s {
            ck!(s == s && rec_hash(s) == typed_hash[2] && format!("{:?}", s) == format!("{:?}", s.as_ref()), Content, "value prints differently from the typed value", "small");
            ck!(s.size() == size_of::<E>() && s.value_alignment() == std::mem::align_of::<E>(), Content, "owned value reports wrong size, alignment or type", "small");
            let c = s.clone();
            ck!(c == *s, Content, "clone differs from its source", "small");
            let set: HashSet<SV, BuildHasherDefault<DefaultHasher>> = [c].into_iter().collect();
            ck!(set.contains(s), Content, "value does not work as a key", "small");
        }
        ck!(w.d.len() == 2, Content, "wrong length", "container of the values");
    }
}
fn result<E: TElem>(r: Result<(), Error>, dst: bool, src: bool) {
    let id = |t: bool| if t { TypeId::of::<E::Twin>() } else { TypeId::of::<E>() };
    match r {
        Ok(()) => ck!(dst == src, Type, "wrong-type operation accepted", "clone_from_other"),
        Err(Error::MismatchedTypes { expected, actual }) => {
            ck!(dst != src, Content, "right-type operation refused", "clone_from_other");
            ck!(expected == id(dst) && actual == id(src), Content, "error names wrong types", "clone_from_other");
        }
        Err(_) => vio!(Content, "wrong kind of error", "clone_from_other"),
    }
}

macro_rules! types {
    ($($t:ident),*) => {
        const NAMES: &[&str] = &[$(stringify!($t)),*];
        fn dispatch(ty: &str, f: &str, th: bool, only: &Option<String>) {
            $(if ty == stringify!($t) { return go::<$t>(f, th, only); })*
            panic!("no type {}", ty)
        }
    };
}
types!(K1x1, K3x1, K2x2, K6x2, K4x4, K12x4, K8x8, K24x8, K16x16, K48x16, K64x32, K128x128, K256x256, K1024x1024, K8192x8192, K1100x1, K3000x4, String, BoxK);

fn go<E: TElem>(mode: &str, thorough: bool, only: &Option<String>) {
    let small = size_of::<E>() == 8;
    let big = size_of::<E>() >= 512;
    let r = if let Some(k) = mode.strip_prefix('n') {
        let s = S::<E>::new(false);
        let mut h = named(&s, &["NewBox(0, false, 0)", "NewBox(1, true, 1)"]);
        if small {
            h.extend(named(&s, &["NewSmall(false, 1, false)"]));
        }
        nested(&s, &[h.clone()], &s, &[h], (k.parse().unwrap(), 8), only)
    } else if mode == "u" {
        drive(&S::<E>::new(false), only, Bounds { max_depth: 0, max_states: 0 }, Some(if thorough && !big { 3 } else { 2 }))
    } else {
        let b = if big && !thorough { Bounds { max_depth: 3, max_states: 500 } } else { Bounds { max_depth: 60, max_states: 1_000_000 } };
        drive(&S::<E>::new(thorough), only, b, None)
    };
    r.print();
}
fn main() {
    let a = mc::args();
    if a.list {
        for n in NAMES {
            println!("{}:m", n);
            println!("{}:u", n);
        }
        for n in if a.thorough { &["K8x8", "K24x8", "BoxK"][..] } else { &["K8x8"] } {
            for k in 0..8 {
                println!("{}:n{}", n, k);
            }
        }
        return;
    }
    let (ty, mode) = a.job.split_once(':').unwrap();
    dispatch(ty, mode, a.thorough, &a.only);
}
