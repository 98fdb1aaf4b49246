//! Long containers: every operation with the arguments at which it could change its ways, at
//! lengths around powers of two and round numbers up to 65537, in lockstep with a Vec.
use dync::*;
use mc::elems::{arm, callback, disarm, fired, Cb, Rec};
use mc::rep::{guarded, Cases};
use mc::vd::{VA, VD};
use mc::{ck, vio};
use std::any::TypeId;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

type VC = VecCopy<VA>;

const LENS: &[usize] = &[35, 40, 47, 48, 50, 63, 64, 65, 80, 96, 99, 100, 101, 127, 128, 129, 150, 191, 192, 200, 255, 256, 257, 300, 383, 384, 500, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 1500, 2000,
    2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 65535, 65536, 65537];

static LIVE: AtomicI64 = AtomicI64::new(0);
fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// An element with an identity below `MAX`.
trait El: Clone + PartialEq + Eq + Hash + fmt::Debug + 'static {
    const MAX: u32;
    const OWNED: bool;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
}
/// Elements with a destructor; every lane holds the identity, so that halves of two are noticed.
macro_rules! owned {
    ($n:ident, $t:ty, $k:literal, $max:literal) => {
        #[repr(C)]
        pub struct $n([$t; $k]);
        impl $n {
            fn lane(id: u32, i: usize) -> $t {
                (id as u64).wrapping_mul(0x0001_0001_0001_0001).wrapping_add(i as u64 * 3) as $t
            }
            const DEAD: $t = !0;
        }
        impl El for $n {
            const MAX: u32 = $max;
            const OWNED: bool = true;
            fn mk(id: u32) -> Self {
                LIVE.fetch_add(1, Relaxed);
                $n(std::array::from_fn(|i| Self::lane(id % $max, i)))
            }
            fn id(&self) -> u32 {
                let id = self.0[0] as u32 & 0xFFFF;
                if (0..$k).any(|i| self.0[i] != Self::lane(id, i)) {
                    vio!(Content, "an element is not whole", "{:x?}", &self.0[..]);
                }
                id
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                if self.0.iter().all(|&x| x == Self::DEAD) {
                    vio!(Drop, "an element was dropped twice", "");
                }
                LIVE.fetch_sub(1, Relaxed);
                self.id();
                self.0 = [Self::DEAD; $k];
                callback(Cb::Drop);
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                callback(Cb::Clone);
                Self::mk(self.id())
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                callback(Cb::Eq);
                self.id() == o.id()
            }
        }
        impl Eq for $n {}
        impl Hash for $n {
            fn hash<H: Hasher>(&self, h: &mut H) {
                callback(Cb::Hash);
                h.write_u32(self.id())
            }
        }
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                callback(Cb::Debug);
                write!(f, "<{}>", self.id())
            }
        }
    };
}
owned!(D1, u8, 1, 251);
owned!(D2, u16, 1, 65000);
owned!(D3, u8, 3, 251);
owned!(D8, u64, 1, 65000);
owned!(D12, u32, 3, 65000);
owned!(D24, u64, 3, 65000);
owned!(D72, u64, 9, 65000);

macro_rules! plain {
    ($n:ident, $t:ty, $k:literal, $max:literal) => {
        #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
        #[repr(C)]
        pub struct $n([$t; $k]);
        impl El for $n {
            const MAX: u32 = $max;
            const OWNED: bool = false;
            fn mk(id: u32) -> Self {
                $n(std::array::from_fn(|i| ((id % $max) as u64).wrapping_add(i as u64 * 3) as $t))
            }
            fn id(&self) -> u32 {
                let id = self.0[0] as u32;
                if (0..$k).any(|i| self.0[i] != (id as u64).wrapping_add(i as u64 * 3) as $t) {
                    vio!(Content, "an element is not whole", "{:x?}", &self.0[..]);
                }
                id
            }
        }
    };
}
plain!(P1, u8, 1, 251);
plain!(P2, u16, 1, 65000);
plain!(P3, u8, 3, 251);
plain!(P4, u32, 1, 65000);
plain!(P8, u64, 1, 65000);
plain!(P12, u32, 3, 65000);
plain!(P24, u64, 3, 65000);
plain!(P72, u64, 9, 65000);

/// Distinct windows for every type: identities advance by a stride that no small cycle divides.
fn ids(n: usize, from: u32) -> impl Iterator<Item = u32> {
    (0..n as u32).map(move |i| i.wrapping_mul(7).wrapping_add(i / 251).wrapping_add(from))
}
fn vec<E: El>(n: usize, spare: usize, from: u32) -> Vec<E> {
    let mut v = Vec::with_capacity(n + spare);
    v.extend(ids(n, from).map(E::mk));
    v
}
/// Arguments that could matter for a length.
fn places(n: usize) -> Vec<usize> {
    let mut p = vec![0, 1, 2, 7, 31, 32, 63, 64, 65, n / 3, n / 2, n.saturating_sub(64), n.saturating_sub(33), n.saturating_sub(2), n.saturating_sub(1), n];
    p.retain(|&x| x <= n);
    p.sort();
    p.dedup();
    p
}
fn same<E: El>(got: &[E], want: &[E], what: &str) {
    if got.len() != want.len() {
        vio!(Content, "wrong length", "{}: {} instead of {}", what, got.len(), want.len());
    } else if let Some(i) = (0..got.len()).find(|&i| got[i].id() != want[i].id()) {
        vio!(Content, "wrong element contents", "{}: {} instead of {} at {}", what, got[i].id(), want[i].id(), i);
    }
}
fn see<E: El>(v: &VD, m: &[E], what: &str) {
    ck!(v.len() == m.len() && v.element_type_id() == TypeId::of::<E>(), Content, "wrong length", "{}: {} instead of {}", what, v.len(), m.len());
    match v.as_slice_as::<E>() {
        Some(s) => same(s, m, what),
        None => vio!(Type, "right-type operation refused", "{}", what),
    }
    let mut k = 0;
    for r in v.iter() {
        match r.downcast::<E>() {
            Some(e) if k < m.len() && e.id() == m[k].id() => {}
            _ => {
                vio!(Content, "iterator yields another element", "{}: at {}", what, k);
                break;
            }
        }
        k += 1;
    }
    ck!(mc::rep::any() || k == m.len(), Content, "iterator yields wrong number of elements", "{}: {}", what, k);
}
fn seec<E: El + Copy>(v: &VC, m: &[E], what: &str) {
    ck!(v.len() == m.len() && v.element_type_id() == TypeId::of::<E>(), Content, "wrong length", "{}: {} instead of {}", what, v.len(), m.len());
    match v.as_slice_as::<E>() {
        Some(s) => same(s, m, what),
        None => vio!(Type, "right-type operation refused", "{}", what),
    }
    let mut k = 0;
    for r in v.iter() {
        match r.downcast::<E>() {
            Some(e) if k < m.len() && e.id() == m[k].id() => {}
            _ => {
                vio!(Content, "iterator yields another element", "{}: at {}", what, k);
                break;
            }
        }
        k += 1;
    }
    ck!(mc::rep::any() || k == m.len(), Content, "iterator yields wrong number of elements", "{}: {}", what, k);
}
fn nothing_left(l: i64) {
    if !mc::rep::any() && live() != l {
        vio!(Drop, "values are left or were dropped twice", "{}", live() - l);
    }
    LIVE.store(0, Relaxed);
}

fn arguments(n: usize) -> Vec<(&'static str, usize)> {
    let mut o = vec![];
    for k in places(n) {
        for x in ["rotate_left", "rotate_right", "slice_rotate_left", "slice_rotate_right", "append", "appended", "pushes", "resize"] {
            o.push((x, k));
        }
        if k < n {
            o.extend([("swap_first", k), ("swap_last", k), ("set", k), ("slice_set", k), ("replace", k), ("swap_value", k)]);
        }
    }
    o.extend([("resize", n + 1), ("resize", n + 64), ("resize", 2 * n), ("resize", 2 * n + 1), ("resize", 3 * n)]);
    for x in ["push_each", "clone", "clone_from", "clone_into", "into_vec", "from_slice", "fill", "clear", "copy_from_slice", "upcast", "iter_mut", "slices"] {
        o.push((x, 0));
    }
    o
}

fn ops<E: El>(c: &mut Cases, lens: &[usize]) {
    for &n in lens {
        for spare in [0, 1, n] {
            for (op, k) in arguments(n) {
                // the longest with the essential arguments
                if n > 600 && (spare == 1 || (![0, 1, n / 2, n - 1, n].contains(&k) && k <= n)) {
                    continue;
                }
                c.run(format_args!("{}+{} {}({})", n, spare, op, k), || {
                    let l = live();
                    {
                        let mut m: Vec<E> = vec(n, 0, 0);
                        let mut a: VD = VD::from_vec(vec::<E>(n, spare, 0));
                        match op {
                            "rotate_left" => {
                                a.rotate_left(k);
                                m.rotate_left(k);
                            }
                            "rotate_right" => {
                                a.rotate_right(k);
                                m.rotate_right(k);
                            }
                            "slice_rotate_left" => {
                                a.as_mut_slice().rotate_left(k);
                                m.rotate_left(k);
                            }
                            "slice_rotate_right" => {
                                a.as_mut_slice().rotate_right(k);
                                m.rotate_right(k);
                            }
                            "append" | "appended" => {
                                let mut b: VD = VD::from_vec(vec::<E>(k, 1, 9));
                                let mut t = vec::<E>(k, 0, 9);
                                if op == "append" {
                                    ck!(a.append(&mut b).is_some(), Type, "right-type operation refused", "append");
                                    m.append(&mut t);
                                    see::<E>(&b, &[], "appended");
                                } else {
                                    ck!(b.append(&mut a).is_some(), Type, "right-type operation refused", "append");
                                    t.append(&mut m);
                                    see::<E>(&a, &[], "appended");
                                    (a, m) = (b, t);
                                }
                            }
                            "pushes" => {
                                for id in ids(k, 5) {
                                    ck!(a.push_as(E::mk(id)).is_some(), Type, "right-type operation refused", "push_as");
                                    m.push(E::mk(id));
                                }
                            }
                            "push_each" => {
                                for (i, id) in ids(n, 5).enumerate() {
                                    if i % 2 == 0 {
                                        ck!(a.push(BoxValue::<VA>::new(E::mk(id))).is_some(), Type, "right-type operation refused", "push");
                                    } else {
                                        let e = E::mk(id);
                                        ck!(a.push_cloned(ValueRef::<VA>::new(&e)).is_some(), Type, "right-type operation refused", "push_cloned");
                                    }
                                    m.push(E::mk(id));
                                }
                            }
                            "resize" => {
                                ck!(a.resize(k, E::mk(3)).is_some(), Type, "right-type operation refused", "resize");
                                m.resize(k, E::mk(3));
                            }
                            "swap_first" => {
                                a.as_mut_slice().swap(0, k);
                                m.swap(0, k);
                            }
                            "swap_last" => {
                                a.as_mut_slice().swap(k, n - 1);
                                m.swap(k, n - 1);
                            }
                            "set" => {
                                *a.get_mut_as::<E>(k).unwrap() = E::mk(44);
                                m[k] = E::mk(44);
                            }
                            "slice_set" => {
                                *a.as_mut_slice().get_mut(k).downcast::<E>().unwrap() = E::mk(44);
                                m[k] = E::mk(44);
                            }
                            "replace" => {
                                a.get_mut(k).assign(BoxValue::new(E::mk(45)));
                                m[k] = E::mk(45);
                            }
                            "swap_value" => {
                                let mut b: VD = VD::from_vec(vec![E::mk(46)]);
                                a.get_mut(k).swap(&mut b.get_mut(0));
                                let t = std::mem::replace(&mut m[k], E::mk(46));
                                see::<E>(&b, &[t], "swapped");
                            }
                            "clone" => {
                                let b = a.clone();
                                a.clear();
                                a = b;
                            }
                            "clone_from" => {
                                let mut b: VD = VD::from_vec(vec::<E>(n / 2, 3, 1));
                                b.clone_from(&a);
                                see::<E>(&a, &m, "source of clone_from");
                                a = b;
                            }
                            "clone_into" => {
                                let mut t = vec::<E>(2, 0, 8);
                                ck!(a.append_cloned_to_vec(&mut t).is_some(), Type, "right-type operation refused", "append_cloned_to_vec");
                                same(&t[2..], &m, "append_cloned_to_vec");
                                let mut t = vec::<E>(2, 0, 8);
                                ck!(a.as_slice().append_clone_to_vec(&mut t).is_some(), Type, "right-type operation refused", "append_clone_to_vec");
                                same(&t[2..], &m, "append_clone_to_vec");
                                same(&a.clone_into_vec::<E>().unwrap(), &m, "clone_into_vec");
                            }
                            "into_vec" => {
                                let v = a.into_vec::<E>().unwrap();
                                same(&v, &m, "into_vec");
                                a = VD::from_vec(v);
                            }
                            "from_slice" => a = VD::from_slice(a.as_slice_as::<E>().unwrap()),
                            "fill" => {
                                a.fill(E::mk(12)).unwrap();
                                m.fill(E::mk(12));
                            }
                            "clear" => {
                                a.clear();
                                m.clear();
                            }
                            "copy_from_slice" => {
                                let t = vec::<E>(n, 0, 77);
                                ck!(a.as_mut_slice().clone_from_slice(&t).is_some(), Type, "right-type operation refused", "clone_from_slice");
                                m = t;
                            }
                            "upcast" => {
                                let b: VecDyn<traits::DropVTable> = a.upcast();
                                same(b.as_slice_as::<E>().unwrap(), &m, "upcast");
                                a = VD::from_vec(b.into_vec::<E>().unwrap());
                            }
                            "iter_mut" => {
                                for (i, x) in a.iter_mut().enumerate() {
                                    let e = x.downcast::<E>().unwrap();
                                    if i % 3 == 1 {
                                        *e = E::mk(i as u32);
                                    }
                                }
                                for (i, e) in m.iter_mut().enumerate() {
                                    if i % 3 == 1 {
                                        *e = E::mk(i as u32);
                                    }
                                }
                            }
                            _ => {
                                // vectors over slices, and slices pushed one by one
                                let mut b: VD = VecDyn::with_type_from(a.as_slice());
                                for r in a.as_slice().into_iter() {
                                    b.push_cloned(r).unwrap();
                                }
                                see::<E>(&b, &m, "pushed from a slice");
                            }
                        }
                        see::<E>(&a, &m, op);
                        if !mc::rep::any() {
                            if E::OWNED && live() != l + 2 * m.len() as i64 {
                                vio!(Drop, "number of live values differs from the model", "{} instead of {}", live() - l, 2 * m.len());
                            }
                            a.push_as(E::mk(13)).unwrap();
                            m.push(E::mk(13));
                            see::<E>(&a.clone(), &m, "clone after a push");
                        }
                    }
                    nothing_left(l);
                    true
                })
            }
        }
    }
}

fn copies<E: El + Copy>(c: &mut Cases, lens: &[usize]) {
    for &n in lens {
        for spare in [0, 1, n] {
            for (op, k) in arguments(n) {
                if n > 600 && (spare == 1 || (![0, 1, n / 2, n - 1, n].contains(&k) && k <= n)) {
                    continue;
                }
                c.run(format_args!("{}+{} {}({})", n, spare, op, k), || {
                    let mut m: Vec<E> = vec(n, 0, 0);
                    let mut a: VC = vec::<E>(n, spare, 0).into();
                    match op {
                        "rotate_left" => {
                            a.rotate_left(k);
                            m.rotate_left(k);
                        }
                        "rotate_right" => {
                            a.rotate_right(k);
                            m.rotate_right(k);
                        }
                        "slice_rotate_left" => {
                            a.as_mut_slice().rotate_left(k);
                            m.rotate_left(k);
                        }
                        "slice_rotate_right" => {
                            a.as_mut_slice().rotate_right(k);
                            m.rotate_right(k);
                        }
                        "append" | "appended" => {
                            let mut b: VC = vec::<E>(k, 1, 9).into();
                            let mut t = vec::<E>(k, 0, 9);
                            if op == "append" {
                                ck!(a.append(&mut b).is_some(), Type, "right-type operation refused", "append");
                                m.append(&mut t);
                                seec::<E>(&b, &[], "appended");
                            } else {
                                ck!(b.append(&mut a).is_some(), Type, "right-type operation refused", "append");
                                t.append(&mut m);
                                seec::<E>(&a, &[], "appended");
                                (a, m) = (b, t);
                            }
                        }
                        "pushes" => {
                            for id in ids(k, 5) {
                                ck!(a.push_as(E::mk(id)).is_some(), Type, "right-type operation refused", "push_as");
                                m.push(E::mk(id));
                            }
                        }
                        "push_each" => {
                            let b: VC = vec::<E>(n, 0, 5).into();
                            for (i, r) in b.iter().enumerate() {
                                if i % 100 == 50 {
                                    a.reserve(i);
                                }
                                ck!(a.push(r).is_some(), Type, "right-type operation refused", "push");
                            }
                            m.extend(ids(n, 5).map(E::mk));
                        }
                        "resize" => {
                            ck!(a.resize(k, E::mk(3)).is_some(), Type, "right-type operation refused", "resize");
                            m.resize(k, E::mk(3));
                        }
                        "swap_first" => {
                            a.as_mut_slice().swap(0, k);
                            m.swap(0, k);
                        }
                        "swap_last" => {
                            a.as_mut_slice().swap(k, n - 1);
                            m.swap(k, n - 1);
                        }
                        "set" => {
                            *a.get_mut_as::<E>(k).unwrap() = E::mk(44);
                            m[k] = E::mk(44);
                        }
                        "slice_set" => {
                            *a.as_mut_slice().get_mut(k).downcast::<E>().unwrap() = E::mk(44);
                            m[k] = E::mk(44);
                        }
                        "replace" => {
                            let e = E::mk(45);
                            a.get_mut(k).copy(CopyValueRef::new(&e)).unwrap();
                            m[k] = E::mk(45);
                        }
                        "swap_value" => {
                            let mut b: VC = vec![E::mk(46)].into();
                            a.get_mut(k).swap(&mut b.get_mut(0));
                            let t = std::mem::replace(&mut m[k], E::mk(46));
                            seec::<E>(&b, &[t], "swapped");
                        }
                        "clone" => {
                            let b = a.clone();
                            a.clear();
                            a = b;
                        }
                        "clone_from" => {
                            let mut b: VC = vec::<E>(n / 2, 3, 1).into();
                            b.clone_from(&a);
                            seec::<E>(&a, &m, "source of clone_from");
                            a = b;
                        }
                        "clone_into" => {
                            let mut t = vec::<E>(2, 0, 8);
                            ck!(a.append_copy_to_vec(&mut t).is_some(), Type, "right-type operation refused", "append_copy_to_vec");
                            same(&t[2..], &m, "append_copy_to_vec");
                            let mut t = vec::<E>(2, 0, 8);
                            ck!(a.as_slice().append_copy_to_vec(&mut t).is_some(), Type, "right-type operation refused", "append_copy_to_vec");
                            same(&t[2..], &m, "append_copy_to_vec of a slice");
                            let mut t = vec::<E>(2, 0, 8);
                            ck!(a.as_mut_slice().append_copy_to_vec(&mut t).is_some(), Type, "right-type operation refused", "append_copy_to_vec");
                            same(&t[2..], &m, "append_copy_to_vec of a mutable slice");
                            same(&a.copy_into_vec::<E>().unwrap(), &m, "copy_into_vec");
                        }
                        "into_vec" => {
                            let v = a.into_vec::<E>().unwrap();
                            same(&v, &m, "into_vec");
                            a = v.into();
                        }
                        "from_slice" => a = VC::from_slice(a.as_slice_as::<E>().unwrap()),
                        "fill" => {
                            a.fill(E::mk(12)).unwrap();
                            m.fill(E::mk(12));
                        }
                        "clear" => {
                            a.clear();
                            m.clear();
                        }
                        "copy_from_slice" => {
                            let t = vec::<E>(n, 0, 77);
                            ck!(a.copy_from_slice(&t).is_some(), Type, "right-type operation refused", "copy_from_slice");
                            let u = vec::<E>(n - n / 2, 0, 78);
                            let mut s = a.as_mut_slice();
                            let mut s = s.subslice_mut(n / 2..);
                            ck!(s.copy_from_slice(&u).is_some(), Type, "right-type operation refused", "copy_from_slice of a slice");
                            m = t;
                            m[n / 2..].copy_from_slice(&u);
                        }
                        "upcast" => {
                            let b: VecCopy<traits::HashVTable> = a.upcast();
                            same(b.as_slice_as::<E>().unwrap(), &m, "upcast");
                            a = b.into_vec::<E>().unwrap().into();
                        }
                        "iter_mut" => {
                            for (i, x) in a.iter_mut().enumerate() {
                                let e = x.downcast::<E>().unwrap();
                                if i % 3 == 1 {
                                    *e = E::mk(i as u32);
                                }
                            }
                            for (i, e) in m.iter_mut().enumerate() {
                                if i % 3 == 1 {
                                    *e = E::mk(i as u32);
                                }
                            }
                        }
                        _ => {
                            let mut b: VC = VecCopy::with_type_from(a.as_slice());
                            b.extend(a.as_slice().into_iter());
                            seec::<E>(&b, &m, "extended from a slice");
                            let b: VC = a.iter().collect();
                            seec::<E>(&b, &m, "collected");
                            let b: VC = VC::with_size::<E>(n, E::mk(6));
                            seec::<E>(&b, &vec![E::mk(6); n], "with_size");
                        }
                    }
                    seec::<E>(&a, &m, op);
                    if !mc::rep::any() {
                        a.push_as(E::mk(13)).unwrap();
                        m.push(E::mk(13));
                        seec::<E>(&a.clone(), &m, "clone after a push");
                    }
                    true
                })
            }
        }
    }
}

/// Views of long slices select by address; changes within a view leave the rest alone.
fn views<E: El>(c: &mut Cases, lens: &[usize]) {
    for &n in lens {
        for i in places(n) {
            for j in places(n) {
                if j < i || (n > 600 && ![0, 1, n / 2, n].contains(&i)) {
                    continue;
                }
                c.run(format_args!("{}..{} of {}", i, j, n), || {
                    let l = live();
                    {
                        let mut m = vec::<E>(n, 0, 0);
                        let mut a: VD = VD::from_vec(vec::<E>(n, 0, 0));
                        let base = a.as_slice_as::<E>().unwrap().as_ptr();
                        let at = |k: usize| unsafe { base.add(k) };
                        {
                            let s = a.as_slice();
                            let t = s.subslice(i..j);
                            let t0 = t.as_slice::<E>().unwrap();
                            ck!(t.len() == j - i && t0.len() == j - i && (i == j || t0.as_ptr() == at(i)), Content, "view selects other elements", "subslice");
                            ck!(t.iter().enumerate().all(|(k, r)| r.downcast::<E>().map(|r| r as *const E) == Some(at(i + k))) && t.iter().count() == j - i, Content, "iterator yields another element", "");
                            let (x, y) = t.split_at((j - i) / 2);
                            ck!(x.len() == (j - i) / 2 && y.len() == j - i - x.len() && (y.len() == 0 || y.as_slice::<E>().unwrap().as_ptr() == at(i + (j - i) / 2)), Content, "view selects other elements", "split");
                            for w in [1, 2, 7, 64, (j - i) / 2, j - i] {
                                if w == 0 || w > j - i {
                                    continue;
                                }
                                let mut q = 0;
                                for x in t.chunks_exact(w) {
                                    ck!(x.len() == w && x.as_slice::<E>().unwrap().as_ptr() == at(i + q * w), Content, "view selects other elements", "chunk {} of {}", q, w);
                                    q += 1;
                                }
                                ck!(q == (j - i) / w, Content, "wrong number of chunks", "{} of {}", q, w);
                            }
                            if i < j {
                                for k in [0, (j - i) / 2, j - i - 1] {
                                    ck!(t.get(k).downcast::<E>().map(|r| r as *const E) == Some(at(i + k)), Content, "view selects other elements", "get({})", k);
                                }
                                ck!(t.get_as::<E>(j - i - 1).map(|r| r as *const E) == Some(at(j - 1)), Content, "view selects other elements", "get_as");
                                let k = j - i - 1;
                                ck!(t.iter().nth(k).and_then(|r| r.downcast::<E>()).map(|r| r as *const E) == Some(at(j - 1)), Content, "iterator yields another element", "nth");
                            }
                        }
                        {
                            let mut s = a.as_mut_slice();
                            let mut t = s.subslice_mut(i..j);
                            ck!(t.iter().enumerate().all(|(k, r)| r.downcast::<E>().map(|r| r as *const E) == Some(at(i + k))), Content, "iterator yields another element", "mutable");
                            for k in [1, 64, (j - i) / 2] {
                                let k = k.min(j - i);
                                t.rotate_left(k);
                                m[i..j].rotate_left(k);
                                if i < j {
                                    t.swap(0, j - i - 1);
                                    m[i..j].swap(0, j - i - 1);
                                }
                                t.rotate_right(k / 2);
                                m[i..j].rotate_right(k / 2);
                                if j - i > 64 {
                                    for (q, mut x) in t.chunks_exact_mut(32).enumerate() {
                                        if q % 2 == 0 {
                                            x.rotate_left(5);
                                        }
                                    }
                                    for (q, x) in m[i..j].chunks_exact_mut(32).enumerate() {
                                        if q % 2 == 0 {
                                            x.rotate_left(5);
                                        }
                                    }
                                }
                            }
                            let (mut x, mut y) = t.split_at((j - i) / 2);
                            let (p, q) = m[i..j].split_at_mut((j - i) / 2);
                            if p.len() > 0 && q.len() > 0 {
                                x.get_mut(p.len() - 1).swap(&mut y.get_mut(0));
                                std::mem::swap(&mut p[p.len() - 1], &mut q[0]);
                            }
                        }
                        see::<E>(&a, &m, "changes through a view");
                    }
                    nothing_left(l);
                    i < j
                });
            }
        }
    }
}

/// Comparison, hash and debug output of long containers that differ at one place or in length.
fn equal<E: El>(c: &mut Cases, lens: &[usize]) {
    fn feed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
        let mut h = Rec::default();
        t.hash(&mut h);
        h.0
    }
    for &n in lens {
        let mut ats = places(n);
        ats.pop();
        for other in [n - 1, n, n + 1, n + 64] {
            for &at in ats.iter().chain(&[usize::MAX]) {
                if other != n && at != usize::MAX {
                    continue;
                }
                c.run(format_args!("{} elements against {}, changed at {}", n, other, at as isize), || {
                    let (ta, mut tb) = (vec::<E>(n, 0, 0), vec::<E>(other, 0, 0));
                    if at < other {
                        tb[at] = E::mk(tb[at].id() + 1);
                    }
                    let want = other == n && at == usize::MAX;
                    let (ha, hb) = (feed(&ta[..]), feed(&tb[..]));
                    let (da, db) = (format!("{:?}", ta), format!("{:?}", tb));
                    let (a, b): (VD, VD) = (VD::from_vec(ta), VD::from_vec(tb));
                    ck!((a == b) == want && (b == a) == want && (a != b) != want, Content, "equality of containers differs from the typed", "");
                    ck!((a.as_slice() == b.as_slice()) == want && (b.as_slice() == a.as_slice()) == want, Content, "equality of slices differs from the typed", "");
                    if at < n && other == n {
                        ck!(a.get(at) != b.get(at) && (at == 0 || a.get(at - 1) == b.get(at - 1)), Content, "equality of values differs from the typed", "");
                        ck!(a.as_slice().subslice(..at) == b.as_slice().subslice(..at) && a.as_slice().subslice(at + 1..) == b.as_slice().subslice(at + 1..), Content, "equality of slices differs from the typed", "parts");
                    }
                    let (hva, hvb) = (feed(&a), feed(&b));
                    ck!(!want || hva == hvb, Content, "equal containers feed different data to a hasher", "");
                    ck!((ha.ends_with(&hva) || hva.ends_with(&ha)) && (hb.ends_with(&hvb) || hvb.ends_with(&hb)), Content, "hash differs from that of the elements", "");
                    ck!(format!("{:?}", a) == da && format!("{:?}", b) == db && format!("{:?}", a.as_slice()) == da, Content, "debug output differs from the typed", "");
                    LIVE.store(0, Relaxed);
                    true
                })
            }
        }
    }
}

/// A callback panics at a far position.
fn faults<E: El>(c: &mut Cases, lens: &[usize]) {
    const OPS: &[(&str, Cb)] = &[
        ("clone", Cb::Clone), ("clone_from", Cb::Clone), ("clone_from", Cb::Drop), ("clone_into_vec", Cb::Clone), ("resize_up", Cb::Clone), ("fill", Cb::Clone), ("fill", Cb::Drop), ("clear", Cb::Drop),
        ("resize_down", Cb::Drop), ("drop", Cb::Drop), ("push_cloned", Cb::Clone), ("from_slice", Cb::Clone), ("clone_from_slice", Cb::Clone), ("clone_from_slice", Cb::Drop), ("append_cloned", Cb::Clone),
        ("eq", Cb::Eq), ("hash", Cb::Hash), ("debug", Cb::Debug)];
    for &n in lens {
        for &(op, kind) in OPS {
            for k in places(n) {
                if n > 600 && ![1, n / 2, n - 1].contains(&k) {
                    continue;
                }
                c.run(format_args!("{} with {}, {:?} panics at {}", n, op, kind, k), || {
                    let l = live();
                    let hit;
                    {
                        let m = vec::<E>(n, 0, 0);
                        let mut a: Option<VD> = Some(VD::from_vec(vec::<E>(n, n % 3, 0)));
                        let b: VD = VD::from_vec(vec::<E>(n, 0, 0));
                        let one = E::mk(14);
                        arm(kind, k);
                        let r = guarded(|| {
                            let v = a.as_mut().unwrap();
                            match op {
                                "clone" => drop(v.clone()),
                                "clone_from" => v.clone_from(&b),
                                "clone_into_vec" => drop(v.clone_into_vec::<E>()),
                                "resize_up" => drop(v.resize(2 * n, one)),
                                "resize_down" => drop(v.resize(0, one)),
                                "fill" => drop(v.fill(one)),
                                "clear" => v.clear(),
                                "drop" => drop(a.take()),
                                "push_cloned" => b.iter().for_each(|x| drop(v.push_cloned(x).unwrap())),
                                "from_slice" => drop(VD::from_slice(&m)),
                                "clone_from_slice" => drop(v.as_mut_slice().clone_from_slice(&m)),
                                "append_cloned" => {
                                    let mut w = vec![];
                                    drop(v.append_cloned_to_vec::<E>(&mut w));
                                }
                                "eq" => drop(*v == b),
                                "hash" => v.hash(&mut Rec::default()),
                                "debug" => drop(format!("{:?}", v)),
                                _ => unreachable!(),
                            }
                        });
                        disarm();
                        hit = fired();
                        ck!(r.is_err() == hit, Panic, "panic of a callback did not reach the caller", "");
                        if let Some(mut v) = a.take() {
                            ck!(v.iter_as::<E>().map_or(usize::MAX, |i| i.inspect(|x| drop(x.id())).count()) == v.len(), Content, "the container is not valid after a panic", "");
                            ck!(v.push_as(E::mk(13)).is_some() && v.get_ref_as::<E>(v.len() - 1).unwrap().id() == 13, Content, "container refuses its own type after a panic", "");
                            if ["clone", "clone_into_vec", "from_slice", "append_cloned", "eq", "hash", "debug"].contains(&op) {
                                same(&v.as_slice_as::<E>().unwrap()[..n], &m, "after an operation that reads");
                            }
                        }
                    }
                    nothing_left(l);
                    hit
                })
            }
        }
    }
}

/// Arguments out of range at long lengths.
fn ranges<E: El>(c: &mut Cases, lens: &[usize]) {
    for &n in lens {
        c.run(format_args!("out of range of {}", n), || {
            let mut a: VD = VD::from_vec(vec::<E>(n, n, 0));
            let mut t = vec::<E>(n, n, 0);
            fn reject<R>(what: &str, k: usize, f: impl FnOnce() -> R) {
                let r = guarded(f).is_err();
                ck!(r, Panic, "an argument out of range is accepted", "{}({})", what, k);
            }
            for k in [n, n + 1, n + 63, 2 * n - 1, 2 * n, usize::MAX / std::mem::size_of::<E>(), usize::MAX] {
                reject("get", k, || drop(a.get(k)));
                reject("get_mut", k, || drop(a.get_mut(k)));
                reject("slice get", k, || drop(a.as_slice().get(k)));
                reject("slice get_mut", k, || drop(a.as_mut_slice().get_mut(k)));
                reject("swap", k, || a.as_mut_slice().swap(0, k));
                reject("swap", k, || a.as_mut_slice().swap(k, 0));
                if k > n {
                    reject("split_at", k, || drop(a.as_slice().split_at(k)));
                    reject("split_at mut", k, || drop(a.as_mut_slice().split_at(k)));
                    reject("subslice", k, || drop(a.as_slice().subslice(0..k)));
                    reject("subslice", k, || drop(a.as_slice().subslice(k..)));
                    reject("subslice_mut", k, || drop(a.as_mut_slice().subslice_mut(..k)));
                    reject("rotate_left", k, || a.rotate_left(k));
                    reject("rotate_right", k, || a.rotate_right(k));
                    reject("slice rotate_left", k, || a.as_mut_slice().rotate_left(k));
                    reject("slice rotate_right", k, || a.as_mut_slice().rotate_right(k));
                }
                reject("get_ref_as", k, || drop(a.get_ref_as::<E>(k)));
                reject("get_mut_as", k, || drop(a.get_mut_as::<E>(k)));
                reject("subslice", k, || drop(a.as_slice().subslice(..=k)));
            }
            reject("reversed", n, || {
                #[allow(clippy::reversed_empty_ranges)]
                let r = n..n - 1;
                drop(a.as_slice().subslice(r))
            });
            for k in [n - 1, n + 1, 2 * n] {
                let s = vec::<E>(k, 0, 1);
                reject("clone_from_slice", k, || drop(a.as_mut_slice().clone_from_slice(&s)));
            }
            see::<E>(&a, &t, "after refused arguments");
            a.push_as(E::mk(1)).unwrap();
            t.push(E::mk(1));
            see::<E>(&a, &t, "after refused arguments and a push");
            true
        });
        LIVE.store(0, Relaxed);
    }
}

macro_rules! kinds {
    ($($t:ident),*; $($u:ident),*) => {
        fn dispatch(c: &mut Cases, ty: &str, mode: &str, lens: &[usize]) {
            $(if ty == stringify!($t) {
                return match mode {
                    "ops" => ops::<$t>(c, lens),
                    "views" => views::<$t>(c, lens),
                    "same" => equal::<$t>(c, lens),
                    "faults" => faults::<$t>(c, lens),
                    "ranges" => ranges::<$t>(c, lens),
                    o => panic!("no mode {}", o),
                };
            })*
            $(if ty == stringify!($u) {
                return match mode {
                    "copies" => copies::<$u>(c, lens),
                    "ops" => ops::<$u>(c, lens),
                    o => panic!("no mode {}", o),
                };
            })*
            panic!("no type {}", ty)
        }
        const OWNED: &[&str] = &[$(stringify!($t)),*];
        const PLAIN: &[&str] = &[$(stringify!($u)),*];
    };
}
kinds!(D1, D2, D3, D8, D12, D24, D72; P1, P2, P3, P4, P8, P12, P24, P72);

fn main() {
    let a = mc::args();
    if a.list {
        for part in ["short", "long"] {
            for t in OWNED {
                for m in ["ops", "views", "same", "faults", "ranges"] {
                    println!("{}:{}:{}", t, m, part);
                }
            }
            for t in PLAIN {
                println!("{}:copies:{}", t, part);
            }
            for t in ["P1", "P8", "P24"] {
                println!("{}:ops:{}", t, part);
            }
        }
        return;
    }
    let mut c = Cases::new(a.only.clone());
    let p: Vec<&str> = a.job.split(':').collect();
    const QUICK: &[usize] = &[300, 511, 512, 513, 1000, 1024, 1025, 2048, 4096, 5000, 8192, 10000, 65536];
    let lens: Vec<usize> = LENS.iter().copied().filter(|&n| (n < 300) == (p[2] == "short") && (a.thorough || n < 300 || QUICK.contains(&n))).collect();
    dispatch(&mut c, p[0], p[1], &lens);
    c.res.states = c.res.execs;
    c.res.transitions = c.res.execs;
    c.res.print();
}
