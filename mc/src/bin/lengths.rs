//! Every operation at every length up to a few dozen (the searches keep containers short): one
//! operation from each (length, spare capacity), then a push and a clone; views, comparisons and
//! faults at every position of long containers.
use dync::*;
use mc::elems::*;
use mc::rep::{guarded, Cases};
use mc::vd::{VA, VD};
use mc::{ck, vio};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

type VC = VecCopy<VA>;

/// No two windows of a sequence of labels are the same.
fn lab(i: usize) -> u8 {
    ((i * 5 + i / 16 * 3 + (i / 7) % 3) % 16) as u8
}
fn labels(n: usize) -> Vec<u8> {
    (0..n).map(lab).collect()
}
fn typed<E: TElem>(m: &[u8], spare: usize) -> Vec<E> {
    let mut v = Vec::with_capacity(m.len() + spare);
    v.extend(m.iter().map(|&l| E::make(l)));
    v
}
fn copies<E: CElem>(m: &[u8], spare: usize) -> Vec<E> {
    let mut v = Vec::with_capacity(m.len() + spare);
    v.extend(m.iter().map(|&l| E::make(l)));
    v
}
const SOME: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33];

/// Operations with their argument.
fn ops(n: usize, copy: bool) -> Vec<(&'static str, usize)> {
    let mut o = vec![];
    for k in 0..=n {
        for x in ["rotate_left", "rotate_right", "slice_rotate_left", "slice_rotate_right"] {
            o.push((x, k));
        }
    }
    for m in 0..=2 * n + 2 {
        o.push(("resize", m));
    }
    for &m in SOME {
        o.extend([("append", m), ("pushes", m), ("appended", m)]);
        if copy {
            o.extend([("extend", m), ("reserve", m), ("collect", m), ("clone_from", m)]);
        } else {
            o.extend([("push_boxes", m), ("push_cloned", m)]);
        }
    }
    for i in 0..n {
        o.extend([("swap_first", i), ("swap_last", i), ("swap_mid", i), ("set", i), ("slice_set", i), ("typed_set", i)]);
        o.extend(if copy { [("copy", i), ("swap_value", i)] } else { [("assign", i), ("swap_value", i)] });
    }
    o.extend([("clone", 0), ("into_vec", 0), ("into_vec", 1), ("from_slice", 0), ("type_from", 0), ("fill", 0), ("clear", 0)]);
    if copy {
        o.push(("copy_from_slice", 0));
    } else {
        o.push(("clone_from_slice", 0));
    }
    o
}

fn dynamic<E: TElem>(c: &mut Cases, max: usize) {
    for n in 0..=max {
        for spare in [0, 1, n + 1] {
            for (op, k) in ops(n, false) {
                c.run(format_args!("{}+{} {}({})", n, spare, op, k), || {
                    let mut m = labels(n);
                    let mut a: VD = VD::from_vec(typed::<E>(&m, spare));
                    match op {
                        "rotate_left" => {
                            a.rotate_left(k);
                            m.rotate_left(k);
                        }
                        "rotate_right" => {
                            a.rotate_right(k);
                            m.rotate_right(k);
                        }
                        "slice_rotate_left" => {
                            a.as_mut_slice().rotate_left(k);
                            m.rotate_left(k);
                        }
                        "slice_rotate_right" => {
                            a.as_mut_slice().rotate_right(k);
                            m.rotate_right(k);
                        }
                        "resize" => {
                            ck!(a.resize(k, E::make(9)).is_some(), Content, "right-type operation refused", "resize");
                            m.resize(k, 9);
                        }
                        "append" => {
                            let mut b: VD = VD::from_vec(typed::<E>(&labels(k), 0));
                            ck!(a.append(&mut b).is_some(), Content, "right-type operation refused", "append");
                            m.extend(labels(k));
                            mc::vd::observe::<E>(&mut b, &[]);
                        }
                        "appended" => {
                            let mut b: VD = VD::from_vec(typed::<E>(&labels(k), 2));
                            ck!(b.append(&mut a).is_some(), Content, "right-type operation refused", "append");
                            mc::vd::observe::<E>(&mut a, &[]);
                            let mut l = labels(k);
                            l.append(&mut m);
                            m = l;
                            a = b;
                        }
                        "pushes" => {
                            for j in 0..k {
                                a.push_as(E::make(lab(j + 3))).unwrap();
                                m.push(lab(j + 3));
                            }
                        }
                        "push_boxes" => {
                            for j in 0..k {
                                a.push(BoxValue::<VA>::new(E::make(lab(j + 3)))).unwrap();
                                m.push(lab(j + 3));
                            }
                        }
                        "push_cloned" => {
                            let b: VD = VD::from_vec(typed::<E>(&labels(k), 0));
                            for r in b.iter() {
                                a.push_cloned(r).unwrap();
                            }
                            m.extend(labels(k));
                        }
                        "swap_first" => {
                            a.as_mut_slice().swap(0, k);
                            m.swap(0, k);
                        }
                        "swap_last" => {
                            a.as_mut_slice().swap(k, n - 1);
                            m.swap(n - 1, k);
                        }
                        "swap_mid" => {
                            a.as_mut_slice().swap(k, n / 2);
                            m.swap(n / 2, k);
                        }
                        "set" => {
                            *a.get_mut_as::<E>(k).unwrap() = E::make(10);
                            m[k] = 10;
                        }
                        "slice_set" => {
                            *a.as_mut_slice().into_iter().nth(k).unwrap().downcast::<E>().unwrap() = E::make(10);
                            m[k] = 10;
                        }
                        "typed_set" => {
                            a.as_mut_slice_as::<E>().unwrap()[k] = E::make(10);
                            m[k] = 10;
                        }
                        "assign" => {
                            a.get_mut(k).assign(BoxValue::new(E::make(10)));
                            m[k] = 10;
                        }
                        "swap_value" => {
                            let mut b: VD = VD::from_vec(vec![E::make(11)]);
                            a.get_mut(k).swap(&mut b.get_mut(0));
                            mc::vd::observe::<E>(&mut b, &[m[k]]);
                            m[k] = 11;
                        }
                        "clone" => a = a.clone(),
                        "into_vec" => {
                            let mut v = a.into_vec::<E>().unwrap();
                            ck!(v.iter().map(|x| x.label()).collect::<Vec<_>>() == m, Content, "typed vector differs from the model", "");
                            if k == 1 {
                                v.shrink_to_fit();
                            }
                            a = VD::from_vec(v);
                        }
                        "from_slice" => a = VD::from_slice(a.as_slice_as::<E>().unwrap()),
                        "type_from" => {
                            let mut b: VD = VecDyn::with_type_from(a.as_slice());
                            for r in a.iter() {
                                b.push_cloned(r).unwrap();
                            }
                            a = b;
                        }
                        "fill" => {
                            a.fill(E::make(12)).unwrap();
                            m.iter_mut().for_each(|x| *x = 12);
                        }
                        "clear" => {
                            a.clear();
                            m.clear();
                        }
                        "clone_from_slice" => {
                            let l: Vec<u8> = (0..n).map(|i| lab(i + 40)).collect();
                            let t = typed::<E>(&l, 0);
                            a.as_mut_slice().clone_from_slice(t.as_slice());
                            m = l;
                        }
                        o => panic!("no operation {}", o),
                    }
                    mc::vd::observe::<E>(&mut a, &m);
                    if mc::rep::any() {
                        return true;
                    }
                    a.push_as(E::make(13)).unwrap();
                    let mut b = a.clone();
                    m.push(13);
                    if E::COUNTED {
                        expect_live(2 * m.len());
                    }
                    drop(a);
                    let v = b.as_slice_as::<E>().unwrap();
                    ck!(v.iter().map(|x| x.label()).collect::<Vec<_>>() == m, Content, "clone differs after a push", "");
                    b.clear();
                    true
                })
            }
        }
    }
}

fn plain<E: CElem>(c: &mut Cases, max: usize) {
    for n in 0..=max {
        for spare in [0, 1, n + 1] {
            for (op, k) in ops(n, true) {
                c.run(format_args!("{}+{} {}({})", n, spare, op, k), || {
                    let mut m = labels(n);
                    let mut a: VC = copies::<E>(&m, spare).into();
                    match op {
                        "rotate_left" => {
                            a.rotate_left(k);
                            m.rotate_left(k);
                        }
                        "rotate_right" => {
                            a.rotate_right(k);
                            m.rotate_right(k);
                        }
                        "slice_rotate_left" => {
                            a.as_mut_slice().rotate_left(k);
                            m.rotate_left(k);
                        }
                        "slice_rotate_right" => {
                            a.as_mut_slice().rotate_right(k);
                            m.rotate_right(k);
                        }
                        "resize" => {
                            ck!(a.resize(k, E::make(9)).is_some(), Content, "right-type operation refused", "resize");
                            m.resize(k, 9);
                        }
                        "append" => {
                            let mut b: VC = copies::<E>(&labels(k), 0).into();
                            ck!(a.append(&mut b).is_some(), Content, "right-type operation refused", "append");
                            m.extend(labels(k));
                            mc::vc::observe::<E, VA>(&mut b, &[]);
                        }
                        "appended" => {
                            let mut b: VC = copies::<E>(&labels(k), 2).into();
                            ck!(b.append(&mut a).is_some(), Content, "right-type operation refused", "append");
                            mc::vc::observe::<E, VA>(&mut a, &[]);
                            let mut l = labels(k);
                            l.append(&mut m);
                            m = l;
                            a = b;
                        }
                        "pushes" => {
                            for j in 0..k {
                                if j % 2 == 0 {
                                    a.push_as(E::make(lab(j + 3))).unwrap();
                                } else {
                                    let e = E::make(lab(j + 3));
                                    a.push(CopyValueRef::<VA>::new(&e)).unwrap();
                                }
                                m.push(lab(j + 3));
                            }
                        }
                        "extend" => {
                            let b: VC = copies::<E>(&labels(k), 0).into();
                            a.extend(b.iter());
                            m.extend(labels(k));
                        }
                        "collect" => {
                            if k > 0 {
                                let b: VC = copies::<E>(&labels(k), 0).into();
                                a = b.iter().collect();
                                m = labels(k);
                            }
                        }
                        "clone_from" => {
                            let b: VC = copies::<E>(&labels(k), 1).into();
                            a.clone_from(&b);
                            m = labels(k);
                        }
                        "reserve" => {
                            a.reserve(k);
                            ck!(a.capacity() >= n + k, Cap, "reserve did not provide the capacity", "");
                        }
                        "swap_first" => {
                            a.as_mut_slice().swap(0, k);
                            m.swap(0, k);
                        }
                        "swap_last" => {
                            a.as_mut_slice().swap(k, n - 1);
                            m.swap(n - 1, k);
                        }
                        "swap_mid" => {
                            a.as_mut_slice().swap(k, n / 2);
                            m.swap(n / 2, k);
                        }
                        "set" => {
                            *a.get_mut_as::<E>(k).unwrap() = E::make(10);
                            m[k] = 10;
                        }
                        "slice_set" => {
                            *a.as_mut_slice().iter().nth(k).unwrap().downcast::<E>().unwrap() = E::make(10);
                            m[k] = 10;
                        }
                        "typed_set" => {
                            a.as_mut_slice_as::<E>().unwrap()[k] = E::make(10);
                            m[k] = 10;
                        }
                        "copy" => {
                            let e = E::make(10);
                            a.get_mut(k).copy(CopyValueRef::new(&e)).unwrap();
                            m[k] = 10;
                        }
                        "swap_value" => {
                            let mut b: VC = copies::<E>(&[11], 0).into();
                            a.get_mut(k).swap(&mut b.get_mut(0));
                            mc::vc::observe::<E, VA>(&mut b, &[m[k]]);
                            m[k] = 11;
                        }
                        "clone" => a = a.clone(),
                        "into_vec" => {
                            let mut v = a.into_vec::<E>().unwrap();
                            ck!(v.iter().map(|x| x.label()).collect::<Vec<_>>() == m, Content, "typed vector differs from the model", "");
                            if k == 1 {
                                v.shrink_to_fit();
                            }
                            a = v.into();
                        }
                        "from_slice" => a = VC::from_slice(a.as_slice_as::<E>().unwrap()),
                        "type_from" => {
                            let mut b: VC = VecCopy::with_type_from(a.as_slice());
                            for r in a.iter() {
                                b.push(r).unwrap();
                            }
                            a = b;
                        }
                        "fill" => {
                            a.fill(E::make(12)).unwrap();
                            m.iter_mut().for_each(|x| *x = 12);
                        }
                        "clear" => {
                            a.clear();
                            m.clear();
                        }
                        "copy_from_slice" => {
                            let l: Vec<u8> = (0..n).map(|i| lab(i + 40)).collect();
                            a.copy_from_slice(&copies::<E>(&l, 0)).unwrap();
                            m = l;
                        }
                        o => panic!("no operation {}", o),
                    }
                    mc::vc::observe::<E, VA>(&mut a, &m);
                    if mc::rep::any() {
                        return true;
                    }
                    a.push_as(E::make(13)).unwrap();
                    m.push(13);
                    let b = a.clone();
                    drop(a);
                    ck!(b.iter_as::<E>().unwrap().map(|x| x.label()).collect::<Vec<_>>() == m, Content, "clone differs after a push", "");
                    true
                })
            }
        }
    }
}

/// Views of long slices, against addresses.
fn views<E: TElem>(c: &mut Cases, max: usize) {
    for n in 0..=max {
        c.run(format_args!("views of {}", n), || {
            let m = labels(n);
            let mut a: VD = VD::from_vec(typed::<E>(&m, 0));
            let base = a.as_slice_as::<E>().unwrap().as_ptr();
            fn is<E: TElem>(s: &Slice<VA>, base: *const E, from: usize, to: usize, what: &str) {
                let t = s.as_slice::<E>().unwrap();
                ck!(s.len() == to - from && t.len() == to - from && (t.is_empty() || t.as_ptr() == unsafe { base.add(from) }), Content, "view selects other elements", "{} {}..{}", what, from, to);
                let mut k = from;
                for r in s.iter() {
                    ck!(r.downcast::<E>().map(|r| r as *const E) == Some(unsafe { base.add(k) }), Content, "iterator yields another element", "{} {}..{} at {}", what, from, to, k);
                    k += 1;
                }
                ck!(k == to, Content, "iterator yields wrong number of elements", "{}", what);
            }
            let s = a.as_slice();
            for i in 0..=n {
                for j in i..=n {
                    is::<E>(&s.subslice(i..j), base, i, j, "subslice");
                }
                let (l, r) = s.split_at(i);
                is::<E>(&l, base, 0, i, "split left");
                is::<E>(&r, base, i, n, "split right");
                if i > 0 {
                    let mut k = 0;
                    for x in s.chunks_exact(i) {
                        is::<E>(&x, base, k * i, (k + 1) * i, "chunk");
                        k += 1;
                    }
                    ck!(k == n / i, Content, "wrong number of chunks", "{} of {}", k, i);
                }
            }
            for i in 0..=n {
                for j in i..=n {
                    let mut s = a.as_mut_slice();
                    let mut t = s.subslice_mut(i..j);
                    let mut k = i;
                    for r in t.iter() {
                        ck!(r.downcast::<E>().map(|r| r as *const E) == Some(unsafe { base.add(k) }), Content, "iterator yields another element", "mutable {}..{} at {}", i, j, k);
                        k += 1;
                    }
                    ck!(k == j, Content, "iterator yields wrong number of elements", "mutable");
                }
                let mut s = a.as_mut_slice();
                {
                    let (l, mut r) = s.split_at(i);
                    ck!(l.len() == i && r.len() == n - i && r.as_slice::<E>().unwrap().first().map_or(i == n, |x| x as *const E == unsafe { base.add(i) }), Content, "view selects other elements", "mutable split {}", i);
                }
                if i > 0 {
                    let mut k = 0;
                    for mut x in s.chunks_exact_mut(i) {
                        ck!(x.len() == i && x.as_slice::<E>().unwrap().as_ptr() == unsafe { base.add(k * i) }, Content, "view selects other elements", "mutable chunk {} of {}", k, i);
                        k += 1;
                    }
                    ck!(k == n / i, Content, "wrong number of chunks", "{} of {}", k, i);
                }
            }
            true
        });
        // Rotations and swaps within a view leave the rest alone.
        for i in 0..=n {
            for j in i..=n {
                if (i + j) % 5 != 0 && n > 12 {
                    continue;
                }
                c.run(format_args!("changes in {}..{} of {}", i, j, n), || {
                    let mut m = labels(n);
                    let mut a: VD = VD::from_vec(typed::<E>(&m, 0));
                    for k in [0, 1, (j - i) / 2, j - i] {
                        let k = k.min(j - i);
                        let mut s = a.as_mut_slice();
                        let mut t = s.subslice_mut(i..j);
                        t.rotate_left(k);
                        m[i..j].rotate_left(k);
                        if j > i {
                            t.swap(k.min(j - i - 1), j - i - 1);
                            m[i..j].swap(k.min(j - i - 1), j - i - 1);
                        }
                        t.rotate_right(k);
                        m[i..j].rotate_right(k);
                        let got: Vec<u8> = a.iter_as::<E>().unwrap().map(|x| x.label()).collect();
                        ck!(got == m, Content, "contents differ from the model", "{:?} instead of {:?}", got, m);
                    }
                    i < j
                });
            }
        }
    }
}

/// Comparison, hash and debug output of long containers that differ at one place.
fn same<E: TElem>(c: &mut Cases, max: usize) {
    fn feed<T: Hash>(t: &T) -> Vec<u8> {
        let mut h = Rec::default();
        t.hash(&mut h);
        h.0
    }
    for n in 0..=max {
        for l in [n.saturating_sub(1), n, n + 1] {
            for at in (0..l).chain(Some(usize::MAX)) {
                c.run(format_args!("{} elements against {}, changed at {}", n, l, at as isize), || {
                    let ma = labels(n);
                    let mut mb = labels(l);
                    if at < l {
                        mb[at] = 15 - mb[at];
                    }
                    let (ta, tb) = (typed::<E>(&ma, 0), typed::<E>(&mb, 1));
                    let want = ta == tb;
                    let (ha, hb) = (feed(&ta), feed(&tb));
                    let (da, db) = (format!("{:?}", ta), format!("{:#?}", tb));
                    let (a, b): (VD, VD) = (VD::from_vec(ta), VD::from_vec(tb));
                    ck!((a == b) == want && (b == a) == want, Content, "equality of containers differs from the typed", "{:?} {:?}", ma, mb);
                    ck!((a.as_slice() == b.as_slice()) == want && (b.as_slice() == a.as_slice()) == want, Content, "equality of slices differs from the typed", "{:?} {:?}", ma, mb);
                    let (hva, hvb) = (feed(&a), feed(&b));
                    if want {
                        ck!(hva == hvb, Content, "equal containers feed different data to a hasher", "{:?}", ma);
                    }
                    ck!(hva == ha && hvb == hb || elements_only(&hva, &ha), Content, "hash differs from that of the elements", "{:?} instead of {:?}", hva, ha);
                    ck!(format!("{:?}", a) == da && format!("{:#?}", b) == db, Content, "debug output differs from the typed", "");
                    n > 0
                })
            }
        }
    }
}
/// The elements' own input to the hasher, with or without the length.
fn elements_only(got: &[u8], want: &[u8]) -> bool {
    want.ends_with(got) || got.ends_with(want)
}
/// A panic at every position of a long container.
fn faults<E: TElem>(c: &mut Cases, max: usize) {
    const OPS: &[(&str, Cb)] = &[
        ("clone", Cb::Clone), ("clone_into_vec", Cb::Clone), ("resize_up", Cb::Clone), ("fill", Cb::Clone), ("fill", Cb::Drop), ("clear", Cb::Drop), ("resize_down", Cb::Drop),
        ("drop", Cb::Drop), ("push_cloned", Cb::Clone), ("from_slice", Cb::Clone), ("clone_from_slice", Cb::Clone), ("clone_from_slice", Cb::Drop), ("append_cloned", Cb::Clone), ("eq", Cb::Eq), ("hash", Cb::Hash), ("debug", Cb::Debug),
    ];
    for n in 1..=max {
        for &(op, kind) in OPS {
            for k in 0..=n {
                c.run(format_args!("{} with {}, {:?} panics at {}", n, op, kind, k), || {
                    let m = labels(n);
                    let mut a: Option<VD> = Some(VD::from_vec(typed::<E>(&m, n % 3)));
                    let b: VD = VD::from_vec(typed::<E>(&m, 0));
                    let t = typed::<E>(&m, 0);
                    let one = E::make(14);
                    arm(kind, k);
                    let r = guarded(|| {
                        let v = a.as_mut().unwrap();
                        match op {
                            "clone" => drop(v.clone()),
                            "clone_into_vec" => drop(v.clone_into_vec::<E>()),
                            "resize_up" => drop(v.resize(2 * n, one)),
                            "resize_down" => drop(v.resize(0, one)),
                            "fill" => drop(v.fill(one)),
                            "clear" => v.clear(),
                            "drop" => drop(a.take()),
                            "push_cloned" => b.iter().for_each(|x| drop(v.push_cloned(x).unwrap())),
                            "from_slice" => drop(VD::from_slice(&t)),
                            "clone_from_slice" => drop(v.as_mut_slice().clone_from_slice(&t)),
                            "append_cloned" => {
                                let mut w = vec![];
                                drop(v.append_cloned_to_vec::<E>(&mut w));
                            }
                            "eq" => drop(*v == b),
                            "hash" => v.hash(&mut Rec::default()),
                            "debug" => drop(format!("{:?}", v)),
                            _ => unreachable!(),
                        }
                    });
                    disarm();
                    let hit = fired();
                    ck!(r.is_err() == hit, Panic, "panic of a callback did not reach the caller", "");
                    if let Some(mut v) = a.take() {
                        let now: Vec<u8> = v.iter_as::<E>().map(|i| i.map(|x| x.label()).collect()).unwrap_or_default();
                        mc::vd::observe::<E>(&mut v, &now);
                        if !mc::rep::any() && v.push_as(E::make(13)).is_none() {
                            vio!(Content, "container refuses its own type after a panic", "");
                        }
                        if ["clone", "clone_into_vec", "from_slice", "append_cloned", "eq", "hash", "debug"].contains(&op) {
                            ck!(now == m, Content, "an operation that reads changed the container", "{:?}", now);
                        }
                        if op == "push_cloned" && hit {
                            ck!(now.starts_with(&m) && now.len() == n + k.min(n), Content, "pushed elements are lost", "{:?}", now);
                        }
                    }
                    hit
                })
            }
        }
    }
}

macro_rules! kinds {
    ($($t:ident),*; $($u:ident),*) => {
        fn dispatch(c: &mut Cases, ty: &str, mode: &str, max: usize) {
            $(if ty == stringify!($t) {
                return match mode {
                    "ops" => dynamic::<$t>(c, max),
                    "views" => views::<$t>(c, max),
                    "same" => same::<$t>(c, max),
                    "faults" => faults::<$t>(c, max),
                    o => panic!("no mode {}", o),
                };
            })*
            $(if ty == stringify!($u) { return plain::<$u>(c, max); })*
            panic!("no type {}", ty)
        }
        const OWNED: &[&str] = &[$(stringify!($t)),*];
        const PLAIN: &[&str] = &[$(stringify!($u)),*];
    };
}
kinds!(K1x1, K3x1, K8x8, K12x4, K24x8, K16x16, String; C1x1, C3x1, C8x8, C12x4, C24x8, C16x16);

fn main() {
    let a = mc::args();
    if a.list {
        for t in OWNED {
            for m in ["ops", "views", "same", "faults"] {
                // std's strings cannot be made to panic
                if *t != "String" || m != "faults" {
                    println!("{}:{}", t, m);
                }
            }
        }
        for t in PLAIN {
            println!("{}:ops", t);
        }
        return;
    }
    let mut c = Cases::new(a.only.clone());
    let (ty, mode) = a.job.split_once(':').unwrap();
    let max = match (mode, a.thorough) {
        ("ops", false) => 34,
        ("ops", true) => 50,
        ("views", false) => 24,
        ("views", true) => 60,
        ("same", false) => 40,
        ("same", true) => 60,
        (_, false) => 20,
        (_, true) => 50,
    };
    dispatch(&mut c, ty, mode, max);
    c.res.states = c.res.execs;
    c.res.transitions = c.res.execs;
    c.res.print();
}
