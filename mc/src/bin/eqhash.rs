//! Equality, hashing and debug output of containers, slices and values against the typed ones (C08).
use dync::traits::*;
use dync::*;
use mc::elems::*;
use mc::rep::Cases;
use mc::vd::VA;
use mc::ck;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::{self, Debug, Write};
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

#[dync_mod]
mod deep {
    use dync::*;
    /// No Eq and no Hash: for element types whose equality is partial.
    pub trait Part: Clone + PartialEq + std::fmt::Debug {}
    impl<T> Part for T where T: Clone + PartialEq + std::fmt::Debug {}
    /// Everything inherited through two levels.
    pub trait Deep: Part + Eq + std::hash::Hash {}
    impl<T> Deep for T where T: Part + Eq + std::hash::Hash {}
}
use deep::{DeepVTable, PartVTable};

type VC = VecCopy<VA>;

/// All sequences of length <= n over labels 0..k.
fn sequences(n: usize, k: u8) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = vec![];
        for s in &last {
            for l in 0..k {
                let mut t = s.clone();
                t.push(l);
                next.push(t);
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}

fn typed<T: TElem>(l: &[u8], before: usize, after: usize, spare: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(l.len() + before + after + spare);
    v.extend((0..before).map(|i| T::make(100 + i as u8)));
    v.extend(l.iter().map(|x| T::make(*x)));
    v.extend((0..after).map(|i| T::make(110 + i as u8)));
    v
}

macro_rules! eq4 {
    ($a:expr, $b:expr, $want:expr, $what:expr) => {{
        let (a, b, w) = (&$a, &$b, $want);
        ck!((*a == *b) == w, Content, concat!($what, " compares differently from the typed ones"), "a == b is {}", !w);
        ck!((*a != *b) != w, Content, concat!($what, " compares differently from the typed ones"), "a != b is {}", w);
        ck!((*b == *a) == w, Content, concat!($what, " compares differently from the typed ones"), "b == a is {} (a == b should be {})", !w, w);
        ck!(*a == *a && *b == *b && !(*a != *a), Content, concat!($what, " is not equal to itself"), "");
    }};
}

/// Two sequences of element types A and B.
fn pair<A: TElem, B: TElem>(c: &mut Cases, n: usize, k: u8, same: bool) {
    for la in &sequences(n, k) {
        for lb in &sequences(n, k) {
            let w = same && la == lb;
            let label = (A::NAME, if same { "same" } else { B::NAME });
            macro_rules! tab {
                ($V:ty) => {
                    c.run(format_args!("{} vs {} {:?} {:?} {}", label.0, label.1, la, lb, stringify!($V)), || {
                        let mut a: VecDyn<$V> = typed::<A>(la, 0, 0, 0).into();
                        let mut b: VecDyn<$V> = typed::<B>(lb, 0, 0, 3).into();
                        eq4!(a, b, w, "VecDyn");
                        eq4!(a.as_slice(), b.as_slice(), w, "Slice");
                        eq4!(a.as_mut_slice(), b.as_mut_slice(), w, "SliceMut");
                        let mut a: VecDyn<$V> = typed::<A>(la, 1, 1, 0).into();
                        let mut b: VecDyn<$V> = typed::<B>(lb, 2, 0, 1).into();
                        {
                            let (sa, sb) = (a.as_slice(), b.as_slice());
                            eq4!(sa.subslice(1..1 + la.len()), sb.subslice(2..), w, "subslice");
                        }
                        {
                            let (mut sa, mut sb) = (a.as_mut_slice(), b.as_mut_slice());
                            eq4!(sa.subslice_mut(1..1 + la.len()), sb.subslice_mut(2..), w, "mutable subslice");
                        }
                        // built by other means: contents are what matters
                        let mut d: VecDyn<$V> = VecDyn::with_type::<A>();
                        for x in la {
                            ck!(d.push_as(A::make(*x)).is_some(), Content, "push refused", "");
                        }
                        let e: VecDyn<$V> = typed::<A>(la, 0, 0, 7).into();
                        eq4!(d, e, true, "VecDyn built by pushing");
                        true
                    })
                };
            }
            tab!(VA);
            if la.len() < 3 && lb.len() < 3 {
                tab!(PartialEqVTable);
                tab!(EqVTable);
                tab!(PartVTable);
                tab!(DeepVTable);
            }
        }
    }
    // single values
    for x in 0..k {
        for y in 0..k {
            let w = same && x == y;
            macro_rules! val {
                ($V:ty) => {
                    c.run(format_args!("{} vs {} values {} {} {}", A::NAME, if same { "same" } else { B::NAME }, x, y, stringify!($V)), || {
                        let (mut a, mut b) = (A::make(x), B::make(y));
                        eq4!(ValueRef::<$V>::new(&a), ValueRef::<$V>::new(&b), w, "ValueRef");
                        {
                            let (ma, mb) = (ValueMut::<$V>::new(&mut a), ValueMut::<$V>::new(&mut b));
                            eq4!(ma, mb, w, "ValueMut");
                            eq4!(ma.reborrow(), mb.reborrow(), w, "reborrowed ValueMut");
                        }
                        eq4!(BoxValue::<$V>::new(A::make(x)), BoxValue::<$V>::new(B::make(y)), w, "BoxValue");
                        if let (Some(p), Some(q)) = (SmallValue::<$V>::try_new(A::make(x)), SmallValue::<$V>::try_new(B::make(y))) {
                            eq4!(p, q, w, "SmallValue");
                        }
                        let (va, vb): (VecDyn<$V>, VecDyn<$V>) = (typed::<A>(&[9, x], 0, 0, 0).into(), typed::<B>(&[y, 9], 0, 0, 0).into());
                        eq4!(va.get(1), vb.get(0), w, "element reference");
                        eq4!(va.get(1), ValueRef::new(&b), w, "element reference and reference to a typed value");
                        true
                    })
                };
            }
            val!(VA);
            val!(PartialEqVTable);
            val!(EqVTable);
            val!(DeepVTable);
        }
    }
}

/// Longer containers that differ in exactly one place, or where one is a prefix of the other.
fn long<A: TElem>(c: &mut Cases, n: usize) {
    let all: Vec<u8> = (0..n as u8).map(|i| i % 5).collect();
    let mut cases: Vec<(Vec<u8>, Vec<u8>)> = vec![(all.clone(), all.clone())];
    for p in 0..n {
        let mut o = all.clone();
        o[p] = 9;
        cases.push((all.clone(), o));
        cases.push((all.clone(), all[..p].to_vec()));
        for q in 0..p {
            let mut o = all.clone();
            o.swap(p, q);
            cases.push((all.clone(), o));
        }
    }
    for (la, lb) in &cases {
        c.run(format_args!("{} {:?} {:?} long", A::NAME, la, lb), || {
            let (ta, tb) = (typed::<A>(la, 0, 0, 0), typed::<A>(lb, 0, 0, 3));
            let (h, hb) = (concat(&ta), rec_hash(&ta));
            let mut a: VecDyn<VA> = ta.into();
            let mut b: VecDyn<VA> = tb.into();
            let w = la == lb;
            eq4!(a, b, w, "VecDyn");
            eq4!(a.as_slice(), b.as_slice(), w, "Slice");
            eq4!(a.as_mut_slice(), b.as_mut_slice(), w, "SliceMut");
            same_hash(&a, &h, &hb, "VecDyn");
            true
        });
    }
}

// ---- hashing and formatting -------------------------------------------------------------

/// Accepts only the first `left` bytes.
struct Short {
    out: String,
    left: usize,
}
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for ch in s.chars() {
            if self.left < ch.len_utf8() {
                self.left = 0;
                return Err(fmt::Error);
            }
            self.left -= ch.len_utf8();
            self.out.push(ch);
        }
        Ok(())
    }
}
fn formats(d: &dyn Debug) -> Vec<String> {
    vec![
        format!("{:?}", d), format!("{:#?}", d), format!("{:4?}", d), format!("{:<7?}|", d), format!("{:+.2?}", d), format!("{:#06x?}", d),
        format!("{:X?}", d), format!("{:*^9?}", d),
    ]
}
fn same_debug(got: &dyn Debug, want: &dyn Debug, what: &str, failing: bool) {
    let (g, w) = (formats(got), formats(want));
    for (x, y) in g.iter().zip(&w) {
        ck!(x == y, Content, "debug output differs from the typed one", "{}: {:?} instead of {:?}", what, x, y);
    }
    if failing {
        for n in 0..w[1].len() {
            let mut p = Short { out: String::new(), left: n };
            let mut q = Short { out: String::new(), left: n };
            let r = (write!(p, "{:#?}", got).is_err(), write!(q, "{:#?}", want).is_err());
            ck!(r.0 == r.1 && p.out == q.out, Content, "debug output to a failing writer differs from the typed one", "{} after {} bytes", what, n);
        }
    }
}
fn same_hash<X: Hash + ?Sized>(got: &X, want: &[u8], alt: &[u8], what: &str) {
    let h = rec_hash(got);
    ck!(h == want || h == alt, Content, "hashed data differs from the typed one", "{}: {:?} instead of {:?}", what, h, want);
}
/// Hash of the elements in order.
fn concat<T: Hash>(v: &[T]) -> Vec<u8> {
    v.iter().flat_map(|x| rec_hash(x)).collect()
}

fn prints<A: TElem>(c: &mut Cases, n: usize, k: u8) {
    for la in &sequences(n, k) {
        c.run(format_args!("{} {:?} hash and debug", A::NAME, la), || {
            let t = typed::<A>(la, 0, 0, 0);
            let (hw, ha) = (concat(&t), rec_hash(&t));
            macro_rules! tab {
                ($V:ty) => {
                    let mut d: VecDyn<$V> = typed::<A>(la, 0, 0, 2).into();
                    same_hash(&d, &hw, &ha, "VecDyn");
                    same_debug(&d, &t, "VecDyn", true);
                    same_debug(&d.as_slice(), &t, "Slice", true);
                    same_debug(&d.as_mut_slice(), &t, "SliceMut", true);
                    for (i, x) in t.iter().enumerate() {
                        let h = rec_hash(x);
                        same_hash(&d.get(i), &h, &h, "ValueRef");
                        same_debug(&d.get(i), x, "ValueRef", true);
                        same_hash(&d.get_mut(i), &h, &h, "ValueMut");
                        same_debug(&d.get_mut(i), x, "ValueMut", true);
                        let b = BoxValue::<$V>::new(A::make(la[i]));
                        same_hash(&b, &h, &h, "BoxValue");
                        same_debug(&b, x, "BoxValue", true);
                        if let Some(s) = SmallValue::<$V>::try_new(A::make(la[i])) {
                            same_hash(&s, &h, &h, "SmallValue");
                            same_debug(&s, x, "SmallValue", true);
                        }
                    }
                    if la.len() > 1 {
                        let s = d.as_slice();
                        same_debug(&s.subslice(1..), &&t[1..], "subslice", false);
                        same_debug(&s.split_at(1).0, &&t[..1], "split", false);
                    }
                };
            }
            tab!(VA);
            tab!(DeepVTable);
            let d: VecDyn<HashVTable> = typed::<A>(la, 0, 0, 1).into();
            same_hash(&d, &hw, &ha, "VecDyn<HashVTable>");
            let d: VecDyn<DebugVTable> = typed::<A>(la, 0, 0, 1).into();
            same_debug(&d, &t, "VecDyn<DebugVTable>", false);
            true
        });
    }
}

fn copies<A: CElem, B: CElem>(c: &mut Cases, k: u8, same: bool) {
    for x in 0..k {
        for y in 0..k {
            c.run(format_args!("copy {} {} {} {}", A::NAME, if same { "same" } else { B::NAME }, x, y), || {
                let w = same && x == y;
                let (mut a, mut b) = (A::make(x), B::make(y));
                eq4!(CopyValueRef::<VA>::new(&a), CopyValueRef::<VA>::new(&b), w, "CopyValueRef");
                let (ca, cb) = (a, b);
                eq4!(CopyValueMut::<VA>::new(&mut a), CopyValueMut::<VA>::new(&mut b), w, "CopyValueMut");
                let (va, vb) = (VC::from_vec(vec![A::make(7), ca]), VC::from_vec(vec![cb, B::make(7), cb]));
                eq4!(va.get_ref(1), vb.get_ref(2), w, "VecCopy element");
                let h = rec_hash(&ca);
                same_hash(&va.get_ref(1), &h, &h, "CopyValueRef");
                same_debug(&va.get_ref(1), &ca, "CopyValueRef", true);
                let mut va = va;
                same_hash(&va.get_mut(1), &h, &h, "CopyValueMut");
                same_debug(&va.get_mut(1), &ca, "CopyValueMut", true);
                // the same data seen with a table extended by a drop function
                let (ra, rb): (ValueRef<(DropFn, VA)>, ValueRef<(DropFn, VA)>) = (va.get_ref(1).into(), vb.get_ref(2).into());
                eq4!(ra, rb, w, "ValueRef made from CopyValueRef");
                same_hash(&ra, &h, &h, "ValueRef from CopyValueRef");
                same_debug(&ra, &ca, "ValueRef from CopyValueRef", false);
                true
            });
        }
    }
}

// ---- foreign types ---------------------------------------------------------------------

/// Full equality: every pair of the values, as values and as elements.
fn foreign<T: Clone + Eq + Hash + Debug + 'static>(c: &mut Cases, name: &str, vals: &[T]) {
    partial::<T>(c, name, vals);
    for (i, x) in vals.iter().enumerate() {
        for (j, y) in vals.iter().enumerate() {
            c.run(format_args!("{} {} {} full", name, i, j), || {
                let w = x == y;
                let (hx, hy) = (rec_hash(x), rec_hash(y));
                let (bx, by) = (BoxValue::<VA>::new(x.clone()), BoxValue::<VA>::new(y.clone()));
                eq4!(bx, by, w, "BoxValue");
                same_hash(&bx, &hx, &hx, "BoxValue");
                same_hash(&by, &hy, &hy, "BoxValue");
                let (dx, dy): (VecDyn<VA>, VecDyn<VA>) = (vec![x.clone(), y.clone()].into(), vec![y.clone(), x.clone()].into());
                eq4!(dx, dy, w, "VecDyn");
                let t = [x.clone(), y.clone()];
                same_hash(&dx, &concat(&t), &rec_hash(&t[..]), "VecDyn");
                if let (Some(p), Some(q)) = (SmallValue::<VA>::try_new(x.clone()), SmallValue::<VA>::try_new(y.clone())) {
                    eq4!(p, q, w, "SmallValue");
                    same_hash(&p, &hx, &hx, "SmallValue");
                }
                // as keys
                let mut m = std::collections::HashMap::with_hasher(Fixed);
                m.insert(BoxValue::<VA>::new(x.clone()), 1);
                m.insert(BoxValue::<VA>::new(y.clone()), 2);
                let mut mt = std::collections::HashMap::with_hasher(Fixed);
                mt.insert(x.clone(), 1);
                mt.insert(y.clone(), 2);
                ck!(m.len() == mt.len() && m.get(&bx) == mt.get(x) && m.get(&by) == mt.get(y), Content, "hash map keyed by values behaves differently", "{} vs {}", m.len(), mt.len());
                true
            });
        }
    }
}
struct Fixed;
impl BuildHasher for Fixed {
    type Hasher = Rec;
    fn build_hasher(&self) -> Rec {
        Rec::default()
    }
}

/// Equality that need not be reflexive.
fn partial<T: Clone + PartialEq + Debug + 'static>(c: &mut Cases, name: &str, vals: &[T]) {
    macro_rules! eqp {
        ($a:expr, $b:expr, $want:expr, $what:expr) => {{
            let (a, b, w) = (&$a, &$b, $want);
            ck!((*a == *b) == w && (*a != *b) != w, Content, concat!($what, " compares differently from the typed ones"), "a == b is {}", !w);
        }};
    }
    for (i, x) in vals.iter().enumerate() {
        for (j, y) in vals.iter().enumerate() {
            c.run(format_args!("{} {} {}", name, i, j), || {
                let w = x == y;
                eqp!(ValueRef::<PartVTable>::new(x), ValueRef::<PartVTable>::new(y), w, "ValueRef");
                let (bx, by) = (BoxValue::<PartVTable>::new(x.clone()), BoxValue::<PartVTable>::new(y.clone()));
                eqp!(bx, by, w, "BoxValue");
                if i == j {
                    // the very same value, not just an equal one
                    eqp!(bx, bx, w, "BoxValue and itself");
                    let r = bx.as_ref();
                    eqp!(r, r, w, "ValueRef and itself");
                }
                same_debug(&bx, x, "BoxValue", false);
                if let (Some(p), Some(q)) = (SmallValue::<PartVTable>::try_new(x.clone()), SmallValue::<PartVTable>::try_new(y.clone())) {
                    eqp!(p, q, w, "SmallValue");
                    if i == j {
                        eqp!(p, p, w, "SmallValue and itself");
                    }
                    same_debug(&p, x, "SmallValue", false);
                }
                for n in 0..3 {
                    for m in 0..3 {
                        let (tx, ty) = (vec![x.clone(); n], vec![y.clone(); m]);
                        let mut dx: VecDyn<PartVTable> = tx.clone().into();
                        let mut dy: VecDyn<PartVTable> = ty.clone().into();
                        eqp!(dx, dy, tx == ty, "VecDyn");
                        eqp!(dx.as_slice(), dy.as_slice(), tx == ty, "Slice");
                        eqp!(dx.as_mut_slice(), dy.as_mut_slice(), tx == ty, "SliceMut");
                        if i == j && n == m {
                            eqp!(dx, dx, tx == tx, "VecDyn and itself");
                            let s = dx.as_slice();
                            eqp!(s, s, tx == tx, "Slice and itself");
                        }
                    }
                }
                let t = vec![x.clone(), y.clone()];
                let mut d: VecDyn<PartVTable> = t.clone().into();
                same_debug(&d, &t, "VecDyn", false);
                same_debug(&d.as_mut_slice(), &t, "SliceMut", false);
                let e: VecDyn<PartialEqVTable> = t.clone().into();
                let f: VecDyn<PartialEqVTable> = vec![x.clone(), x.clone()].into();
                eqp!(e, f, t == [x.clone(), x.clone()], "VecDyn<PartialEqVTable>");
                true
            });
        }
    }
}

/// Equal up to case, with a consistent hash.
#[derive(Clone, Debug)]
struct NoCase(String);
impl PartialEq for NoCase {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq_ignore_ascii_case(&o.0)
    }
}
impl Eq for NoCase {}
impl Hash for NoCase {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.to_ascii_lowercase().hash(h)
    }
}
/// Never equal to anything, not even itself.
#[derive(Clone, Debug)]
struct Never(u8);
impl PartialEq for Never {
    fn eq(&self, _: &Self) -> bool {
        false
    }
    #[allow(clippy::partialeq_ne_impl)]
    fn ne(&self, _: &Self) -> bool {
        true
    }
}
/// Ignores a field, and has padding.
#[derive(Clone, Debug)]
#[repr(C)]
struct Padded(u8, u32, u16);
impl PartialEq for Padded {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && self.2 == o.2
    }
}
impl Eq for Padded {}
impl Hash for Padded {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0, self.2).hash(h)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum En {
    A,
    B(u8),
    C { s: String, t: Option<Box<En>> },
}
#[derive(Clone, Debug, PartialEq)]
struct Gen<T>(T, PhantomData<T>, &'static str);

fn types(c: &mut Cases) {
    foreign(c, "u8", &[0u8, 1, 255]);
    foreign(c, "i8", &[0i8, -1, i8::MIN]);
    foreign(c, "u16", &[0u16, 1, 256, 257]);
    foreign(c, "i16", &[0i16, 1, -256]);
    foreign(c, "u32", &[0u32, 1, 1 << 31]);
    foreign(c, "i32", &[0i32, 1, -1]);
    foreign(c, "u64", &[0u64, 1, 1 << 32, u64::MAX]);
    foreign(c, "i64", &[0i64, 1, 1 << 32, i64::MIN]);
    foreign(c, "u128", &[0u128, 1, 1 << 64]);
    foreign(c, "usize", &[0usize, usize::MAX]);
    foreign(c, "isize", &[0isize, isize::MIN]);
    foreign(c, "bool", &[false, true]);
    foreign(c, "char", &['a', 'b', '\u{10ffff}']);
    foreign(c, "String", &["".to_string(), "a".to_string(), "ab".to_string(), "\"\n".to_string()]);
    foreign(c, "&str", &["", "x", "xy"]);
    foreign(c, "Vec<u8>", &[vec![], vec![0u8], vec![0, 0]]);
    foreign(c, "Vec<String>", &[vec![], vec!["a".to_string()], vec!["".to_string(), "a".to_string()]]);
    foreign(c, "Box<[u8]>", &[vec![].into_boxed_slice(), vec![1u8].into_boxed_slice()]);
    foreign(c, "Option<u8>", &[None, Some(0u8), Some(1)]);
    foreign(c, "Option<Box<u8>>", &[None, Some(Box::new(0u8)), Some(Box::new(1))]);
    foreign(c, "Result", &[Ok(1u8), Err("e".to_string()), Err("f".to_string())]);
    foreign(c, "[u8;3]", &[[0u8, 0, 0], [0, 0, 1]]);
    foreign(c, "[String;2]", &[["".to_string(), "a".to_string()], ["a".to_string(), "".to_string()]]);
    foreign(c, "tuple", &[(0u8, 0u32), (0, 1), (1, 0)]);
    foreign(c, "tuple3", &[(0u8, "a".to_string(), 'c'), (0, "".to_string(), 'c')]);
    foreign(c, "Rc", &[Rc::new(1u8), Rc::new(2)]);
    foreign(c, "Arc", &[Arc::new("a".to_string()), Arc::new("b".to_string())]);
    foreign(c, "BTreeMap", &[BTreeMap::new(), [(1u8, "x".to_string())].into_iter().collect()]);
    foreign(c, "BTreeSet", &[BTreeSet::new(), [1u8, 2].into_iter().collect()]);
    foreign(c, "VecDeque", &[VecDeque::new(), [1u8, 2].into_iter().collect()]);
    foreign(c, "NoCase", &[NoCase("a".into()), NoCase("A".into()), NoCase("b".into())]);
    foreign(c, "Padded", &[Padded(1, 2, 3), Padded(1, 5, 3), Padded(1, 2, 4)]);
    foreign(c, "En", &[En::A, En::B(1), En::C { s: "x".into(), t: None }, En::C { s: "x".into(), t: Some(Box::new(En::A)) }]);
    foreign(c, "fn", &[types as fn(&mut Cases), main2 as fn(&mut Cases)]);
    partial(c, "f32", &[0f32, -0.0, 1.0, f32::NAN, f32::INFINITY, f32::from_bits(0x7fc0_0001), f32::MIN_POSITIVE]);
    partial(c, "f64", &[0f64, -0.0, 1.0, f64::NAN, f64::NEG_INFINITY, f64::from_bits(0x7ff8_0000_0000_0001)]);
    partial(c, "[f64;2]", &[[0.0f64, 1.0], [-0.0, 1.0], [f64::NAN, 0.0]]);
    partial(c, "Vec<f32>", &[vec![], vec![f32::NAN], vec![0.0], vec![-0.0]]);
    partial(c, "Option<f64>", &[None, Some(f64::NAN), Some(0.5)]);
    partial(c, "Never", &[Never(1), Never(2)]);
    partial(c, "Gen<f32>", &[Gen(f32::NAN, PhantomData, "a"), Gen(1.0, PhantomData, "a"), Gen(1.0, PhantomData, "b")]);
    // same representation, different types
    c.run(format_args!("u32 and i32 and f32 and [u8;4] and char"), || {
        let v: Vec<(&str, VecDyn<PartVTable>)> = vec![
            ("u32", vec![0u32, 1].into()), ("i32", vec![0i32, 1].into()), ("f32", vec![0f32, f32::from_bits(1)].into()),
            ("[u8;4]", vec![[0u8; 4], [1, 0, 0, 0]].into()), ("char", vec!['\0', '\u{1}'].into()), ("(u16,u16)", vec![(0u16, 0u16), (1, 0)].into()),
            ("u64", vec![1u64 << 32].into()), ("u8", vec![0u8, 0, 0, 0, 1, 0, 0, 0].into()), ("u32 empty", Vec::<u32>::new().into()),
            ("i32 empty", Vec::<i32>::new().into()), ("String empty", Vec::<String>::new().into()), ("Vec<u8> empty", Vec::<Vec<u8>>::new().into()),
        ];
        for (i, (n, a)) in v.iter().enumerate() {
            for (j, (m, b)) in v.iter().enumerate() {
                ck!((a == b) == (i == j), Content, "containers of different types compare equal", "{} {}", n, m);
                ck!((a.as_slice() == b.as_slice()) == (i == j), Content, "slices of different types compare equal", "{} {}", n, m);
            }
        }
        true
    });
}
fn main2(_: &mut Cases) {}

fn main() {
    let a = mc::args();
    if a.list {
        for j in "same-K8x8 same-K1x1 same-K3x1 same-K16x16 same-String same-BoxK twin-K8x8 twin-K1x1 twin-K3x1 twin-String size other types prints-K8x8 prints-K3x1 prints-String copy long".split(' ') {
            println!("{}", j);
        }
        return;
    }
    let (n, k) = if a.thorough { (5, 3) } else { (4, 3) };
    let mut cs = Cases::new(a.only.clone());
    let c = &mut cs;
    match a.job.as_str() {
        "same-K8x8" => pair::<K8x8, K8x8>(c, n, k, true),
        "same-K1x1" => pair::<K1x1, K1x1>(c, n, k, true),
        "same-K3x1" => pair::<K3x1, K3x1>(c, n, k, true),
        "same-K16x16" => pair::<K16x16, K16x16>(c, n, k, true),
        "same-String" => pair::<String, String>(c, n, k, true),
        "same-BoxK" => pair::<BoxK, BoxK>(c, n, k, true),
        "twin-K8x8" => pair::<K8x8, K8x8b>(c, n, 2, false),
        "twin-K1x1" => pair::<K1x1, K1x1b>(c, n, 2, false),
        "twin-K3x1" => pair::<K3x1, K3x1b>(c, n, 2, false),
        "twin-String" => pair::<String, StrTwin>(c, n, 2, false),
        "size" => {
            pair::<K4x4, K4x4b>(c, 2, 2, false);
            pair::<K24x8, String>(c, 2, 2, false);
        }
        "other" => {
            pair::<K8x8, K1x1>(c, 2, 2, false);
            pair::<K1x1, K2x2>(c, 2, 2, false);
            pair::<String, K16x16>(c, 2, 2, false);
        }
        "types" => types(c),
        "long" => {
            for n in 4..if a.thorough { 40 } else { 18 } {
                long::<K8x8>(c, n);
                long::<K1x1>(c, n);
                long::<String>(c, n);
            }
        }
        "prints-K8x8" => prints::<K8x8>(c, 3, 3),
        "prints-K3x1" => prints::<K3x1>(c, 3, 3),
        "prints-String" => prints::<String>(c, 3, 3),
        "copy" => {
            macro_rules! all { ($($t:ident $u:ident)*) => { $( copies::<$t, $t>(c, 3, true); copies::<$t, $u>(c, 3, false); )* } }
            all!(C1x1 C1x1b C2x2 C2x2b C3x1 C3x1b C4x4 C4x4b C8x8 C8x8b C16x16 C16x16b C24x8 C24x8b);
        }
        j => panic!("no job {}", j),
    }
    cs.res.states = cs.res.execs;
    cs.res.transitions = cs.res.execs;
    cs.res.print();
}
