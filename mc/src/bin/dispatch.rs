//! Tables dispatch to the element's own functions, also for elements that need no destructor but
//! whose clone, equality, hash and debug output are not those of their bytes (C11).
use dync::traits::*;
use dync::*;
use mc::ck;
use mc::rep::Cases;
use mc::vd::{VA, VD};
use std::cell::Cell;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::mem::size_of;

#[dync_mod]
mod deep {
    use dync::*;
    pub trait Low: Clone {}
    impl<T: Clone> Low for T {}
    pub trait High: Low + Eq + std::hash::Hash + std::fmt::Debug {}
    impl<T: Low + Eq + std::hash::Hash + std::fmt::Debug> High for T {}
}
use deep::{HighVTable, LowVTable};

thread_local! { static CLONES: Cell<usize> = const { Cell::new(0) }; }
fn clones() -> usize {
    CLONES.with(|c| c.get())
}

trait G: Clone + Eq + Hash + Debug + 'static {
    const NAME: &'static str;
    fn make(label: u8, gen: u8) -> Self;
    /// Label and generation, or nothing if the value is not intact.
    fn get(&self) -> Option<(u8, u8)>;
}

macro_rules! behave {
    ($t:ident, $name:expr) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                CLONES.with(|c| c.set(c.get() + 1));
                let (l, g) = self.get().unwrap_or((15, 15));
                G::make(l, g + 1)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.get().map(|x| x.0 % 4) == o.get().map(|x| x.0 % 4)
            }
        }
        impl Eq for $t {}
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                h.write_u16(self.get().map_or(999, |x| x.0 as u16 % 4 + 300));
                h.write_u8(7);
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.debug_struct("G").field("id", &self.get()).finish()
            }
        }
    };
}
/// A label, a generation and a tail that depends on both.
macro_rules! plain {
    ($t:ident, $name:expr, $tail:expr, $align:expr) => {
        #[repr(C, align($align))]
        struct $t(u8, u8, [u8; $tail]);
        behave!($t, $name);
        impl G for $t {
            const NAME: &'static str = $name;
            fn make(l: u8, g: u8) -> Self {
                $t(l, g, [l * 16 + g; $tail])
            }
            fn get(&self) -> Option<(u8, u8)> {
                (self.0 < 16 && self.1 < 16 && self.2.iter().all(|&b| b == self.0 * 16 + self.1)).then_some((self.0, self.1))
            }
        }
    };
}
struct G1(u8);
behave!(G1, "G1x1");
impl G for G1 {
    const NAME: &'static str = "G1x1";
    fn make(l: u8, g: u8) -> Self {
        G1(l * 16 + g)
    }
    fn get(&self) -> Option<(u8, u8)> {
        Some((self.0 / 16, self.0 % 16))
    }
}
plain!(G2, "G2x1", 0, 1);
plain!(G3, "G3x1", 1, 1);
plain!(G4, "G4x4", 2, 4);
plain!(G8, "G8x8", 6, 8);
plain!(G8a, "G8x1", 6, 1);
plain!(G8b, "G8x2", 6, 2);
plain!(G12, "G12x4", 10, 4);
plain!(G16, "G16x16", 14, 16);
plain!(G24, "G24x8", 22, 8);
plain!(G48, "G48x16", 46, 16);
plain!(G64, "G64x64", 62, 64);
plain!(G3000, "G3000x8", 2998, 8);

fn lab(i: usize) -> u8 {
    ((i * 3 + i / 4) % 8) as u8
}
fn typed<T: G>(n: usize) -> Vec<T> {
    (0..n).map(|i| T::make(lab(i), 0)).collect()
}
fn state<T: G>(v: &[T]) -> Vec<Option<(u8, u8)>> {
    v.iter().map(|x| x.get()).collect()
}
fn want(n: usize, g: u8) -> Vec<Option<(u8, u8)>> {
    (0..n).map(|i| Some((lab(i), g))).collect()
}
fn seen<T: G>(v: &VD) -> Vec<Option<(u8, u8)>> {
    state(v.as_slice_as::<T>().unwrap_or(&[]))
}

#[derive(Default, PartialEq, Debug)]
struct Log(Vec<u8>);
impl Hasher for Log {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}
fn log<X: Hash + ?Sized>(x: &X) -> Vec<u8> {
    let mut l = Log::default();
    x.hash(&mut l);
    l.0
}

macro_rules! exact {
    ($c0:expr, $k:expr, $got:expr, $want:expr, $what:expr) => {{
        let (got, want) = ($got, $want);
        ck!(got == want, Content, concat!($what, " does not hold the elements' own clones"), "{:?}, expected {:?}", got, want);
        ck!(clones() == $c0 + $k, Content, concat!($what, " does not clone each element once"), "{} clones, expected {}", clones() - $c0, $k);
    }};
}
macro_rules! moved {
    ($c0:expr, $got:expr, $want:expr, $what:expr) => {{
        let (got, want) = ($got, $want);
        ck!(got == want, Content, concat!($what, " changes elements that it only moves"), "{:?}, expected {:?}", got, want);
        ck!(clones() == $c0, Content, concat!($what, " clones elements"), "{} clones", clones() - $c0);
    }};
}

fn run<T: G>(c: &mut Cases, max: usize) {
    let small = size_of::<T>() == size_of::<usize>();
    for n in 0..=max {
        let nm = |w: &str| format!("{} n={} {}", T::NAME, n, w);
        // whole containers
        c.run(format_args!("{}", nm("clone")), || {
            let v: VD = typed::<T>(n).into();
            let c0 = clones();
            let w = v.clone();
            exact!(c0, n, seen::<T>(&w), want(n, 1), "clone of a vector");
            let w2 = w.clone();
            exact!(c0, 2 * n, seen::<T>(&w2), want(n, 2), "clone of a clone");
            let u: VecDyn<LowVTable> = typed::<T>(n).into_iter().collect::<Vec<T>>().into();
            let c0 = clones();
            let u2 = u.clone();
            exact!(c0, n, state(u2.as_slice_as::<T>().unwrap()), want(n, 1), "clone of a vector");
            let h: VecDyn<HighVTable> = typed::<T>(n).into();
            let low: VecDyn<LowVTable> = h.clone().upcast();
            let c0 = clones();
            exact!(c0, n, state(low.clone().as_slice_as::<T>().unwrap()), want(n, 2), "clone of an upcast vector");
            let only: VecDyn<CloneVTable> = low.upcast();
            let c0 = clones();
            exact!(c0, n, state(only.clone().as_slice_as::<T>().unwrap()), want(n, 2), "clone of an upcast vector");
            ck!(seen::<T>(&v) == want(n, 0), Content, "cloning changes the original", "");
            true
        });
        for spare in 0..=2 {
            c.run(format_args!("{} spare={}", nm("clone"), spare), || {
                let mut t = Vec::with_capacity(n + spare);
                t.extend(typed::<T>(n));
                let v: VD = t.into();
                let c0 = clones();
                let w = v.clone();
                exact!(c0, n, seen::<T>(&w), want(n, 1), "clone of a vector");
                true
            });
        }
        c.run(format_args!("{}", nm("into typed")), || {
            let mut v: VD = typed::<T>(n).into();
            let c0 = clones();
            exact!(c0, n, state(&v.clone_into_vec::<T>().unwrap()), want(n, 1), "clone_into_vec");
            exact!(c0, 2 * n, state(&v.as_slice().clone_into_vec::<T>().unwrap()), want(n, 1), "Slice::clone_into_vec");
            exact!(c0, 3 * n, state(&v.as_mut_slice().clone_into_vec::<T>().unwrap()), want(n, 1), "SliceMut::clone_into_vec");
            let mut t: Vec<T> = typed(1);
            v.append_cloned_to_vec(&mut t).unwrap();
            exact!(c0, 4 * n, state(&t[1..]), want(n, 1), "append_cloned_to_vec");
            v.as_slice().append_clone_to_vec(&mut t).unwrap();
            exact!(c0, 5 * n, state(&t[n + 1..]), want(n, 1), "Slice::append_clone_to_vec");
            v.as_mut_slice().append_clone_to_vec(&mut t).unwrap();
            exact!(c0, 6 * n, state(&t[2 * n + 1..]), want(n, 1), "SliceMut::append_clone_to_vec");
            moved!(c0 + 6 * n, seen::<T>(&v), want(n, 0), "cloning into a typed vector");
            true
        });
        c.run(format_args!("{}", nm("from slices")), || {
            let t: Vec<T> = typed(n);
            let c0 = clones();
            let mut v = VD::from_slice(&t);
            exact!(c0, n, seen::<T>(&v), want(n, 1), "from_slice");
            let t2: Vec<T> = (0..n).map(|i| T::make(lab(i), 5)).collect();
            v.as_mut_slice().clone_from_slice(&t2).unwrap();
            exact!(c0, 2 * n, seen::<T>(&v), want(n, 6), "clone_from_slice");
            true
        });
        for m in 0..=n + 3 {
            c.run(format_args!("{} {}", nm("resize"), m), || {
                let mut v: VD = typed::<T>(n).into();
                let c0 = clones();
                v.resize(m, T::make(6, 0)).unwrap();
                let s = seen::<T>(&v);
                ck!(s.len() == m && s[..n.min(m)] == want(n.min(m), 0)[..], Content, "resize changes the elements before", "{:?}", s);
                // one of the new elements may be the value itself
                ck!(s[n.min(m)..].iter().all(|x| matches!(x, Some((6, 0 | 1)))), Content, "resize does not append clones of the value", "{:?}", s);
                ck!(s[n.min(m)..].iter().filter(|x| matches!(x, Some((6, 0)))).count() <= 1, Content, "resize does not append clones of the value", "{:?}", s);
                ck!(clones() - c0 <= m.saturating_sub(n), Content, "resize clones more values than it appends", "{}", clones() - c0);
                true
            });
        }
        c.run(format_args!("{}", nm("fill and with_size")), || {
            let mut v: VD = typed::<T>(n).into();
            v.fill(T::make(6, 0)).unwrap();
            let s = seen::<T>(&v);
            ck!(s.len() == n && s.iter().all(|x| matches!(x, Some((6, 0 | 1)))) && s.iter().filter(|x| matches!(x, Some((6, 0)))).count() <= 1, Content, "fill does not set clones of the value", "{:?}", s);
            let v = VD::with_size(n, T::make(6, 0));
            let s = seen::<T>(&v);
            ck!(s.len() == n && s.iter().all(|x| matches!(x, Some((6, 0 | 1)))) && s.iter().filter(|x| matches!(x, Some((6, 0)))).count() <= 1, Content, "with_size does not hold clones of the value", "{:?}", s);
            true
        });
        c.run(format_args!("{}", nm("moves")), || {
            let c0 = clones();
            let mut v: VD = typed::<T>(n).into();
            let mut w: VD = vec![T::make(7, 3)].into();
            w.push_as(T::make(7, 4)).unwrap();
            w.push(BoxValue::<VA>::new(T::make(7, 5))).unwrap();
            v.append(&mut w);
            v.rotate_left(1);
            v.rotate_right(1);
            v.as_mut_slice().swap(0, n + 2);
            v.as_mut_slice().swap(n + 2, 0);
            let mut e = want(n, 0);
            e.extend([Some((7, 3)), Some((7, 4)), Some((7, 5))]);
            moved!(c0, seen::<T>(&v), e.clone(), "moving");
            let t: Vec<T> = v.into_vec().unwrap();
            moved!(c0, state(&t), e, "moving");
            true
        });
        c.run(format_args!("{}", nm("compare, hash, debug")), || {
            let t: Vec<T> = typed(n);
            let mut v: VD = typed::<T>(n).into();
            let mut w: VD = (0..n).map(|i| T::make((lab(i) + 4) % 8, 2)).collect::<Vec<T>>().into();
            let x: VD = (0..n).map(|i| T::make(lab(i) + (i + 1 == n) as u8, 0)).collect::<Vec<T>>().into();
            ck!(v == w && w == v && !(v != w), Content, "equal elements make unequal vectors", "");
            ck!((v == x) == (n == 0) && (x == v) == (n == 0), Content, "unequal elements make equal vectors", "");
            ck!(v.as_slice() == w.as_slice(), Content, "equal elements make unequal slices", "");
            ck!((v.as_slice() == x.as_slice()) == (n == 0), Content, "unequal elements make equal slices", "");
            ck!(log(&v) == { let mut l = Log::default(); t.iter().for_each(|e| e.hash(&mut l)); l.0 } || log(&v) == log(&t), Content, "hash of a vector", "{:?}", log(&v));
            ck!(log(&v) == log(&w), Content, "equal vectors hash differently", "");
            ck!(format!("{:?}", v) == format!("{:?}", t) && format!("{:#?}", v) == format!("{:#?}", t), Content, "debug output of a vector", "{:?}", v);
            ck!(format!("{:?}", v.as_slice()) == format!("{:?}", t) && format!("{:#?}", v.as_mut_slice()) == format!("{:#?}", t), Content, "debug output of a slice", "{:?}", v);
            for i in 0..n {
                ck!(log(&v.get(i)) == log(&t[i]) && log(&v.get_mut(i)) == log(&t[i]), Content, "hash of an element", "");
                ck!(format!("{:?}", v.get(i)) == format!("{:?}", t[i]) && format!("{:#?}", v.get_mut(i)) == format!("{:#?}", t[i]), Content, "debug output of an element", "");
                for j in 0..n {
                    ck!((v.get(i) == w.get(j)) == (t[i] == t[j]) && (v.get_mut(i) == w.get_mut(j)) == (t[i] == t[j]), Content, "comparison of elements", "{} {}", i, j);
                }
            }
            true
        });
        // single elements
        for i in 0..n {
            c.run(format_args!("{} {}", nm("clones of element"), i), || {
                let mut v: VD = typed::<T>(n).into();
                let g = Some((lab(i), 1));
                let c0 = clones();
                let b = v.get(i).clone_value();
                exact!(c0, 1, b.as_ref().downcast::<T>().and_then(|x| x.get()), g, "clone_value");
                let b2 = b.clone();
                exact!(c0, 2, b2.downcast::<T>().and_then(|x| x.get()), Some((lab(i), 2)), "clone of a boxed value");
                let d = v.get_mut(i).clone_value();
                exact!(c0, 3, d.as_ref().downcast::<T>().and_then(|x| x.get()), g, "clone_value of an exclusive reference");
                v.push(d).unwrap();
                moved!(c0 + 3, seen::<T>(&v)[n], g, "push of a boxed value");
                if small {
                    let s = v.get(i).clone_small_value();
                    exact!(c0, 4, s.as_ref().downcast::<T>().and_then(|x| x.get()), g, "clone_small_value");
                    let s2 = s.clone();
                    exact!(c0, 5, s2.downcast::<T>().and_then(|x| x.get()), Some((lab(i), 2)), "clone of a small value");
                    let s = v.get_mut(i).clone_small_value();
                    exact!(c0, 6, s.downcast::<T>().and_then(|x| x.get()), g, "clone_small_value of an exclusive reference");
                    let s = SmallValue::<VA>::new(T::make(5, 0));
                    exact!(c0, 7, s.clone().downcast::<T>().and_then(|x| x.get()), Some((5, 1)), "clone of a small value");
                }
                true
            });
            c.run(format_args!("{} {}", nm("push_cloned"), i), || {
                let v: VD = typed::<T>(n).into();
                for spare in 0..2 {
                    let mut t = Vec::with_capacity(2 + spare);
                    t.extend(typed::<T>(2));
                    let mut w: VD = t.into();
                    let c0 = clones();
                    w.push_cloned(v.get(i)).unwrap();
                    exact!(c0, 1, seen::<T>(&w), vec![Some((lab(0), 0)), Some((lab(1), 0)), Some((lab(i), 1))], "push_cloned");
                }
                ck!(seen::<T>(&v) == want(n, 0), Content, "cloning changes the original", "");
                true
            });
            for j in 0..n {
                c.run(format_args!("{} {} from {}", nm("clone_from_other"), i, j), || {
                    let mut v: VD = (0..n).map(|i| T::make(7, i as u8)).collect::<Vec<T>>().into();
                    let w: VD = typed::<T>(n).into();
                    let c0 = clones();
                    v.get_mut(i).clone_from_other(w.get(j)).unwrap();
                    let e: Vec<_> = (0..n).map(|k| if k == i { Some((lab(j), 1)) } else { Some((7, k as u8)) }).collect();
                    exact!(c0, 1, seen::<T>(&v), e, "clone_from_other");
                    ck!(seen::<T>(&w) == want(n, 0), Content, "cloning changes the original", "");
                    true
                });
            }
        }
    }
}

macro_rules! jobs {
    ($($t:ident),*) => {
        const NAMES: &[&str] = &[$(<$t as G>::NAME),*];
        fn job(c: &mut Cases, name: &str, max: usize) {
            $(if name == <$t as G>::NAME { run::<$t>(c, max); })*
        }
    };
}
jobs!(G1, G2, G3, G4, G8, G8a, G8b, G12, G16, G24, G48, G64, G3000);

fn main() {
    let a = mc::args();
    if a.list {
        for t in NAMES {
            println!("{}", t);
        }
        return;
    }
    let mut c = Cases::new(a.only.clone());
    job(&mut c, &a.job, if a.thorough { 12 } else { 7 });
    c.res.states = c.res.execs;
    c.res.transitions = c.res.execs;
    c.res.print();
}
