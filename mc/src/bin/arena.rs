//! Shared references do not write (C16): the containers, their tables, their elements' storage and
//! every handle live on pages that are read-only while one operation that takes a shared
//! reference runs, so that a write, even a temporary one, ends the process.
use dync::traits::DropFn;
use dync::*;
use mc::elems::*;
use mc::rep::{guarded, Cases};
use mc::{ck, mon, point};
use std::any::TypeId;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of};
use std::rc::Rc;

#[dync_mod]
mod tr {
    pub trait All: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
    impl<T> All for T where T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
    pub trait Sub: All {}
    impl<T> Sub for T where T: All {}
}
use tr::*;
/// Stored with the larger table so that views can be converted to the smaller one.
type VS = SubVTable;
type VA = AllVTable;
type VD = VecDyn<VS>;
type VC = VecCopy<VS>;

extern "C" {
    fn open(p: *const std::ffi::c_char, f: i32, ...) -> i32;
    fn read(fd: i32, p: *mut std::ffi::c_void, n: usize) -> isize;
}
/// Whether the page holding `p` really refuses writes, asked of the kernel.
fn frozen(p: usize) -> bool {
    static FD: std::sync::OnceLock<i32> = std::sync::OnceLock::new();
    let fd = *FD.get_or_init(|| unsafe { open(c"/dev/zero".as_ptr(), 0) });
    mon::arena_contains(p) && fd >= 0 && unsafe { read(fd, p as *mut _, 1) } == -1
}
fn stat<T>(x: &T) -> usize {
    x as *const T as usize
}
/// The handles below live as long as what they borrow: both are in one `World`.
unsafe fn ext<'a, T: ?Sized>(x: &T) -> &'a T {
    &*(x as *const T)
}
unsafe fn ext_mut<'a, T: ?Sized>(x: &mut T) -> &'a mut T {
    &mut *(x as *mut T)
}

type Op = (String, Box<dyn Fn()>);
/// What to do with the operations of a world: run each with it frozen, or hand them out.
enum Mode<'a> {
    Freeze(&'a mut Cases),
    Collect(&'a mut Vec<Op>),
}

/// `build` makes the world in the arena; then each named operation runs once with it frozen.
fn each<W: 'static>(c: &mut Mode, name: &str, build: &dyn Fn() -> W, places: &dyn Fn(&W) -> Vec<usize>, ops: Vec<(&'static str, Box<dyn Fn(&W)>)>) {
    let c = match c {
        Mode::Freeze(c) => c,
        Mode::Collect(v) => {
            let w = Rc::new(build());
            v.extend(ops.into_iter().map(|(o, f)| {
                let w = w.clone();
                (format!("{} {}", name, o), Box::new(move || f(&w)) as Box<dyn Fn()>)
            }));
            return;
        }
    };
    if cfg!(miri) {
        // Under Miri: the same operations in two threads, under its happens-before monitor.  As the
        // threads do not synchronise, one execution has the same conflicts as every interleaving.
        struct Shared<T>(T);
        unsafe impl<T> Sync for Shared<T> {}
        impl<T> Shared<T> {
            fn get(&self) -> &T {
                &self.0
            }
        }
        c.run(format_args!("{} in two threads", name), || {
            let w = Shared(build());
            let ops = Shared(&ops);
            std::thread::scope(|s| {
                for _ in 0..2 {
                    s.spawn(|| {
                        for (_, f) in ops.get().iter() {
                            f(w.get());
                        }
                    });
                }
            });
            true
        });
        return;
    }
    for (o, f) in &ops {
        // once, and twice in one freeze: state kept by the first call would show in the second
        for times in 1..=2 {
            c.run(format_args!("{} {} x{}", name, o, times), || {
                mon::arena_reset();
                mon::arena_on(true);
                let w = Box::new(build());
                mon::arena_on(false);
                mon::arena_protect(true);
                let cold = frozen(stat(&*w)) && places(&w).iter().all(|p| frozen(*p));
                let r = if cold { guarded(|| for _ in 0..times { f(&w) }) } else { Ok(()) };
                mon::arena_protect(false);
                drop(w);
                assert!(cold, "the world is not on frozen pages");
                ck!(r.is_ok(), Panic, "an operation through a shared reference panicked", "{} {}: {}", name, o, mc::rep::panic_msg());
                true
            });
        }
    }
}

#[derive(Default)]
struct Sum(u64, usize);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.1 += 1;
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}
fn h<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut s = Sum::default();
    x.hash(&mut s);
    s.finish()
}
fn same(ok: bool, what: &str) {
    ck!(ok, Content, "an operation through a shared reference gave another result than before", "{}", what);
}
fn labs<T: TElem>(v: &[T]) -> Vec<u8> {
    v.iter().map(|x| x.label()).collect()
}
fn want(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i % 3) as u8).collect()
}
fn make<T: TElem>(l: &[u8], spare: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(l.len() + spare);
    v.extend(l.iter().map(|x| T::make(*x)));
    v
}
/// Longer containers, as the ledger has room for.
fn longer(counted: bool) -> impl Iterator<Item = usize> {
    let l: &[usize] = if cfg!(miri) {
        &[]
    } else if counted {
        &[9, 17, 26]
    } else {
        &[9, 17, 33, 65, 129, 257]
    };
    l.iter().copied()
}
macro_rules! ops { ($($name:literal: |$w:ident| $e:expr;)*) => { vec![$(($name, Box::new(|$w: &World<T>| { $e; }) as Box<dyn Fn(&World<T>)>),)*] }; }

mod owned {
    use super::*;
    struct World<T: 'static> {
        n: usize,
        // handles
        vm: Option<ValueMut<'static, VS>>,
        vr: Option<ValueRef<'static, VS>>,
        vr2: Option<ValueRef<'static, VS>>,
        sl: Slice<'static, VS>,
        sm: SliceMut<'static, VS>,
        st: Slice<'static, VS>,
        stm: SliceMut<'static, VS>,
        // owners
        a: Box<VD>,
        same: VD,
        other: VD,
        alien: VD,
        m1: Box<VD>,
        m2: Box<VD>,
        t1: Vec<T>,
        t2: Vec<T>,
        bx: BoxValue<VS>,
        bo: BoxValue<VS>,
        sv: Option<SmallValue<VS>>,
    }
    fn build<T: TElem>(n: usize, spare: usize) -> World<T> {
        let l = want(n);
        let vd = || -> VD { make::<T>(&l, spare).into() };
        let mut o = l.clone();
        if let Some(x) = o.last_mut() {
            *x += 1;
        }
        let (a, mut m1, mut m2) = (Box::new(vd()), Box::new(vd()), Box::new(vd()));
        let (t1, mut t2) = (make::<T>(&l, spare), make::<T>(&l, spare));
        unsafe {
            World {
                n,
                vm: if n > 0 { Some(ext_mut(&mut *m1).get_mut(n - 1)) } else { None },
                vr: if n > 0 { Some(ext(&*a).get(0)) } else { None },
                vr2: if n > 1 { Some(ext(&*a).get(1)) } else { None },
                sl: ext(&*a).as_slice(),
                sm: ext_mut(&mut *m2).as_mut_slice(),
                st: Slice::from(ext(&t1[..])),
                stm: SliceMut::from(ext_mut(&mut t2[..])),
                same: vd(),
                other: make::<T>(&o, spare).into(),
                alien: make::<T::Twin>(&l, spare).into(),
                bx: BoxValue::new(T::make(4)),
                bo: BoxValue::new(T::make(5)),
                sv: SmallValue::try_new(T::make(6)),
                a, m1, m2, t1, t2,
            }
        }
    }
    fn seen<T: TElem>(r: ValueRef<VS>, l: u8, what: &str) {
        same(r.downcast::<T>().map_or(false, |x| x.label() == l), what);
    }
    fn typed<T: TElem>(r: ValueRef<VA>, l: u8, what: &str) {
        same(r.downcast::<T>().map_or(false, |x| x.label() == l), what);
    }
    fn slice_ops<'a, T: TElem>(s: &Slice<'a, VS>, n: usize) {
        let l = want(n);
        same(s.len() == n && s.is_empty() == (n == 0) && s.element_size() == size_of::<T>() && s.element_type_id() == TypeId::of::<T>(), "slice description");
        same(s.iter().map(|x| x.downcast::<T>().unwrap().label()).collect::<Vec<_>>() == l, "slice iter");
        same(s.reborrow().into_iter().map(|x| x.downcast::<T>().unwrap().label()).collect::<Vec<_>>() == l, "slice into_iter");
        same(s.iter_as::<T>().unwrap().map(|x| x.label()).collect::<Vec<_>>() == l, "slice iter_as");
        same(s.iter_as::<T::Twin>().is_none() && s.as_slice::<T::Twin>().is_none() && s.check::<T::Twin>().is_none() && s.check::<T>().is_some(), "slice wrong type");
        same(s.as_slice::<T>().map(labs) == Some(l.clone()), "slice as_slice");
        for i in 0..n {
            seen::<T>(s.get(i), l[i], "slice get");
            same(s.get_as::<T>(i).map(|x| x.label()) == Some(l[i]) && s.get_as::<T::Twin>(i).is_none(), "slice get_as");
        }
        for k in 1..=n {
            same(s.chunks_exact(k).map(|c| c.len()).sum::<usize>() == n - n % k, "slice chunks");
        }
        for i in 0..=n {
            let (x, y) = s.split_at(i);
            same(x.len() == i && y.len() == n - i, "slice split");
            for j in i..=n {
                same(s.subslice(i..j).len() == j - i && s.reborrow().into_subslice(i..j).len() == j - i, "slice subslice");
                same(s.subslice(i..j) == s.reborrow().subslice(i..j), "slice eq");
            }
        }
        same(s.clone_into_vec::<T>().map(|v| labs(&v)) == Some(l.clone()) && s.clone_into_vec::<T::Twin>().is_none(), "slice clone_into_vec");
        let mut v = vec![T::make(1)];
        same(s.append_clone_to_vec(&mut v).is_some() && v.len() == n + 1, "slice append_clone_to_vec");
        let mut v: Vec<T::Twin> = vec![];
        same(s.append_clone_to_vec(&mut v).is_none() && v.is_empty(), "slice append_clone_to_vec twin");
        same(format!("{:?}", s) == format!("{:?}", s.reborrow()), "slice debug");
        let u: Slice<VA> = s.reborrow().upcast();
        same(u.len() == n && u.iter().count() == n, "slice upcast");
    }
    fn value_ops<T: TElem>(r: ValueRef<VS>, l: u8) {
        let t = T::make(l);
        same(r.size() == size_of::<T>() && r.value_alignment() == align_of::<T>() && r.value_type_id() == TypeId::of::<T>() && r.is::<T>() && !r.is::<T::Twin>(), "value description");
        same(h(&r) == h(&t) && format!("{:?}", r) == format!("{:?}", r.reborrow()), "value hash and debug");
        let b: BoxValue<VS> = r.clone_value();
        seen::<T>(b.as_ref(), l, "clone_value");
        same(r == b.as_ref(), "value eq");
        if size_of::<T>() == size_of::<usize>() && align_of::<T>() <= align_of::<usize>() {
            let b: SmallValue<VS> = r.clone_small_value();
            seen::<T>(b.as_ref(), l, "clone_small_value");
        }
        typed::<T>(r.upcast_ref(), l, "upcast_ref");
        typed::<T>(r.reborrow().upcast(), l, "upcast");
        same(r.reborrow().downcast::<T::Twin>().is_none(), "wrong downcast");
        seen::<T>(r, l, "downcast");
    }
    pub fn run<T: TElem>(c: &mut Mode, ns: &[usize], spares: &[usize]) {
        for &n in ns {
            for &spare in spares {
                let name = format!("{} n={} spare={}", T::NAME, n, spare);
                let places = |w: &World<T>| {
                    let mut p = vec![stat(&*w.a), stat(w.a.vtable()), stat(w.same.vtable()), stat(w.bx.as_ref().downcast::<T>().unwrap())];
                    if n > 0 {
                        p.extend([stat(&w.a.as_slice_as::<T>().unwrap()[n - 1]), stat(&w.t1[0]), stat(&w.t2[0]), stat(&w.m1.as_slice_as::<T>().unwrap()[0])]);
                    }
                    p
                };
                let o = ops! {
                    "len": |w| same(w.a.len() == w.n && w.a.is_empty() == (w.n == 0), "len");
                    "description": |w| same(w.a.element_size() == size_of::<T>() && w.a.element_type_id() == TypeId::of::<T>(), "description");
                    "vtable": |w| { w.a.vtable(); };
                    "check_ref": |w| same(w.a.check_ref::<T>().is_some() && w.a.check_ref::<T::Twin>().is_none(), "check_ref");
                    "as_slice_as": |w| same(w.a.as_slice_as::<T>().map(labs) == Some(want(w.n)) && w.a.as_slice_as::<T::Twin>().is_none(), "as_slice_as");
                    "iter_as": |w| same(w.a.iter_as::<T>().unwrap().map(|x| x.label()).eq(want(w.n)) && w.a.iter_as::<T::Twin>().is_none(), "iter_as");
                    "get_ref_as": |w| for i in 0..w.n { same(w.a.get_ref_as::<T>(i).unwrap().label() == want(w.n)[i] && w.a.get_ref_as::<T::Twin>(i).is_none(), "get_ref_as") };
                    "get": |w| for i in 0..w.n { seen::<T>(w.a.get(i), want(w.n)[i], "get") };
                    "get and hold": |w| { let all: Vec<_> = (0..w.n).map(|i| w.a.get(i)).collect(); for (i, r) in all.into_iter().enumerate() { seen::<T>(r, want(w.n)[i], "get") } };
                    "iter": |w| same(w.a.iter().map(|x| x.downcast::<T>().unwrap().label()).eq(want(w.n)), "iter");
                    "two iters": |w| for (x, y) in w.a.iter().zip(w.a.iter()) { same(x == y, "zip") };
                    "as_slice": |w| same(w.a.as_slice().len() == w.n, "as_slice");
                    "unchecked": |w| for i in 0..w.n { unsafe { same(w.a.get_unchecked_ref::<T>(i).label() == want(w.n)[i], "unchecked"); } };
                    "clone": |w| { let x: VD = VD::clone(&w.a); same(x == *w.a && x.len() == w.n, "clone") };
                    "clone_from it": |w| { let mut x: VD = make::<T>(&[2], 0).into(); x.clone_from(&w.a); same(x == *w.a, "clone_from") };
                    "clone_into_vec": |w| same(w.a.clone_into_vec::<T>().map(|v| labs(&v)) == Some(want(w.n)) && w.a.clone_into_vec::<T::Twin>().is_none(), "clone_into_vec");
                    "cast_into_vec": |w| same(w.a.cast_into_vec::<u8>().is_none(), "cast_into_vec");
                    "eq same": |w| same(*w.a == w.same && w.same == *w.a && *w.a == *w.a, "eq same");
                    "eq other": |w| same((*w.a == w.other) == (w.n == 0), "eq other");
                    "eq alien": |w| same(*w.a != w.alien && w.alien != *w.a, "eq alien");
                    "hash": |w| same(h(&*w.a) == h(&w.same), "hash");
                    "debug": |w| same(format!("{:?}", w.a) == format!("{:?}", w.same) && format!("{:#?}", w.a) == format!("{:#?}", w.same), "debug");
                    "append its clones": |w| { let mut x: VD = VecDyn::with_type::<T>(); for r in w.a.iter() { x.push_cloned(r); } same(x == *w.a, "push_cloned") };
                    "clone_from_other": |w| { let mut x: VD = make::<T>(&want(w.n).iter().map(|_| 2).collect::<Vec<_>>(), 0).into(); for i in 0..w.n { x.get_mut(i).clone_from_other(w.a.get(i)).unwrap(); } same(x == *w.a, "clone_from_other") };
                    "with_type_from": |w| { let x: VD = VecDyn::with_type_from(w.a.as_slice()); same(x.len() == 0 && x.element_type_id() == TypeId::of::<T>(), "with_type_from") };
                    "slice": |w| slice_ops::<T>(&w.a.as_slice(), w.n);
                    "held slice": |w| slice_ops::<T>(&w.sl, w.n);
                    "typed slice": |w| slice_ops::<T>(&w.st, w.n);
                    "mutable slice": |w| slice_ops::<T>(&w.sm.reborrow(), w.n);
                    "typed mutable slice": |w| slice_ops::<T>(&Slice::from(&w.stm), w.n);
                    "mutable slice itself": |w| for s in [&w.sm, &w.stm] {
                        let l = want(w.n);
                        same(s.len() == w.n && s.is_empty() == (w.n == 0) && s.element_size() == size_of::<T>() && s.element_type_id() == TypeId::of::<T>(), "description");
                        for i in 0..w.n { seen::<T>(s.get(i), l[i], "get"); }
                        for i in 0..=w.n { same(s.subslice(i..).len() == w.n - i, "subslice"); }
                        same(s.chunks_exact(1).count() == w.n && format!("{:?}", s) == format!("{:?}", w.sl), "chunks and debug");
                    };
                    "mutable slices equal": |w| same(w.sm == w.stm && w.stm == w.sm, "eq");
                    "value": |w| if w.n > 0 { value_ops::<T>(w.a.get(w.n - 1), want(w.n)[w.n - 1]) };
                    "held value": |w| if let Some(r) = &w.vr { value_ops::<T>(r.reborrow(), 0) };
                    "held values compared": |w| if let (Some(x), Some(y)) = (&w.vr, &w.vr2) { same(x != y && x == x, "eq") };
                    "mutable value": |w| if let Some(r) = &w.vm {
                        value_ops::<T>(r.reborrow(), want(w.n)[w.n - 1]);
                        same(r.size() == size_of::<T>() && r.is::<T>() && !r.is::<T::Twin>() && r.value_type_id() == TypeId::of::<T>(), "description");
                        same(h(r) == h(&r.reborrow()) && format!("{:?}", r) == format!("{:?}", r.reborrow()) && *r == *r, "hash, debug, eq");
                    };
                    "mutable value cloned": |w| if let Some(r) = &w.vm {
                        seen::<T>(r.clone_value().as_ref(), want(w.n)[w.n - 1], "clone_value");
                        if size_of::<T>() == 8 && align_of::<T>() <= 8 { seen::<T>(r.clone_small_value().as_ref(), want(w.n)[w.n - 1], "clone_small_value"); }
                    };
                    "boxed value": |w| {
                        value_ops::<T>(w.bx.as_ref(), 4);
                        same(w.bx.clone() == w.bx && w.bx != w.bo && h(&w.bx) == h(&w.bx.as_ref()), "clone, eq, hash");
                        same(format!("{:?}", w.bx) == format!("{:?}", w.bx.as_ref()) && w.bx.size() == size_of::<T>() && w.bx.is::<T>() && w.bx.value_type_id() == TypeId::of::<T>() && w.bx.value_alignment() == align_of::<T>(), "debug and description");
                        let r: ValueRef<VS> = (&w.bx).into();
                        seen::<T>(r, 4, "from");
                    };
                    "small value": |w| if let Some(v) = &w.sv {
                        value_ops::<T>(v.as_ref(), 6);
                        same(v.clone() == *v && h(v) == h(&v.as_ref()) && format!("{:?}", v) == format!("{:?}", v.as_ref()) && v.size() == size_of::<T>() && v.is::<T>(), "clone, eq, hash, debug");
                    };
                };
                each::<World<T>>(c, &name, &|| build::<T>(n, spare), &places, o);
            }
        }
    }
}

mod plain {
    use super::*;
    struct World<T: 'static> {
        n: usize,
        vm: Option<CopyValueMut<'static, VS>>,
        vr: Option<CopyValueRef<'static, VS>>,
        vr2: Option<CopyValueRef<'static, VS>>,
        sl: SliceCopy<'static, VS>,
        sm: SliceCopyMut<'static, VS>,
        st: SliceCopy<'static, VS>,
        stm: SliceCopyMut<'static, VS>,
        a: Box<VC>,
        plain: VecCopy,
        m1: Box<VC>,
        m2: Box<VC>,
        t1: Vec<T>,
        t2: Vec<T>,
    }
    fn cmake<T: CElem>(n: usize, spare: usize) -> Vec<T> {
        let mut v = Vec::with_capacity(n + spare);
        v.extend(want(n).iter().map(|x| T::make(*x)));
        v
    }
    fn clabs<T: CElem>(v: &[T]) -> Vec<u8> {
        v.iter().map(|x| x.label()).collect()
    }
    fn build<T: CElem>(n: usize, spare: usize) -> World<T> {
        let vc = || -> VC { cmake::<T>(n, spare).into() };
        let (a, mut m1, mut m2) = (Box::new(vc()), Box::new(vc()), Box::new(vc()));
        let (t1, mut t2) = (cmake::<T>(n, spare), cmake::<T>(n, spare));
        unsafe {
            World {
                n,
                vm: if n > 0 { Some(ext_mut(&mut *m1).get_mut(n - 1)) } else { None },
                vr: if n > 0 { Some(ext(&*a).get_ref(0)) } else { None },
                vr2: if n > 1 { Some(ext(&*a).get_ref(1)) } else { None },
                sl: ext(&*a).as_slice(),
                sm: ext_mut(&mut *m2).as_mut_slice(),
                st: SliceCopy::from(ext(&t1[..])),
                stm: SliceCopyMut::from(ext_mut(&mut t2[..])),
                plain: cmake::<T>(n, spare).into(),
                a, m1, m2, t1, t2,
            }
        }
    }
    fn seen<T: CElem, V>(r: CopyValueRef<V>, l: u8, what: &str) {
        same(r.downcast::<T>().map_or(false, |x| x.label() == l), what);
    }
    fn slice_ops<'a, T: CElem>(s: &SliceCopy<'a, VS>, n: usize) {
        let l = want(n);
        same(s.len() == n && s.is_empty() == (n == 0) && s.element_size() == size_of::<T>() && s.element_type_id() == TypeId::of::<T>(), "slice description");
        same(s.iter().map(|x| x.downcast::<T>().unwrap().label()).collect::<Vec<_>>() == l, "slice iter");
        same(s.reborrow().into_iter().map(|x| x.downcast::<T>().unwrap().label()).collect::<Vec<_>>() == l, "slice into_iter");
        same(s.iter_as::<T>().unwrap().map(|x| x.label()).collect::<Vec<_>>() == l, "slice iter_as");
        same(s.iter_as::<T::Twin>().is_none() && s.as_slice::<T::Twin>().is_none() && s.check::<T::Twin>().is_none() && s.check::<T>().is_some(), "slice wrong type");
        same(s.as_slice::<T>().map(clabs) == Some(l.clone()) && s.copy_into_vec::<T>().map(|v| clabs(&v)) == Some(l.clone()) && s.copy_into_vec::<T::Twin>().is_none(), "slice as_slice and copy_into_vec");
        for i in 0..n {
            seen::<T, _>(s.get(i), l[i], "slice get");
            same(s.get_as::<T>(i).map(|x| x.label()) == Some(l[i]) && s.get_as::<T::Twin>(i).is_none(), "slice get_as");
        }
        for k in 1..=n {
            same(s.chunks_exact(k).map(|c| c.len()).sum::<usize>() == n - n % k, "slice chunks");
        }
        for i in 0..=n {
            let (x, y) = s.split_at(i);
            same(x.len() == i && y.len() == n - i, "slice split");
            for j in i..=n {
                same(s.subslice(i..j).len() == j - i && s.reborrow().into_subslice(i..j).len() == j - i, "slice subslice");
            }
        }
        let mut v = vec![T::make(1)];
        same(s.append_copy_to_vec(&mut v).is_some() && v.len() == n + 1, "slice append_copy_to_vec");
        let u: SliceCopy<VA> = s.reborrow().upcast();
        same(u.len() == n && u.iter().count() == n, "slice upcast");
    }
    fn value_ops<T: CElem>(r: &CopyValueRef<VS>, l: u8) {
        let t = T::make(l);
        same(r.size() == size_of::<T>() && r.value_alignment() == align_of::<T>() && r.value_type_id() == TypeId::of::<T>() && r.is::<T>() && !r.is::<T::Twin>(), "value description");
        same(h(r) == h(&t) && format!("{:?}", r) == format!("{:?}", t) && r == r, "value hash, debug, eq");
        seen::<T, VA>(r.upcast_ref(), l, "upcast_ref");
        let mut x = T::make(l + 1);
        same(CopyValueMut::<VS>::new(&mut x).copy(r.upcast_ref::<VS>()).is_some() && x.label() == l, "copy from it");
        let v: ValueRef<(DropFn, VS)> = r.upcast_ref::<VS>().into();
        same(v.downcast::<T>().map_or(false, |x| x.label() == l), "as ValueRef");
        let mut c: VC = VecCopy::with_type::<T>();
        c.push(r.upcast_ref::<VS>());
        same(c.as_slice_as::<T>().map(clabs) == Some(vec![l]), "push it");
        seen::<T, _>(r.upcast_ref::<VS>(), l, "downcast");
    }
    pub fn run<T: CElem>(c: &mut Mode, ns: &[usize], spares: &[usize]) {
        for &n in ns {
            for &spare in spares {
                let name = format!("{} n={} spare={}", T::NAME, n, spare);
                let places = |w: &World<T>| {
                    let mut p = vec![stat(&*w.a)];
                    if n > 0 {
                        p.extend([stat(&w.a.as_slice_as::<T>().unwrap()[n - 1]), stat(&w.t1[0]), stat(&w.t2[0]), stat(&w.m1.as_slice_as::<T>().unwrap()[0]), stat(&w.m2.as_slice_as::<T>().unwrap()[0])]);
                    }
                    p
                };
                let o = ops! {
                    "len": |w| same(w.a.len() == w.n && w.a.is_empty() == (w.n == 0) && w.a.capacity() >= w.n, "len");
                    "description": |w| same(w.a.element_type_id() == TypeId::of::<T>(), "description");
                    "check_ref": |w| same(w.a.check_ref::<T>().is_some() && w.a.check_ref::<T::Twin>().is_none(), "check_ref");
                    "as_slice_as": |w| same(w.a.as_slice_as::<T>().map(clabs) == Some(want(w.n)) && w.a.as_slice_as::<T::Twin>().is_none(), "as_slice_as");
                    "iter_as": |w| same(w.a.iter_as::<T>().unwrap().map(|x| x.label()).eq(want(w.n)) && w.a.iter_as::<T::Twin>().is_none(), "iter_as");
                    "copy_into_vec": |w| same(w.a.copy_into_vec::<T>().map(|v| clabs(&v)) == Some(want(w.n)) && w.a.copy_into_vec::<T::Twin>().is_none(), "copy_into_vec");
                    "append_copy_to_vec": |w| { let mut v: Vec<T> = vec![]; same(w.a.append_copy_to_vec(&mut v).is_some() && v.len() == w.n, "append_copy_to_vec") };
                    "get_as": |w| for i in 0..w.n { same(w.a.get_as::<T>(i).unwrap().label() == want(w.n)[i] && w.a.get_as::<T::Twin>(i).is_none(), "get_as") };
                    "get_ref_as": |w| for i in 0..w.n { same(w.a.get_ref_as::<T>(i).unwrap().label() == want(w.n)[i] && w.a.get_ref_as::<T::Twin>(i).is_none(), "get_ref_as") };
                    "get_ref": |w| for i in 0..w.n { seen::<T, _>(w.a.get_ref(i), want(w.n)[i], "get_ref") };
                    "get_ref and hold": |w| { let all: Vec<_> = (0..w.n).map(|i| w.a.get_ref(i)).collect(); for (i, r) in all.into_iter().enumerate() { seen::<T, _>(r, want(w.n)[i], "get_ref") } };
                    "iter": |w| same(w.a.iter().map(|x| x.downcast::<T>().unwrap().label()).eq(want(w.n)), "iter");
                    "two iters": |w| for (x, y) in w.a.iter().zip(w.a.iter()) { same(x == y, "zip") };
                    "as_slice": |w| same(w.a.as_slice().len() == w.n, "as_slice");
                    "unchecked": |w| for i in 0..w.n { unsafe { same(w.a.get_unchecked_ref::<T>(i).label() == want(w.n)[i], "unchecked"); } };
                    "clone": |w| { let x = VC::clone(&w.a); same(x.as_slice_as::<T>().map(clabs) == Some(want(w.n)), "clone") };
                    "clone plain": |w| { let x = w.plain.clone(); same(x.as_slice_as::<T>().map(clabs) == Some(want(w.n)), "clone") };
                    "collect": |w| if w.n > 0 { let x: VC = w.a.iter().collect(); same(x.as_slice_as::<T>().map(clabs) == Some(want(w.n)), "collect") };
                    "extend": |w| { let mut x: VC = VecCopy::with_type::<T>(); x.extend(w.a.iter()); same(x.as_slice_as::<T>().map(clabs) == Some(want(w.n)), "extend") };
                    "cast_into_vec": |w| same(w.a.cast_into_vec::<u8>().is_empty(), "cast_into_vec");
                    "display": |w| same(w.a.to_string() == w.plain.to_string(), "display");
                    "slice": |w| slice_ops::<T>(&w.a.as_slice(), w.n);
                    "held slice": |w| slice_ops::<T>(&w.sl, w.n);
                    "typed slice": |w| slice_ops::<T>(&w.st, w.n);
                    "mutable slice": |w| slice_ops::<T>(&w.sm.reborrow(), w.n);
                    "typed mutable slice": |w| slice_ops::<T>(&SliceCopy::from(&w.stm), w.n);
                    "mutable slice itself": |w| for s in [&w.sm, &w.stm] {
                        let l = want(w.n);
                        same(s.len() == w.n && s.is_empty() == (w.n == 0) && s.element_type_id() == TypeId::of::<T>(), "description");
                        for i in 0..w.n { seen::<T, _>(s.get(i), l[i], "get"); }
                        for i in 0..=w.n { same(s.subslice(i..).len() == w.n - i, "subslice"); }
                        same(s.chunks_exact(1).count() == w.n, "chunks");
                    };
                    "value": |w| if w.n > 0 { value_ops::<T>(&w.a.get_ref(w.n - 1), want(w.n)[w.n - 1]) };
                    "held value": |w| if let Some(r) = &w.vr { value_ops::<T>(r, 0) };
                    "held values compared": |w| if let (Some(x), Some(y)) = (&w.vr, &w.vr2) { same(x != y && x == x, "eq") };
                    "mutable value": |w| if let Some(r) = &w.vm {
                        same(r.size() == size_of::<T>() && r.is::<T>() && !r.is::<T::Twin>() && r.value_type_id() == TypeId::of::<T>(), "description");
                        let t = T::make(want(w.n)[w.n - 1]);
                        same(h(r) == h(&t) && format!("{:?}", r) == format!("{:?}", t) && r == r, "hash, debug, eq");
                    };
                };
                each::<World<T>>(c, &name, &|| build::<T>(n, spare), &places, o);
            }
        }
    }
}

/// Numeric contents, for the operations that look for them.
mod numbers {
    use super::*;
    struct World<T: 'static> {
        n: usize,
        d: VD,
        a: VC,
        p: VecCopy,
        _t: Option<T>,
    }
    pub fn run<T: CopyElem + Default + Clone + PartialEq + Eq + Hash + std::fmt::Debug + std::fmt::Display>(c: &mut Mode, name: &str, of: fn(usize) -> T) {
        for n in 0..4 {
            let v = move || (0..n).map(of).collect::<Vec<T>>();
            let places = |w: &World<T>| if n > 0 { vec![stat(&w.a.as_slice_as::<T>().unwrap()[0]), stat(&w.p.as_slice_as::<T>().unwrap()[0])] } else { vec![] };
            let o = ops! {
                "cast copy": |w| same(w.a.cast_into_vec::<f64>().len() <= w.n && w.a.cast_into_vec::<u8>() == w.p.cast_into_vec::<u8>(), "cast");
                "cast dyn": |w| same(w.d.cast_into_vec::<f64>().map_or(true, |v| v.len() == w.n) && w.d.cast_into_vec::<u8>().map_or(true, |v| v == w.a.cast_into_vec::<u8>()), "cast");
                "display": |w| same(w.p.to_string() == w.a.to_string(), "display");
                "hash": |w| { h(&w.d); };
                "debug": |w| { format!("{:?}", w.d); };
                "clone": |w| { let x = w.a.clone(); same(x.to_string() == w.a.to_string(), "clone") };
            };
            each::<World<T>>(c, &format!("{} n={}", name, n), &|| World { n, d: v().into(), a: v().into(), p: v().into(), _t: None }, &places, o);
        }
    }
}

/// Every operation of a container's world, with every operation of that world and of others
/// running to completion at each of its points (callbacks of elements, requests to the allocator).
fn interleaved(c: &mut Cases, collect: &dyn Fn(&mut Mode, bool)) {
    let all = |main: bool| {
        let mut v: Vec<Op> = vec![];
        collect(&mut Mode::Collect(&mut v), main);
        v
    };
    reset();
    let names: Vec<String> = all(true).into_iter().chain(all(false)).map(|x| x.0).collect();
    let n = all(true).len();
    let runs = std::cell::Cell::new(0);
    for i in 0..n {
        for j in 0..names.len() {
            c.run(format_args!("{} / {}", names[i], names[j]), || {
                let (ours, others) = (all(true), all(false));
                let (a, b) = (&ours[i].1, &if j < n { &ours[j] } else { &others[j - n] }.1);
                let mut k = 0;
                let b = || {
                    if guarded(|| b()).is_err() {
                        ck!(false, Panic, "an operation within another panicked", "{}", mc::rep::panic_msg());
                    }
                };
                while point::at(k, &b, || a()) {
                    k += 1;
                }
                runs.set(runs.get() + k);
                k > 0
            });
        }
    }
    c.res.execs += runs.get() as u64;
}
/// The same between any two instructions.  Containers are not written (the other jobs), so two
/// operations can only affect each other if one writes static memory: every operation of every
/// world is watched after each of its instructions, and those that do are run with every other.
#[cfg(not(miri))]
fn stepped(c: &mut Cases, collect: &dyn Fn(&mut Mode)) {
    use mc::step::{run, watched, When};
    let all = || {
        let mut v: Vec<Op> = vec![];
        collect(&mut Mode::Collect(&mut v));
        // writes to the standard error stream, which has a lock
        v.retain(|x| !x.0.starts_with("bool") && !(x.0.starts_with('C') && x.0.ends_with(" display")));
        v
    };
    reset();
    let names: Vec<String> = all().into_iter().map(|x| x.0).collect();
    let n = names.len();
    let runs = std::cell::Cell::new(0);
    let dirty = std::cell::RefCell::new(vec![(false, 0); n]);
    c.run(format_args!("watched"), || {
        let v = all();
        v.iter().for_each(|x| (x.1)());
        // what was left behind by a world of another type, and by one of another length
        let last = |x: &Op| x.0.split(' ').next() == v[n - 1].0.split(' ').next();
        let first = |x: &Op| x.0.split(' ').next() == v[0].0.split(' ').next();
        for (i, (name, f)) in v.iter().enumerate() {
            for k in 0..2 {
                v.iter().filter(|x| if (k == 0) ^ last(&v[i]) { last(x) } else { first(x) }).for_each(|x| (x.1)());
                let (m, w) = watched(|| f());
                ck!(m > 0, Other, "no instruction was seen", "{}", name);
                runs.set(runs.get() + m);
                let d = &mut dirty.borrow_mut()[i];
                *d = (d.0 || !w.is_empty(), m);
            }
        }
        true
    });
    let dirty = dirty.into_inner();
    let all_pairs = c.only.is_some();
    let mut pairs: Vec<_> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| all_pairs || dirty[*i].0 || dirty[*j].0).collect();
    // the most telling and cheapest first, every two kinds of operation once before any twice
    let ty = |i: usize| names[i].split(' ').next().unwrap();
    let op = |i: usize| names[i].split(' ').skip(3).collect::<Vec<_>>();
    let far = |i: usize, j: usize| ty(i) != ty(j) && (ty(i) == ty(n - 1) || ty(j) == ty(n - 1)) && ![i, j].iter().any(|k| names[*k].contains("n=0"));
    pairs.sort_by_key(|(i, j)| (!(dirty[*i].0 && dirty[*j].0), !far(*i, *j), dirty[*i].1));
    let mut seen = std::collections::HashSet::new();
    let again: Vec<bool> = pairs.iter().map(|(i, j)| !seen.insert((op(*i), op(*j)))).collect();
    let mut order: Vec<usize> = (0..pairs.len()).collect();
    order.sort_by_key(|i| again[*i]);
    let pairs = order.into_iter().map(|i| pairs[i]);
    let mut steps = 0;
    for (i, j) in pairs {
        let m = dirty[i].1;
        steps += m + if m <= 300 { m * m } else { 0 };
        if !all_pairs && steps > 600_000 || !c.res.found.is_empty() {
            c.res.capped = true;
            break;
        }
        {
            c.run(format_args!("{} / {} between instructions", names[i], names[j]), || {
                let v = all();
                let (a, b) = (&v[i].1, &v[j].1);
                let b = || {
                    if guarded(|| b()).is_err() {
                        ck!(false, Panic, "an operation within another panicked", "{}", mc::rep::panic_msg());
                    }
                };
                b();
                let (_, w) = watched(|| a());
                let w = w.to_vec();
                for before in [false, true] {
                    for k in [None].into_iter().chain(w.iter().copied().chain(if m <= 300 { 0..m } else { 0..0 }).map(Some)) {
                        if before {
                            b();
                        }
                        run(k.map_or(When::Every, When::After), &b, || a());
                        runs.set(runs.get() + 1);
                    }
                }
                true
            });
        }
    }
    c.res.execs += runs.get() as u64;
    c.res.outcome(&format!("{} operations watched", n));
    c.res.outcome(if dirty.iter().any(|d| d.0) { "static memory written" } else { "no static memory written" });
}
#[cfg(miri)]
fn stepped(_: &mut Cases, _: &dyn Fn(&mut Mode)) {}
fn inter_owned<T: TElem, O: TElem>(c: &mut Cases) {
    interleaved(c, &|m, main| {
        if main {
            owned::run::<T>(m, &[2, 1], &[0]);
        } else {
            owned::run::<T>(m, &[3], &[2]);
            owned::run::<T::Twin>(m, &[2], &[0]);
            owned::run::<O>(m, &[2], &[0]);
            plain::run::<C8x8>(m, &[2], &[0]);
        }
    })
}
fn inter_plain<T: CElem, O: CElem>(c: &mut Cases) {
    interleaved(c, &|m, main| {
        if main {
            plain::run::<T>(m, &[2, 1], &[0]);
        } else {
            plain::run::<T>(m, &[3], &[2]);
            plain::run::<T::Twin>(m, &[2], &[0]);
            plain::run::<O>(m, &[2], &[0]);
            owned::run::<K8x8>(m, &[1], &[0]);
        }
    })
}

fn step_owned<T: TElem>(c: &mut Cases) {
    stepped(c, &|m| {
        owned::run::<T>(m, &[0, 2], &[0]);
        owned::run::<T>(m, &[3], &[2]);
        owned::run::<T::Twin>(m, &[1], &[0]);
        owned::run::<K2x2>(m, &[1], &[0]);
    })
}
fn step_plain<T: CElem>(c: &mut Cases) {
    stepped(c, &|m| {
        plain::run::<T>(m, &[0, 2], &[0]);
        plain::run::<T>(m, &[9], &[2]);
        plain::run::<T::Twin>(m, &[1], &[0]);
        plain::run::<C12x4>(m, &[1], &[0]);
    })
}

fn all_numbers(c: &mut Mode) {
    numbers::run::<u8>(c, "u8", |i| i as u8 * 100);
    numbers::run::<i16>(c, "i16", |i| i as i16 * -100);
    numbers::run::<u32>(c, "u32", |i| i as u32 * 1000);
    numbers::run::<i64>(c, "i64", |i| i as i64 * -1000);
    numbers::run::<bool>(c, "bool", |i| i > 0);
}

fn main() {
    let a = mc::args();
    if a.list {
        if cfg!(miri) {
            println!("String C8x8 C3x1 numbers");
            return;
        }
        for j in "K8x8 K1x1 K3x1 K16x16 K24x8 String BoxK C8x8 C1x1 C3x1 C16x16 C24x8 C2x2 C12x4 numbers".split(' ') {
            println!("{}", j);
        }
        for j in "K8x8 K1x1 K24x8 C8x8 C3x1".split(' ') {
            println!("inter-{}", j);
        }
        for j in "K8x8 K1x1 K3x1 K16x16 K24x8 String BoxK C8x8 C1x1 C3x1 C16x16 C24x8 C2x2 numbers".split(' ') {
            println!("step-{}", j);
        }
        return;
    }
    if !cfg!(miri) {
        mon::arena_init(1 << 22);
    }
    let n = if cfg!(miri) { if a.thorough { 3 } else { 2 } } else if a.thorough { 5 } else { 3 };
    let long = |counted| (0..=n).chain(longer(counted)).collect::<Vec<usize>>();
    let (nk, nc) = (&long(true)[..], &long(false)[..]);
    let s = &[0, 2];
    let mut cs = Cases::new(a.only.clone());
    match a.job.as_str() {
        "inter-K8x8" => inter_owned::<K8x8, K24x8>(&mut cs),
        "inter-K1x1" => inter_owned::<K1x1, K8x8>(&mut cs),
        "inter-K24x8" => inter_owned::<K24x8, K16x16>(&mut cs),
        "inter-C8x8" => inter_plain::<C8x8, C1x1>(&mut cs),
        "inter-C3x1" => inter_plain::<C3x1, C16x16>(&mut cs),
        "step-numbers" => stepped(&mut cs, &|m| all_numbers(m)),
        "step-K8x8" => step_owned::<K8x8>(&mut cs),
        "step-K1x1" => step_owned::<K1x1>(&mut cs),
        "step-K3x1" => step_owned::<K3x1>(&mut cs),
        "step-K16x16" => step_owned::<K16x16>(&mut cs),
        "step-K24x8" => step_owned::<K24x8>(&mut cs),
        "step-String" => step_owned::<String>(&mut cs),
        "step-BoxK" => step_owned::<BoxK>(&mut cs),
        "step-C8x8" => step_plain::<C8x8>(&mut cs),
        "step-C1x1" => step_plain::<C1x1>(&mut cs),
        "step-C3x1" => step_plain::<C3x1>(&mut cs),
        "step-C16x16" => step_plain::<C16x16>(&mut cs),
        "step-C24x8" => step_plain::<C24x8>(&mut cs),
        "step-C2x2" => step_plain::<C2x2>(&mut cs),
        _ => (),
    }
    let c = &mut Mode::Freeze(&mut cs);
    match a.job.as_str() {
        "K8x8" => owned::run::<K8x8>(c, nk, s),
        "K1x1" => owned::run::<K1x1>(c, nk, s),
        "K3x1" => owned::run::<K3x1>(c, nk, s),
        "K16x16" => owned::run::<K16x16>(c, nk, s),
        "K24x8" => owned::run::<K24x8>(c, nk, s),
        "String" => owned::run::<String>(c, nc, s),
        "BoxK" => owned::run::<BoxK>(c, nk, s),
        "C8x8" => plain::run::<C8x8>(c, nc, s),
        "C1x1" => plain::run::<C1x1>(c, nc, s),
        "C3x1" => plain::run::<C3x1>(c, nc, s),
        "C16x16" => plain::run::<C16x16>(c, nc, s),
        "C24x8" => plain::run::<C24x8>(c, nc, s),
        "C2x2" => plain::run::<C2x2>(c, nc, s),
        "C12x4" => plain::run::<C12x4>(c, nc, s),
        "numbers" => all_numbers(c),
        j => assert!(j.starts_with("inter-") || j.starts_with("step-"), "no job {}", j),
    }
    cs.res.states = cs.res.execs;
    cs.res.transitions = cs.res.execs;
    cs.res.print();
}
