//! Numeric casts and display of every numeric type (C14).
use dync::traits::DropVTable;
use dync::*;
use mc::ck;
use mc::elems::*;
use mc::rep::Cases;
use num_traits::{cast, Num, NumCast, ToPrimitive, Zero};
use std::any::Any;
use std::fmt::{self, Debug, Display};
use std::num::Wrapping;

#[dync_trait]
pub trait Plain: Clone + PartialEq + std::fmt::Debug {}
impl<T> Plain for T where T: Clone + PartialEq + std::fmt::Debug {}
type VA = PlainVTable;
type VD = VecDyn<VA>;

/// A target whose zero is not all-zero bits and that refuses many values.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Odd(u64);
impl std::ops::Add for Odd {
    type Output = Odd;
    fn add(self, o: Odd) -> Odd {
        Odd(self.0 + o.0 - 77)
    }
}
impl Zero for Odd {
    fn zero() -> Odd {
        Odd(77)
    }
    fn is_zero(&self) -> bool {
        self.0 == 77
    }
}
impl ToPrimitive for Odd {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0)
    }
}
impl NumCast for Odd {
    fn from<T: ToPrimitive>(n: T) -> Option<Odd> {
        n.to_u64().filter(|x| x % 2 == 1).map(Odd)
    }
}

/// What the values of a source are, exactly: an integer, or a float.
#[derive(Clone, Copy, Debug)]
enum Exact {
    I(i128),
    F(f64),
}
trait Src: CopyElem + Num + NumCast + Display + Debug + PartialEq + Any {
    const NAME: &'static str;
    fn exact(self) -> Exact;
    fn values() -> Vec<Self>;
    fn few() -> Vec<Self>;
}
fn bounds() -> Vec<i128> {
    let mut v = vec![0];
    for k in 0..=64 {
        for d in [-2i128, -1, 0, 1, 2] {
            v.push((1 << k) + d);
            v.push(-((1i128 << k) + d));
        }
    }
    v.extend([3, 7, 10, 100, 1000, 12345, 123456789, -7, -10, -100, 10i128.pow(18)]);
    v.sort();
    v.dedup();
    v
}
macro_rules! ints {
    ($($t:ident: $all:expr),*) => { $(impl Src for $t {
        const NAME: &'static str = stringify!($t);
        fn exact(self) -> Exact { Exact::I(self as i128) }
        fn values() -> Vec<$t> {
            if $all { ($t::MIN..=$t::MAX).collect() } else { bounds().into_iter().filter_map(|x| x.try_into().ok()).collect() }
        }
        fn few() -> Vec<$t> { vec![0, 1, $t::MIN, $t::MAX, 9, 100] }
    })* };
}
ints!(u8: true, i8: true, u16: true, i16: true, u32: false, i32: false, u64: false, i64: false);
macro_rules! floats {
    ($($t:ident $bits:ident $shift:expr),*) => { $(impl Src for $t {
        const NAME: &'static str = stringify!($t);
        fn exact(self) -> Exact { Exact::F(self as f64) }
        fn values() -> Vec<$t> {
            let mut v: Vec<$t> = Vec::new();
            for b in bounds() {
                let x = b as $t;
                for d in -2i64..=2 {
                    v.push($t::from_bits((x.to_bits() as i64).wrapping_add(d) as $bits));
                }
                v.extend([x + 0.5, x - 0.5, x + 0.25, x - 0.999]);
            }
            for hi in 0..=u16::MAX {
                for lo in [0 as $bits, 1, !0 >> 16, 1 << ($shift - 1)] {
                    v.push($t::from_bits(((hi as $bits) << $shift) | lo & ((1 << $shift) - 1)));
                }
            }
            v
        }
        fn few() -> Vec<$t> { vec![0.0, -0.0, 1.5, -2.25, $t::NAN, $t::INFINITY, $t::MAX, $t::MIN_POSITIVE, 1e10] }
    })* };
}
floats!(f32 u32 16, f64 u64 48);

trait Dst: CopyElem + NumCast + Zero + Debug + PartialEq {
    const NAME: &'static str;
    /// Independent of num_traits; None where there is no independent answer.
    fn indep(x: Exact) -> Option<Self>;
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
macro_rules! dints {
    ($($t:ident),*) => { $(impl Dst for $t {
        const NAME: &'static str = stringify!($t);
        fn indep(x: Exact) -> Option<$t> {
            Some(match x {
                Exact::I(i) => i.try_into().unwrap_or(0),
                Exact::F(f) => {
                    let t = f.trunc();
                    // 2^127 and above are beyond every target that is checked this way
                    if t.is_nan() || t.abs() >= 1.7e38 { 0 } else { (t as i128).try_into().unwrap_or(0) }
                }
            })
        }
    })* };
}
dints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
macro_rules! dother {
    ($($t:ty, $n:literal, |$x:ident| $e:expr;)*) => { $(impl Dst for $t {
        const NAME: &'static str = $n;
        fn indep($x: Exact) -> Option<$t> { $e }
    })* };
}
dother! {
    u128, "u128", |x| match x { Exact::I(i) => Some(i.try_into().unwrap_or(0)), Exact::F(_) => None };
    i128, "i128", |x| match x { Exact::I(i) => Some(i), Exact::F(_) => None };
    Wrapping<i32>, "Wrapping<i32>", |x| i32::indep(x).map(Wrapping);
    Odd, "Odd", |_x| None;
}
macro_rules! dfloats {
    ($($t:ident),*) => { $(impl Dst for $t {
        const NAME: &'static str = stringify!($t);
        fn indep(x: Exact) -> Option<$t> {
            match x { Exact::I(i) => Some(i as $t), Exact::F(f) => Some(f as $t) }
        }
        fn same(&self, o: &$t) -> bool {
            self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
        }
    })* };
}
dfloats!(f32, f64);

/// Lengths at which a loop over the elements might change its ways.
const LENS: &[usize] = &[
    48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 3000, 4095, 4096, 4097, 8192, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000,
];

fn one<S: Src, D: Dst>(c: &mut Cases) {
    // whole sets of values at once
    for part in 0..4 {
        c.run(format_args!("{} to {} values {}", S::NAME, D::NAME, part), || {
            let all = S::values();
            let n = all.len();
            let v: Vec<S> = all[n * part / 4..n * (part + 1) / 4].to_vec();
            check::<S, D>(&v);
            true
        });
    }
    for n in (0..=40).chain(LENS.iter().copied()) {
        for spare in [0, 3] {
            c.run(format_args!("{} to {} n={} spare={}", S::NAME, D::NAME, n, spare), || {
                let f = S::few();
                for r in 0..if n < 4 { f.len() } else { 2 } {
                    let mut v = Vec::with_capacity(n + spare);
                    v.extend((0..n).map(|i| f[(r + i) % f.len()]));
                    check::<S, D>(&v);
                }
                true
            });
        }
    }
}
fn check<S: Src, D: Dst>(v: &[S]) {
    let cp: VecCopy = VecCopy::from_slice(v);
    let got: Vec<D> = cp.cast_into_vec();
    compare::<S, D>(v, &got, "VecCopy");
    ck!(cp.as_slice_as::<S>().map_or(false, |s| s.len() == v.len() && s.iter().zip(v).all(|(a, b)| a == b || a != a)), Content, "casting changed the container", "");
    let dy: VecDyn<DropVTable> = v.to_vec().into();
    match dy.cast_into_vec::<D>() {
        Some(got) => compare::<S, D>(v, &got, "VecDyn"),
        None => ck!(false, Content, "numeric contents not cast", "VecDyn of {}", S::NAME),
    }
    ck!(dy.as_slice_as::<S>().map_or(false, |s| s.len() == v.len() && s.iter().zip(v).all(|(a, b)| a == b || a != a)), Content, "casting changed the container", "");
}
fn compare<S: Src, D: Dst>(v: &[S], got: &[D], what: &str) {
    ck!(got.len() == v.len(), Content, "cast gives the wrong number of elements", "{} {} -> {}: {} of {}", what, S::NAME, D::NAME, got.len(), v.len());
    for (x, g) in v.iter().zip(got) {
        let want: D = cast(*x).unwrap_or_else(D::zero);
        ck!(g.same(&want), Content, "cast gives another value than the element-wise numeric cast", "{} {} {:?} -> {}: {:?} instead of {:?}", what, S::NAME, x, D::NAME, g, want);
        if let Some(w) = D::indep(x.exact()) {
            ck!(g.same(&w), Content, "cast gives another value than the arithmetic one", "{} {} {:?} -> {}: {:?} instead of {:?}", what, S::NAME, x, D::NAME, g, w);
        }
    }
}

fn tokens(s: &str) -> Vec<&str> {
    s.split(|c: char| c.is_whitespace() || "[],;".contains(c)).filter(|t| !t.is_empty()).collect()
}
fn shows<S: Src>(c: &mut Cases) {
    for n in (0..=40).chain(LENS.iter().copied().filter(|&n| n <= 4097)) {
        c.run(format_args!("{} display n={}", S::NAME, n), || {
            let f = S::few();
            for r in 0..if n < 4 { f.len() } else { 2 } {
                let v: Vec<S> = (0..n).map(|i| f[(r + 2 * i) % f.len()]).collect();
                let want: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                let a: VecCopy = VecCopy::from_slice(&v);
                let b: VecCopy<VA> = VecCopy::from_slice(&v);
                for s in [a.to_string(), b.to_string(), format!("{}", a), format!("{:>4}", a)] {
                    ck!(tokens(&s) == want, Content, "display differs from the elements' own", "{} {:?} printed {:?}", S::NAME, v, s);
                }
            }
            true
        });
    }
    c.run(format_args!("{} display of all", S::NAME), || {
        let all = S::values();
        let step = 1 + all.len() / 1500;
        let v: Vec<S> = all.into_iter().step_by(step).collect();
        let want: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        let s = VecCopy::<()>::from_slice(&v).to_string();
        ck!(tokens(&s) == want, Content, "display differs from the elements' own", "{}", S::NAME);
        true
    });
    c.run(format_args!("{} through the macro", S::NAME), || {
        let v = S::few();
        let b: VecCopy<VA> = VecCopy::from_slice(&v);
        client::<S>(&b, &v);
        true
    });
}

/// The dispatch macro used by a client, in each of its forms.
unsafe fn f1<T: Copy + Any + Display>(b: &VecCopy<VA>) -> Option<(std::any::TypeId, Vec<String>)> {
    Some((std::any::TypeId::of::<T>(), b.iter_as::<T>()?.map(|x| x.to_string()).collect()))
}
unsafe fn f2<T: Copy + Any + Display>(b: &VecCopy<VA>, extra: &str, n: usize) -> Option<(std::any::TypeId, Vec<String>)> {
    assert!(extra == "x" && n == 3);
    f1::<T>(b)
}
unsafe fn f3<T: Copy + Any + Display, O: From<u8> + PartialEq>(b: &VecCopy<VA>) -> Option<(std::any::TypeId, Vec<String>)> {
    assert!(O::from(3) == O::from(3));
    f1::<T>(b)
}
struct Buf(VecCopy<VA>);
impl Buf {
    fn element_type_id(&self) -> std::any::TypeId {
        self.0.element_type_id()
    }
    unsafe fn m1<T: Copy + Any + Display>(&self) -> Option<(std::any::TypeId, Vec<String>)> {
        f1::<T>(&self.0)
    }
    unsafe fn m2<T: Copy + Any + Display>(&self, n: usize) -> Option<(std::any::TypeId, Vec<String>)> {
        assert!(n == 5);
        f1::<T>(&self.0)
    }
}
type Got = Option<(std::any::TypeId, Vec<String>)>;
fn all_forms(b: &VecCopy<VA>) -> Vec<Got> {
    let w = Buf(b.clone());
    let w = &w;
    type O = u64;
    vec![
        call_numeric_buffer_fn!( f1::<_>(b) or { None } ),
        call_numeric_buffer_fn!( f2::<_>(b, "x", 3) or { None } ),
        call_numeric_buffer_fn!( f3::<_, O>(b) or { None } ),
        call_numeric_buffer_fn!( w.m1::<_>() or { None } ),
        call_numeric_buffer_fn!( w.m2::<_>(5) or { None } ),
    ]
}
fn client<S: Src>(b: &VecCopy<VA>, v: &[S]) {
    let want: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    for (i, g) in all_forms(b).into_iter().enumerate() {
        match g {
            Some((t, s)) => {
                ck!(t == std::any::TypeId::of::<S>(), Type, "numeric dispatch chose another type", "{} form {}", S::NAME, i);
                ck!(s == want, Content, "numeric dispatch saw other elements", "{} form {}", S::NAME, i);
            }
            None => ck!(false, Content, "numeric dispatch refused a numeric type", "{} form {}", S::NAME, i),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(transparent)]
struct New(u32);
impl Display for New {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "new")
    }
}

fn others(c: &mut Cases) {
    macro_rules! no {
        ($($t:ty: $v:expr),*) => { $(
            for n in [0usize, 1, 3] {
                c.run(format_args!("not numeric: {} n={}", stringify!($t), n), || {
                    let v: Vec<$t> = vec![$v; n];
                    let a: VecCopy<VA> = VecCopy::from_slice(&v);
                    ck!(a.cast_into_vec::<u32>().is_empty() && a.cast_into_vec::<f64>().is_empty() && a.cast_into_vec::<u8>().is_empty(), Content, "contents that are not numeric were cast", "{}", stringify!($t));
                    ck!(a.to_string().trim().is_empty(), Content, "contents that are not numeric were printed", "{}: {}", stringify!($t), a);
                    ck!(all_forms(&a).iter().all(|x| x.is_none()), Type, "numeric dispatch accepted another type", "{}", stringify!($t));
                    let d: VD = v.clone().into();
                    ck!(d.cast_into_vec::<u32>().is_none() && d.cast_into_vec::<f32>().is_none(), Content, "contents that are not numeric were cast", "{} in VecDyn", stringify!($t));
                    ck!(a.as_slice_as::<$t>() == Some(&v[..]) && d.as_slice_as::<$t>() == Some(&v[..]), Content, "casting changed the container", "");
                    true
                });
            }
        )* };
    }
    no!(bool: true, char: 'a', usize: 3, isize: -3, u128: 5, i128: -5, [u8; 4]: [1; 4], [f32; 1]: [1.0f32; 1], (u8, u8): (1, 2), New: New(3), Option<u8>: Some(1), &'static str: "12", Wrapping<u32>: Wrapping(4), C4x4: C4x4::make(1), C8x8: C8x8::make(2), std::num::NonZeroU8: std::num::NonZeroU8::new(7).unwrap());
    for n in [0usize, 1, 2] {
        c.run(format_args!("not numeric: owned n={}", n), || {
            let d: VD = vec!["12".to_string(); n].into();
            ck!(d.cast_into_vec::<u32>().is_none() && d.cast_into_vec::<f32>().is_none(), Content, "contents that are not numeric were cast", "String");
            let d: VD = vec![Box::new(5u32); n].into();
            ck!(d.cast_into_vec::<u32>().is_none(), Content, "contents that are not numeric were cast", "Box<u32>");
            let d: VD = vec![vec![5u8]; n].into();
            ck!(d.cast_into_vec::<u8>().is_none(), Content, "contents that are not numeric were cast", "Vec<u8>");
            true
        });
    }
}

fn source<S: Src>(c: &mut Cases) {
    one::<S, u8>(c);
    one::<S, i8>(c);
    one::<S, u16>(c);
    one::<S, i16>(c);
    one::<S, u32>(c);
    one::<S, i32>(c);
    one::<S, u64>(c);
    one::<S, i64>(c);
    one::<S, usize>(c);
    one::<S, isize>(c);
    one::<S, u128>(c);
    one::<S, i128>(c);
    one::<S, f32>(c);
    one::<S, f64>(c);
    one::<S, Wrapping<i32>>(c);
    one::<S, Odd>(c);
}

fn main() {
    let a = mc::args();
    if a.list {
        for n in "u8 i8 u16 i16 u32 i32 u64 i64 f32 f64 display".split(' ') {
            println!("{}", n);
        }
        return;
    }
    let mut cs = Cases::new(a.only.clone());
    let c = &mut cs;
    match a.job.as_str() {
        "u8" => source::<u8>(c),
        "i8" => source::<i8>(c),
        "u16" => source::<u16>(c),
        "i16" => source::<i16>(c),
        "u32" => source::<u32>(c),
        "i32" => source::<i32>(c),
        "u64" => source::<u64>(c),
        "i64" => source::<i64>(c),
        "f32" => source::<f32>(c),
        "f64" => source::<f64>(c),
        "display" => {
            shows::<u8>(c);
            shows::<i8>(c);
            shows::<u16>(c);
            shows::<i16>(c);
            shows::<u32>(c);
            shows::<i32>(c);
            shows::<u64>(c);
            shows::<i64>(c);
            shows::<f32>(c);
            shows::<f64>(c);
            others(c);
        }
        j => panic!("no job {}", j),
    }
    cs.res.states = cs.res.execs;
    cs.res.transitions = cs.res.execs;
    cs.res.print();
}
