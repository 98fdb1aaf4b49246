use mc::bfs::{drive, named, nested, part_histories, replay, Bounds};
use mc::elems::*;
use mc::vc::{S, Tab};
use dync::VTable;

/// Job names "<type>:<mode>": m<l>.<lb> merged, u<depth> unmerged, g<l> long containers with few operations.
fn main() {
    let a = mc::args();
    if a.list && cfg!(miri) {
        for n in ["C1x1", "C24x8", "C16x16"] {
            println!("{}:u{}", n, if a.thorough { 2 } else { 1 });
        }
        for n in ["C12x4", "C3x1"] {
            for k in 0..8 {
                if a.thorough || n == "C12x4" {
                    println!("{}:z2.{}", n, k);
                }
            }
        }
        return;
    }
    if a.list {
        for n in NAMES {
            for m in modes(n, a.thorough) {
                println!("{}:{}", n, m);
            }
        }
        for n in ["C8x8", "C24x8", "C3x1"] {
            for k in 0..4 {
                println!("{}:n{}", n, k);
            }
        }
        return;
    }
    let (ty, mode) = a.job.split_once(':').unwrap();
    dispatch(ty, mode, &a.only);
}
fn modes(n: &str, thorough: bool) -> Vec<&'static str> {
    let deep = ["C8x8", "C3x1", "C24x8", "C12x4"].contains(&n);
    match (thorough, deep) {
        (false, false) => vec!["m2.1", "u2", "g6.6"],
        (false, true) => vec!["m2.2", "u3", "g7.7"],
        (true, false) => vec!["m2.2", "u3", "g7.7"],
        (true, true) => vec!["m3.2", "m3.3", "u4", "g8.8"],
    }
}
macro_rules! types {
    ($($t:ident $v:ty),*) => {
        const NAMES: &[&str] = &[$(stringify!($t)),*];
        fn dispatch(ty: &str, mode: &str, only: &Option<String>) {
            $(if ty == stringify!($t) { return go::<$t, $v>(mode, only); })*
            panic!("no type {}", ty)
        }
    };
}
use mc::vd::VA;
types!(C1x1 (), C2x1 VA, C3x1 (), C5x1 (), C2x2 (), C6x2 VA, C4x4 (), C12x4 VA, C8x8 (), C16x8 (), C24x8 VA, C16x16 (), C48x16 VA, C32x32 (),
    C64x32 (), C64x64 (), C128x128 (), C256x256 (), C768x256 VA, C512x512 (), C1024x1024 (), C2048x2048 (), C4096x4096 (), C8192x8192 (),
    C1100x1 (), C3000x4 VA);

fn go<E: CElem, V: Tab<E>>(mode: &str, only: &Option<String>)
where
    V: VTable<<E::Twin as CElem>::Twin>,
{
    let big = std::mem::size_of::<E>() >= 512;
    let res = if let Some(k) = mode.strip_prefix('n') {
        let s = S::<E, V>::new(3, 2, false);
        let hs = vec![
            named(&s, &["FromVec(false, 2, 0)", "Swap", "FromVec(false, 2, 1)"]),
            named(&s, &["FromVec(false, 2, 0)", "Swap", "FromVec(false, 1, 0)"]),
            named(&s, &["FromVec(true, 2, 0)", "Swap", "FromVec(false, 2, 0)"]),
        ];
        nested(&s, &hs, &s, &hs[..2], (k.parse().unwrap(), 4), only)
    } else if let Some(d) = mode.strip_prefix('u') {
        let d = d.parse::<usize>().unwrap();
        drive(&S::<E, V>::new(1, 1, false), only, Bounds { max_depth: 0, max_states: 0 }, Some(if big { d.min(2) } else { d }))
    } else if let Some(z) = mode.strip_prefix('z') {
        let (d, k) = z.split_once('.').unwrap();
        let s = S::<E, V>::new(1, 1, false);
        match only {
            Some(o) => replay(&s, o),
            None => part_histories(&s, d.parse().unwrap(), k.parse().unwrap(), 8),
        }
    } else if let Some(l) = mode.strip_prefix('g') {
        let (l, d) = l.split_once('.').unwrap();
        let d = d.parse::<usize>().unwrap();
        let b = Bounds { max_depth: if big { d.min(5) } else { d }, max_states: 5_000_000 };
        drive(&S::<E, V>::long(l.parse().unwrap()), only, b, None)
    } else {
        let (l, lb) = mode[1..].split_once('.').unwrap();
        let (l, lb): (usize, usize) = (l.parse().unwrap(), lb.parse().unwrap());
        let b = if big { Bounds { max_depth: 3, max_states: 3000 } } else { Bounds { max_depth: 60, max_states: 3_000_000 } };
        drive(&S::<E, V>::new(l, lb, l >= 3), only, b, None)
    };
    res.print();
}
