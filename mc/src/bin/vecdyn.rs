use mc::bfs::{drive, named, nested, part_histories, replay, Bounds};
use mc::elems::*;
use mc::vd::S;

/// Job names: "<type>:<mode>" with mode m<l>.<lb> (merged) or u<depth> (unmerged).
fn main() {
    let a = mc::args();
    let t = a.thorough;
    if a.list && cfg!(miri) {
        // only what Miri can do in the time there is
        for n in ["K1x1", "K24x8", "K16x16", "BoxK"] {
            println!("{}:u{}", n, if t { 2 } else { 1 });
        }
        for n in ["String", "K3x1", "K8x8"] {
            for k in 0..8 {
                if t || n != "K8x8" {
                    println!("{}:z{}.{}", n, 2, k);
                }
            }
        }
        return;
    }
    if a.list {
        for n in NAMES {
            for m in modes(n, t) {
                println!("{}:{}", n, m);
            }
        }
        for n in ["K8x8", "K24x8", "K3x1", "BoxK"] {
            for k in 0..4 {
                println!("{}:n{}", n, k);
            }
        }
        return;
    }
    let (ty, mode) = a.job.split_once(':').unwrap();
    let run = |only: &Option<String>| dispatch(ty, mode, only);
    run(&a.only);
}
fn modes(n: &str, thorough: bool) -> Vec<&'static str> {
    let deep = ["K8x8", "K3x1", "K24x8", "String", "K12x4"].contains(&n);
    match (thorough, deep) {
        (false, false) => vec!["m2.1", "u2", "g6.6"],
        (false, true) => vec!["m2.2", "u3", "g7.7"],
        (true, false) => vec!["m2.2", "u3", "g7.7"],
        (true, true) => vec!["m3.2", "m3.3", "u4", "g8.8"],
    }
}
macro_rules! types {
    ($($t:ident),*) => {
        const NAMES: &[&str] = &[$(stringify!($t)),*];
        fn dispatch(ty: &str, mode: &str, only: &Option<String>) {
            $(if ty == stringify!($t) { return go::<$t>(mode, only); })*
            panic!("no type {}", ty)
        }
    };
}
types!(K1x1, K2x1, K3x1, K5x1, K2x2, K6x2, K4x4, K12x4, K8x8, K16x8, K24x8, K16x16, K48x16, K32x32, K64x32, K64x64, K128x128, K256x256,
    K768x256, K512x512, K1024x1024, K2048x2048, K4096x4096, K8192x8192, K1100x1, K3000x4, String, BoxK);

fn go<E: TElem>(mode: &str, only: &Option<String>) {
    let big = std::mem::size_of::<E>() >= 512;
    let res = if let Some(k) = mode.strip_prefix('n') {
        fn hs<E: TElem>(s: &S<E>) -> Vec<Vec<u16>> {
            vec![
                named(s, &["FromVec(false, 2, 0)", "Swap", "FromVec(false, 2, 1)"]),
                named(s, &["FromVec(false, 2, 0)", "Swap", "FromVec(false, 1, 0)"]),
                named(s, &["FromVec(true, 2, 0)", "Swap", "FromVec(false, 2, 0)"]),
            ]
        }
        let k = k.parse().unwrap();
        let s = S::<E>::new(3, 2, false);
        if std::mem::size_of::<E>() == 24 {
            let t = S::<K8x8>::new(3, 2, false);
            nested(&s, &hs(&s), &t, &hs(&t)[..2], (k, 4), only)
        } else {
            nested(&s, &hs(&s), &s, &hs(&s)[..2], (k, 4), only)
        }
    } else if let Some(d) = mode.strip_prefix('u') {
        let s = S::<E>::new(1, 1, false);
        drive(&s, only, Bounds { max_depth: 0, max_states: 0 }, Some(if big { d.parse::<usize>().unwrap().min(2) } else { d.parse().unwrap() }))
    } else if let Some(z) = mode.strip_prefix('z') {
        let (d, k) = z.split_once('.').unwrap();
        let s = S::<E>::new(1, 1, false);
        match only {
            Some(o) => replay(&s, o),
            None => part_histories(&s, d.parse().unwrap(), k.parse().unwrap(), 8),
        }
    } else if let Some(l) = mode.strip_prefix('g') {
        let (l, d) = l.split_once('.').unwrap();
        let d = d.parse::<usize>().unwrap();
        let b = Bounds { max_depth: if big { d.min(5) } else { d }, max_states: 5_000_000 };
        drive(&S::<E>::long(l.parse().unwrap()), only, b, None)
    } else {
        let (l, lb) = mode[1..].split_once('.').unwrap();
        let (l, lb): (usize, usize) = (l.parse().unwrap(), lb.parse().unwrap());
        let s = S::<E>::new(l, lb, l >= 3);
        let b = if big { Bounds { max_depth: 3, max_states: 3000 } } else { Bounds { max_depth: 60, max_states: 3_000_000 } };
        drive(&s, only, b, None)
    };
    res.print();
}
