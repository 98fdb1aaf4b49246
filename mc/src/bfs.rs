//! Breadth-first explicit-state search over operation histories of the real implementation.
use crate::elems;
use crate::mon;
use crate::point;
use crate::rep::{self, guarded, note, panic_msg, panic_sig, viol, Class, Results};
use crate::ck;
use std::collections::HashMap;

pub trait Sys {
    type W;
    fn nops(&self) -> usize;
    fn opname(&self, op: usize) -> String;
    fn fresh(&self) -> Self::W;
    /// Decided on the reference model only.
    fn enabled(&self, w: &Self::W, op: usize) -> bool;
    /// Apply to the real object and the model, comparing results.
    fn apply(&self, w: &mut Self::W, op: usize);
    /// Compare every observation of the current state with the model.
    fn observe(&self, w: &mut Self::W);
    /// Canonical form of the state (model contents plus real capacities).
    fn canon(&self, w: &Self::W, out: &mut Vec<u8>);
    /// Number of counted values owned by the world according to the model.
    fn owned(&self, w: &Self::W) -> Option<usize>;
    /// Checks run after the final drop.
    fn after(&self) {}
}

fn h128(b: &[u8]) -> u128 {
    let mut a: u64 = 0xcbf29ce484222325;
    let mut c: u64 = 0x9E3779B97F4A7C15;
    for &x in b {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        c = (c.rotate_left(7) ^ (x as u64 + 0x51)).wrapping_mul(0xff51afd7ed558ccd);
    }
    ((a as u128) << 64) | c as u128
}

struct Node {
    parent: u32,
    op: u16,
    depth: u16,
    hash: u128,
}

fn text<S: Sys>(s: &S, hist: &[u16]) -> String {
    let v: Vec<String> = hist.iter().map(|o| s.opname(*o as usize)).collect();
    v.join("; ")
}
fn code(hist: &[u16]) -> String {
    let v: Vec<String> = hist.iter().map(|o| o.to_string()).collect();
    v.join(",")
}

/// Run one history; the last operation is followed by all checks.  Returns the canonical hash and
/// the set of operations enabled afterwards, unless something was reported.
fn exec<S: Sys>(s: &S, hist: &[u16], buf: &mut Vec<u8>, en: Option<&mut Vec<u16>>, check: bool) -> Option<u128> {
    let mut nb = [0u8; 128];
    let mut n = 0;
    nb[n] = b'H';
    n += 1;
    for o in hist {
        nb[n] = *o as u8;
        nb[n + 1] = (*o >> 8) as u8;
        n += 2;
    }
    note(&nb[..n]);
    elems::reset();
    mon::begin();
    let mut w = s.fresh();
    let mut out = None;
    let last = hist.len().wrapping_sub(1);
    let mut broken = false;
    for (i, op) in hist.iter().enumerate() {
        let r = guarded(|| s.apply(&mut w, *op as usize));
        if r.is_err() {
            let m = panic_sig();
            mon::untracked(|| {
                viol(
                    Class::Panic,
                    &format!("{} panicked: {}", opkind(&s.opname(*op as usize)), m),
                    format_args!("{} (step {})", panic_msg(), i),
                )
            });
        }
        if rep::any() {
            broken = true;
            break;
        }
        if i == last && check {
            if let Some(n) = s.owned(&w) {
                elems::expect_live(n);
            }
            // Under Miri full readings are too slow for longer histories: there its own monitor
            // judges the operations, and dropping the contents verifies them.
            let r = guarded(|| if !cfg!(miri) || hist.len() < 2 { s.observe(&mut w) });
            if r.is_err() {
                let m = panic_sig();
                mon::untracked(|| viol(Class::Panic, &format!("reading panicked: {}", m), format_args!("{}", panic_msg())));
            }
            if let Some(n) = s.owned(&w) {
                elems::expect_live(n);
            }
            broken = rep::any();
        }
    }
    if !broken {
        mon::untracked(|| {
            out = Some(0);
            if !cfg!(miri) {
                buf.clear();
                s.canon(&w, buf);
                out = Some(h128(buf));
            }
            if let Some(en) = en {
                en.clear();
                for op in 0..s.nops() {
                    if s.enabled(&w, op) {
                        en.push(op as u16);
                    }
                }
            }
        });
        let r = guarded(|| drop(w));
        if r.is_err() {
            let m = panic_sig();
            mon::untracked(|| viol(Class::Panic, &format!("final drop panicked: {}", m), format_args!("{}", panic_msg())));
        }
        let bad = rep::any();
        mon::end(bad);
        if !bad {
            elems::expect_none_live();
            s.after();
        }
    } else {
        std::mem::forget(w);
        mon::end(true);
    }
    if rep::any() {
        return None;
    }
    out
}

fn opkind(n: &str) -> &str {
    n.split(|c| c == '(' || c == ' ').next().unwrap_or(n)
}

pub struct Bounds {
    pub max_depth: usize,
    pub max_states: usize,
}

/// Merged search to closure (or the stated bounds).
pub fn search<S: Sys>(s: &S, b: Bounds) -> Results {
    let mut res = Results::default();
    let mut buf = Vec::new();
    let mut en: Vec<u16> = Vec::new();
    let mut nodes: Vec<Node> = Vec::new();
    let mut seen: HashMap<u128, u32> = HashMap::new();
    let h0 = exec(s, &[], &mut buf, None, true);
    collect(s, &mut res, &[]);
    let h0 = match h0 {
        Some(h) => h,
        None => return res,
    };
    nodes.push(Node { parent: u32::MAX, op: 0, depth: 0, hash: h0 });
    seen.insert(h0, 0);
    let mut i = 0;
    let mut hist: Vec<u16> = Vec::new();
    while i < nodes.len() {
        hist.clear();
        let mut k = i;
        while nodes[k].parent != u32::MAX {
            hist.push(nodes[k].op);
            k = nodes[k].parent as usize;
        }
        hist.reverse();
        let depth = nodes[i].depth as usize;
        res.max_depth = res.max_depth.max(depth as u64);
        if depth >= b.max_depth {
            i += 1;
            res.capped = true;
            continue;
        }
        let again = exec(s, &hist, &mut buf, Some(&mut en), false);
        res.execs += 1;
        ck!(
            again == Some(nodes[i].hash) || rep::any(),
            Content,
            "the same history produced a different state when repeated",
            "history of length {}",
            hist.len()
        );
        if rep::any() {
            collect(s, &mut res, &hist);
            i += 1;
            continue;
        }
        let ops = std::mem::take(&mut en);
        for op in &ops {
            hist.push(*op);
            let r = exec(s, &hist, &mut buf, None, true);
            res.transitions += 1;
            res.execs += 1;
            match r {
                Some(hh) => {
                    if !seen.contains_key(&hh) {
                        if nodes.len() < b.max_states {
                            seen.insert(hh, nodes.len() as u32);
                            nodes.push(Node { parent: i as u32, op: *op, depth: depth as u16 + 1, hash: hh });
                        } else {
                            res.capped = true;
                        }
                    }
                }
                None => collect(s, &mut res, &hist),
            }
            if res.transitions == 1 || res.transitions == 1000 || res.transitions == 100_000 {
                let t = text(s, &hist);
                res.sample(|| t);
            }
            hist.pop();
            if res.found.len() >= 40 {
                res.states = nodes.len() as u64;
                res.capped = true;
                return res;
            }
        }
        en = ops;
        i += 1;
    }
    res.states = nodes.len() as u64;
    res.nontrivial = res.transitions;
    if nodes.len() > 2 {
        let mut k = nodes.len() - 1;
        hist.clear();
        while nodes[k].parent != u32::MAX {
            hist.push(nodes[k].op);
            k = nodes[k].parent as usize;
        }
        hist.reverse();
        let t = format!("deepest new state: {}", text(s, &hist));
        res.sample(|| t);
    }
    res
}

/// Unmerged search: every history up to `depth`, no state matching.
pub fn all_histories<S: Sys>(s: &S, depth: usize) -> Results {
    part_histories(s, depth, 0, 1)
}
/// Those whose first operation is number `k` modulo `n` of the enabled ones.
pub fn part_histories<S: Sys>(s: &S, depth: usize, k: usize, n: usize) -> Results {
    let mut res = Results::default();
    let mut buf = Vec::new();
    let mut hist: Vec<u16> = Vec::new();
    fn rec<S: Sys>(s: &S, depth: usize, part: (usize, usize), hist: &mut Vec<u16>, buf: &mut Vec<u8>, res: &mut Results) {
        let mut en = Vec::new();
        let leaf = hist.len() == depth;
        let r = exec(s, hist, buf, if leaf { None } else { Some(&mut en) }, true);
        res.execs += 1;
        res.transitions += 1;
        res.states += 1;
        res.max_depth = res.max_depth.max(hist.len() as u64);
        if r.is_none() {
            collect(s, res, hist);
            return;
        }
        if hist.len() == depth || res.found.len() >= 40 {
            return;
        }
        for (i, op) in en.into_iter().enumerate() {
            if i % part.1 != part.0 {
                continue;
            }
            hist.push(op);
            rec(s, depth, (0, 1), hist, buf, res);
            hist.pop();
        }
    }
    rec(s, depth, (k, n), &mut hist, &mut buf, &mut res);
    res.nontrivial = res.transitions;
    res
}

fn collect<S: Sys>(s: &S, res: &mut Results, hist: &[u16]) {
    if rep::any() {
        let v = rep::take();
        let case = format!("{} | {}", code(hist), text(s, hist));
        res.add(&case, v);
    }
}

/// Replay one history given as "1,2,3" (text after '|' is ignored).
pub fn replay<S: Sys>(s: &S, spec: &str) -> Results {
    let mut res = Results::default();
    let c = spec.split('|').next().unwrap().trim();
    let hist: Vec<u16> = if c.is_empty() { vec![] } else { c.split(',').map(|x| x.trim().parse().unwrap()).collect() };
    let mut buf = Vec::new();
    for (i, o) in hist.iter().enumerate() {
        eprintln!("  step {}: {}", i, s.opname(*o as usize));
    }
    exec(s, &hist, &mut buf, None, true);
    res.execs = 1;
    res.transitions = 1;
    collect(s, &mut res, &hist);
    res
}

pub fn drive<S: Sys>(s: &S, only: &Option<String>, b: Bounds, unmerged: Option<usize>) -> Results {
    match (only, unmerged) {
        (Some(o), _) => replay(s, o),
        (None, Some(d)) => all_histories(s, d),
        (None, None) => search(s, b),
    }
}

/// Interleaved pairs: from each of the given histories, every operation, with every operation of
/// another system (from each of its histories) running to completion at each point of the first:
/// callbacks of elements and requests to the allocator.  Part `k` of `n`.
pub fn nested<S: Sys, T: Sys>(s: &S, hs: &[Vec<u16>], t: &T, ht: &[Vec<u16>], (part, parts): (usize, usize), only: &Option<String>) -> Results {
    let enabled = |f: &dyn Fn() -> Vec<u16>| {
        elems::reset();
        mon::begin();
        let v = f();
        let w = mon::untracked(|| v.to_vec());
        drop(v);
        let v = w;
        mon::end(false);
        v
    };
    fn start<S: Sys>(s: &S, h: &[u16]) -> S::W {
        let mut w = s.fresh();
        for o in h {
            s.apply(&mut w, *o as usize);
        }
        w
    }
    fn options<S: Sys>(s: &S, h: &[u16]) -> Vec<u16> {
        let w = start(s, h);
        (0..s.nops()).filter(|o| s.enabled(&w, *o)).map(|o| o as u16).collect()
    }
    let mut c = rep::Cases::new(only.clone());
    let mut i = 0;
    for a in hs {
        for x in enabled(&|| options(s, a)) {
            i += 1;
            if i % parts != part {
                continue;
            }
            for b in ht {
                for y in enabled(&|| options(t, b)) {
                    let mut k = 0;
                    loop {
                        let mut fired = false;
                        c.run(format_args!("{}; {} / {} at point {}: {}", text(s, a), s.opname(x as usize), text(t, b), k, t.opname(y as usize)), || {
                            let mut v = start(s, a);
                            let w = std::cell::RefCell::new(start(t, b));
                            let other = || {
                                let w = &mut *w.borrow_mut();
                                let r = guarded(|| {
                                    t.apply(w, y as usize);
                                    t.observe(w);
                                });
                                if r.is_err() {
                                    let m = panic_sig();
                                    mon::untracked(|| viol(Class::Panic, &format!("an operation within another panicked: {}", m), format_args!("{}", panic_msg())));
                                }
                            };
                            fired = point::at(k, &other, || s.apply(&mut v, x as usize));
                            if !rep::any() {
                                s.observe(&mut v);
                                t.observe(&mut w.borrow_mut());
                                if let (Some(n), Some(m)) = (s.owned(&v), t.owned(&w.borrow())) {
                                    elems::expect_live(n + m);
                                }
                            }
                            if rep::any() {
                                std::mem::forget((v, w));
                            }
                            fired
                        });
                        k += 1;
                        if !fired && !(only.is_some() && k < 200) {
                            break;
                        }
                    }
                    if c.res.found.len() >= 40 {
                        break;
                    }
                }
            }
        }
    }
    c.res.states = c.res.nontrivial;
    c.res.transitions = c.res.execs;
    c.res
}
/// The history made of the operations of these names.
pub fn named<S: Sys>(s: &S, names: &[&str]) -> Vec<u16> {
    names.iter().map(|n| (0..s.nops()).find(|o| s.opname(*o) == *n).unwrap_or_else(|| panic!("no operation {}", n)) as u16).collect()
}
