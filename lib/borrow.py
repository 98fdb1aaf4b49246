"""C15: client programs enumerated from a grammar; the compiler decides which are accepted.

A program makes a source, derives a view from it through a chain of steps, uses one of the values
the view depends on in a way that would invalidate or alias the view (a hazard), and then uses the
view.  It must be rejected by the borrow checker.  Its control is the same program with the last use
of the view before the hazard; only if that is accepted does the rejection say anything.
"""
import itertools

HEAD = '''#![allow(unused, dead_code, unused_mut)]
use dync::*;
use dync::traits::*;
#[dync_mod]
mod tr {
    pub trait All: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
    impl<T> All for T where T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
    pub trait Sub: All {}
    impl<T> Sub for T where T: All {}
}
use tr::*;
type VS = SubVTable;
type VA = AllVTable;
type T = String;
type C = u32;
type P = Box<u8>;
fn t() -> T { String::new() }
fn k() -> C { 1 }
fn d() -> VecDyn<VS> { vec![t()].into() }
fn c() -> VecCopy<VS> { vec![k()].into() }
fn bp() -> P { Box::new(1) }
fn bx() -> BoxValue<VS> { BoxValue::new(t()) }
fn sv() -> SmallValue<VS> { SmallValue::new(bp()) }
fn touch<X: ?Sized>(_: &X) {}
fn eternal<X: 'static>(_: X) {}
fn dup<X: Clone>(x: &X) -> X { x.clone() }
fn plain<X>(x: &X) {}
fn like<X>(_: &X, f: impl FnOnce() -> X) -> X { f() }
'''

# kinds of values: O owner, M view that may write, S view that only reads.
KIND = {"D": "O", "C": "O", "B": "O", "Z": "O", "TV": "O", "CV": "O", "TX": "O", "CX": "O", "RD": "M", "RC": "M",
        "SM": "M", "SCM": "M", "VM": "M", "CVM": "M", "ML": "M",
        "SL": "S", "SC": "S", "VR": "S", "CVR": "S", "L": "S", "RS": "S"}
SOURCES = [("D", "d()"), ("C", "c()"), ("B", "bx()"), ("Z", "sv()"), ("TV", "vec![t()]"), ("CV", "vec![k()]"), ("TX", "t()"), ("CX", "k()")]

VEC_D = [("ref", "{p}.as_slice()", "SL"), ("ref", "{p}.get(0)", "VR"), ("ref", "{p}.iter()", "L"), ("ref", "{p}.iter().next().unwrap()", "VR"),
         ("ref", "{p}.as_slice_as::<T>().unwrap()", "L"), ("ref", "{p}.iter_as::<T>().unwrap()", "L"), ("ref", "{p}.get_ref_as::<T>(0).unwrap()", "L"),
         ("ref", "{p}.vtable()", "L"), ("ref", "{p}.check_ref::<T>().unwrap()", "L"), ("ref", "Meta::from(&{r})", "L"),
         ("mut", "{p}.as_mut_slice()", "SM"), ("mut", "{p}.get_mut(0)", "VM"), ("mut", "{p}.iter_mut()", "ML"),
         ("mut", "{p}.iter_mut().next().unwrap()", "VM"), ("mut", "{p}.as_mut_slice_as::<T>().unwrap()", "ML"),
         ("mut", "{p}.iter_mut_as::<T>().unwrap()", "ML"), ("mut", "{p}.get_mut_as::<T>(0).unwrap()", "ML"), ("mut", "{p}.check_mut::<T>().unwrap()", "RD"),
         ("mut", "{p}.push_as::<T>(t()).unwrap()", "RD"), ("mut", "{p}.resize::<T>(1, t()).unwrap()", "RD"), ("mut", "{p}.fill::<T>(t()).unwrap()", "RD"),
         ("mut", "{p}.push(bx()).unwrap()", "RD"), ("mut", "{p}.push_cloned(d().get(0)).unwrap()", "RD"), ("mut", "{p}.append(&mut d()).unwrap()", "RD")]
VEC_C = [("ref", "{p}.as_slice()", "SC"), ("ref", "{p}.get_ref(0)", "CVR"), ("ref", "{p}.iter()", "L"), ("ref", "{p}.iter().next().unwrap()", "CVR"),
         ("ref", "{p}.as_slice_as::<C>().unwrap()", "L"), ("ref", "{p}.iter_as::<C>().unwrap()", "L"), ("ref", "{p}.get_ref_as::<C>(0).unwrap()", "L"),
         ("ref", "{p}.check_ref::<C>().unwrap()", "L"), ("ref", "Meta::from(&{r})", "L"),
         ("mut", "{p}.as_mut_slice()", "SCM"), ("mut", "{p}.get_mut(0)", "CVM"), ("mut", "{p}.iter_mut()", "ML"),
         ("mut", "{p}.iter_mut().next().unwrap()", "CVM"), ("mut", "{p}.as_mut_slice_as::<C>().unwrap()", "ML"),
         ("mut", "{p}.iter_mut_as::<C>().unwrap()", "ML"), ("mut", "{p}.get_mut_as::<C>(0).unwrap()", "ML"), ("mut", "{p}.check_mut::<C>().unwrap()", "RC"),
         ("mut", "{p}.push_as::<C>(k()).unwrap()", "RC"), ("mut", "{p}.resize::<C>(1, k()).unwrap()", "RC"), ("mut", "{p}.fill::<C>(k()).unwrap()", "RC"),
         ("mut", "{p}.push(c().get_ref(0)).unwrap()", "RC"), ("mut", "{p}.copy_from_slice::<C>(&[k()]).unwrap()", "RC"), ("mut", "{p}.append(&mut c()).unwrap()", "RC")]
STEPS = {
    "D": VEC_D,
    "C": VEC_C,
    "RD": [(n, e.replace("&{r}", "&*{p}"), r) for n, e, r in VEC_D],
    "RC": [(n, e.replace("&{r}", "&*{p}"), r) for n, e, r in VEC_C],
    "B": [("ref", "{p}.as_ref()", "VR"), ("ref", "ValueRef::<VS>::from(&{p})", "VR"), ("mut", "{p}.as_mut()", "VM")],
    "Z": [("ref", "{p}.as_ref()", "VR"), ("ref", "ValueRef::<VS>::from(&{p})", "VR"), ("mut", "{p}.as_mut()", "VM")],
    "TV": [("ref", "Slice::<VS>::from(&{p}[..])", "SL"), ("ref", "Slice::<VS>::from_slice(&{p})", "SL"), ("ref", "ValueRef::<VS>::new(&{p}[0])", "VR"),
           ("mut", "SliceMut::<VS>::from(&mut {p}[..])", "SM"), ("mut", "SliceMut::<VS>::from_slice(&mut {p})", "SM"), ("mut", "ValueMut::<VS>::new(&mut {p}[0])", "VM"),
           ("mut", "d().append_cloned_to_vec::<T>(&mut {p}).unwrap()", "ML"), ("mut", "d().as_slice().append_clone_to_vec::<T>(&mut {p}).unwrap()", "ML"),
           ("mut", "d().as_mut_slice().append_clone_to_vec::<T>(&mut {p}).unwrap()", "ML")],
    "CV": [("ref", "SliceCopy::<VS>::from(&{p}[..])", "SC"), ("ref", "SliceCopy::<VS>::from_slice(&{p})", "SC"), ("ref", "CopyValueRef::<VS>::new(&{p}[0])", "CVR"),
           ("mut", "SliceCopyMut::<VS>::from(&mut {p}[..])", "SCM"), ("mut", "SliceCopyMut::<VS>::from_slice(&mut {p})", "SCM"), ("mut", "CopyValueMut::<VS>::new(&mut {p}[0])", "CVM"),
           ("mut", "c().append_copy_to_vec::<C>(&mut {p}).unwrap()", "ML"), ("mut", "c().as_slice().append_copy_to_vec::<C>(&mut {p}).unwrap()", "ML"),
           ("mut", "c().as_mut_slice().append_copy_to_vec::<C>(&mut {p}).unwrap()", "ML")],
    "TX": [("ref", "ValueRef::<VS>::new(&{p})", "VR"), ("mut", "ValueMut::<VS>::new(&mut {p})", "VM")],
    "CX": [("ref", "CopyValueRef::<VS>::new(&{p})", "CVR"), ("mut", "CopyValueMut::<VS>::new(&mut {p})", "CVM")],
    "SL": [("own", "{p}.upcast::<VA>()", "SL"), ("own", "{p}.into_iter()", "L"), ("own", "{p}.into_iter().next().unwrap()", "VR"), ("own", "{p}.into_subslice(..)", "SL"),
           ("own", "{p}.into_subslice(0..1)", "SL"), ("own", "{p}.into_raw_parts().0", "L"), ("own", "{p}.into_raw_parts().2", "L"), ("own", "Meta::from({p})", "L"),
           ("own", "(into_dyn![Slice<dyn HasDrop>])({p})", "L"), ("own", "(from_dyn![Slice<dyn HasDrop as VA>])((into_dyn![Slice<dyn HasDrop>])({p}))", "SL"),
           ("ref", "{p}.reborrow()", "SL"), ("ref", "{p}.check::<T>().unwrap()", "RS"), ("ref", "{p}.iter_as::<T>().unwrap()", "L"), ("ref", "{p}.as_slice::<T>().unwrap()", "L"),
           ("ref", "{p}.get_as::<T>(0).unwrap()", "L"), ("ref", "{p}.iter()", "L"), ("ref", "{p}.iter().next().unwrap()", "VR"), ("ref", "{p}.chunks_exact(1)", "L"),
           ("ref", "{p}.chunks_exact(1).next().unwrap()", "SL"), ("ref", "{p}.split_at(0).0", "SL"), ("ref", "{p}.split_at(0).1", "SL"), ("ref", "{p}.get(0)", "VR"),
           ("ref", "{p}.subslice(..)", "SL"), ("ref", "{p}.subslice(..=0)", "SL")],
    "SC": [("own", "{p}.upcast::<VA>()", "SC"), ("own", "{p}.into_iter()", "L"), ("own", "{p}.into_iter().next().unwrap()", "CVR"), ("own", "{p}.into_subslice(..)", "SC"),
           ("own", "{p}.into_subslice(0..1)", "SC"), ("own", "{p}.into_raw_parts().0", "L"), ("own", "{p}.into_raw_parts().2", "L"), ("own", "Meta::from({p})", "L"),
           ("own", "(into_dyn![SliceCopy<dyn HasDrop>])({p})", "L"), ("own", "(from_dyn![SliceCopy<dyn HasDrop as VA>])((into_dyn![SliceCopy<dyn HasDrop>])({p}))", "SC"),
           ("ref", "{p}.reborrow()", "SC"), ("ref", "{p}.check::<C>().unwrap()", "RS"), ("ref", "{p}.iter_as::<C>().unwrap()", "L"), ("ref", "{p}.as_slice::<C>().unwrap()", "L"),
           ("ref", "{p}.get_as::<C>(0).unwrap()", "L"), ("ref", "{p}.iter()", "L"), ("ref", "{p}.iter().next().unwrap()", "CVR"), ("ref", "{p}.chunks_exact(1)", "L"),
           ("ref", "{p}.chunks_exact(1).next().unwrap()", "SC"), ("ref", "{p}.split_at(0).0", "SC"), ("ref", "{p}.split_at(0).1", "SC"), ("ref", "{p}.get(0)", "CVR"),
           ("ref", "{p}.subslice(..)", "SC"), ("ref", "{p}.subslice(..=0)", "SC")],
    "VR": [("own", "{p}.downcast::<T>().unwrap()", "L"), ("own", "{p}.upcast::<VA>()", "VR"), ("own", "Meta::from({p})", "L"),
           ("ref", "{p}.upcast_ref::<VA>()", "VR"), ("ref", "{p}.reborrow()", "VR")],
    "CVR": [("own", "{p}.downcast::<C>().unwrap()", "L"), ("own", "{p}.upcast::<VA>()", "CVR"), ("own", "Meta::from({p})", "L"),
            ("own", "ValueRef::<(DropFn, _)>::from({p})", "L"), ("ref", "{p}.upcast_ref::<VA>()", "CVR")],
    "SM": [("own", "{p}.upcast::<VA>()", "SM"), ("own", "{p}.into_iter()", "ML"), ("own", "{p}.into_iter().next().unwrap()", "VM"), ("own", "{p}.into_subslice(..)", "SM"),
           ("own", "{p}.into_raw_parts().0", "ML"), ("own", "Slice::from({p})", "SL"), ("own", "Meta::from({p})", "L"),
           ("own", "(into_dyn![SliceMut<dyn HasDrop>])({p})", "ML"), ("own", "(from_dyn![SliceMut<dyn HasDrop as VA>])((into_dyn![SliceMut<dyn HasDrop>])({p}))", "SM"),
           ("ref", "{p}.reborrow()", "SL"), ("ref", "{p}.chunks_exact(1)", "L"), ("ref", "{p}.chunks_exact(1).next().unwrap()", "SL"), ("ref", "{p}.get(0)", "VR"),
           ("ref", "{p}.subslice(..)", "SL"), ("ref", "Slice::from(&{p})", "SL"),
           ("mut", "{p}.check::<T>().unwrap()", "ML"), ("mut", "{p}.reborrow_mut()", "SM"), ("mut", "{p}.iter_as::<T>().unwrap()", "ML"), ("mut", "{p}.as_slice::<T>().unwrap()", "ML"),
           ("mut", "{p}.get_as::<T>(0).unwrap()", "ML"), ("mut", "{p}.iter()", "ML"), ("mut", "{p}.iter().next().unwrap()", "VM"), ("mut", "{p}.chunks_exact_mut(1)", "ML"),
           ("mut", "{p}.chunks_exact_mut(1).next().unwrap()", "SM"), ("mut", "{p}.split_at(0).0", "SM"), ("mut", "{p}.split_at(0).1", "SM"), ("mut", "{p}.get_mut(0)", "VM"),
           ("mut", "{p}.subslice_mut(..)", "SM"), ("mut", "{p}.clone_from_slice::<T>(&[]).unwrap()", "ML")],
    "SCM": [("own", "{p}.upcast::<VA>()", "SCM"), ("own", "{p}.into_iter()", "ML"), ("own", "{p}.into_iter().next().unwrap()", "CVM"), ("own", "{p}.into_subslice(..)", "SCM"),
            ("own", "{p}.into_raw_parts().0", "ML"), ("own", "SliceCopy::from({p})", "SC"), ("own", "Meta::from({p})", "L"),
            ("own", "(into_dyn![SliceCopyMut<dyn HasDrop>])({p})", "ML"), ("own", "(from_dyn![SliceCopyMut<dyn HasDrop as VA>])((into_dyn![SliceCopyMut<dyn HasDrop>])({p}))", "SCM"),
            ("ref", "{p}.reborrow()", "SC"), ("ref", "{p}.chunks_exact(1)", "L"), ("ref", "{p}.chunks_exact(1).next().unwrap()", "SC"), ("ref", "{p}.get(0)", "CVR"),
            ("ref", "{p}.subslice(..)", "SC"), ("ref", "SliceCopy::from(&{p})", "SC"),
            ("mut", "{p}.check::<C>().unwrap()", "ML"), ("mut", "{p}.reborrow_mut()", "SCM"), ("mut", "{p}.iter_as::<C>().unwrap()", "ML"), ("mut", "{p}.as_slice::<C>().unwrap()", "ML"),
            ("mut", "{p}.get_as::<C>(0).unwrap()", "ML"), ("mut", "{p}.iter()", "ML"), ("mut", "{p}.iter().next().unwrap()", "CVM"), ("mut", "{p}.chunks_exact_mut(1)", "ML"),
            ("mut", "{p}.chunks_exact_mut(1).next().unwrap()", "SCM"), ("mut", "{p}.split_at(0).0", "SCM"), ("mut", "{p}.split_at(0).1", "SCM"), ("mut", "{p}.get_mut(0)", "CVM"),
            ("mut", "{p}.subslice_mut(..)", "SCM"), ("mut", "{p}.copy_from_slice::<C>(&[]).unwrap()", "ML")],
    "VM": [("own", "{p}.downcast::<T>().unwrap()", "ML"), ("own", "{p}.upcast::<VA>()", "VM"), ("own", "ValueRef::from({p})", "VR"), ("own", "Meta::from({p})", "L"),
           ("ref", "{p}.reborrow()", "VR"), ("mut", "{p}.upcast_mut::<VA>()", "VM"), ("mut", "{p}.reborrow_mut()", "VM")],
    "CVM": [("own", "{p}.downcast::<C>().unwrap()", "ML"), ("own", "CopyValueRef::from({p})", "CVR"), ("own", "ValueMut::<(DropFn, _)>::from({p})", "ML"),
            ("mut", "{p}.upcast::<VA>()", "CVM")],
    "ML": [], "L": [], "RS": [],
}
# (kind, statement, in the short list)
HAZ_D = [("write", "{p}.clear();", 1), ("write", "{p}.push_as::<T>(t());", 1), ("write", "{p}.rotate_left(0);", 0), ("write", "{p}.rotate_right(0);", 0), ("write", "{p}.append(&mut d());", 0),
         ("write", "d().append(&mut {w});", 0), ("write", "std::mem::swap(&mut {w}, &mut d());", 0), ("write", "{p}.fill::<T>(t());", 0), ("write", "{p}.resize::<T>(0, t());", 0),
         ("write", "{p}.push(bx());", 0), ("write", "{p}.push_cloned(d().get(0));", 0),
         ("mutview", "let _m = {p}.get_mut(0);", 1), ("mutview", "let _m = {p}.as_mut_slice();", 0), ("mutview", "let _m = {p}.iter_mut();", 0), ("mutview", "let _m = {p}.as_mut_slice_as::<T>();", 0),
         ("read", "{p}.len();", 0), ("read", "let _r = {p}.get(0);", 1), ("read", "let _r = {p}.as_slice_as::<T>();", 0), ("read", "let _r = {p}.iter();", 0)]
HAZ_C = [("write", "{p}.clear();", 1), ("write", "{p}.push_as::<C>(k());", 1), ("write", "{p}.rotate_left(0);", 0), ("write", "{p}.rotate_right(0);", 0), ("write", "{p}.append(&mut c());", 0),
         ("write", "c().append(&mut {w});", 0), ("write", "std::mem::swap(&mut {w}, &mut c());", 0), ("write", "{p}.fill::<C>(k());", 0), ("write", "{p}.resize::<C>(0, k());", 0), ("write", "{p}.reserve(9);", 0),
         ("write", "{p}.push(c().get_ref(0));", 0), ("write", "{p}.copy_from_slice::<C>(&[k()]);", 0), ("write", "{p}.extend(c().iter());", 0),
         ("mutview", "let _m = {p}.get_mut(0);", 1), ("mutview", "let _m = {p}.as_mut_slice();", 0), ("mutview", "let _m = {p}.iter_mut();", 0), ("mutview", "let _m = {p}.as_mut_slice_as::<C>();", 0),
         ("read", "{p}.len();", 0), ("read", "let _r = {p}.get_ref(0);", 1), ("read", "let _r = {p}.as_slice_as::<C>();", 0), ("read", "let _r = {p}.iter();", 0)]
ref = lambda hs: [(k, s.replace("&mut {w}", "&mut *{p}"), q) for k, s, q in hs]
own = lambda hs: [(k, s.replace("{w}", "{p}"), q) for k, s, q in hs]
MOVE = ("move", "drop({p});", 1)
HAZ = {
    "D": [MOVE, ("move", "let _x = {p}.into_vec::<T>();", 0), ("move", "let _x = {p}.upcast::<VA>();", 0), ("write", "{p} = d();", 0)] + own(HAZ_D),
    "C": [MOVE, ("move", "let _x = {p}.into_vec::<C>();", 0), ("move", "let _x = {p}.upcast::<VA>();", 0), ("write", "{p} = c();", 0)] + own(HAZ_C),
    "RD": [MOVE] + ref(HAZ_D), "RC": [MOVE] + ref(HAZ_C),
    "B": [MOVE, ("move", "let _x = {p}.downcast::<T>();", 0), ("move", "let _x = {p}.upcast::<VA>();", 0), ("write", "{p} = bx();", 1), ("mutview", "let _m = {p}.as_mut();", 1), ("read", "let _r = {p}.as_ref();", 1),
          ("write", "std::mem::swap(&mut {p}, &mut bx());", 0)],
    "Z": [MOVE, ("move", "let _x = {p}.downcast::<P>();", 0), ("move", "let _x = {p}.upcast::<VA>();", 0), ("write", "{p} = sv();", 1), ("mutview", "let _m = {p}.as_mut();", 1), ("read", "let _r = {p}.as_ref();", 1)],
    "TV": [MOVE, ("write", "{p}.push(t());", 1), ("write", "{p}.clear();", 0), ("mutview", "let _m = &mut {p}[0];", 1), ("read", "let _r = {p}.len();", 1), ("move", "let _x: VecDyn<VS> = {p}.into();", 0)],
    "CV": [MOVE, ("write", "{p}.push(k());", 1), ("write", "{p}.clear();", 0), ("mutview", "let _m = &mut {p}[0];", 1), ("read", "let _r = {p}.len();", 1), ("move", "let _x: VecCopy<VS> = {p}.into();", 0)],
    "TX": [MOVE, ("write", "{p}.push('x');", 1), ("mutview", "let _m = &mut {p};", 1), ("read", "let _r = {p}.len();", 1), ("move", "let _x = BoxValue::<VS>::new({p});", 0)],
    "CX": [("write", "{p} += 1;", 1), ("mutview", "let _m = &mut {p};", 1), ("read", "let _r = {p} + 1;", 1)],
    "SM": [MOVE, ("move", "let _x = {p}.into_iter();", 0), ("write", "{p}.swap(0, 0);", 1), ("write", "{p}.rotate_left(0);", 0), ("write", "{p}.rotate_right(0);", 0), ("write", "{p}.clone_from_slice::<T>(&[t()]);", 0),
           ("mutview", "let _m = {p}.get_mut(0);", 1), ("mutview", "let _m = {p}.reborrow_mut();", 0), ("mutview", "let _m = {p}.subslice_mut(..);", 0), ("mutview", "let _m = {p}.as_slice::<T>();", 0),
           ("mutview", "let _m = {p}.iter();", 0), ("mutview", "let _m = {p}.iter_as::<T>();", 0), ("mutview", "let _m = {p}.get_as::<T>(0);", 0), ("mutview", "let _m = {p}.split_at(0);", 0), ("mutview", "let _m = {p}.chunks_exact_mut(1);", 0),
           ("read", "let _r = {p}.get(0);", 1), ("read", "let _r = {p}.len();", 0), ("read", "let _r = {p}.reborrow();", 0)],
    "SCM": [MOVE, ("move", "let _x = {p}.into_iter();", 0), ("write", "{p}.swap(0, 0);", 1), ("write", "{p}.rotate_left(0);", 0), ("write", "{p}.rotate_right(0);", 0), ("write", "{p}.copy_from_slice::<C>(&[k()]);", 0),
            ("mutview", "let _m = {p}.get_mut(0);", 1), ("mutview", "let _m = {p}.reborrow_mut();", 0), ("mutview", "let _m = {p}.subslice_mut(..);", 0), ("mutview", "let _m = {p}.as_slice::<C>();", 0),
            ("mutview", "let _m = {p}.iter();", 0), ("mutview", "let _m = {p}.iter_as::<C>();", 0), ("mutview", "let _m = {p}.get_as::<C>(0);", 0), ("mutview", "let _m = {p}.split_at(0);", 0), ("mutview", "let _m = {p}.chunks_exact_mut(1);", 0),
            ("read", "let _r = {p}.get(0);", 1), ("read", "let _r = {p}.len();", 0), ("read", "let _r = {p}.reborrow();", 0)],
    "VM": [MOVE, ("write", "{p}.assign(like(&{p}.reborrow().clone_value(), || loop {}));", 1), ("mutview", "let _m = {p}.reborrow_mut();", 1), ("read", "let _r = {p}.reborrow();", 1), ("read", "{p}.is::<T>();", 0)],
    "CVM": [MOVE, ("mutview", "let _m = {p}.upcast::<VA>();", 1), ("read", "{p}.is::<C>();", 1)],
}


class Program:
    def __init__(self, neg, ctl, text):
        self.neg, self.ctl, self.text = neg, ctl, text


def chains(depth):
    """Every chain of at most `depth` steps: list of (source, [(need, expr, type)])."""
    out = []
    level = [(s, []) for s in SOURCES]
    for _ in range(depth):
        nxt = []
        for s, ch in level:
            ty = ch[-1][2] if ch else s[0]
            for st in STEPS[ty]:
                nxt.append((s, ch + [st]))
        out += nxt
        level = nxt
    return out


def lines(src, chain, upto=None):
    """One line per value a0, a1, ..."""
    out = ["let mut a0 = %s;" % src[1]]
    for i, (need, e, ty) in enumerate(chain):
        out.append("let mut a%d = %s;" % (i + 1, e.replace("{p}", "a%d" % i).replace("{r}", "a%d" % i)))
    return out


def hazards(ty, how, full):
    """how the value is borrowed by the step from it; full: 2 every hazard, 1 short list, 0 one of each strength."""
    hs = [h for h in HAZ.get(ty, []) if (h[0] != "read" or how == "mut") and (full == 2 or h[2])]
    if full == 0:
        keep, seen = [], set()
        for h in hs:
            if h[0] == "mutview" and how == "ref" or h[0] == "write" and "write" in seen:
                continue
            seen.add(h[0])
            keep.append(h)
        hs = keep
    return hs


def conflict_programs(depth, full_at):
    for src, ch in chains(depth):
        ls = lines(src, ch)
        k = len(ch)
        types = [src[0]] + [c[2] for c in ch]
        # values still available: not consumed by an owning step
        for i in range(k):
            if ch[i][0] == "own" or KIND[types[i]] == "S":
                continue
            # what holds the borrow of a_i is alive as long as the last value
            for kind, stmt, _ in hazards(types[i], ch[i][0], full_at(k)):
                h = stmt.replace("{p}", "a%d" % i).replace("{{", "{").replace("}}", "}")
                neg = " ".join(ls + [h, "touch(&a%d);" % k])
                ctl = " ".join(ls[:i + 1] + ["{"] + ls[i + 1:] + ["touch(&a%d);" % k, "}", h])
                yield Program(neg, ctl, neg)
        # the last view must not claim to outlive its source
        if KIND[src[0]] == "O":
            neg = " ".join(ls + ["eternal(a%d);" % k])
            yield Program(neg, " ".join(ls + ["touch(&a%d);" % k]), neg)


def exclusive_programs(depth):
    """A view that may write cannot be had twice: not by copying it, by cloning it, or from a shared reference to it."""
    for src, ch in [(s, []) for s in SOURCES] + chains(depth):
        ty = ch[-1][2] if ch else src[0]
        if KIND[ty] == "S" or (not ch and src[0] == "CX"):
            continue
        ls, a = " ".join(lines(src, ch)), "a%d" % len(ch)
        yield Program(ls + " let x = %s; touch(&%s); touch(&x);" % (a, a), ls + " let x = %s; touch(&x);" % a, "")
        if KIND[ty] == "M":
            yield Program(ls + " let x = dup(&%s);" % a, ls + " let x = plain(&%s);" % a, "")
        for need, e, to in STEPS[ty]:
            if need == "mut" and len(ch) < depth:
                f = ls + " let %sr = &%s" + a + "; let y = " + e.replace("{p}", "(*r)") + "; touch(&y);"
                yield Program(f % ("", ""), f % ("", "mut "), "")


def coexist_programs(depth):
    """Views that only read can be held together, and next to reading of their source."""
    by = {}
    for src, ch in chains(depth):
        types = [src[0]] + [c[2] for c in ch]
        if all(KIND[t] in "OS" for t in types[:1] + types[1:]) and all(c[0] != "mut" for c in ch):
            by.setdefault(src, []).append(ch)
    for src, chs in by.items():
        for ch, other in itertools.product(chs, repeat=2):
            if len(ch) + len(other) > depth + 1:
                continue
            a = lines(src, ch)
            b = ["let mut b%d = %s;" % (i + 1, e.replace("{p}", ("b%d" % i) if i else "a0").replace("{r}", "a0")) for i, (n, e, t) in enumerate(other)]
            yield " ".join(a + b + ["touch(&a%d); touch(&b%d); touch(&a0);" % (len(ch), len(other))])


# Elements must own what they hold: every way in, given a reference to a local.
WAYS = ["let x: VecDyn<VS> = vec![e].into();", "let x = VecDyn::<VS>::with_type::<&String>();", "let x = VecDyn::<VS>::with_capacity::<&String>(1);",
        "let x = VecDyn::<VS>::from_vec(vec![e]);", "let x = VecDyn::<VS>::with_size::<&String>(1, e);",
        "let mut x = d(); x.push_as(e);", "let mut x = d(); x.resize(1, e);", "let mut x = d(); x.fill(e);",
        "let x: VecCopy<VS> = vec![e].into();", "let x = VecCopy::<VS>::with_type::<&String>();", "let x = VecCopy::<VS>::with_capacity::<&String>(1);",
        "let x = VecCopy::<VS>::with_size::<&String>(1, e);", "let x = VecCopy::<VS>::from_vec(vec![e]);", "let x = VecCopy::<VS>::from_slice(&[e]);",
        "let mut x = c(); x.push_as(e);", "let mut x = c(); x.resize(1, e);", "let mut x = c(); x.fill(e);", "let mut x = c(); x.copy_from_slice(&[e]);",
        "let x = BoxValue::<VS>::new(e);", "let x = SmallValue::<VS>::new(e);", "let x = ValueRef::<VS>::new(&e);", "let x = ValueMut::<VS>::new(&mut e);",
        "let x = CopyValueRef::<VS>::new(&e);", "let x = CopyValueMut::<VS>::new(&mut e);",
        "let v = vec![e]; let x = Slice::<VS>::from_slice(&v);", "let v = vec![e]; let x: Slice::<VS> = v[..].into();", "let mut v = vec![e]; let x = SliceMut::<VS>::from_slice(&mut v);",
        "let v = vec![e]; let x = SliceCopy::<VS>::from_slice(&v);", "let mut v = vec![e]; let x = SliceCopyMut::<VS>::from_slice(&mut v);",
        "let x: Option<Vec<&String>> = { y(e); d().into_vec() };", "let b = bx(); let x: Option<&&String> = { y(e); b.as_ref().downcast() };",
        "let x: VecDyn<VS> = { let mut z = d(); z.check_mut::<&String>(); y(e); z };", "let b = bx(); let x = b.as_ref().is::<&String>();"]


def element_programs():
    for w in WAYS:
        tail = " touch(&x);"
        pre = "fn y<T>(_: T) {} let mut s = String::new(); "
        # naming the reference's type ties it to the local
        wy = w.replace("::<&String>", "::<R>").replace("<&&String>", "<&R>").replace("<Vec<&String>>", "<Vec<R>>")
        body = "fn go<R: Copy + Clone + Eq + std::hash::Hash + std::fmt::Debug%s>(mut e: R) { fn y<T>(_: T) {} %s touch(&x); } "
        neg = body % ("", wy) + "let s = String::new(); go(&s);"
        ctl = body % (" + 'static", wy) + "go(Box::leak(Box::new(String::new())) as &'static String);"
        yield Program(neg, ctl, neg)
        if wy == w:
            yield Program(pre + "let mut e = &s; " + w + " drop(s);" + tail, pre + "let mut e: &'static String = Box::leak(Box::new(String::new())); " + w + " drop(s);" + tail, w)
