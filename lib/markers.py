"""C12: enumerated probes of Send, Sync and the promises of tables; the compiler decides which hold."""
import itertools
import borrow

# Element types: which markers each has.  All are Copy and have the size of a pointer.
KINDS = {"Both": (1, 1), "SendOnly": (1, 0), "SyncOnly": (0, 1), "Neither": (0, 0)}
TRAITS = ["Clone", "PartialEq", "Eq", "Hash", "Debug", "Send", "Sync"]
PATH = {"Hash": "std::hash::Hash", "Debug": "std::fmt::Debug"}

ELEMS = "use std::marker::PhantomData;\n"
for name, (s, y) in KINDS.items():
    ELEMS += "#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)] pub struct %s(pub usize, pub PhantomData<*const u8>);\nimpl %s { pub fn new() -> Self { Self(1, PhantomData) } }\n" % (name, name)
    if s:
        ELEMS += "unsafe impl Send for %s {}\n" % name
    if y:
        ELEMS += "unsafe impl Sync for %s {}\n" % name

PROMISES = {"": (0, 0), "Send": (1, 0), "Sync": (0, 1), "Send + Sync": (1, 1)}


def line(name, bounds):
    return "pub trait %s: %s {} impl<T: %s> %s for T {}\n" % (name, bounds, bounds, name)


def tables():
    """Ways of declaring a table with each promise: (items, [(table type, sized, (send, sync))])."""
    items, out = "", []
    for i, (p, m) in enumerate(PROMISES.items()):
        plus = " + " + p if p else ""
        # alone, and next to other traits
        items += "#[dync_trait] " + line("A%d" % i, p or "Clone")
        out.append(("A%dVTable" % i, True, m))
        items += "#[dync_trait] " + line("B%d" % i, "Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug" + plus)
        out.append(("B%dVTable" % i, True, m))
        # inherited once, twice, and from two parents
        items += "#[dync_mod] pub mod m%d { use dync::*;\n%s%s%s%s%s }\n" % (
            i, line("P", "Clone" + plus), line("Q", "P + std::fmt::Debug"), line("R", "Q"), line("L", "PartialEq"), line("J", "L + P"))
        for t in "PQRJ":
            out.append(("m%d::%sVTable" % (i, t), True, m))
        out.append(("m%d::LVTable" % i, True, (0, 0)))
        # behind a trait object
        b = "HasDrop" + (" + HasSend" if m[0] else "") + (" + HasSync" if m[1] else "")
        items += "pub trait Dyn%d: %s {}\n" % (i, b)
        out.append(("dyn Dyn%d" % i, False, m))
    # the promise is made by the other trait of a pair
    items += "#[dync_mod] pub mod sp { use dync::*;\n%s%s%s }\n" % (line("P", "Send"), line("Q", "Sync"), line("R", "P + Q"))
    out += [("sp::PVTable", True, (1, 0)), ("sp::QVTable", True, (0, 1)), ("sp::RVTable", True, (1, 1))]
    for t, m in [("Drop", (0, 0)), ("Clone", (0, 0)), ("PartialEq", (0, 0)), ("Eq", (0, 0)), ("Hash", (0, 0)), ("Debug", (0, 0)), ("Send", (1, 0)), ("Sync", (0, 1))]:
        out.append((t + "VTable", True, m))
    out += [("dyn HasDrop", False, (0, 0)), ("(DropFn, ())", True, (0, 0)), ("(DropFn, CloneVTable)", True, (0, 0))]
    return items, out


# handle: (type, how Send follows, how Sync follows, table need not know how to drop, must be Send/Sync when promised)
HANDLES = [("VecDyn<%s>", 0, 1, 0, 1), ("BoxValue<%s>", 0, 1, 0, 1), ("SmallValue<%s>", 0, 1, 0, 1), ("Slice<'static, %s>", 1, 1, 0, 1), ("SliceMut<'static, %s>", 0, 1, 0, 1),
           ("ValueRef<'static, %s>", 1, 1, 0, 1), ("ValueMut<'static, %s>", 0, 1, 0, 1), ("VecCopy<%s>", 0, 1, 1, 0), ("SliceCopy<'static, %s>", 1, 1, 1, 1),
           ("SliceCopyMut<'static, %s>", 0, 1, 1, 1), ("CopyValueRef<'static, %s>", 1, 1, 1, 1), ("CopyValueMut<'static, %s>", 0, 1, 1, 1)]
WRAPS = [("%s", lambda s, y: (s, y)), ("&'static %s", lambda s, y: (y, y)), ("&'static mut %s", lambda s, y: (s, y)), ("Option<%s>", lambda s, y: (s, y)),
         ("Vec<%s>", lambda s, y: (s, y)), ("std::sync::Mutex<%s>", lambda s, y: (s, s)), ("std::sync::Arc<%s>", lambda s, y: (s and y, s and y))]
BASE = '''#![allow(unused, dead_code, unused_mut)]
use dync::*;
use dync::traits::*;
fn touch<X: ?Sized>(_: &X) {}
fn send<X: Send + ?Sized>(_: &X) {}
fn sync<X: Sync + ?Sized>(_: &X) {}
fn is_send<X: Send>() {}
fn is_sync<X: Sync>() {}
fn is_eq<X: Eq>() {}
'''


class Probe:
    """want: True must be accepted, False must be rejected, None: nothing is said."""
    def __init__(self, sig, text, want):
        self.sig, self.text, self.want = sig, text, want


def handle_probes():
    items, ts = tables()
    out = []
    for (h, hs, hy, free, must), (t, sized, m), (w, f) in itertools.product(HANDLES, ts, WRAPS):
        if h.startswith("VecCopy") and not sized and t != "dyn HasDrop":
            pass
        s, y = f(m[hs], m[hy])
        ty = w % (h % t)
        for marker, fn, v in (("Send", "is_send", s), ("Sync", "is_sync", y)):
            want = bool(v)
            if want and not must:
                want = None
            out.append(Probe("%s:%s:%s" % (h.split("<")[0], marker, "promised" if v else "unpromised"), "%s::<%s>();" % (fn, ty), want))
    for t, m in [("()", (0, 0))]:
        for (h, hs, hy, free, must) in HANDLES:
            if free:
                for marker, fn in (("Send", "is_send"), ("Sync", "is_sync")):
                    out.append(Probe("%s:%s:unpromised" % (h.split("<")[0], marker), "%s::<%s>();" % (fn, h % t), False))
    return BASE + items, out


def plain_probes():
    """The crate without its default features: no table can promise anything."""
    out = []
    for (h, _, _, free, _), (marker, fn) in itertools.product(HANDLES, (("Send", "is_send"), ("Sync", "is_sync"))):
        if free:
            out.append(Probe("no-default-features:%s:%s" % (h.split("<")[0], marker), "%s::<%s>();" % (fn, h % "()"), False))
    return BASE.replace("use dync::traits::*;\n", ""), out


# Every way of making a table for an element type.
WAYS = ["let x: VecDyn<V> = vec![e()].into();", "let x = VecDyn::<V>::with_type::<E>();", "let x = VecDyn::<V>::with_capacity::<E>(1);", "let x = VecDyn::<V>::from_vec(vec![e()]);",
        "let x = BoxValue::<V>::new(e());", "let x = SmallValue::<V>::new(e());", "let r = e(); let x = ValueRef::<V>::new(&r);", "let mut r = e(); let x = ValueMut::<V>::new(&mut r);",
        "let v = vec![e()]; let x = Slice::<V>::from_slice(&v);", "let mut v = vec![e()]; let x = SliceMut::<V>::from_slice(&mut v);",
        "let v = vec![e()]; let x: Slice<V> = v[..].into();", "let x = <V as VTable<E>>::build_vtable();"]
COPY_WAYS = ["let x: VecCopy<V> = vec![e()].into();", "let x = VecCopy::<V>::with_type::<E>();", "let x = VecCopy::<V>::with_capacity::<E>(1);", "let x = VecCopy::<V>::with_size::<E>(1, e());",
             "let x = VecCopy::<V>::from_vec(vec![e()]);", "let x = VecCopy::<V>::from_slice(&[e()]);", "let r = e(); let x = CopyValueRef::<V>::new(&r);",
             "let mut r = e(); let x = CopyValueMut::<V>::new(&mut r);", "let v = vec![e()]; let x = SliceCopy::<V>::from_slice(&v);",
             "let mut v = vec![e()]; let x = SliceCopyMut::<V>::from_slice(&mut v);"]


def lacking():
    """An element type without each trait (and those that need it); the last lacks nothing."""
    items, out = "", []
    for name, lost in [("NoClone", ["Clone"]), ("NoPartialEq", ["PartialEq", "Eq"]), ("NoEq", ["Eq"]), ("NoHash", ["Hash"]), ("NoDebug", ["Debug"]), ("NoSend", ["Send"]),
                       ("NoSync", ["Sync"]), ("NoneLost", [])]:
        ds = [t for t in TRAITS[:5] if t not in lost]
        items += "#[derive(%s)] pub struct %s(pub usize, pub std::marker::PhantomData<*const u8>);\nimpl %s { pub fn new() -> Self { Self(1, std::marker::PhantomData) } }\n" % (", ".join(ds), name, name)
        for t in ("Send", "Sync"):
            if t not in lost:
                items += "unsafe impl %s for %s {}\n" % (t, name)
        out.append((name, set(TRAITS) - set(lost)))
    return items, out


def table_probes(full):
    li, els = lacking()
    copies = [(k, set(TRAITS) - ({"Send"} if not s else set()) - ({"Sync"} if not y else set())) for k, (s, y) in KINDS.items()]
    items, ts = ELEMS + li, []
    subsets = [c for n in range(1, len(TRAITS) + 1) for c in itertools.combinations(TRAITS, n)]
    for i, sub in enumerate(subsets):
        b = " + ".join(PATH.get(t, t) for t in sub)
        items += "#[dync_trait] pub trait W%d: %s {} impl<T: %s> W%d for T {}\n" % (i, b, b, i)
        ts.append(("W%dVTable" % i, set(sub)))
        # the same, inherited: the last trait in the child, the others in the parent
        if len(sub) > 1:
            a, z = " + ".join(PATH.get(t, t) for t in sub[:-1]), PATH.get(sub[-1], sub[-1])
            items += "#[dync_mod] pub mod w%d { use dync::*; pub trait P: %s {} impl<T: %s> P for T {} pub trait Q: P + %s {} impl<T: P + %s> Q for T {} }\n" % (i, a, a, z, z)
            ts.append(("w%d::QVTable" % i, set(sub)))
    for t in TRAITS:
        ts.append((t + "VTable", {t}))
    out = []
    for (t, need), (e, has) in itertools.product(ts, els):
        ok = need <= has
        for k, w in enumerate(WAYS):
            if not full and k not in (0, 4 + hash_of(t, e) % 4, 8 + hash_of(e, t) % 4):
                continue
            out.append(Probe("table:%s" % ("accepted" if ok else "lacking:" + "+".join(sorted(need - has))), "type V = %s; type E = %s; fn e() -> E { E::new() } %s touch(&x);" % (t, e, w), ok))
    for (t, need), (e, has) in itertools.product(ts, copies):
        ok = need <= has
        for k, w in enumerate(COPY_WAYS):
            if not full and k not in (hash_of(t, e) % 6, 6 + hash_of(e, t) % 4):
                continue
            out.append(Probe("table:%s" % ("accepted" if ok else "lacking:" + "+".join(sorted(need - has))), "type V = %s; type E = %s; fn e() -> E { E::new() } %s touch(&x);" % (t, e, w), ok))
    # a trait that only has the name of the promise
    items += "".join("pub mod shadow%s { use dync::*; pub trait %s {} impl<T> %s for T {} #[dync_mod] pub mod n { use super::%s; use dync::*; pub trait X: %s {} impl<T> X for T {} pub trait Y: X {} impl<T> Y for T {} } }\n"
                     % (t, t, t, t, t) for t in ("Eq", "Send", "Sync") if t != "Eq")
    for t in ("Send", "Sync"):
        for v in "XY":
            out.append(Probe("table:lacking:" + t, "let x: VecDyn<shadow%s::n::%sVTable> = vec![No%s::new()].into(); touch(&x);" % (t, v, t), False))
            out.append(Probe("table:accepted", "let x: VecDyn<shadow%s::n::%sVTable> = vec![NoneLost::new()].into(); touch(&x);" % (t, v), None))
    return BASE + items, out


def hash_of(a, b):
    h = 0
    for c in a + "|" + b:
        h = (h * 31 + ord(c)) % 1000003
    return h


HANDLE_OF = {"D": ("VecDyn", 0), "B": ("BoxValue", 0), "Z": ("SmallValue", 0), "SM": ("SliceMut", 0), "SCM": ("SliceCopyMut", 0), "VM": ("ValueMut", 0), "CVM": ("CopyValueMut", 0),
             "SL": ("Slice", 1), "SC": ("SliceCopy", 1), "VR": ("ValueRef", 1), "CVR": ("CopyValueRef", 1), "C": ("VecCopy", 0)}
# steps whose result holds no element: only the table or raw bytes
NODATA = ("vtable()", "Meta::from", "into_raw_parts")


def chain_probes(promise, kind, depth):
    """Values obtained by every chain of steps, with a table of that promise over elements of that kind."""
    ps, py = PROMISES[promise]
    es, ey = KINDS[kind]
    plus = " + " + promise if promise else ""
    head = borrow.HEAD.replace("std::fmt::Debug {}", "std::fmt::Debug%s {}" % plus).replace("T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}", "T: {}")
    head = head.replace("std::fmt::Debug%s {}\n    pub trait Sub" % plus, "std::fmt::Debug {}\n    pub trait Sub")
    body = "Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug" + plus
    i, j = head.index("    pub trait All"), head.index("    pub trait Sub")
    head = head[:i] + "    pub trait All: %s {}\n    impl<T> All for T where T: %s {}\n" % (body, body) + head[j:]
    head = head.replace("type T = String;", "type T = %s;" % kind).replace("type C = u32;", "type C = %s;" % kind).replace("type P = Box<u8>;", "type P = Box<%s>;" % kind)
    head = head.replace("fn t() -> T { String::new() }", "fn t() -> T { T::new() }").replace("fn k() -> C { 1 }", "fn k() -> C { C::new() }").replace("Box::new(1) }", "Box::new(k()) }")
    head += ELEMS + "fn send<X: Send + ?Sized>(_: &X) {}\nfn sync<X: Sync + ?Sized>(_: &X) {}\n"
    out = []
    todo = [(s, []) for s in borrow.SOURCES] + borrow.chains(depth)
    for src, ch in todo:
        ty = ch[-1][2] if ch else src[0]
        if ch and any(x in ch[-1][1] for x in NODATA):
            continue
        ls = " ".join(borrow.lines(src, ch))
        last = "a%d" % len(ch)
        name = HANDLE_OF.get(ty)
        for marker in ("Send", "Sync"):
            if name:
                v = py if marker == "Sync" or name[1] else ps
                want = (None if name[0] == "VecCopy" else True) if v else False
                sig = "%s:%s:%s" % (name[0], marker, "promised" if v else "unpromised")
            elif ty in ("RD", "RC"):
                v = ps if marker == "Send" else py
                want = (None if ty == "RC" else True) if v else False
                sig = "&mut %s:%s" % ("VecDyn" if ty == "RD" else "VecCopy", marker)
            elif ty == "RS":
                want, sig = (None if py else False), "&Slice:" + marker
            elif ty in ("L", "ML"):
                # typed views follow the element, untyped iterators the table: with neither, it must be refused
                lack = not (es if marker == "Send" and ty == "ML" else ey)
                want, sig = (False if lack else None), "view:" + marker
            else:
                continue
            out.append(Probe(sig, "%s %s(&%s);" % (ls, marker.lower(), last), want))
    return head, out
