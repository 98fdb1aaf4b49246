"""Explorations whose executions are compilations (and runs) of enumerated programs."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import time
import borrow
import markers
import tables

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
WORK = os.path.join(ROOT, "target", "programs")
REPO = os.environ.get("VERIF_REPO", "/repo")


class Broken(Exception):
    pass


def say(*a):
    import sys
    print(*a, file=sys.stderr, flush=True)


# ---- compiling ---------------------------------------------------------------------------

def externs(cargo, crate="gen"):
    """Build dync as a library; where its rlib and those of its dependencies are."""
    rc, out, d = cargo(crate, "checked", ["--message-format=json"])
    if rc != 0:
        raise Broken("dync does not build:\n" + out[-2000:])
    lib = None
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "dync":
                lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if not lib:
        raise Broken("no rlib of dync")
    return ["--extern", "dync=" + lib, "-L", "dependency=" + os.path.join(d, "deps")]


def rustc(ext, path, args, env, timeout=600):
    cmd = ["rustc", "--edition", "2021", "-A", "warnings", "--error-format=json", "-C", "debuginfo=0", path] + ext + args
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    errs = []
    for l in p.stderr.splitlines():
        if not l.startswith("{"):
            if l.strip():
                errs.append((None, "ice", l))
            continue
        m = json.loads(l)
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        spans = [s for s in m.get("spans", []) if s["is_primary"]]
        if not spans:
            if m["message"].startswith("aborting due to") or "previous error" in m["message"]:
                continue
            errs.append((None, "none", m["message"]))
            continue
        s = spans[0]
        # an error inside a macro or another file belongs to the line that called it
        while s and not os.path.samefile(s["file_name"], path) if s and os.path.exists(s["file_name"]) else bool(s and s.get("expansion")):
            s = (s.get("expansion") or {}).get("span")
        line = s["line_start"] if s else None
        errs.append((line, (m.get("code") or {}).get("code") or "lifetime" if "lifetime" in m["message"] or m.get("code") else "other", m["message"]))
    return p.returncode, errs


def judge_lines(ext, env, name, head, texts):
    """Compile functions, one per line.  Returns per function the list of (code, message)."""
    path = os.path.join(WORK, name + ".rs")
    n0 = head.count("\n") + 1
    with open(path, "w") as f:
        f.write(head)
        for i, t in enumerate(texts):
            f.write("fn f%d() { %s }\n" % (i, t.replace("\n", " ")))
    rc, errs = rustc(ext, path, ["--crate-type", "lib", "--emit=metadata", "-o", path[:-3] + ".rmeta"], env)
    out = [[] for _ in texts]
    for line, code, msg in errs:
        if line is None or line < n0:
            raise Broken("error outside the programs in %s: %s %s" % (path, code, msg))
        out[line - n0].append((code, msg))
    if rc != 0 and not errs:
        raise Broken("rustc failed without an error on " + path)
    return out


# Errors of the borrow checker.
BCK = {"E0381", "E0382", "E0384", "E0499", "E0500", "E0501", "E0502", "E0503", "E0505", "E0506", "E0507", "E0509", "E0510", "E0515", "E0521", "E0594", "E0596",
       "E0597", "E0621", "E0626", "E0700", "E0712", "E0713", "E0716", "E0310", "E0309", "lifetime"}
LIVE = {"E0499", "E0501", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0713", "E0716", "lifetime"}


def judge(ext, env, name, head, texts, nparts):
    """As judge_lines, in parallel, and without the functions that fail before borrow checking
    (their presence would hide the errors of the others)."""
    idx = list(range(len(texts)))
    parts = [idx[i::nparts] for i in range(nparts)]

    def one(k):
        todo, res = parts[k], {}
        for attempt in range(6):
            r = judge_lines(ext, env, "%s_%d" % (name, k), head, [texts[i] for i in todo])
            early = [i for i, e in zip(todo, r) if any(c not in BCK for c, _ in e)]
            if not early:
                for i, e in zip(todo, r):
                    res[i] = e
                return res
            for i, e in zip(todo, r):
                if i in set(early):
                    res[i] = e
            todo = [i for i in todo if i not in set(early)]
        raise Broken("too many rounds of type errors in " + name)

    out = {}
    with cf.ThreadPoolExecutor(nparts) as ex:
        for r in ex.map(one, range(nparts)):
            out.update(r)
    return [out[i] for i in idx]


# ---- C15 ---------------------------------------------------------------------------------

def run_borrow(prop, tier, cargo, env):
    ext = externs(cargo)
    depth = 3
    full = (lambda k: {1: 2, 2: 2, 3: 1}[k]) if tier == "thorough" else (lambda k: {1: 2, 2: 2, 3: 0}[k])
    progs = list(borrow.conflict_programs(depth, full)) + list(borrow.element_programs())
    seen, uniq = set(), []
    for p in progs:
        if p.neg not in seen:
            seen.add(p.neg)
            uniq.append(p)
    progs = uniq
    ex = list({p.neg: p for p in borrow.exclusive_programs(2)}.values())
    co = list(dict.fromkeys(borrow.coexist_programs(depth)))
    n = 64
    t0 = time.time()
    neg = judge(ext, env, "borrow_neg", borrow.HEAD, [p.neg for p in progs], n)
    t1 = time.time()
    ctl = judge(ext, env, "borrow_ctl", borrow.HEAD, [p.ctl for p in progs], n)
    exn = judge(ext, env, "borrow_exn", borrow.HEAD, [p.neg for p in ex], n)
    exc = judge(ext, env, "borrow_exc", borrow.HEAD, [p.ctl for p in ex], n)
    pos = judge(ext, env, "borrow_pos", borrow.HEAD, co, n)
    say("borrow: %d programs that must be rejected (%.1f s), their controls and %d that must be accepted (%.1f s)" % (len(progs), t1 - t0, len(co), time.time() - t1))
    found, bad_ctl, ill = [], [], 0
    for p, e, c in zip(progs, neg, ctl):
        if any(code not in BCK for code, _ in e):
            ill += 1
        elif not e:
            found.append(("Accepted", "the compiler accepts a program that uses a view after its source was changed, moved or aliased", p.neg, "accepted: " + p.neg))
        elif c:
            bad_ctl.append((p.ctl, c[0]))
    for p, e, c in zip(ex, exn, exc):
        if not e:
            found.append(("Accepted", "the compiler accepts a program that has a view that may write twice", p.neg, "accepted: " + p.neg))
        elif c:
            bad_ctl.append((p.ctl, c[0]))
    for t, e in zip(co, pos):
        if e and all(code in BCK for code, _ in e):
            found.append(("Rejected", "views that only read cannot be held together", t, "%s: %s" % (t, e[0])))
        elif e:
            ill += 1
    for t, e in bad_ctl[:5]:
        say("control rejected: %s\n   %s" % (t, e))
    if ill:
        say("%d programs do not type-check" % ill)
    progs += ex
    if len(bad_ctl) * 4 > len(progs) or ill * 4 > len(progs):
        raise Broken("%d of %d controls are rejected, %d programs do not type-check" % (len(bad_ctl), len(progs), ill))
    return {"name": "borrow depth %d" % depth, "programs": len(progs) * 2 + len(co), "checks": len(progs) * 2 + len(co),
            "samples": [progs[0].neg, progs[len(progs) // 2].neg, progs[-1].neg, co[-1]], "found": found,
            "extra": {"must_be_rejected": len(progs), "must_be_accepted": len(co), "controls_rejected": len(bad_ctl), "ill_typed": ill}}


# ---- C12 ---------------------------------------------------------------------------------

def probe_groups(tier):
    depth = 3 if tier == "thorough" else 2
    yield ("plain",) + markers.plain_probes()
    yield ("handles",) + markers.handle_probes()
    yield ("tables",) + markers.table_probes(True)
    for promise, m in markers.PROMISES.items():
        for kind, has in markers.KINDS.items():
            if m[0] <= has[0] and m[1] <= has[1]:
                yield ("chains_%s_%s" % (promise.replace(" + ", "") or "none", kind),) + markers.chain_probes(promise, kind, depth)


def run_markers(prop, tier, cargo, env):
    ext, ext0 = externs(cargo), externs(cargo, "gen0")
    found, total, said, ill, nobck = [], 0, {"must_be_accepted": 0, "must_be_rejected": 0}, 0, 0
    samples = []
    groups = [(g, h, [p for p in ps if p.want is not None]) for g, h, ps in probe_groups(tier)]
    jobs = []
    for g, head, ps in groups:
        n = max(1, len(ps) // 1500)
        jobs += [(g, head, ps[k::n], k) for k in range(n)]

    def one(j):
        g, head, ps, k = j
        return judge_lines(ext0 if g == "plain" else ext, env, "markers_%s_%d" % (g, k), head, [p.text for p in ps])

    with cf.ThreadPoolExecutor(8) as ex:
        for (g, head, ps, k), errs in zip(jobs, ex.map(one, jobs)):
            total += len(ps)
            samples += [ps[len(ps) // 2].text]
            for p, e in zip(ps, errs):
                said["must_be_accepted" if p.want else "must_be_rejected"] += 1
                marker = [m for c, m in e if c == "E0277" or c == "E0599" or c == "E0275"]
                other = [(c, m) for c, m in e if c not in ("E0277", "E0599", "E0275")]
                if other and not marker:
                    ill += 1
                    if ill < 5:
                        say("ill-typed:", p.text, other[0])
                elif p.want and marker:
                    found.append(("Rejected", p.sig, p.text, "%s: rejected although promised: %s\n%s" % (g, p.text, marker[0])))
                elif not p.want and not e:
                    found.append(("Accepted", p.sig, p.text, "%s: accepted: %s" % (g, p.text)))
    say("markers: %d probes in %d files, %s, %d ill-typed" % (total, len(jobs), said, ill))
    if ill * 4 > total:
        raise Broken("%d of %d probes do not type-check" % (ill, total))
    return {"name": "markers", "programs": total, "checks": total, "samples": samples[:8], "found": found, "extra": dict(said, ill_typed=ill)}


# ---- C11 ---------------------------------------------------------------------------------

def compile_shapes(tier):
    five = ["Clone", "PartialEq", "Eq", "Hash", "Debug"]
    yield from tables.singles()
    yield from tables.ordered()
    yield from tables.deep()
    yield from tables.long()
    yield from tables.styled()
    if tier == "thorough":
        yield from tables.pairs(five + ["Send"])
        yield from tables.assigned(five, ["chain3", "two parents", "shortcut"])
        yield from tables.assigned(["Clone", "Eq", "Hash", "Debug"], ["diamond", "chain4"])
    else:
        yield from tables.pairs(five)
        yield from tables.assigned(["Clone", "Eq", "Hash", "Debug"])


def run_shapes(tier):
    for sh in tables.singles():
        yield sh, tables.KINDS, "all"
    few = ["Clone", "PartialEq", "Hash", "Debug"]
    small = ["vd", "vr", "bv", "vc"]
    if tier == "thorough":
        for sh in tables.pairs(few + ["Eq"]):
            yield sh, tables.KINDS, "all"
        for sh in tables.assigned(few):
            yield sh, small, "all"
        for sh in tables.ordered():
            yield sh, small, "all"
        for sh in tables.styled():
            yield sh, small, "steps"
        for sh in tables.deep():
            yield sh, ["vd", "vc"], "steps"
        for sh in tables.long():
            if len(sh.traits) <= 6:
                yield sh, ["vd"], "steps"
    else:
        for sh in tables.pairs(few):
            yield sh, small, "all"
        for sh in tables.assigned(["Clone", "Hash"]):
            yield sh, tables.KINDS if len(sh.traits) < 4 else small, "all"
        for i, sh in enumerate(tables.ordered()):
            if i % 6 == 0:
                yield sh, small, "all"
        for i, sh in enumerate(tables.styled()):
            if i % 7 == 3:
                yield sh, small, "steps"
        for i, sh in enumerate(tables.deep()):
            if i % 12 == 5:
                yield sh, ["vd"], "steps"


LOST = {"E0277", "E0599", "E0308", "E0282", "E0283", "E0369"}


class Lost(Exception):
    """What the tables of every declaration are used for does not type-check."""


def run_tables(prop, tier, cargo, env):
    try:
        return run_tables_(prop, tier, cargo, env)
    except Lost as e:
        return {"name": "tables", "programs": 1, "checks": 1, "samples": [], "found": [("Rejected", "a behaviour that tables dispatch is not available", "common part", str(e))], "extra": {}}


def run_tables_(prop, tier, cargo, env):
    ext = externs(cargo)
    found = []
    # every declaration compiles and offers what it must
    shapes = list(compile_shapes(tier))
    n = 64
    parts = [list(range(len(shapes)))[i::n] for i in range(n)]

    def comp(k):
        path = os.path.join(WORK, "tables_c%d.rs" % k)
        head = tables.COMPILE_HEAD
        n0 = head.count("\n") + 1
        todo = parts[k]
        bad = {}
        for attempt in range(8):
            with open(path, "w") as f:
                f.write(head + "\n".join(tables.compile_line(shapes[i], "m%d" % i) for i in todo) + "\n")
            rc, errs = rustc(ext, path, ["--crate-type", "lib", "--emit=metadata", "-o", path[:-3] + ".rmeta"], env)
            if rc == 0:
                return bad
            new = {}
            for line, code, msg in errs:
                if line is None or line < n0:
                    if code in LOST:
                        raise Lost("%s %s" % (code, msg))
                    raise Broken("error outside the programs in %s: %s" % (path, msg))
                new.setdefault(todo[line - n0], "%s %s" % (code, msg))
            if not new:
                raise Broken("rustc failed without an error on " + path)
            bad.update(new)
            todo = [i for i in todo if i not in new]
        return bad

    t0 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        for bad in ex.map(comp, range(n)):
            for i, msg in bad.items():
                found.append(("Rejected", "a supported declaration does not compile or its table lacks a trait", shapes[i].describe(), msg))
    say("tables: %d declarations compiled in %.1f s, %d rejected" % (len(shapes), time.time() - t0, len(found)))
    # the behaviour of those that are run
    rejected = {f[2] for f in found}
    runs = [r for r in run_shapes(tier) if r[0].describe() not in rejected]
    size = 12
    chunks = [runs[i:i + size] for i in range(0, len(runs), size)]
    blocks = [0]

    def go(c):
        todo = list(enumerate(chunks[c]))
        path = os.path.join(WORK, "tables_r%d.rs" % c)
        bin_ = path[:-3]
        out, count = [], 0
        head = tables.HEAD
        n0 = head.count("\n") + 1
        while todo:
            texts = []
            count = 0
            for k, (sh, kinds, paths) in todo:
                t, b = tables.run_fn(sh, k, kinds, paths)
                texts.append(t)
                count += b
            with open(path, "w") as f:
                f.write(head + "\n".join(texts) + "\nfn main() { std::panic::set_hook(Box::new(|_| {})); %s println!(\"END\"); }\n"
                        % " ".join('run(%d, "", r%d);' % (k, k) for k, _ in todo))
            rc, errs = rustc(ext, path, ["-o", bin_, "-C", "opt-level=0"], env, timeout=840)
            if rc != 0:
                bad = {}
                for line, code, msg in errs:
                    if line is not None and line < n0 and code in LOST:
                        raise Lost("%s %s" % (code, msg))
                    if line is None or not n0 <= line < n0 + len(todo):
                        raise Broken("error outside the programs in %s: %s %s" % (path, line, msg))
                    bad.setdefault(line - n0, msg)
                if not bad:
                    raise Broken("rustc failed without an error on " + path)
                for j, msg in bad.items():
                    out.append(("Rejected", "a conversion or behaviour of a table is not available", todo[j][1][0].describe(), msg))
                todo = [t for j, t in enumerate(todo) if j not in bad]
                continue
            p = subprocess.run([bin_], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
            by = dict(todo)
            for l in p.stdout.splitlines():
                if l.startswith("BAD "):
                    _, k, msg = l.split(" ", 2)
                    words = msg.split(": ")
                    out.append(("Content", re.sub(r"^\S+ ", "", re.sub(r" by reference", "", words[0])) + ": " + words[-1][:40], by[int(k)][0].describe(), msg))
            if p.returncode != 0 or "END" not in p.stdout:
                k = int(re.findall(r"^CASE (\d+)", p.stdout, re.M)[-1])
                out.append(("Crash", "process exited with %s" % p.returncode, by[k][0].describe(), p.stdout[-300:] + p.stderr[-500:]))
            break
        for f in (bin_,):
            if os.path.exists(f):
                os.unlink(f)
        return out, count

    t1 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        for out, count in ex.map(go, range(len(chunks))):
            found += out
            blocks[0] += count
    say("tables: %d declarations with %d conversions run in %.1f s" % (len(runs), blocks[0], time.time() - t1))
    return {"name": "tables", "programs": len(shapes) + len(runs), "checks": len(shapes) + blocks[0],
            "samples": [shapes[77].describe(), shapes[-1].describe(), runs[50][0].describe(), runs[-1][0].describe()],
            "found": found, "extra": {"declarations_compiled": len(shapes), "declarations_run": len(runs), "conversions_run": blocks[0]}}


ENGINES = {"borrow": run_borrow, "markers": run_markers, "tables": run_tables}


def run(name, prop, tier, cargo, env):
    os.makedirs(WORK, exist_ok=True)
    return ENGINES[name](prop, tier, cargo, env)


def setup(cargo, env):
    os.makedirs(WORK, exist_ok=True)
    externs(cargo)
    externs(cargo, "gen0")


def replay(v, cargo, env):
    """Compile one recorded program again: does the compiler still accept or reject it?"""
    os.makedirs(WORK, exist_ok=True)
    if v["exe"] == "tables":
        for tier in ("quick", "thorough"):
            for sh, kinds, _ in run_shapes(tier):
                if sh.describe() == v["case"]:
                    head, text = tables.HEAD, tables.run_fn(sh, 0, kinds)[0] + '\nfn main() { std::panic::set_hook(Box::new(|_| {})); run(0, "", r0); println!("END"); }\n'
                    path = os.path.join(WORK, "replay.rs")
                    with open(path, "w") as f:
                        f.write(head + text)
                    rc, errs = rustc(externs(cargo), path, ["-o", path[:-3]], env)
                    out = "" if rc else subprocess.run([path[:-3]], stdout=subprocess.PIPE, text=True, errors="replace").stdout
                    say(sh.describe(), errs[:5], out)
                    return int(rc != 0 or "BAD" in out or "END" not in out)
        v["exe"] = "tables (compiled only)"
        for sh in compile_shapes("thorough"):
            if sh.describe() == v["case"]:
                head, v["case"] = tables.COMPILE_HEAD, tables.compile_line(sh, "m0")
                path = os.path.join(WORK, "replay.rs")
                with open(path, "w") as f:
                    f.write(head + v["case"] + "\n")
                rc, errs = rustc(externs(cargo), path, ["--crate-type", "lib", "--emit=metadata", "-o", path[:-3] + ".rmeta"], env)
                say(sh.describe(), errs[:5])
                return int(rc != 0)
        return 2
    if v["exe"].startswith("borrow"):
        ext, head = externs(cargo), borrow.HEAD
    else:
        ext, head = None, None
        for tier in ("quick", "thorough"):
            for g, h, ps in probe_groups(tier):
                if head is None and any(p.text == v["case"] and p.sig == v["sig"] for p in ps):
                    ext, head = externs(cargo, "gen0" if g == "plain" else "gen"), h
    errs = judge_lines(ext, env, "replay", head, [v["case"]])[0]
    say(v["case"])
    say("accepted" if not errs else "rejected: %s" % errs)
    return int((v["class"] == "Accepted") == (not errs))
