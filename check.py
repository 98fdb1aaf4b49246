#!/usr/bin/env python3
"""Decide one property of /repo by exhaustive exploration.

usage: check.py PROP            (tier from VERIF_TIER, default quick)
       check.py --replay FILE   (run one recorded violation again)
       check.py --setup         (build everything)

exit 0: held on everything explored; 1: VIOLATION printed; 2: the machinery failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from spec import PROPS  # noqa: E402
import programs  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
TARGET = os.path.join(HERE, "target")
KNOWN = os.path.join(HERE, "known_findings.txt")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = max(2, min(8, os.cpu_count() or 4))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", VERIF_TIER=TIER, CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class Broken(Exception):
    """The machinery, not the code under test, failed."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---- building ----------------------------------------------------------------------------

def repo_hash():
    h = hashlib.sha256()
    for base in ("src", "dync-derive/src", "Cargo.toml", "dync-derive/Cargo.toml"):
        p = os.path.join(REPO, base)
        files = []
        if os.path.isdir(p):
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        else:
            files = [p]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


MIRI = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", os.path.join(TARGET, "mc-miri"), "--bin"]
ENV["MIRIFLAGS"] = "-Zmiri-disable-isolation"


def miri_list(b):
    """Build an explorer for Miri and list its jobs there."""
    tdir = os.path.join(TARGET, "mc-miri")
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "dync.stamp")
    now = repo_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old is not None and old != now:
        shutil.rmtree(tdir, ignore_errors=True)
        os.makedirs(tdir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)
    t = time.time()
    p = subprocess.run(MIRI + [b, "--", "--list"], cwd=os.path.join(HERE, "mc"), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    log("built for Miri: %s in %.1f s (exit %d)" % (b, time.time() - t, p.returncode))
    if p.returncode != 0:
        raise Broken("build for Miri failed:\n" + p.stderr[-3000:])
    return p.stdout.split()


def cargo(crate, cfg, args):
    tdir = os.path.join(TARGET, crate + "-" + cfg)
    os.makedirs(tdir, exist_ok=True)
    cwd = os.path.join(HERE, crate)
    stamp = os.path.join(tdir, "dync.stamp")
    now = repo_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = now if not os.path.isdir(os.path.join(tdir, "debug")) and not os.path.isdir(os.path.join(tdir, "release")) else ""
    rel = ["--release"] if cfg == "release" else []
    if old != now:
        # cargo looks at modification times only; the tree may have been replaced by an older one
        subprocess.run(["cargo", "clean", "--offline", "-p", "dync", "-p", "dync-derive", "--target-dir", tdir] + rel,
                       cwd=cwd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(stamp, "w") as f:
        f.write(now)
    cmd = ["cargo", "build", "--offline", "--target-dir", tdir] + rel + args
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    log("built %s %s %s in %.1f s (exit %d)" % (crate, cfg, " ".join(args), time.time() - t, r.returncode))
    return r.returncode, r.stdout, os.path.join(tdir, "release" if cfg == "release" else "debug")


def build_bins(bins, cfgs):
    """bins: names of explorer binaries in mc/.  Returns {cfg: dir}."""
    args = []
    for b in sorted(bins):
        args += ["--bin", b]
    out = {}
    with cf.ThreadPoolExecutor(4) as ex:
        futs = {c: ex.submit(cargo, "mc", c, args) for c in cfgs}
        for c, f in futs.items():
            rc, txt, d = f.result()
            if rc != 0:
                err = [l for l in txt.splitlines() if l.startswith("error")]
                raise Broken("build of explorers failed (%s):\n%s\n%s" % (c, "\n".join(err[:20]), txt[-3000:]))
            out[c] = d
    return out


# ---- running -----------------------------------------------------------------------------

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def decode_note(path):
    try:
        b = open(path, "rb").read()
        n = struct.unpack_from("<I", b, 8)[0]
        d = b[12:12 + n]
        if d[:1] == b"H":
            k = (len(d) - 1) // 2
            return ",".join(str(x) for x in struct.unpack_from("<%dH" % k, d, 1))
        return d.decode(errors="replace")
    except (OSError, struct.error):
        return None


def run_worker(exe, job, timeout, only=None, tag=""):
    note = os.path.join(TARGET, "note-%d-%s" % (os.getpid(), hashlib.md5((exe + job + tag).encode()).hexdigest()[:12]))
    miri = exe.startswith("miri:")
    cmd = MIRI + [exe[5:], "--", "--job", job] if miri else [exe, "--job", job, "--note", note]
    if only is not None:
        cmd += ["--only", only]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, preexec_fn=None if miri else limits,
                         cwd=os.path.join(HERE, "mc"), start_new_session=True)
    try:
        out, err = (x.decode(errors="replace") for x in p.communicate(timeout=timeout * (2 if miri else 1)))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        rc, out, err = "timeout", "", ""
    case = decode_note(note)
    try:
        os.unlink(note)
    except OSError:
        pass
    if miri:
        m = re.findall(r"^CASE (.*)$", err, re.M)
        case = m[-1] if m else None
        m = re.search(r"^error: ", err, re.M)
        err = err[m.start():][:2000] if m else err[-2000:]
    res = None
    for l in out.splitlines():
        if l.startswith("RESULT "):
            try:
                res = json.loads(l[7:])
            except ValueError:
                pass
    return {"rc": rc, "res": res, "case": case, "err": err[-2000:], "wall": time.time() - t}


def how_ended(rc):
    if rc == "timeout":
        return "did not terminate"
    if isinstance(rc, int) and rc < 0:
        names = {4: "SIGILL", 6: "abort", 7: "SIGBUS", 8: "SIGFPE", 9: "SIGKILL", 11: "SIGSEGV"}
        return "process killed (%s)" % names.get(-rc, "signal %d" % -rc)
    return "process exited with %s" % rc


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.spec = PROPS[prop]
        self.tot = dict(states=0, transitions=0, execs=0, nontrivial=0, max_depth=0)
        self.samples, self.viols, self.jobs, self.outcomes = [], [], [], {}
        self.capped = 0
        self.broken = []

    def add(self, exe, job, cls, sig, case, detail):
        key = (cls, sig)
        for v in self.viols:
            if (v["class"], v["sig"]) == key:
                v["more"] += 1
                return
        self.viols.append({"class": cls, "sig": sig, "exe": exe, "job": job, "case": case, "detail": detail, "more": 0})

    def bins(self):
        plan = self.spec["plan"][TIER] if TIER in self.spec["plan"] else self.spec["plan"]["quick"]
        if not plan:
            return
        cfgs = sorted({c for p in plan for c in p[1]} - {"miri"})
        dirs = build_bins({p[0] for p in plan if set(p[1]) - {"miri"}}, cfgs) if cfgs else {}
        work = []
        for b, cfgs, pat, *own in plan:
            classes = set(own[0]) | {"Crash"} if own else self.spec["classes"]
            for c in cfgs:
                if c == "miri":
                    work += [("miri:" + b, c, j, classes) for j in miri_list(b) if re.search(pat, j)]
                    continue
                exe = os.path.join(dirs[c], b)
                p = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, env=ENV, text=True)
                if p.returncode != 0:
                    raise Broken("%s --list failed" % exe)
                names = [j for j in p.stdout.split() if re.search(pat, j)]
                if not names:
                    raise Broken("no jobs match %s in %s" % (pat, b))
                work += [(exe, c, j, classes) for j in names]
        timeout = 3 * 3600 if TIER == "thorough" else 240
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [(w, ex.submit(run_worker, w[0], w[2], timeout)) for w in work]
            for (exe, c, j, classes), f in futs:
                r = f.result()
                self.jobs.append("%s/%s/%s" % (os.path.basename(exe), c, j))
                self.take(exe, c, j, r, classes)

    def take(self, exe, c, j, r, classes):
        if r["res"] is None or r["rc"] != 0:
            if r["case"] is None:
                self.broken.append("worker %s %s failed without a trace: %s %s" % (exe, j, r["rc"], r["err"]))
                return
            again = run_worker(exe, j, 60, only=r["case"], tag="again")
            same = again["rc"] != 0 or (again["res"] and again["res"]["found"])
            m = re.match(r"error: ([^\n]*)", r["err"])
            sig = re.sub(r"alloc\d+|0x[0-9a-f]+|<\d+>|\d+", "#", m.group(1)) if exe.startswith("miri:") and m else how_ended(r["rc"])
            self.add(exe, j, "Crash", sig, r["case"],
                     "%s\nreplayed alone: %s\n%s" % (r["err"], how_ended(again["rc"]) if same else "not reproduced alone", again["err"]))
            return
        res = r["res"]
        for k in ("states", "transitions", "execs", "nontrivial"):
            self.tot[k] += res[k]
        self.tot["max_depth"] = max(self.tot["max_depth"], res["max_depth"])
        self.capped += 1 if res["capped"] else 0
        for k, v in res["outcomes"].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples += ["%s/%s/%s: %s" % (os.path.basename(exe), c, j, s) for s in res["samples"][-1:]]
        for f in res["found"]:
            if f["class"] in classes:
                self.add(exe, j, f["class"], f["sig"], f["case"], f["detail"])

    def take_programs(self, r):
        self.tot["states"] += r["programs"]
        self.tot["transitions"] += r["checks"]
        self.tot["execs"] += r["checks"]
        self.tot["nontrivial"] += r["checks"]
        self.samples += r["samples"]
        for k, n in r.get("extra", {}).items():
            self.outcomes[k] = self.outcomes.get(k, 0) + n
        self.jobs.append(r["name"])
        for cls, sig, case, detail in r["found"]:
            self.add(r["name"], "programs", cls, sig, case, detail)


def load_known():
    known = {}
    try:
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    except OSError:
        pass
    return known


def vkey(v):
    return hashlib.sha1(("%s|%s|%s" % (v["class"], v["sig"], v["case"])).encode()).hexdigest()[:12]


def main(prop):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith("replay_%s_" % prop):
            os.unlink(os.path.join(EVID, f))
    run = Run(prop)
    with cf.ThreadPoolExecutor(2) as ex:
        progs = [ex.submit(programs.run, name, prop, TIER, cargo, ENV) for name in run.spec.get("programs", [])]
        # what one engine finds counts even if another one cannot run
        try:
            run.bins()
        except Broken as e:
            run.broken.append(str(e))
        for f in progs:
            try:
                run.take_programs(f.result())
            except programs.Broken as e:
                run.broken.append(str(e))
    known = load_known().get(prop, {})
    bad, seen = 0, set()
    for i, v in enumerate(run.viols):
        key = vkey(v)
        if key in known or v["sig"] in known:
            k = key if key in known else v["sig"]
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
            continue
        bad += 1
        path = os.path.join(EVID, "replay_%s_%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, key=key, cmd=(MIRI + [v["exe"][5:], "--"] if v["exe"].startswith("miri:") else [v["exe"]]) + ["--job", v["job"], "--only", v["case"]]), f, indent=1)
        print("%s: [%s] %s\n    case: %s (%s)\n    %s" % (prop, v["class"], v["sig"], v["case"], v["job"], v["detail"].strip()[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for k in known:
        if k not in seen:
            log("note: known finding %s of %s did not show" % (k, prop))
    t = run.tot
    lvl = run.spec["level"]
    cov = {"samples": run.samples[:14] or ["none"], "jobs": len(run.jobs), "job_names": run.jobs[:60], "bounds": run.spec["bounds"],
           "jobs_stopped_at_a_bound": run.capped, "executions": t["execs"], "deepest_history": t["max_depth"],
           "oracle": run.spec["oracle"]}
    if run.outcomes:
        cov["outcomes"] = dict(sorted(run.outcomes.items(), key=lambda x: -x[1])[:40])
    if lvl == "model_checking":
        cov.update(states=t["states"], transitions=t["transitions"], traces_validated_against_impl=t["execs"])
    cov.update(evaluations=t["execs"], distinct_nontrivial=t["nontrivial"], rule=run.spec["rule"], exhaustive=True)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": lvl, "coverage": cov, "assumptions": run.spec["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": bad}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d jobs, %d states, %d transitions, %d executions, %.1f s" % (prop, len(run.jobs), t["states"], t["transitions"], t["execs"], time.time() - t0))
    if not bad and run.broken:
        raise Broken("\n".join(run.broken[:5]))
    if not bad and t["execs"] == 0:
        raise Broken("nothing was explored")
    return 1 if bad else 0


def setup():
    bins = {p[0] for s in PROPS.values() for t in s["plan"].values() for p in t}
    for b in sorted({p[0] for s in PROPS.values() for p in s["plan"]["quick"] if "miri" in p[1]}):
        miri_list(b)
    os.makedirs(TARGET, exist_ok=True)
    build_bins(bins, ["checked", "release"])
    programs.setup(cargo, ENV)
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            sys.exit(setup())
        if sys.argv[1] == "--replay":
            v = json.load(open(sys.argv[2]))
            if v["job"] == "programs":
                sys.exit(programs.replay(v, cargo, ENV))
            print(" ".join(v["cmd"][:-1]), repr(v["cmd"][-1]))
            sys.exit(subprocess.run(v["cmd"], env=ENV, cwd=os.path.join(HERE, "mc")).returncode)
        sys.exit(main(sys.argv[1]))
    except (Broken, programs.Broken) as e:
        log("check failed: %s" % e)
        sys.exit(2)
