#!/usr/bin/env python3
"""Build and run the property check of one property.

  check.py C02                 run the check (VERIF_SEED, VERIF_TIER from env)
  check.py C02 --replay FILE   replay a failing case

Exit 0: property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Other: the check itself failed.
"""
import array
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "src", "include")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
NCPU = max(1, min(8, os.cpu_count() or 8))

sys.path.insert(0, VERIF)
from plan import CFGS, PROPS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in (INC, HARN):
        for p in sorted(glob.glob(os.path.join(root, "**", "*"), recursive=True)):
            if os.path.isfile(p):
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


class Builder:
    """Compiles objects in parallel; an object is keyed by the command line
    and the contents of every header and harness file."""

    def __init__(self):
        self.th = tree_hash()
        os.makedirs(BUILD, exist_ok=True)

    def obj(self, cxx, flags, src):
        key = hashlib.sha256(
            "\0".join([self.th, cxx, *flags, src]).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, key + ".o")
        if os.path.exists(out):
            return out, None
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([cxx, *flags, "-I" + INC, "-I" + HARN, "-c",
                os.path.join(HARN, src), "-o", tmp])
        if r.returncode != 0:
            return None, " ".join([cxx, *flags, src]) + "\n" + r.stdout[-6000:]
        os.rename(tmp, out)
        return out, None


def prune():
    """keep the build directory from growing without bound"""
    fs = sorted(glob.glob(os.path.join(BUILD, "*")), key=os.path.getmtime)
    while fs and sum(os.path.getsize(f) for f in fs if os.path.isfile(f)) > 3e9:
        f = fs.pop(0)
        if os.path.isfile(f):
            os.remove(f)


def cfg_flags(k):
    c = CFGS[k]
    fl = ["-std=" + c["std"], "-DCFG_ID=%d" % k, "-Dintp=intp_k%d" % k]
    fl += ["-D" + m for m in c["macros"]]
    return c.get("cxx", "g++"), fl


def target_jobs(t):
    """the compilations a target needs: (kind, configuration, compiler, flags, source)"""
    jobs = []
    if t.get("python"):
        return jobs
    extra = t.get("flags", [])
    opt = t.get("opt", ["-O1"])
    for src in t["src"]:
        cxx = t.get("cxx", "g++")
        src, *more = src.split(" ")
        jobs.append(("src", None, cxx,
                     ["-std=c++17", "-O2", "-w", *extra, *t.get("src_flags", []), *more], src))
    for k, tus in t.get("backends", {}).items():
        cxx, fl = cfg_flags(k)
        if "cxx" in t:
            cxx = t["cxx"]
        for dim, orders in tus:
            f = fl + opt + ["-w", *extra, "-DVDIM=%d" % dim,
                            "-DVORDERS=" + ",".join(map(str, orders))]
            jobs.append(("cfg", k, cxx, f, t.get("adaptor", "adaptor.cpp")))
    for k, srcs in t.get("cfg_src", {}).items():
        cxx, fl = cfg_flags(k)
        if "cxx" in t:
            cxx = t["cxx"]
        for s in srcs:
            s, *more = s.split(" ")
            jobs.append(("cfg", k, cxx, fl + opt + ["-w", *extra, *more], s))
    return jobs


def prebuild(b, targets):
    """compile everything at once; failures show up again in build_target"""
    jobs, seen = [], set()
    for t in targets:
        for j in target_jobs(t):
            k = (j[2], *j[3], j[4])
            if k not in seen:
                seen.add(k)
                # longest first: sanitized, then high dimensions
                d = [f[7:] for f in j[3] if f.startswith("-DVDIM=")]
                w = any(f.startswith("-fsanitize") for f in j[3]) * 10 + (int(d[0]) if d else 9)
                jobs.append((-w, len(jobs), j))
    tm = []

    def one(j):
        t0 = time.time()
        b.obj(j[2], j[3], j[4])
        tm.append((time.time() - t0, " ".join([j[2], *j[3], j[4]])))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda x: one(x[2]), sorted(jobs)))
    if os.environ.get("VERIF_TIMES"):
        for x in sorted(tm)[-12:]:
            sys.stderr.write("%.1f s %s\n" % x)


def build_target(b, prop, t, notes):
    """t: a target of plan.PROPS.  Returns path of the binary."""
    jobs = target_jobs(t)
    extra = t.get("flags", [])
    order = range(len(jobs))
    objs, bad_cfg, errors = [], {}, []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fut = {i: ex.submit(b.obj, jobs[i][2], jobs[i][3], jobs[i][4]) for i in order}
        res = {i: f.result() for i, f in fut.items()}
    for i in range(len(jobs)):
        o, err = res[i]
        if err:
            if jobs[i][0] == "src":
                raise BuildError(err)
            bad_cfg.setdefault(jobs[i][1], err)
        else:
            objs.append((jobs[i][1], o))
    ncfg = len(set(t.get("backends", {})) | set(t.get("cfg_src", {})))
    if bad_cfg:
        must = t.get("must_build", [])
        hit = [k for k in sorted(bad_cfg) if must == "all" or k in must]
        if hit:
            raise CfgFail(hit[0], bad_cfg[hit[0]])
        if len(bad_cfg) == ncfg:
            raise BuildError(bad_cfg[sorted(bad_cfg)[0]])
        for k in bad_cfg:
            notes.append("configuration %d (%s %s) does not compile in this tree and was left out"
                         % (k, CFGS[k]["std"], " ".join(CFGS[k]["macros"])))
            sys.stderr.write(bad_cfg[k] + "\n")
    objs = [o for k, o in objs if k not in bad_cfg]
    key = hashlib.sha256("\0".join([*objs, *extra]).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "t_%s_%s" % (t["name"], key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([t.get("cxx", "g++"), *extra, *objs, "-o", tmp, "-lpthread",
                *t.get("libs", [])])
        if r.returncode != 0:
            raise BuildError("link: " + r.stdout[-4000:])
        os.rename(tmp, exe)
    return exe


class CfgFail(Exception):
    def __init__(self, k, log):
        self.k, self.log = k, log


def run_env(t):
    e = dict(os.environ)
    e.update(t.get("env", {}))
    return e


def run_target(exe, t, prop, seed, tier, work):
    out = os.path.join(work, t["name"])
    os.makedirs(out)
    cases, cap = t[tier]
    # scale case counts for experiments only
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    cases = max(1, int(cases * scale))
    shards = t.get("shards", NCPU)
    ps = []
    for s in range(shards):
        log = open(os.path.join(out, "log.%d" % s), "w")
        ps.append((subprocess.Popen(
            [exe, "run", "--seed", str(seed * 100 + t.get("salt", 0)), "--shard", str(s), "--cases", str(cases),
             "--time", str(cap), "--out", out],
            stdout=log, stderr=subprocess.STDOUT, env=run_env(t), cwd=out), log))
    for p, log in ps:
        p.wait()
        log.close()
    rc = [p.returncode for p, _ in ps]
    return out, rc


def collect(outs):
    ev = dict(evaluations=0, discarded=0, nontrivial=0, labels={}, maxima={}, samples=[])
    hashes = set()
    for o in outs:
        for f in sorted(glob.glob(os.path.join(o, "stats.*.json"))):
            d = json.load(open(f))
            ev["evaluations"] += d["evals"]
            ev["discarded"] += d["discards"]
            ev["nontrivial"] += d["nontrivial"]
            for k, v in d["labels"].items():
                ev["labels"][k] = ev["labels"].get(k, 0) + v
            for k, v in d["maxima"].items():
                ev["maxima"][k] = max(ev["maxima"].get(k, 0), v)
            ev["samples"] += d["samples"]
        for f in glob.glob(os.path.join(o, "hashes.*.bin")):
            a = array.array("Q")
            with open(f, "rb") as fh:
                a.frombytes(fh.read())
            hashes.update(a)
    ev["samples"] = ev["samples"][:6]
    return ev, len(hashes)


def save_replay(prop, t, exe, failfile, log, out):
    os.makedirs(os.path.join(REPLAYS, prop), exist_ok=True)
    txt = open(failfile).read() if failfile else ""
    head = "target %s\n" % t["name"]
    body = head + txt
    if log:
        body += "".join("# log: " + l + "\n" for l in log.splitlines()[-60:])
    name = hashlib.sha256(body.encode()).hexdigest()[:12]
    p = os.path.join(REPLAYS, prop, name + ".txt")
    open(p, "w").write(body)
    return p


def known_findings(prop):
    """lines 'finding: property=<id> match=<text> | <what fails>'"""
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                r.append(l[len("finding: "):].strip())
    return r


def write_evidence(prop, tier, seed, level, cov, notes, wall, nviol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=PROPS[prop].get("assumptions", []) + notes,
             wall_s=round(wall, 2), violations=nviol)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.rename(p + ".tmp", p)


def replay(prop, path):
    b = Builder()
    name = None
    for l in open(path):
        if l.startswith("target "):
            name = l.split()[1]
    ts = [t for t in PROPS[prop]["targets"] if name is None or t["name"] == name]
    if not ts:
        print("no such target", name)
        return 2
    t = ts[0]
    exe = build_target(b, prop, t, [])
    r = sh([exe, "replay", "--file", path], env=run_env(t))
    print(r.stdout)
    if r.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return r.returncode


def main():
    prop = sys.argv[1]
    if prop not in PROPS:
        print("unknown property", prop)
        return 2
    if "--replay" in sys.argv:
        return replay(prop, os.path.abspath(sys.argv[sys.argv.index("--replay") + 1]))
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = PROPS[prop]
    notes = []
    b = Builder()
    work = os.path.join(BUILD, "work_%s_%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    outs, viol = [], []
    rules = []
    targets = [t for t in spec["targets"]
               if not (tier == "quick" and t.get("thorough_only"))]
    tb = time.time()
    prebuild(b, targets)
    sys.stderr.write("built in %.1f s\n" % (time.time() - tb))
    try:
        for t in targets:
            if t.get("python"):
                import importlib
                fn = getattr(importlib.import_module("pychecks"), t["python"])
                v, info = fn(b, sys.modules[__name__], t, seed, tier, work, notes)
                spec.setdefault("_info", {})[t["name"]] = info
                viol += v
                continue
            tb = time.time()
            try:
                exe = build_target(b, prop, t, notes)
            except CfgFail as e:
                c = CFGS[e.k]
                os.makedirs(os.path.join(REPLAYS, prop), exist_ok=True)
                p = os.path.join(REPLAYS, prop, "build_cfg%d.txt" % e.k)
                open(p, "w").write("configuration %s %s %s does not compile\n%s\n" % (
                    c.get("cxx", "g++"), c["std"], " ".join(c["macros"]), e.log))
                viol.append((p, "configuration %d does not compile" % e.k))
                continue
            rules.append(sh([exe, "rule"]).stdout.strip())
            tr = time.time()
            out, rc = run_target(exe, t, prop, seed, tier, work)
            sys.stderr.write("%s: built in %.1f s, ran %.1f s\n" % (t["name"], tr - tb, time.time() - tr))
            outs.append(out)
            for s, r in enumerate(rc):
                log = open(os.path.join(out, "log.%d" % s), errors="replace").read()
                ff = os.path.join(out, "fail.%d.txt" % s)
                if r == 1 and os.path.exists(ff):
                    p = save_replay(prop, t, exe, ff, log, out)
                    viol.append((p, log.strip().splitlines()[-1][:300] if log.strip() else ""))
                    sys.stderr.write(log[-3000:] + "\n")
                elif r != 0:
                    print("shard %d of %s ended with %s\n%s" % (s, t["name"], r, log[-3000:]))
                    return 2
            if viol and not os.environ.get("VERIF_ALL"):
                break
    except BuildError as e:
        print("build failed:\n" + str(e))
        return 2
    ev, distinct = collect(outs)
    cov = dict(evaluations=ev["evaluations"], distinct_nontrivial=distinct,
               rule=" || ".join(dict.fromkeys(rules)), samples=ev["samples"],
               discarded=ev["discarded"], labels=ev["labels"], maxima=ev["maxima"])
    for info in spec.get("_info", {}).values():
        for k, v in info.items():
            if k == "evaluations":
                cov["evaluations"] += v
            elif k == "distinct_nontrivial":
                cov["distinct_nontrivial"] += v
            elif k == "samples":
                cov["samples"] = v + cov["samples"]
            elif k == "rule":
                cov["rule"] += (" || " if cov["rule"] else "") + v
            else:
                cov[k] = v
    shutil.rmtree(work, ignore_errors=True)
    prune()
    for kf in known_findings(prop):
        print("KNOWN-FINDING: " + kf)
    write_evidence(prop, tier, seed, spec.get("level", "exploration"), cov, notes,
                   time.time() - t0, len(viol))
    if viol:
        for p, m in viol[:4]:
            print(m)
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        print("nothing was explored")
        return 2
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
