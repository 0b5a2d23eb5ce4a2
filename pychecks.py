"""Checks whose generated inputs are build configurations."""
import concurrent.futures as cf
import os
import random

MACROS = ["INTP_CELL_LAYOUT", "INTP_MULTITHREAD", "INTP_PERIODIC_NO_DUMMY_POINT",
          "INTP_ENABLE_ASSERTION", "INTP_STACK_ALLOCATOR", "INTP_DEBUG", "INTP_TRACE"]
STDS = ["c++11", "c++14", "c++17", "c++20"]
HEADERS = ["Interpolation.hpp", "InterpolationTemplate.hpp", "BSpline.hpp", "BandLU.hpp",
           "BandMatrix.hpp", "Mesh.hpp", "DedicatedThreadPool.hpp", "aligned-allocator.hpp",
           "util.hpp"]


def combos(b, ck, t, seed, tier, work, notes):
    """Every language standard x macro combination compiles and links: a driver
    that instantiates the interface is compiled, linked from two translation
    units and run.  Inputs: combinations, drawn (quick) or all (thorough)."""
    rnd = random.Random(seed * 7919 + 11)
    allc = [(s, tuple(m for i, m in enumerate(MACROS) if k >> i & 1))
            for s in STDS for k in range(1 << len(MACROS))]
    want = t[tier][0]
    want = max(4, int(want * float(os.environ.get("VERIF_SCALE", "1"))))
    if want >= len(allc):
        pick = allc
    else:
        rnd.shuffle(allc)
        # every pair of settings of (standard, macro...) is covered first
        pick, seen = [], set()

        def feats(c):
            f = [("std", c[0])] + [(m, m in c[1]) for m in MACROS]
            return {(x, y) for i, x in enumerate(f) for y in f[i + 1:]}
        rest = list(allc)
        while len(pick) < want and rest:
            best = max(rest[:200], key=lambda c: len(feats(c) - seen))
            seen |= feats(best)
            pick.append(best)
            rest.remove(best)
    cxxs = ["g++", "clang++"]
    jobs = []
    for i, (s, m) in enumerate(pick):
        cs = cxxs if tier == "thorough" else [cxxs[i % 2]]
        for c in cs:
            jobs.append((c, s, m))
    heads = [(c, s, h) for h in HEADERS for s in STDS for c in (cxxs if tier == "thorough" else cxxs[:1])]

    def one(j):
        c, s, m = j
        d = os.path.join(work, "combo_%s_%s_%s" % (c.replace("+", "p"), s, "".join(
            "1" if x in m else "0" for x in MACROS)))
        os.makedirs(d)
        exe = os.path.join(d, "a.out")
        cmd = [c, "-std=" + s, "-O0", "-w", *["-D" + x for x in m], "-I" + ck.INC,
               os.path.join(ck.HARN, "combo_a.cpp"), os.path.join(ck.HARN, "combo_b.cpp"),
               "-o", exe, "-lpthread"]
        r = ck.sh(cmd)
        if r.returncode:
            return j, " ".join(cmd) + "\n" + r.stdout[-6000:]
        r = ck.sh([exe], timeout=300)
        bad = r.returncode != 0
        msg = " ".join(cmd) + "\nrunning it: exit %d\n" % r.returncode + r.stdout[-3000:]
        os.remove(exe)
        return j, msg if bad else None

    def head(j):
        c, s, h = j
        d = os.path.join(work, "head_%s_%s_%s.cpp" % (c.replace("+", "p"), s, h))
        open(d, "w").write('#include "%s"\nint main() {}\n' % h)
        cmd = [c, "-std=" + s, "-w", "-fsyntax-only", "-I" + ck.INC, d]
        r = ck.sh(cmd)
        return j, (" ".join(cmd) + "\n" + r.stdout[-6000:]) if r.returncode else None

    viol = []
    with cf.ThreadPoolExecutor(ck.NCPU) as ex:
        res = list(ex.map(one, jobs)) + list(ex.map(head, heads))
    for j, msg in res:
        if msg and not viol:
            os.makedirs(os.path.join(ck.REPLAYS, "C11"), exist_ok=True)
            p = os.path.join(ck.REPLAYS, "C11", "combo.txt")
            open(p, "w").write("target C11_combos\n" + msg)
            viol.append((p, "build %s fails" % (j,)))
    n = len(jobs) + len(heads)
    return viol, dict(
        evaluations=n, distinct_nontrivial=len(set(jobs)),
        rule="combination of standard, compiler and macros (%s tier: %d of 512 combinations, pairs "
             "of settings first): a program of two translation units that instantiates the "
             "interface compiles, links and runs; non-trivial: every combination; plus every "
             "header on its own" % (tier, len(pick)),
        samples=["%s -std=%s %s" % (c, s, " ".join(m)) for c, s, m in jobs[:3]])
