"""Drives the parts of fstalign behind the program (editdrv, apidrv) and has TLC judge what they return."""
import itertools
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import fsx
import gen
import proj
import tlc


def drive(exe, lines, jobs=fsx.NCPU, timeout=120):
    """One line of output per line of input; None for a line the driver did not survive."""
    out = [None] * len(lines)

    def run(lo, hi):
        env = dict(os.environ, LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
        try:
            p = subprocess.run([exe], input="".join(x + "\n" for x in lines[lo:hi]).encode(), timeout=timeout, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            got = p.stdout.decode("utf-8", "replace").split("\n")[:-1]
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b"").decode("utf-8", "replace").split("\n")[:-1]
        got = got[:hi - lo]
        for k, g in enumerate(got):
            try:
                out[lo + k] = json.loads(g)
            except ValueError:
                got = got[:k]
                break
        if len(got) < hi - lo and hi - lo > 1:
            run(lo + len(got) + 1, hi) if len(got) < hi - lo - 1 else None

    step = max(1, min(2000, (len(lines) + jobs - 1) // jobs))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda k: run(k, min(len(lines), k + step)), range(0, len(lines), step)))
    return out


# ---------------------------------------------------------------- C13: edit distance
def canonical(t):
    m = {}
    return all(m.setdefault(x, len(m)) == x for x in t)


def small_pairs(k, n):
    return [(t[:i], t[i:]) for i in range(n + 1) for j in range(n + 1)
            for t in itertools.product(range(k), repeat=i + j) if canonical(t)]


def random_pairs(r, count, longest):
    out = []
    for _ in range(count):
        v, a, b = r.choice([1, 2, 3, 4, 8, 30, 2000]), [], []
        lim = r.choice([8, 20, 60, longest])
        while len(a) + len(b) < lim:
            blk = [r.randrange(v) - r.choice([0, 0, 1000]) for _ in range(r.randint(1, max(1, lim // 5)))]
            k = r.randrange(5)
            if k != 1:
                a += blk
            if k != 0:
                b += blk
            if k == 4 and b:
                b[r.randrange(len(b))] = r.randrange(v)
            if r.random() < .1:
                break
        out.append((tuple(a), tuple(b)))
        if r.random() < .1:
            out.append((tuple(a), tuple(a)))
        if r.random() < .1:
            out.append(((), tuple(b)))
    return out


def streaks(r, count):
    out = []
    for _ in range(count):
        n = r.randint(0, r.choice([4, 12, 60]))
        p = r.random()
        m = [1 if r.random() < p else r.choice([-1, -1, 0]) for _ in range(n)]
        out.append((m, r.choice([0, 1, 2, 3, r.randint(0, n + 1), -1, 100])))
    return out


EMPTY = {"a": [], "b": [], "d": [], "ma": [], "mb": [], "na": [], "nb": [], "kept": True, "cut": 0, "s": False, "died": False}


def edit_batch(ctx, name, pairs, maps):
    exe = os.path.join(ctx.bdir, "editdrv")
    ints = lambda v: " ".join(map(str, v))
    lines = ["E %s ; %s" % (ints(a), ints(b)) for a, b in pairs] + ["S %s ; %d" % (ints(m), c) for m, c in maps]
    got = drive(exe, lines)
    recs = []
    for i, ((a, b), g) in enumerate(zip(pairs, got)):
        recs.append(dict(EMPTY, id=i, k="E", a=list(a), b=list(b), died=g is None, **(g or {})))
    for i, ((m, c), g) in enumerate(zip(maps, got[len(pairs):])):
        recs.append(dict(EMPTY, id=len(pairs) + i, k="S", a=list(m), cut=c, died=g is None, **(g or {})))
    v, st = tlc.judge("TraceEdit", recs)
    ctx.tlc_stats(st)
    ctx.cov["cases_run"] += len(recs)
    bad = [i for i in v if v[i]]
    ctx.cov["traces_validated_against_impl"] += len(recs) - len(bad)
    ctx.cov["batches"].append({"name": name, "pairs": len(pairs), "maps": len(maps),
                               "longest": max([0] + [len(a) + len(b) for a, b in pairs])})
    if len(ctx.cov["samples"]) < 6 and recs:
        ctx.cov["samples"].append({"batch": name, "call": recs[len(recs) // 2]})
    bad.sort(key=lambda i: len(recs[i]["a"]) + len(recs[i]["b"]))
    for i in bad:
        ctx.violation("%s: a call of the edit-distance routine is rejected (%s)" % (name, ",".join(v[i])),
                      {"call": recs[i], "line": lines[i]})


# ---------------------------------------------------------------- C22: composed graphs
def graph_of(g):
    for st in g["st"]:
        for a in st["a"]:
            a.update(proj.cls(a["i"]) if a["i"].startswith("___") else dict(k="", id="", nm="", n=0, m=0))
    return g


def compose_batch(ctx, name, cases):
    exe = os.path.join(ctx.bdir, "apidrv")
    root = fsx.scratch("cmp")
    try:
        lines = []
        for i, c in enumerate(cases):
            d = os.path.join(root, "c%d" % i)
            os.mkdir(d)
            for n, t in gen.files_of(c)[0].items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(t if isinstance(t, bytes) else t.encode("utf-8"))
            lines.append("C %s %s %d %d %d" % (d, c["o"]["ap"], c["o"]["nocut"], c["o"]["nohyph"], c["o"]["usecase"]))
        got = drive(exe, lines)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    recs = []
    for i, (c, g) in enumerate(zip(cases, got)):
        recs.append(dict(proj.inputs(c), id=i, died=g is None, g=graph_of(g) if g else {"cyclic": False, "st": []}))
    v, st = tlc.judge("TraceCompose", recs)
    ctx.tlc_stats(st)
    ctx.cov["cases_run"] += len(recs)
    bad = [i for i in v if v[i]]
    ctx.cov["traces_validated_against_impl"] += len(recs) - len(bad)
    ctx.cov["batches"].append({"name": name, "graphs": len(recs), "states": sum(len(x["g"]["st"]) for x in recs),
                               "walk_states": st.get("states", 0),
                               "arcs": sum(len(s["a"]) for x in recs for s in x["g"]["st"])})
    if len(ctx.cov["samples"]) < 6 and recs:
        k = len(recs) // 2
        ctx.cov["samples"].append({"batch": name, "files": gen.files_of(cases[k])[0], "states": len(recs[k]["g"]["st"])})
    bad.sort(key=lambda i: len(recs[i]["g"]["st"]))
    for i in bad:
        ctx.violation("%s: a composed graph is rejected (%s)" % (name, ",".join(v[i])),
                      {"case": cases[i], "files": gen.files_of(cases[i])[0], "graph": recs[i]["g"]})
