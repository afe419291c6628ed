"""C19: a word lattice (OpenFst acceptor, no weights) as the hypothesis."""
import copy
import struct
import time

import check
import fsx
import gen
import proj
import tlc


def fst_bytes(lat, ids):
    """lat: n states 1.., arcs (from, to, word; "" is epsilon), start 1, finals; order: file number of each state."""
    n, num = lat["n"], lat["num"]
    inv = {num[s]: s for s in range(1, n + 1)}

    def text(s):
        return struct.pack("<i", len(s)) + s
    out = struct.pack("<i", 2125659606) + text(b"vector") + text(b"standard") + struct.pack("<ii", 2, 0)
    out += struct.pack("<Qqqq", 3, num[1], n, 0)
    for k in range(n):
        s = inv[k]
        arcs = [a for a in lat["arcs"] if a[0] == s]
        out += struct.pack("<fq", 0.0 if s in lat["fin"] else float("inf"), len(arcs))
        for _, t, w in arcs:
            i = ids[w] if w else 0
            out += struct.pack("<iifi", i, i, 0.0, num[t])
    return out


def make(r, c, prof):
    """Turns the hypothesis of a case into a lattice that contains it."""
    c = copy.deepcopy(c)
    c.pop("symtab", None)          # the lattice has its own
    low = (lambda w: w) if c["o"]["usecase"] else (lambda w: w.lower())
    words = [low(w) for w in c["hyp"]["words"]]
    voc = sorted({low(x["t"]) for x in c["ref"]["rows"]} | set(words) | {"zap", "a", "b"})
    voc = [w for w in voc if w not in ("<eps>", "<ins>", "<del>", "<sub>", "<oov>")]
    arcs, at, n = [], 1, 1
    ends = [1]
    for w in words:
        n += 1
        arcs.append([at, n, w])
        at = n
        ends.append(n)
    fin = {at}
    for _ in range(r.choice([0, 1, 2, 4, 8])):
        i = r.randrange(len(ends))
        j = min(len(ends) - 1, i + r.choice([0, 1, 1, 1, 2, 3]))
        f, t = ends[i], ends[j]
        x = r.random()
        if i == j:
            if x < .3:
                fin.add(f)
            continue
        k = r.choice([1, 1, 1, 2, 3])
        if prof.get("eps") and x < .2:
            arcs.append([f, t, ""])
            continue
        for q in range(k - 1):
            n += 1
            arcs.append([f, n, r.choice(voc)])
            f = n
        arcs.append([f, t, r.choice(voc)])
    if r.random() < .2 and words:       # a tail of its own
        f = r.choice(ends)
        for _ in range(r.randint(1, 3)):
            n += 1
            arcs.append([f, n, r.choice(voc)])
            f = n
        if r.random() < .8:
            fin.add(f)
    if r.random() < .3 and len(arcs) > 1:
        arcs.append(list(r.choice(arcs)))
    # number the states so that arcs go up
    order, left = [], set(range(1, n + 1))
    while left:
        ready = sorted(s for s in left if not any(a[1] == s and a[0] in left for a in arcs))
        s = 1 if 1 in ready else r.choice(ready)
        order.append(s)
        left.remove(s)
    pos = {s: k + 1 for k, s in enumerate(order)}
    arcs = [[pos[f], pos[t], w] for f, t, w in arcs]
    seen, uniq = set(), []
    for a in arcs:
        if tuple(a) not in seen or r.random() < .3:
            uniq.append(a)
        seen.add(tuple(a))
    r.shuffle(uniq)
    num = list(range(n))
    if r.random() < .7:
        r.shuffle(num)
    c["lat"] = {"n": n, "arcs": uniq, "fin": sorted(pos[s] for s in fin), "num": {s + 1: num[s] for s in range(n)}}
    extra = sorted(set(voc) | {w for _, _, w in uniq if w})
    r.shuffle(extra)
    c["symbols"] = extra[:]
    c["o"].update(ap="standard", pre=False, nb=1000000)
    c["hyp"] = {"fmt": "fst", "words": [], "times": [], "punct": [], "conf": False}
    return c


def files_of(c):
    d = dict(c, hyp=dict(c["hyp"], fmt="txt"))
    files, a = gen.files_of(d)
    del files["hyp.txt"]
    a[a.index("hyp.txt")] = "hyp.fst"
    ids = {"<eps>": 0, "<oov>": 1, "<ins>": 2, "<del>": 3, "<sub>": 4}
    for w in c["symbols"]:
        ids.setdefault(w, len(ids))
    lat = dict(c["lat"], num={int(k): v for k, v in c["lat"]["num"].items()})
    files["hyp.fst"] = fst_bytes(lat, ids)
    files["symbols.txt"] = "".join("%s %d\n" % x for x in ids.items())
    return files, a + ["--symbols", "symbols.txt"]


def judge_cases(ctx, cases, timeout=30):
    xs = []
    for c in cases:
        f, a = files_of(c)
        xs.append(fsx.Case(f, a, check.OUTS, timeout=timeout))
    fsx.run_cases(xs, ctx.bdir)
    recs = []
    for i, (c, x) in enumerate(zip(cases, xs)):
        rec = proj.record(i, c, x.res, ["C19"])
        rec["hyp"] = list(c["symbols"])
        pre = [[] for _ in range(c["lat"]["n"])]
        for f, t, w in c["lat"]["arcs"]:
            pre[t - 1].append({"f": f, "w": w})
        rec["pre"], rec["fin"] = pre, c["lat"]["fin"]
        recs.append(rec)
    v, st = tlc.judge("TraceLattice", recs)
    ctx.tlc_stats(st)
    return [(v[i], xs[i], recs[i]) for i in range(len(cases))]


def shrink(ctx, c):
    best, t = c, time.time()
    for _ in range(6):
        vs = []
        for which in ("ref", "arcs", "rules", "norm"):
            n = len(best["ref"]["rows"] if which == "ref" else best["lat"]["arcs"] if which == "arcs" else best[which])
            for i in range(n):
                d = copy.deepcopy(best)
                x = d["ref"]["rows"] if which == "ref" else d["lat"]["arcs"] if which == "arcs" else d[which]
                del x[i]
                vs.append(d)
        vs = vs[:160]
        if not vs or time.time() - t > 25:
            break
        hits = [d for d, (b, _, rec) in zip(vs, judge_cases(ctx, vs)) if b and "empty" not in b]
        if not hits:
            break
        best = hits[0]
    return best


def batch(ctx, name, cases):
    t = time.time()
    got = judge_cases(ctx, cases)
    ctx.cov["cases_run"] += len(cases)
    bad = []
    for c, (b, x, rec) in zip(cases, got):
        ctx.cov["rows_replayed"] += len(rec["rows"])
        if b:
            bad.append(c)
        else:
            ctx.cov["traces_validated_against_impl"] += 1
    for c, (b, x, rec) in zip(bad, judge_cases(ctx, bad[:16], timeout=60) if bad else []):
        if not b:
            ctx.cov["rejected_on_rerun_only_once"] += 1
            continue
        if not ctx.bad:
            small = shrink(ctx, c)
            (b2, x2, _), = judge_cases(ctx, [small], timeout=60)
            if b2:
                c, b, x = small, b2, x2
        ctx.violation("%s: run against a lattice rejected (%s; %s %s)" % (name, ",".join(b), x.res["status"], x.res["code"]),
                      {"case": c, "files": {k: v if isinstance(v, str) else v.hex() for k, v in x.files.items()},
                       "args": x.args, "outputs": {k: v for k, v in x.res.items() if k != "stdout"}, "broken": b})
    ctx.cov["batches"].append({"name": name, "cases": len(cases), "seconds": round(time.time() - t, 1),
                               "lattice_states": sum(c["lat"]["n"] for c in cases)})
    if cases and len(ctx.cov["samples"]) < 4:
        k = len(cases) // 2
        ctx.cov["samples"].append({"batch": name, "args": got[k][1].args, "lattice": cases[k]["lat"],
                                   "ref": [x["t"] for x in cases[k]["ref"]["rows"]],
                                   "rows": [[q["r"], q["h"], q["c"]] for q in got[k][2]["rows"]][:40]})
