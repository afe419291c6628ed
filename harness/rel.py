"""Groups of runs that must agree (C14, C17, C18, C20); spec/TraceRel.tla says whether they do."""
import copy
import time

import check
import fsx
import gen
import proj
import tlc

REPORT = ["std", "best", "cls", "spk", "tag", "sent", "sw", "uni", "bi", "cas", "secs"]
ALL = ["rows", "tagcol", "groups"] + REPORT + ["nlp"]


def but(*names):
    return [x for x in ALL if x not in names]


def run_groups(ctx, groups, timeout=20):
    """groups: [(rule, [(case, cmp)...])] -> [(broken, cases' results)]."""
    xs, at = [], []
    for _, vs in groups:
        at.append(len(xs))
        xs += [check.mk(c, timeout) for c, _ in vs]
    fsx.run_cases(xs, ctx.bdir)
    recs = []
    for i, ((rule, vs), k) in enumerate(zip(groups, at)):
        recs.append({"id": i, "rule": rule, "cmp": [cmp for _, cmp in vs],
                     "runs": [proj.record(q, c, xs[k + q].res, []) for q, (c, _) in enumerate(vs)]})
    v, st = tlc.judge("TraceRel", recs)
    ctx.tlc_stats(st)
    return [(v[i], xs[at[i]:at[i] + len(vs)], recs[i]) for i, (_, vs) in enumerate(groups)]


def is_eps(group):
    return False


def drop_words(vs, which, a, b):
    out = []
    for c, cmp in vs:
        d = copy.deepcopy(c)
        if which == "ref":
            del d["ref"]["rows"][a:b]
        elif which == "hyp":
            h = d["hyp"]
            del h["words"][a:b], h["times"][a:b]
            if h["punct"]:
                del h["punct"][a:b]
        else:
            del d[which][a:b]
        d.pop("reftext", None), d.pop("hyptext", None)
        out.append((d, cmp))
    return out


def shrink(ctx, group):
    """Drops words of all runs alike, as long as the group stays rejected."""
    best, t = group, time.time()
    aligned = all(len(c["ref"]["rows"]) == len(group[1][0][0]["ref"]["rows"]) and
                  len(c["hyp"]["words"]) == len(group[1][0][0]["hyp"]["words"]) for c, _ in group[1])
    if not aligned:
        return group
    for _ in range(5):
        if time.time() - t > 25:
            break
        c = best[1][0][0]
        vs = []
        for which, n in (("ref", len(c["ref"]["rows"])), ("hyp", len(c["hyp"]["words"])), ("rules", len(c["rules"])),
                         ("norm", len(c["norm"]))):
            for size in sorted({max(1, n // 2), max(1, n // 4), 1}, reverse=True):
                vs += [(best[0], drop_words(best[1], which, i, i + size)) for i in range(0, n, size)]
        vs = vs[:80]
        if not vs:
            break
        hits = [g for g, (b, _, _) in zip(vs, run_groups(ctx, vs)) if any(not x.startswith("known") for x in b)]
        if not hits:
            break
        best = min(hits, key=lambda g: len(g[1][0][0]["ref"]["rows"]) + len(g[1][0][0]["hyp"]["words"]))
    return best


def batch(ctx, name, groups):
    t = time.time()
    got = run_groups(ctx, groups)
    n = sum(len(vs) for _, vs in groups)
    ctx.cov["cases_run"] += n
    listed = {f["key"] for f in ctx.findings}
    bad = []
    for g, (b, xs, rec) in zip(groups, got):
        ctx.cov["rows_replayed"] += sum(len(r["rows"]) for r in rec["runs"])
        if not b:
            ctx.cov["traces_validated_against_impl"] += len(g[1])
        elif all(x.startswith("known ") and x.split()[1] in listed for x in b):
            ctx.cov["known_finding_hits"] += 1
        else:
            bad.append(g)
    again = run_groups(ctx, bad[:16], timeout=60) if bad else []
    for g, (b, xs, rec) in zip(bad, again):
        if not b:
            ctx.cov["rejected_on_rerun_only_once"] += 1
            if ctx.pid != "C20":
                continue
            b = ["differs from run to run"]
        small = g
        if not ctx.bad and b != ["differs from run to run"]:
            small = shrink(ctx, g)
            (b2, xs2, _), = run_groups(ctx, [small], timeout=60)
            if b2:
                b, xs = b2, xs2
            else:
                small = g
        ctx.violation("%s: runs that must agree do not (%s)" % (name, ", ".join(b)),
                      {"group": small[0], "runs": [{"case": c, "cmp": cmp, "args": x.args, "files":
                                                    {k: v if isinstance(v, str) else repr(v) for k, v in x.files.items()},
                                                    "outputs": x.res} for (c, cmp), x in zip(small[1], xs)]})
    ctx.cov["batches"].append({"name": name, "groups": len(groups), "runs": n, "seconds": round(time.time() - t, 1)})
    if groups and len(ctx.cov["samples"]) < 4:
        k = len(groups) // 2
        ctx.cov["samples"].append({"batch": name, "runs": [{"args": x.args, "files": {
            n: v if isinstance(v, str) else repr(v) for n, v in x.files.items()}} for x in got[k][1]][:3]})


def finding_still_fails(ctx, c, f):
    g = (c["group"], [(r["case"], r["cmp"]) for r in c["runs"]])
    (b, _, _), = run_groups(ctx, [g])
    return bool(b)


# ---------------------------------------------------------------- variants
def with_(c, **kw):
    d = copy.deepcopy(c)
    for k, v in kw.items():
        if k in d["o"]:
            d["o"][k] = v
        else:
            d[k] = v
    return d


def small(c):
    """The first pass does not look at transcripts of at most ten words."""
    return min(len(c["ref"]["rows"]), len(c["hyp"]["words"])) <= 10


def pass_group(r, c):
    c = with_(c, pre=True)
    cmp = ALL if len(c["ref"]["rows"]) <= 10 or len(c["hyp"]["words"]) <= 10 else []
    vs = [(c, []), (with_(c, pre=False), cmp)]
    for s in r.sample([0, 1, 2, 3, 5, 8, 1000], 2):
        vs.append((with_(c, streak=s), cmp))
    return ("pass", vs)


def case_group(r, c):
    c = with_(c, usecase=False)
    vs = [(c, [])]
    for _ in range(2):
        d = copy.deepcopy(c)
        g = gen.Gen(r, {})
        rate = r.choice([.2, .6, 1])
        what = r.choice(["ref", "hyp", "norm", "all", "all"])
        if what in ("ref", "all"):
            for x in d["ref"]["rows"]:
                x["t"] = g.recase(x["t"], rate)
        if what in ("hyp", "all"):
            d["hyp"]["words"] = [g.recase(w, rate) for w in d["hyp"]["words"]]
        if what in ("norm", "all"):
            for e in d["norm"]:
                e["cands"] = [[g.recase(w, rate) for w in x] for x in e["cands"]]
        vs.append((d, but("cas", "nlp")))
    return ("same", vs)


SPACES = [" ", "  ", "\n", "\t", " \n ", "\n\n", "\r\n", " \t "]


def spaced(r, ws):
    return r.choice(["", " ", "\n", "\t "]) + "".join(w + r.choice(SPACES) for w in ws[:-1]) + \
        (ws[-1] + r.choice(["", "\n", " ", "\n\n"]) if ws else "")


def hyp_as(r, c, fmt):
    d = copy.deepcopy(c)
    h = d["hyp"]
    h["fmt"] = fmt
    d.pop("hyptext", None)
    if fmt == "txt":
        d["hyptext"] = spaced(r, h["words"])
        h["punct"] = []
    elif fmt == "nlp":
        h["punct"] = [r.choice(["", "", ",", "."]) for _ in h["words"]]
    else:
        h["punct"] = []
        h["conf"] = r.random() < .5
        h["chan"] = r.choice(["1", "2", "A"])
        h["confval"] = r.choice(["0.1", "1", "0", "1.00", "0.333"])
        t = 0
        h["times"] = []
        for _ in h["words"]:
            t += r.choice([.25, .5, 7])
            h["times"].append((t, r.choice([0, .25, 1.5])))
    return d


def ref_as(r, c, fmt):
    d = copy.deepcopy(c)
    d["ref"]["fmt"] = fmt
    d.pop("reftext", None)
    if fmt == "txt":
        d["reftext"] = spaced(r, [x["t"] for x in d["ref"]["rows"]])
    if fmt == "nlp":
        gen.Gen(r, {}).nlp_meta(d["ref"]["rows"])
    return d


def format_group(r, c):
    """c has a reference without labels and without tags."""
    base = hyp_as(r, c, "ctm")
    vs = [(base, [])]
    vs.append((hyp_as(r, base, "ctm"), but("nlp", "nlpnotimes")))
    for f in ("txt", "nlp"):
        vs.append((hyp_as(r, base, f), ["hyp", "refs", "err"]))
    for f in ("txt", "ctm", "nlp"):
        if f != c["ref"]["fmt"] or f == "txt":
            vs.append((ref_as(r, base, f), ["hyp", "refs", "err"]))
    return ("same", vs)


def punct_group(r, c):
    """An NLP file with --use-punctuation against plain text with the marks in it."""
    c = copy.deepcopy(c)
    c["o"]["usepunc"] = True
    for x in c["ref"]["rows"]:
        x["p"] = r.choice(["", "", ".", ",", "?", "!", "..."])
    plain = lambda ws, ps: [w for a, b in zip(ws, ps) for w in ((a, b) if b else (a,))]
    h = hyp_as(r, c, "nlp")
    ws = plain(h["hyp"]["words"], h["hyp"]["punct"])
    c["ref"]["fmt"] = "nlp"
    words = ["." if w == "." else w for w in ws]
    c["hyp"].update(words=words, times=[(i, .5) for i in range(len(words))], punct=[], fmt="ctm")
    asref = copy.deepcopy(c)
    asref["ref"] = {"fmt": "txt", "rows": [dict(x, t=w, p="", s="", ca="", pp="", ts="", et="", cf="")
                                           for y in c["ref"]["rows"]
                                           for x, w in [(y, y["t"])] + ([(y, y["p"])] if y["p"] else [])]}
    same = ["hyp", "refs", "err"]
    vs = [(c, []), (asref, same)]
    g2 = copy.deepcopy(c)
    g2["hyp"] = h["hyp"]
    g3 = copy.deepcopy(c)
    g3["hyp"]["fmt"] = "txt"
    vs += [(g3, same), (g2, same)]
    return ("same", vs)


def output_group(r, c):
    vs = [(c, []), (copy.deepcopy(c), ALL)]
    d = with_(c, outs=("sbs", "nlp"))
    vs.append((d, ["rows", "tagcol", "groups", "std", "nlp"]))
    vs.append((with_(c, outs=("json", "sbs")), but("nlp")))
    vs.append((with_(c, outs=("json", "sbs", "nlp", "log")), ALL))
    d = with_(c, thr=c["o"]["thr"] + r.choice([1, 2, 50]))
    vs.append((d, but("uni", "bi", "secs")))
    vs.append((with_(c, recase=not c["o"]["recase"]), but("cas", "secs")))
    vs.append((with_(c, ctx=r.choice([x for x in (-1, 0, 1, 4, 9) if x != c["o"]["ctx"]])), but("sw", "secs")))
    vs.append((with_(c, addins=not c["o"]["addins"]), but("nlp") + ["nlpnoins"]))
    if c["hasside"]:
        vs.append((with_(c, hasside=False), but("tagcol")))
    if c["ref"]["fmt"] == "nlp" and c["hyp"]["fmt"] == "ctm" and not c["o"]["usecase"] and not c["o"]["usepunc"]:
        vs.append((with_(c, sub="align", outs=("nlp",)), ["std", "nlpnoins"]))
    vs[2:] = r.sample(vs[2:], min(5, len(vs) - 2))
    return ("same", vs)
