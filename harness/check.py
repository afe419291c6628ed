#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current working tree.

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_BUDGET
(seconds a thorough run may take, default 600).
Exit 0: held on everything explored.  Exit 1 with VIOLATION lines otherwise.
"""
import copy
import hashlib
import json
import os
import random
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fsx   # noqa: E402
import gen   # noqa: E402

import proj  # noqa: E402
import tlc   # noqa: E402

OUTS = ["out.json", "out.sbs", "out.nlp", "out.log"]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "600"))
        self.bdir = None
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases_run": 0,
                    "rows_replayed": 0, "known_finding_hits": 0, "rejected_on_rerun_only_once": 0,
                    "model_runs": [], "batches": [], "samples": []}
        self.bad = []        # (what, replay path)
        self.seen_known = {}
        self.findings = [f for f in load_findings() if f["property"] == pid]
        self.replays = 0

    def rng(self, *tag):
        return random.Random("%d/%s/%s" % (self.seed, self.pid, "/".join(map(str, tag))))

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ------------------------------------------------------------ reports
    def replay(self, data):
        d = os.path.join(fsx.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        text = json.dumps(data, indent=1, ensure_ascii=False, sort_keys=True)
        path = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha256(text.encode()).hexdigest()[:12]))
        with open(path, "w", encoding="utf-8") as f:
            f.write(text + "\n")
        return path

    def violation(self, what, data):
        self.bad.append(what)
        if len(self.bad) <= 3:
            data = dict(data, property=self.pid, what=what)
            print("VIOLATION property=%s replay=%s" % (self.pid, self.replay(data)))
            print("  " + what)
            sys.stdout.flush()

    def tlc_stats(self, st):
        self.cov["states"] += st.get("states", 0)
        self.cov["transitions"] += st.get("transitions", 0)


def load_findings():
    """The listed findings: {property, key, input, what}."""
    out = []
    with open(os.path.join(fsx.VERIF, "known-findings.txt"), encoding="utf-8") as f:
        for ln in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) input=(\S+) (.*)$", ln.strip())
            if m:
                out.append(dict(property=m.group(1), key=m.group(2), input=m.group(3), what=m.group(4)))
    return out


# ---------------------------------------------------------------- single runs
def mk(c, timeout=20):
    f, a = gen.files_of(c)
    return fsx.Case(f, a, OUTS, timeout=timeout)


def wants_of(c, want):
    hf = c["hyp"]["fmt"]
    w = []
    for p in want:
        if p == "C12" and (hf not in ("ctm", "nlp") or (c["o"]["usepunc"] and hf == "nlp")):
            continue
        if p in ("C10", "C11", "C12") and c["o"]["usepunc"] and p != "C12":
            continue
        w.append(p)
    return w


def judge_cases(ctx, cases, want, timeout=20):
    """Runs the cases for real, has TLC replay them; -> [(broken, result, record)]."""
    xs = [mk(c, timeout) for c in cases]
    fsx.run_cases(xs, ctx.bdir)
    recs = [proj.record(i, c, x.res, wants_of(c, want)) for i, (c, x) in enumerate(zip(cases, xs))]
    v, st = tlc.judge("Trace", recs)
    ctx.tlc_stats(st)

    def mine(b):
        """Whatever is broken of what was wanted breaks this property."""
        return [" ".join(x.split()[:-1] + [ctx.pid]) for x in b]
    return [(mine(v[i]), xs[i], recs[i]) for i in range(len(cases))]


def differential(ctx, cases, keys, want):
    """For each case: does changing what its finding is about make the failure go away?"""
    ds = []
    for c, ks in zip(cases, keys):
        d = copy.deepcopy(c)
        if "eps" in ks:
            d["hyp"]["fmt"] = "ctm"
            d["hyp"]["punct"] = []
        if "pass" in ks:
            d["o"]["pre"] = False
            d["o"]["nb"] = 1000000
        ds.append(d)
    out = [True] * len(cases)
    todo = [i for i in range(len(cases)) if keys[i] & {"eps", "pass"}]
    for i, (b, _, _) in zip(todo, judge_cases(ctx, [ds[i] for i in todo], want, timeout=60)):
        out[i] = not any(x.split()[-1] == ctx.pid for x in b)
    return out


def shrink(ctx, c, want, rounds=6):
    """Drops parts of a rejected case as long as it stays rejected."""
    def variants(c):
        out = []

        def chop(get, n):
            for size in sorted({max(1, n // 2), max(1, n // 4), 1}, reverse=True):
                for i in range(0, n, size):
                    d = copy.deepcopy(c)
                    get(d, i, i + size)
                    out.append(d)

        def ref(d, a, b):
            del d["ref"]["rows"][a:b]

        def hyp(d, a, b):
            h = d["hyp"]
            del h["words"][a:b], h["times"][a:b]
            if h["punct"]:
                del h["punct"][a:b]

        def rule(d, a, b):
            del d["rules"][a:b]

        def norm(d, a, b):
            del d["norm"][a:b]
        chop(ref, len(c["ref"]["rows"]))
        chop(hyp, len(c["hyp"]["words"]))
        chop(rule, len(c["rules"]))
        chop(norm, len(c["norm"]))
        return out[:160]
    best, t = c, time.time()
    for _ in range(rounds):
        if time.time() - t > 25:
            break
        vs = [d for d in variants(best)]
        if not vs:
            break
        try:
            got = judge_cases(ctx, vs, want)
        except tlc.TlcError:
            break
        hits = [d for d, (b, _, _) in zip(vs, got) if ctx.pid in b]
        if not hits:
            break
        best = min(hits, key=lambda d: len(d["ref"]["rows"]) + len(d["hyp"]["words"]))
    return best


def batch(ctx, name, cases, want=None):
    want = want or [ctx.pid]
    t = time.time()
    got = judge_cases(ctx, cases, want)
    ctx.cov["cases_run"] += len(cases)
    bad = []
    nontriv = 0
    for c, (b, x, rec) in zip(cases, got):
        nontriv += len(rec["rows"]) > 1
        ctx.cov["rows_replayed"] += len(rec["rows"])
        if not b:
            ctx.cov["traces_validated_against_impl"] += 1
            continue
        bad.append((c, b, x, rec))
    listed = {f["key"] for f in ctx.findings}
    keys = [{p.split()[1] for p in b if p.startswith("known ") and p.split()[-1] == ctx.pid} for _, b, _, _ in bad]
    maybe = [i for i in range(len(bad)) if keys[i] and keys[i] <= listed and ctx.pid not in bad[i][1]]
    explained = {i for i, ok in zip(maybe, differential(ctx, [bad[i][0] for i in maybe], [keys[i] for i in maybe], want)) if ok}
    ctx.cov["known_finding_hits"] += len(explained)
    suspects = [(c, b) for i, (c, b, _, _) in enumerate(bad) if i not in explained]
    if len(suspects) > 24:
        ctx.cov["rejected_not_rerun"] = ctx.cov.get("rejected_not_rerun", 0) + len(suspects) - 24
        suspects = suspects[:24]
    # only what happens again is reported
    again = judge_cases(ctx, [c for c, _ in suspects], want, timeout=60)
    for (c, b), (b2, x2, _) in zip(suspects, again):
        if not any(p.split()[-1] == ctx.pid for p in b2):
            ctx.cov["rejected_on_rerun_only_once"] += 1
            continue
        small, x3, b3 = c, x2, b2
        if not ctx.bad and ctx.pid in b2 and x2.res["status"] != "timeout":
            small = shrink(ctx, c, want)
            (b3, x3, _), = judge_cases(ctx, [small], want)
            if not any(p.split()[-1] == ctx.pid for p in b3):
                small, x3, b3 = c, x2, b2
        ctx.violation("%s: run rejected by the specification (%s; %s %s)" % (name, ",".join(b3), x3.res["status"], x3.res["code"]),
                      {"case": small, "files": {k: v if isinstance(v, str) else repr(v) for k, v in x3.files.items()},
                       "args": x3.args, "outputs": x3.res, "broken": b3})
    ctx.cov["batches"].append({"name": name, "cases": len(cases), "more_than_one_row": nontriv,
                               "seconds": round(time.time() - t, 1)})
    if cases and len(ctx.cov["samples"]) < 4:
        k = len(cases) // 2
        ctx.cov["samples"].append({"batch": name, "args": got[k][1].args,
                                   "files": {n: v if isinstance(v, str) else repr(v) for n, v in got[k][1].files.items()},
                                   "rows": [[r["r"], r["h"], r["c"]] for r in got[k][2]["rows"]][:40]})


# ---------------------------------------------------------------- known findings
def known_findings(ctx):
    for f in ctx.findings:
        with open(os.path.join(fsx.VERIF, f["input"]), encoding="utf-8") as g:
            c = json.load(g)
        if "group" in c:
            import rel
            still = rel.finding_still_fails(ctx, c, f)
        else:
            (b, _, _), = judge_cases(ctx, [c], [ctx.pid])
            still = any(p.split()[-1] == ctx.pid for p in b)
        if still:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, f["what"]))


# ---------------------------------------------------------------- design models
def model(ctx, module, cfg=None, args=(), timeout=600, workers=8, expect_rc=0):
    t = time.time()
    rc, out, st = tlc.run(module, cfg, workers=workers, timeout=timeout, args=args)
    ctx.tlc_stats(st)
    ctx.cov["model_runs"].append({"module": module, "cfg": cfg or module, "states": st.get("states", 0),
                                  "transitions": st.get("transitions", 0), "seconds": round(time.time() - t, 1)})
    if rc != expect_rc:
        raise tlc.TlcError("model %s/%s: TLC ended with %d\n%s" % (module, cfg, rc, out[-5000:]))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    ctx = Ctx(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    import plans
    ctx.bdir = fsx.build(targets=plans.TARGETS.get(pid, ["all"]))
    ctx.cov["build_seconds"] = round(time.time() - ctx.t0, 1)
    plan = plans.PLANS[pid]
    known_findings(ctx)
    plan(ctx)
    cov = ctx.cov
    ev = {"property": pid, "tier": tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "assumptions": plans.ASSUMPTIONS, "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.bad)}
    os.makedirs(os.path.join(fsx.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(fsx.VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("%s %s seed %d: %d runs of the program, %d accepted, %d TLC states, %.0f s, %d violations" %
          (pid, tier, ctx.seed, cov["cases_run"], cov["traces_validated_against_impl"], cov["states"],
           time.time() - ctx.t0, len(ctx.bad)))
    sys.exit(1 if ctx.bad else 0)


if __name__ == "__main__":
    try:
        main()
    except tlc.TlcError as e:
        print("the check itself failed: %s" % e)
        sys.exit(3)
