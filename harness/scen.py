"""Inputs enumerated by TLC (spec/Scenarios.tla, spec/Scripts.tla), made into cases."""
import json
import re

import gen
import tlc

WORDS = {"hyphens": ["a", "b", "a-b", "a-", "b-a", "-b"], "cutoffs": ["a", "a-", "b"]}
SPEAKERS, STOPS, TAGS = ["1", "2", "3"], ["", ".", "?"], [[], ["1"], ["1", "2"]]
_made = {}


def enumerate_(module, name):
    if (module, name) not in _made:
        rc, out, st = tlc.run(module, "%s_%s" % (module, name), workers=4, timeout=600)
        if rc != 0:
            raise tlc.TlcError("%s_%s: TLC ended with %d\n%s" % (module, name, rc, out[-2000:]))
        xs = sorted(json.loads(m.group(1)) for m in re.finditer(r'^("INPUT .*")$', out, re.M))
        _made[module, name] = ([json.loads(x[6:]) for x in xs], st)
    return _made[module, name]


def row(t, **kw):
    d = dict(t=t, s="", p="", pp="", ca="", lb="[]", li="", ln="", g=[], ts="", et="", cf="")
    d.update(kw)
    return d


def label(x, i, name):
    x.update(lb="['%s:%s']" % (i, name), li=str(i), ln=name)


def options(r, kw):
    o = {"ap": r.choice(kw.get("ap", ["adapted", "standard"])), "pre": r.random() < .5, "usecase": False, "usepunc": False,
         "nocut": r.random() < kw.get("nocut", 0), "nohyph": r.random() < kw.get("nohyph", 0),
         "ctx": r.choice(kw.get("ctx", [1, 2])), "thr": r.choice([0, 0, 1, 2]), "addins": r.random() < .3,
         "recase": r.random() < .3, "streak": None, "nb": None}
    return o


def hypothesis(r, ws, fmt):
    t, times = 0.0, []
    for _ in ws:
        times.append((t, r.choice([.25, .5])))
        t += r.choice([.5, 1.25])
    return {"fmt": fmt, "words": ws, "times": times, "conf": r.random() < .5, "punct": [""] * len(ws) if fmt == "nlp" else []}


def scenario(r, x, name, kw):
    voc = WORDS.get(name.split("_")[0], ["a", "b", "c"])
    w = lambda i: voc[i - 1]
    rows = [row(w(y["t"])) for y in x["ref"]]
    fmt = r.choice(["txt", "ctm", "nlp"])
    norm = []
    if any(y["l"] for y in x["ref"]):
        fmt = "nlp"
        for y, z in zip(x["ref"], rows):
            if y["l"]:
                label(z, 1, "X")
        if x["cand"]:
            norm = [{"id": "1", "cands": [[w(i) for i in x["cand"]]], "cls": "X"}]
    if fmt == "nlp":
        for z in rows:
            z["s"] = "1"
    rules = []
    for q in x["rules"]:
        l, a = [w(i) for i in q["l"]], [w(i) for i in q["r"]]
        rules.append({"k": "rule", "l": l, "r": [a], "line": " ".join(l) + " | " + " ".join(a)})
    return {"ref": {"fmt": fmt, "rows": rows}, "hyp": hypothesis(r, [w(i) for i in x["hyp"]], "ctm"), "norm": norm,
            "side": [], "rules": rules, "o": options(r, kw), "hasnorm": bool(norm), "hasside": False, "hassyn": bool(rules)}


def script(r, x, name, kw):
    rows, hyp, side, norm = [], [], [], []
    open_ = 0           # the span that is being replaced by its normalization
    for i, y in enumerate(x):
        if y["op"] == "ins":
            hyp.append("y%d" % i)
            continue
        t = "w%d" % i
        rows.append(row(t, s=SPEAKERS[y["s"] - 1], p=STOPS[y["p"] - 1], g=TAGS[y["g"] - 1], ca=r.choice(["LC", "UC"])))
        if y["l"]:
            label(rows[-1], y["l"], "X")
            if y["l"] != open_ and not any(e["id"] == str(y["l"]) for e in norm) and r.random() < .4:
                open_ = y["l"]
                c = ["n%d%d" % (i, k) for k in range(r.randint(1, 3))]
                norm.append({"id": str(y["l"]), "cands": [c], "cls": "X"})
                hyp += [u for u in c if r.random() < .9]
        if y["l"] and y["l"] == open_:
            continue
        if y["op"] == "cor":
            hyp.append(t)
        elif y["op"] == "sub":
            hyp.append("x%d" % i)
    if any(z["g"] for z in rows):
        side = [{"id": "1", "ty": "YEAR"}]
    for k, z in enumerate(rows):
        if kw.get("times"):
            z["ts"], z["et"] = "%d.0" % k, "%d.5" % k
    return {"ref": {"fmt": "nlp", "rows": rows}, "hyp": hypothesis(r, hyp, r.choice(["ctm", "ctm", "nlp"])), "norm": norm,
            "side": side, "rules": [], "o": options(r, kw), "hasnorm": bool(norm), "hasside": bool(side), "hassyn": False}


def cases(r, module, name, n, kw, rounds=0):
    """n cases, those of the next part of the enumeration with every round; -> (cases, how many there are, stats)."""
    xs, st = enumerate_(module, name)
    order = list(range(len(xs)))
    r.shuffle(order)                     # r is the same in every round
    part = [order[(rounds * n + k) % len(order)] for k in range(min(n, len(order)))]
    make = scenario if module == "Scenarios" else script
    return [make(r, xs[i], name, kw) for i in part], len(xs), st
