"""Which inputs each property's check explores (see DESIGN.md)."""
import api
import gen
import check
import lat
import rel
import scen

ASSUMPTIONS = [
    "The TLA+ specifications in spec/ say what the properties say; TLC evaluates them correctly.",
    "Rendering cases to input files and projecting the program's files into records (harness/gen.py, proj.py) is faithful.",
    "Inputs are drawn from the generator's distribution (harness/gen.py) within the sizes given in DESIGN.md.",
]


def S(lo, hi):
    return lambda r: r.randint(lo, hi)


def mix(*parts):
    """Sizes: (weight, lo, hi) ..."""
    def f(r):
        x = r.random() * sum(p[0] for p in parts)
        for w, lo, hi in parts:
            x -= w
            if x <= 0:
                return r.randint(lo, hi)
        return parts[-1][1]
    return f


SMALL, EDGE, MID = S(0, 7), S(9, 13), S(12, 34)
USUAL = mix((.04, 0, 0), (.08, 1, 1), (.45, 2, 9), (.15, 9, 13), (.25, 14, 40), (.03, 40, 90))
LONG = S(120, 420)
PLAIN = dict(syn=0, ent=0, hyph=0, cut=0)
NLP = dict(rf=["nlp"])


def P(*ds, **kw):
    d = {}
    for x in ds:
        d.update(x)
    d.update(kw)
    return d


# every option, everything requested or not
ANY = dict(outs=.3, align=.25, usepunc=.08, nb=[None, None, 1, 2, 5, 100, 1000], streak=[None, None, 0, 1, 3, 1000],
           thr=[-1, 0, 0, 1, 5, None], ctx=[-1, 0, 1, 5, 1000], symbols=.1, odd=.12, cols=.2, recase=.4, addins=.4, badtimes=.1)

# property -> [(name, profile, number of cases in a quick run)]
GENERAL = ("general", P(size=USUAL), 700)
BATCHES = {
    "C01": [GENERAL,
            ("first pass", P(size=MID, pre=1.0, syn=.5, hyph=.3), 400),
            ("adapted, many alternatives", P(NLP, size=SMALL, ap=["adapted"], syn=1, hyph=.5, cut=.4, usealt=[.8]), 400),
            ("standard, many alternatives", P(NLP, size=SMALL, ap=["standard"], syn=1, hyph=.5, cut=.4, usealt=[.8]), 300),
            ("repeated words", P(size=MID, vmax=3, rates=[.15, .3, .6]), 300),
            ("long", P(size=LONG, rates=[0, .05, .15], syn=.2, indep=0, slowsafe=1), 40)],
    "C02": [GENERAL,
            ("spans and rules", P(NLP, size=S(1, 12), ent=1, syn=.7, hyph=.3, cut=.2, usealt=[.3, .8, 1]), 700),
            ("rules", P(size=S(1, 12), ent=0, syn=1, nrules=9, vmax=5, usealt=[.8, 1]), 500),
            ("hyphens and cut-offs", P(size=S(1, 10), syn=.2, hyph=1, cut=1, usealt=[.8]), 300),
            ("long", P(NLP, size=LONG, ent=1, syn=.3, indep=0, rates=[0, .05, .15], slowsafe=1), 30)],
    "C03": [GENERAL,
            ("tiny", P(size=S(0, 3)), 500),
            ("many errors", P(size=mix((1, 1, 9), (1, 10, 40)), rates=[.6, 1.0]), 500),
            ("letter case", P(size=USUAL, caps=[.5, .8], usecase=.5), 300),
            ("long", P(size=LONG, indep=0, rates=[0, .05, .15, .3], slowsafe=1), 30)],
    "C04": [("tiny, every shape", P(PLAIN, size=S(0, 5), vmax=3), 900),
            ("around ten words", P(PLAIN, size=EDGE, pre=.7), 500),
            ("middling", P(PLAIN, size=MID, pre=.7), 500),
            ("repeated words", P(PLAIN, size=MID, vmax=3, rates=[.15, .3, .6]), 300),
            ("long", P(PLAIN, size=S(80, 260), rates=[0, .05, .15, .3], indep=0, slowsafe=1), 60),
            ("passages said twice", P(PLAIN, lure=1, lure_k=(4, 18), rates=[0, 0, 0, .05], pre=.3), 120),
            ("bursts", P(PLAIN, size=S(5, 120), burst=1, burstmax=120, rates=[0, .05, .15], indep=0, slowsafe=1), 80)],
    "C05": [("standard, all readings", P(size=S(1, 8), ent=0, hyph=.1, cut=.1, syn=1, ap=["standard"], pre=0, nb=[1000000],
                                         vmax=6, usealt=[.5, .8, 1]), 700),
            ("adapted", P(size=S(1, 9), ent=0, hyph=.1, cut=.1, syn=1, ap=["adapted"], vmax=6, usealt=[.5, .8, 1]), 500),
            ("one reading, word for word", P(size=S(1, 16), ent=0, hyph=0, cut=0, syn=1, nrules=7, vmax=8, usealt=[1],
                                             rates=[0], pre=0), 600),
            ("standard, with the first pass", P(size=S(11, 30), syn=1, ent=0, ap=["standard"], pre=1.0, nb=[1000000], vmax=10, usealt=[.8],
                                                rates=[0, .05, .15, .3], indep=0), 300),
            ("beside entities", P(NLP, size=S(2, 9), ent=1, syn=1, nrules=7, usealt=[.5, .8], pre=0, nb=[1000000]), 400)],
    "C06": [("hyphens", P(size=S(1, 9), ent=0, syn=.15, hyph=1, cut=.1, nohyph=.3, usealt=[.5, 1], pre=0, nb=[1000000],
                          rates=[0, 0, .1, .3]), 800),
            ("cut-offs", P(size=S(1, 9), ent=0, syn=.15, hyph=.1, cut=1, nocut=.3, usealt=[.5, 1], pre=0, nb=[1000000],
                           rates=[0, 0, .1, .3]), 700),
            ("rules of the file first", P(size=S(2, 9), ent=0, syn=1, hyph=1, cut=.4, comprule=.6, usealt=[.8, 1], pre=0,
                                          nb=[1000000], rates=[0, 0, .1], vmax=5), 500),
            ("both, beside entities", P(NLP, size=S(2, 12), ent=.6, syn=.3, hyph=1, cut=1, nohyph=.2, nocut=.2,
                                        usealt=[.5, 1], pre=0, rates=[0, 0, .1]), 500)],
    "C07": [("one reading, word for word", P(NLP, size=S(1, 14), ent=1, syn=.2, hyph=.1, usealt=[.5, 1], rates=[0], pre=0), 700),
            ("standard, all readings", P(NLP, size=S(1, 9), ent=1, syn=.3, ap=["standard"], pre=0, nb=[1000000],
                                         usealt=[.5, .8]), 600),
            ("adapted", P(NLP, size=S(1, 12), ent=1, syn=.3, ap=["adapted"], usealt=[.5, .8]), 500),
            ("rules inside entities", P(NLP, size=S(2, 9), ent=1, syn=1, nrules=8, vmax=6, usealt=[.8], pre=0), 300)],
    "C08": [("general", P(NLP, size=USUAL, ent=.8, syn=.5), 700),
            ("dense", P(NLP, size=S(2, 14), ent=1, syn=1, nrules=8, vmax=6, hyph=.4, cut=.3, usealt=[.3, .8]), 900),
            ("text and ctm", P(size=S(2, 20), rf=["txt", "ctm"], syn=1, nrules=8, vmax=6, hyph=.4, usealt=[.3, .8]), 400)],
    "C09": [("general", P(NLP, size=USUAL), 800),
            ("many changes of speaker", P(NLP, size=S(2, 30), spkmax=4, ctx=[1, 2, 3, 5, 7], rates=[.1, .3, .6], ent=.7), 900),
            ("no speakers", P(size=SMALL), 150)],
    "C10": [("general", P(NLP, size=USUAL, tags=.7), 700),
            ("tags", P(NLP, size=S(1, 25), tags=1, ent=.5, rates=[.05, .3, .6]), 600),
            ("sentences", P(NLP, size=S(1, 25), punct=[.3, .6, .9], rates=[.05, .3, .6], ent=.5), 600)],
    "C11": [("general", P(NLP, size=USUAL, ent=.3), 700),
            ("letter case", P(NLP, size=S(1, 20), caps=[.5, .9], uni=.5, ent=.4), 600),
            ("readings", P(NLP, size=S(1, 14), ent=1, syn=.6, usealt=[.8, 1], rates=[0, 0, .1, .3], hyph=.3), 700),
            ("rich rows", P(NLP, size=S(1, 14), punct=[.5, .9], tags=1, addins=.5, rates=[.1, .3]), 300)],
    "C12": [("general", P(NLP, size=USUAL, hf=["ctm", "ctm", "nlp"]), 800),
            ("errors", P(NLP, size=S(1, 25), hf=["ctm", "nlp"], rates=[.3, .6], ent=.5, addins=.5), 700),
            ("readings", P(NLP, size=S(1, 14), hf=["ctm", "nlp"], ent=1, syn=.6, usealt=[.8, 1]), 500)],
    "C15": [GENERAL,
            ("thresholds", P(size=USUAL, vmax=5, thr=[0, 1, 2, 3, 5, 8], rates=[.1, .3, .6]), 900),
            ("tiny", P(size=S(0, 4), thr=[0, 1, 2]), 400)],
    "C17": [("figures", P(NLP, size=USUAL, caps=[.3, .8], recase=1, uni=.3), 500),
            ("figures, with case", P(NLP, size=USUAL, caps=[.3, .8], recase=1, uni=.3, usecase=1), 300),
            ("with case", P(PLAIN, size=mix((.7, 1, 9), (.3, 10, 25)), caps=[.3, .6], usecase=1, uni=.3, hf=["ctm"],
                         want=["C17", "C01", "C02", "C03", "C04"]), 500)],
    "C21": [("tiny", P(ANY, size=S(0, 2)), 1000),
            ("small", P(ANY, size=S(1, 9), syn=.6, ent=.7, odd=.4), 900),
            ("around ten words", P(ANY, size=EDGE, pre=.8), 500),
            ("dense alternatives", P(ANY, size=S(8, 20), syn=1, nrules=9, vmax=5, hyph=.4, cut=.3, pre=.8, usealt=[.3, .8]), 500),
            ("very unequal", P(ANY, size=mix((.5, 0, 3), (.5, 20, 60)), indep=1), 300),
            ("middling", P(ANY, size=MID, pre=.8), 400),
            ("long", P(ANY, size=LONG, slowsafe=1, syn=.2, rates=[0, .05, .15, .3], indep=0), 40),
            ("passages said twice", P(ANY, PLAIN, lure=1, lure_k=(4, 60), rates=[0, 0, .05], pre=.8, ap=["adapted"]), 150)],
    "C16": [GENERAL,
            ("many errors", P(size=S(1, 30), rates=[.3, .6, 1.0]), 900),
            ("tiny", P(size=S(0, 4), rates=[.3, .6, 1.0]), 400)],
}


# what the runs of a property's batches are held against, where it is more than the property itself
WANT = {"C17": ["C17", "C01", "C02", "C03"]}


# property -> enumerations by TLC: (module, configuration, the deep one, options, cases in a quick run)
ENUM = {
    "C01": [("Scenarios", "plain", "plain_deep", {}, 500), ("Scenarios", "span_rule", "span_rule", {}, 500)],
    "C02": [("Scenarios", "rule", "rule_deep", {}, 400), ("Scenarios", "rules", "rules_deep", {}, 400),
            ("Scenarios", "span_rule", "span_rule", {}, 500)],
    "C03": [("Scenarios", "plain", "plain_deep", {}, 500), ("Scripts", "spans", "spans_deep", {}, 300)],
    "C04": [("Scenarios", "plain", "plain_deep", {}, 1500)],
    "C05": [("Scenarios", "rule", "rule_deep", {}, 700), ("Scenarios", "rules", "rules_deep", {}, 700)],
    "C06": [("Scenarios", "hyphens", "hyphens_deep", dict(nocut=.25, nohyph=.25), 900),
            ("Scenarios", "hyphens_rule", "hyphens_rule", dict(nocut=.1, nohyph=.1), 1200),
            ("Scenarios", "cutoffs_rule", "cutoffs_rule", dict(nocut=.1, nohyph=.1), 800)],
    "C07": [("Scenarios", "span", "span_deep", {}, 700), ("Scenarios", "span_rule", "span_rule", {}, 700)],
    "C08": [("Scenarios", "span_rule", "span_rule", {}, 400), ("Scripts", "spans", "spans_deep", {}, 600)],
    "C09": [("Scripts", "speakers", "speakers_deep", dict(ctx=[1, 1, 2, 3]), 1200)],
    "C10": [("Scripts", "stops", "stops_deep", {}, 700), ("Scripts", "tags", "tags_deep", {}, 700)],
    "C11": [("Scripts", "spans", "spans_deep", dict(times=1), 700), ("Scripts", "stops", "stops_deep", {}, 300)],
    "C12": [("Scripts", "spans", "spans_deep", {}, 700)],
    "C15": [("Scenarios", "plain", "plain_deep", {}, 600), ("Scripts", "spans", "spans_deep", {}, 500)],
    "C16": [("Scripts", "stops", "stops_deep", {}, 700)],
    "C21": [("Scenarios", "plain", "plain_deep", {}, 400), ("Scenarios", "span_rule", "span_rule", {}, 400),
            ("Scripts", "tags", "tags_deep", {}, 300)],
}


def one_round(ctx, rounds):
    for module, quick, deep, kw, n in ENUM.get(ctx.pid, ()):
        name = quick if ctx.tier != "thorough" else deep
        if ctx.tier == "thorough":
            n = max(n, 2500)
        cs, total, st = scen.cases(ctx.rng("enum", module, name), module, name, n, kw, rounds)
        if rounds == 0:
            ctx.tlc_stats(st)
            ctx.cov["model_runs"].append({"module": module, "cfg": "%s_%s" % (module, name), "inputs": total,
                                          "states": st.get("states", 0), "transitions": st.get("transitions", 0)})
        check.batch(ctx, "every %s of %s" % ("input" if module == "Scenarios" else "script", name), cs)
        if ctx.bad:
            return
    for name, prof, n in BATCHES[ctx.pid]:
        r = ctx.rng("traces", rounds, name)
        cases = [gen.Gen(r, prof).case() for _ in range(n)]
        check.batch(ctx, name, cases, prof.get("want") or WANT.get(ctx.pid))
        if ctx.bad:
            return


def traces(ctx):
    """Generated runs of the program, replayed through spec/Trace.tla."""
    rounds = 0
    while True:
        one_round(ctx, rounds)
        rounds += 1
        if ctx.tier != "thorough" or ctx.left() < 0 or ctx.bad:
            return


def c13(ctx):
    deep = ctx.tier == "thorough"
    check.model(ctx, "EditModel", "EditModelDeep" if deep else None, timeout=1500)
    api.edit_batch(ctx, "every pair of up to 5 elements, 3 different ones", api.small_pairs(3, 5), [])
    rounds = 0
    while not ctx.bad:
        r = ctx.rng("edit", rounds)
        api.edit_batch(ctx, "drawn", api.random_pairs(r, 4000, 160), api.streaks(r, 4000))
        api.edit_batch(ctx, "long", api.random_pairs(r, 30, 900), [])
        rounds += 1
        if not deep or ctx.left() < 0:
            break


GRAPHS = [
    ("plain", P(PLAIN, size=S(0, 7), vmax=4), 150),
    ("rules", P(size=S(1, 6), ent=0, syn=1, nrules=7, vmax=5, hyph=.3, cut=.3, usealt=[.5, .8]), 250),
    ("entities", P(NLP, size=S(1, 7), ent=1, syn=.5, hyph=.2, usealt=[.5, .8]), 250),
    ("bursts", P(size=S(0, 5), ent=0, syn=.5, burst=1, burstmax=50), 60),
]


def c22(ctx):
    rounds = 0
    while not ctx.bad:
        for name, prof, n in GRAPHS:
            r = ctx.rng("graphs", rounds, name)
            cases = [gen.Gen(r, P(prof, hf=["ctm"], ap=["adapted", "standard"], pre=0)).case() for _ in range(n)]
            api.compose_batch(ctx, name, cases)
        rounds += 1
        if ctx.tier != "thorough" or ctx.left() < 0:
            break


BARE = dict(ent=0, tags=0)
GROUPS = {
    "C14": [("plain", rel.pass_group, P(PLAIN, size=mix((.2, 1, 10), (.3, 9, 13), (.5, 12, 50))), 220),
            ("with alternatives", rel.pass_group, P(size=mix((.3, 5, 13), (.7, 12, 40)), syn=.6, hyph=.2), 120),
            ("streaks", rel.pass_group, P(PLAIN, size=MID, rates=[.15, .3, .6, 1.0], vmax=5), 150),
            ("long", rel.pass_group, P(PLAIN, size=S(100, 260), rates=[.05, .15, .3], indep=.1, ap=["adapted"]), 20),
            ("passages said twice", rel.pass_group, P(PLAIN, lure=1, lure_k=(4, 45), rates=[0, 0, .05]), 40),
            ("bursts", rel.pass_group, P(PLAIN, size=S(5, 90), burst=1, rates=[0, .05, .15], indep=0, ap=["adapted"]), 40)],
    "C17": [("letter case", rel.case_group, P(size=USUAL, caps=[0, .3, .8], uni=.5, syn=.3), 450)],
    "C18": [("formats", rel.format_group, P(BARE, size=USUAL, syn=.3, addins=0), 170),
            ("punctuation", rel.punct_group, P(BARE, NLP, size=mix((.7, 1, 9), (.3, 10, 25)), syn=0, hyph=0), 120)],
    "C20": [("outputs", rel.output_group, P(size=USUAL, rf=["nlp", "nlp", "nlp", "txt", "ctm"], tags=.6), 200)],
}


def groups(ctx):
    rounds = 0
    while not ctx.bad:
        for name, make, prof, n in GROUPS[ctx.pid]:
            r = ctx.rng("groups", rounds, name)
            rel.batch(ctx, name, [make(r, gen.Gen(r, prof).case()) for _ in range(n)])
            if ctx.bad:
                return
        if ctx.pid in BATCHES:
            one_round(ctx, rounds)
        rounds += 1
        if ctx.tier != "thorough" or ctx.left() < 0:
            break


LATTICES = [
    ("plain references", P(PLAIN, size=S(0, 9)), {}, 300),
    ("alternatives", P(size=S(1, 7), syn=.6, ent=.5, hyph=.3, cut=.3, usealt=[.5, .8], vmax=7), {}, 400),
    ("arcs without a word", P(size=S(0, 8), syn=.2), {"eps": 1}, 200),
    ("longer", P(PLAIN, size=S(10, 30), indep=0, rates=[0, .05, .15, .3]), {}, 100),
]


def c19(ctx):
    rounds = 0
    while not ctx.bad:
        for name, prof, kw, n in LATTICES:
            r = ctx.rng("lattices", rounds, name)
            lat.batch(ctx, name, [lat.make(r, gen.Gen(r, P(prof, odd=0)).case(), kw) for _ in range(n)])
        rounds += 1
        if ctx.tier != "thorough" or ctx.left() < 0:
            break


TARGETS = {"C13": ["editdrv"], "C22": ["apidrv"]}
PLANS = {p: traces for p in BATCHES}
PLANS.update({p: groups for p in GROUPS})
PLANS["C13"] = c13
PLANS["C22"] = c22
PLANS["C19"] = c19
TECHNIQUE, NOTE, NOTYET = {}, {}, {}
