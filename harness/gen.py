"""Generates abstract cases (inputs of one run) and renders them to files.

A case is a plain dict:
  ref   {fmt, rows:[{t,s,p,pp,ca,lb,li,ln,g,ts,et,cf}]}
  hyp   {fmt, words, times:[(b,d)], conf, punct}
  norm  [{id, cands}]      side [{id, ty}]      rules [{k,l,r,line}]
  o     options
Nothing here decides what the right answer is.
"""
import json

BASE = ["a", "b", "c", "the", "we", "will", "to", "go", "of", "is", "it", "cat", "dog", "fifty", "one", "two",
        "year", "so", "no", "yes", "don't", "i'm", "gonna", "want", "50$", "2020", "3.5", "o'clock", "x", "y", "z"]
EXTRA = ["alpha", "beta", "gamma", "delta", "echo", "kilo", "lima", "mike", "oscar", "papa", "romeo", "tango"]
UNI = ["é", "été", "ñandú", "über", "œuvre", "šta", "да", "дя", "σβ", "çà", "naïve", "日本", "œ"]
HYPH = ["best-ever", "mm-hmm", "e-mail", "t-shirt", "mother-in-law", "long-term", "a-b", "x-ray"]
CUT = ["th-", "wh-", "the-", "go-", "b-", "ca-", "mother-in-", "up-to-", "so--"]
NOISE = ["<laugh>", "<crosstalk>", "<inaudible>", "<unk>", "<silence>"]
ODD = ["-", "-a", "u-v-", "k-l-m", "#", "#x", "&", "x&y", "%", "100%", "c++", "\"q\"", "\\", "a\\b", "'", "'s", "a_b", "__",
       "_", "0", "007", "-1", "1-2-3", "w" * 130, "http://a.b/c?d=e&f", "@me", "a,b", "a;b", ";", "{", "}", "[x]", "(",
       "<", ">", "<a", "a>", "<>", "…", "🙂", "a\u00a0b", "nan", "null", "inf", "true", "SYN", "ins", "del", "*", "***", 
       "/", "//", "=", "\u200b", ".", "?", "!", "...", "$", "$1", "^", "~", "`", "%s", "{}", "{0}", "\\n"]
TYPES = ["CARDINAL", "MONEY", "DATE", "ORDINAL", "PERSON_X", "TIME", "X"]
EOS = [".", "?", "!"]
PUNCT = [",", ";", ":", "...", "--"]


class Gen:
    def __init__(self, rng, prof):
        self.r, self.p = rng, prof

    # ------------------------------------------------------------ helpers
    def ch(self, key, default=0.0):
        v = self.p.get(key, default)
        return self.r.random() < v

    def pick(self, key, default):
        return self.r.choice(self.p.get(key, default))

    def vocab(self):
        r = self.r
        v = r.sample(BASE, r.randint(2, min(len(BASE), self.p.get("vmax", 16))))
        if r.random() < .3:
            v += r.sample(EXTRA, r.randint(1, len(EXTRA)))
        if self.ch("uni", .15):
            v += r.sample(UNI, r.randint(1, 4))
        if self.ch("hyph", .12):
            v += r.sample(HYPH, r.randint(1, 3))
            v += r.choice(HYPH).split("-")
        if self.ch("cut", .1):
            w = r.sample(CUT, r.randint(1, 2))
            v += w + [x.rstrip("-") for x in w if r.random() < .6]
        if self.ch("noise", .06):
            v += r.sample(NOISE, 1)
        if self.ch("odd", .06):
            v += r.sample(ODD, r.randint(1, 6))
        return v

    def size(self):
        r = self.r
        sz = self.p.get("size")
        if sz:
            return sz(r)
        x = r.random()
        if x < .03:
            return 0
        if x < .10:
            return 1
        if x < .70:
            return r.randint(2, 10)
        if x < .80:
            return r.randint(10, 13)
        if x < .97:
            return r.randint(14, 40)
        return r.randint(40, 120)

    def recase(self, w, rate):
        r = self.r
        if w.startswith("<") or r.random() >= rate:
            return w
        k = r.randint(0, 3)
        if k == 0:
            u = w[:1].upper() + w[1:]
        elif k == 1:
            u = w.upper()
        elif k == 2:
            u = "".join(c.upper() if r.random() < .4 else c for c in w)
        else:
            u = w.lower()
        return u if len(u) == len(w) else w      # no letters that change their number

    # ------------------------------------------------------------ parts
    def lure(self):
        """A passage said twice by one side and (almost) again by the other: at first it is cheaper to take the
        wrong one, and what tells only comes later."""
        r = self.r
        ws = ["w%d" % i for i in range(400)]
        r.shuffle(ws)
        k = r.randint(*self.p.get("lure_k", (5, 18)))
        a, ws = ws[:k], ws[k:]
        b = list(a)
        for i in r.sample(range(k), min(k, r.randint(1, 4))):
            b[i] = "v%d" % i
        n = r.choice([0, 50, 50]) + r.randint(0, max(0, 60 - k))
        if r.random() < .5:
            n = max(0, r.choice([50, 50, 100]) - 2 * k + r.randint(-6, 5))
        pad, ws = ws[:n], ws[n:]
        rest = ws[:r.randint(k, 60)]
        one, two = pad + a + b + rest, pad + a + a + b + rest
        if r.random() < .3:
            two = pad + a + b + a + b + rest
        if r.random() < .2:
            one, two = one[::-1], two[::-1]
        return (one, two) if r.random() < .5 else (two, one)

    def make_ref(self, voc):
        r = self.r
        n = self.size()
        fmt = self.pick("rf", ["nlp", "nlp", "txt", "ctm"])
        caps = r.choice(self.p.get("caps", [0, 0, .2, .5]))
        words = []
        while len(words) < n:
            w = r.choice(voc)
            words.append(w)
            if r.random() < .05:
                words.append(w)
        words = words[:n]
        self.fixed = None
        if self.ch("lure", 0):
            words, self.fixed = self.lure()
        rows = [dict(t=self.recase(w, caps), s="", p="", pp="", ca="", lb="[]", li="", ln="", g=[], ts="", et="",
                     cf="") for w in words]
        norm, side = [], []
        if fmt == "nlp":
            self.nlp_meta(rows)
            if self.ch("ent", .5):
                self.entities(rows, norm, voc)
            if self.ch("tags", .4):
                self.tags(rows, side)
        return {"fmt": fmt, "rows": rows}, norm, side

    def nlp_meta(self, rows):
        r = self.r
        spk = r.sample(["1", "2", "3", "spk A", "0", "Zoë"], r.randint(1, self.p.get("spkmax", 4)))
        cur, swp = r.choice(spk), r.choice([.02, .1, .3])
        pun = r.choice(self.p.get("punct", [0, .15, .4]))
        old = r.random() < .4
        cfc = r.random() < .3
        t = 0.0
        for i, x in enumerate(rows):
            if r.random() < swp:
                cur = r.choice(spk)
            x["s"] = cur
            if r.random() < pun:
                x["p"] = r.choice(EOS + EOS + PUNCT)
            if r.random() < .08:
                x["pp"] = r.choice(["(", "\"", "["])
            w = x["t"]
            ca = "LC" if w.lower() == w else "UC" if w[1:].lower() == w[1:] else "CA" if w.upper() == w else "MC"
            x["ca"] = ca if r.random() < .85 else r.choice(["UC", "LC", "CA", "MC", ""])
            if old:
                x["ts"] = "%.2f" % t
                t += r.choice([.25, .5])
                x["et"] = "%.2f" % t
            if cfc:
                x["cf"] = r.choice(["0.5", "0.97", "1", ""])

    def entities(self, rows, norm, voc):
        r = self.r
        i, eid = 0, r.choice([0, 1, 7, 100])
        rate = r.choice([.08, .2, .5])
        novoc = ["51", "fifty", "first", "dollars", "20", "twenty", "hundred", "$5"]
        while i < len(rows):
            if r.random() < rate:
                k = min(r.choice([1, 1, 2, 2, 3, 4]), len(rows) - i)
                # an inner mark would split the span when punctuation counts
                ty = r.choice(TYPES)
                lab = "['%d:%s']" % (eid, ty)
                if r.random() < .12:
                    lab = "['%d:%s', '%d:OTHER']" % (eid, ty, eid + 500)
                for q in range(i, i + k):
                    rows[q].update(lb=lab, li=str(eid), ln=ty)
                    if self.p.get("usepunc") and q < i + k - 1:
                        rows[q]["p"] = ""
                if r.random() < .85:
                    cands = []
                    for _ in range(r.randint(1, 3)):
                        c = [r.choice(voc if r.random() < .4 else novoc) for _ in range(r.randint(1, 4))]
                        if not any(w.startswith("<") for w in c):
                            if cands and r.random() < .3:      # starts like another one
                                d = r.choice(cands)
                                c = d[:r.randint(1, len(d))] + c[:r.randint(0, len(c))]
                            cands.append([self.recase(w, .1) for w in c])
                    if cands:
                        norm.append({"id": str(eid), "cands": cands, "cls": ty})
                i += k
                eid += 1
            else:
                i += 1

    def tags(self, rows, side):
        r = self.r
        i, tid, seen = 0, r.randint(0, 3), []
        while i < len(rows):
            if r.random() < .2:
                k = r.randint(1, 4)
                t = str(r.choice(seen)) if seen and r.random() < .2 else str(tid)
                seen.append(int(t))
                tid += 1
                for q in range(i, min(i + k, len(rows))):
                    if t not in rows[q]["g"]:
                        rows[q]["g"] = rows[q]["g"] + [t]
                i += r.randint(1, k)
            else:
                i += 1
        for t in sorted(set(map(str, seen))):
            if r.random() < .8:
                side.append({"id": t, "ty": r.choice(["YEAR", "CARDINAL", "SPACY>TIME", "", "A_B"])})
        if r.random() < .3:
            side.append({"id": "9999", "ty": "UNUSED"})

    def rules(self, ref, voc, norm=()):
        r = self.r
        segs = [[w if self.usecase else w.lower() for w in c] for e in norm for c in e["cands"]]
        comps = [w.split("-") for w in voc if "-" in w[1:-1]]
        toks = [x["t"].lower() if not self.usecase else x["t"] for x in ref["rows"]]
        out = []

        def words(k):
            return [r.choice(voc) if r.random() < .7 else r.choice(["gotta", "kinda", "lot", "ok", "i", "am", "not"])
                    for _ in range(k)]

        def add(l, alts):
            l = [w for w in l if not w.startswith("<") and not set(w) & set("#;|") and w.strip("-")]
            alts = [[w for w in a if not w.startswith("<") and not set(w) & set(";|") and w.strip("-")] for a in alts]
            alts = [a for a in alts if a]
            if not l or not alts:
                return
            sp = lambda: " " * r.choice([0, 1, 1, 3])
            line = sp() + (" " * r.choice([1, 1, 2])).join(l) + sp() + "|" + sp() + \
                (sp() + ";" + sp()).join(" ".join(a) for a in alts) + sp()
            out.append({"k": "rule", "l": l, "r": alts, "line": line})

        for _ in range(r.randint(1, self.p.get("nrules", 5))):
            x = r.random()
            if segs and x < .2:
                l = r.choice(segs)
                i = r.randint(0, len(l) - 1)
                l = l[i:i + r.choice([1, 2, 2, 3])]
            elif comps and x < .2 + self.p.get("comprule", .1):
                l = list(r.choice(comps))
            elif toks and x < .75:
                k = min(len(toks), r.choice([1, 1, 2, 2, 3]))
                i = r.randint(0, len(toks) - k)
                l = toks[i:i + k]
            elif x < .9:
                l = words(r.randint(1, 2))
            elif out:
                l = list(r.choice(out)["l"])                  # defined again
            else:
                continue
            alts = [words(r.choice([1, 1, 2, 3])) for _ in range(r.choice([1, 1, 2, 3]))]
            if out and r.random() < .15:
                q = r.choice(out)
                if q["k"] == "rule":
                    alts.append(list(q["l"]))                 # a chance to chain
            if r.random() < .15:
                l, alts = alts[0], [l]                        # the other direction
            add(l, alts)
        if r.random() < .4:
            for _ in range(r.randint(1, 3)):
                w = toks[r.randrange(len(toks))] if toks else "a"
                line = r.choice(["", "   ", "# %s | zap" % w, "  #%s|zap" % w, "%s zap" % w, "%s | zap | %s" % (w, w)])
                out.insert(r.randint(0, len(out)), {"k": "junk", "l": [], "r": [], "line": line})
        return out

    # ------------------------------------------------------------ hypothesis
    def derive(self, ref, norm, rules, voc):
        """Words of some reading of the reference (not necessarily an accepted one), then edited."""
        r = self.r
        rows, out, i = ref["rows"], [], 0
        use = r.choice(self.p.get("usealt", [0, .3, .8]))
        first = {}
        for q in rules:
            if q["k"] == "rule":
                first.setdefault(tuple(q["l"]), q["r"])
        cands = {e["id"]: e["cands"] for e in norm}
        low = (lambda w: w) if self.usecase else (lambda w: w.lower())
        while i < len(rows):
            li = rows[i]["li"]
            if li:
                k = i
                while k < len(rows) and rows[k]["li"] == li:
                    k += 1
                if r.random() < use and cands.get(li):
                    c = list(r.choice(cands[li]))
                    inner = [(q, l) for l in first for q in range(len(c) - len(l) + 1)
                             if tuple(low(w) for w in c[q:q + len(l)]) == l]
                    if inner and r.random() < .6:
                        q, l = r.choice(inner)
                        c[q:q + len(l)] = r.choice(first[l])
                    out += c
                elif r.random() < .1 and cands:
                    out += r.choice(r.choice(sorted(cands.items()))[1])
                else:
                    out += [x["t"] for x in rows[i:k]]
                i = k
                continue
            done = False
            if r.random() < use:
                opts = []
                for l, alts in first.items():
                    seg = rows[i:i + len(l)]
                    if len(seg) == len(l) and tuple(low(x["t"]) for x in seg) == l and not any(x["li"] for x in seg):
                        opts += [(len(l), a) for a in alts]
                w = rows[i]["t"]
                if "-" in w[1:-1] and not w.startswith("<"):
                    opts.append((1, [p for p in w.split("-") if p]))
                if w.endswith("-") and len(w) > 1:
                    opts.append((1, [w.rstrip("-")] if w.strip("-") else [w]))
                if i + 1 < len(rows) and not rows[i + 1]["li"] and r.random() < .3:
                    j = w + "-" + rows[i + 1]["t"]
                    if j.lower() in HYPH:
                        opts.append((2, [j]))
                if opts:
                    k, a = r.choice(opts)
                    out += a
                    i += k
                    done = True
            if not done:
                out.append(rows[i]["t"])
                i += 1
        return self.edit(out, voc)

    def edit(self, ws, voc):
        r = self.r
        rate = r.choice(self.p.get("rates", [0, 0, .05, .15, .3, .6, 1.0]))
        out = []
        for w in ws:
            if r.random() < rate:
                k = r.randint(0, 5)
                if k <= 1:
                    out.append(r.choice(voc))
                elif k == 2:
                    pass
                elif k == 3:
                    out += [r.choice(voc), w]
                elif k == 4:
                    out += [w, r.choice(voc)]
                elif out and r.random() < .5:
                    out.insert(len(out) - 1, w)
                else:
                    out += [w, w]
            else:
                out.append(w)
        if r.random() < .15 * (rate > 0):
            a = r.randint(0, len(out))
            b = min(len(out), a + r.randint(1, 6))
            k = r.randint(0, 2)
            if k == 0:
                del out[a:b]
            elif k == 1:
                out[a:a] = [r.choice(voc) for _ in range(r.randint(1, 6))]
            else:
                out[a:a] = out[a:b]
        if rate > 0 and r.random() < .08:
            out += [r.choice(voc) for _ in range(r.randint(1, 3))]
        if rate > 0 and r.random() < .04:
            out = []
        return out

    def make_hyp(self, ref, norm, rules, voc):
        r = self.r
        if self.fixed is not None:
            ws = self.edit(self.fixed, voc)
        elif self.ch("indep", .06):
            ws = [r.choice(voc) for _ in range(self.size())]
        else:
            ws = self.derive(ref, norm, rules, voc)
        if self.ch("burst", 0):           # a long run of errors
            a = r.randint(0, len(ws))
            k = r.randint(15, self.p.get("burstmax", 60))
            if r.random() < .5 and len(ws) > k:
                del ws[a:a + k]
            else:
                ws[a:a] = [r.choice(voc) for _ in range(k)]
        fmt = self.pick("hf", ["ctm", "ctm", "txt", "nlp"])
        caps = r.choice(self.p.get("caps", [0, 0, .2, .5]))
        if not self.usecase or r.random() < .3:
            ws = [self.recase(w, caps) for w in ws]
        t, times = 0.0, []
        gaps = r.choice([[.25], [0, .25, .5], [.25, 1.0, 60.0], [0, .0003, .1234, .5678], [.0101, 3.3333]])
        durs = r.choice([[0, .25, .25, .5], [.0001, .0617, .2479, .9999]])
        for _ in ws:
            t += r.choice(gaps)
            d = r.choice(durs)
            t = round(t, 4)
            times.append((t, d))
            t += d
        if self.ch("badtimes", .05):
            r.shuffle(times)
        punct = []
        if fmt == "nlp":
            pr = r.choice([0, .3])
            punct = [r.choice(EOS + PUNCT) if r.random() < pr else "" for _ in ws]
        return {"fmt": fmt, "words": ws, "times": times, "conf": r.random() < .6, "punct": punct}

    def case(self):
        r, p = self.r, self.p
        o = {
            "ap": self.pick("ap", ["adapted", "adapted", "standard"]),
            "pre": self.ch("pre", .6),
            "usecase": self.ch("usecase", .1),
            "usepunc": self.ch("usepunc", 0),
            "nocut": self.ch("nocut", .08), "nohyph": self.ch("nohyph", .08),
            "ctx": self.pick("ctx", [5, 5, 1, 2, 3, 0, -1, 100]),
            "thr": self.pick("thr", [0, 0, 1, 2, 3]),
            "addins": self.ch("addins", .3),
            "recase": self.ch("recase", .3),
            "streak": self.pick("streak", [None]),
            "nb": self.pick("nb", [None]),
        }
        if p.get("slowsafe") and o["ap"] == "standard":
            o["pre"] = False        # with it, standard composition is slow on long inputs
        self.usecase = o["usecase"]
        voc = self.vocab()
        ref, norm, side = self.make_ref(voc)
        rules = self.rules(ref, voc, norm) if self.ch("syn", .35) else []
        if o["usepunc"]:
            # rules must not reach across a mark
            pass
        hyp = self.make_hyp(ref, norm, rules, voc)
        if not p.get("noise_unk_ok"):
            pass
        c = {"ref": ref, "hyp": hyp, "norm": norm, "side": side, "rules": rules, "o": o,
             "hasnorm": bool(norm) or r.random() < .3, "hasside": bool(side) and r.random() < .8,
             "hassyn": bool(rules)}
        if ref["fmt"] == "nlp" and self.ch("cols", .12):
            c["cols"] = self.columns(ref["rows"])
        if self.ch("align", 0) and ref["fmt"] == "nlp" and hyp["fmt"] == "ctm" and not o["usecase"] and not o["usepunc"]:
            c["sub"], c["outs"] = "align", r.choice([("nlp",), ("nlp", "log")])
        elif self.ch("outs", 0):
            c["outs"] = tuple(x for x in ("json", "sbs", "nlp", "log") if r.random() < .6)
        if self.ch("symbols", .04):
            ws = [w for w in dict.fromkeys(r.sample(voc, r.randint(0, len(voc))) + r.sample(EXTRA, r.randint(0, 5)))
                  if "-" not in w and not w.startswith("<") and "\u00a0" not in w]
            r.shuffle(ws)
            c["symtab"] = ws
        return c

    def columns(self, rows):
        """The columns of an NLP file come in any order, some left out, some unknown."""
        r = self.r
        cols = ["token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags", "wer_tags", "confidence"]
        drop = {"prepunctuation": "pp", "wer_tags": "g", "confidence": "cf", "ts": "ts", "endTs": "et", "case": "ca",
                "punctuation": "p"}
        for k in list(drop):
            if r.random() < (.3 if k in ("prepunctuation", "wer_tags", "confidence") else .07):
                cols.remove(k)
                for x in rows:
                    x[drop[k]] = [] if k == "wer_tags" else ""
        cols += r.sample(["ali_comment", "oldTs", "oldEndTs"], r.choice([0, 0, 1, 3]))
        if r.random() < .3:
            cols.append("note")
        if r.random() < .7:
            r.shuffle(cols)
        return cols


# ---------------------------------------------------------------- rendering
def nlp_text(rows, cols=None):
    cols = cols or ["token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags", "wer_tags",
                    "confidence"]
    f = {"token": lambda x: x["t"], "speaker": lambda x: x["s"], "ts": lambda x: x["ts"], "endTs": lambda x: x["et"],
         "punctuation": lambda x: x["p"], "prepunctuation": lambda x: x["pp"], "case": lambda x: x["ca"],
         "tags": lambda x: x["lb"], "wer_tags": lambda x: "[" + ", ".join("'%s'" % t for t in x["g"]) + "]",
         "confidence": lambda x: x["cf"], "ali_comment": lambda x: "", "oldTs": lambda x: "", "oldEndTs": lambda x: "",
         "note": lambda x: "n"}
    return "|".join(cols) + "\n" + "".join("|".join(f[k](x) for k in cols) + "\n" for x in rows)


def num(x):
    s = "%.4f" % x
    s = s.rstrip("0")
    return s + "0" if s.endswith(".") else s


def ctm_text(words, times, conf, chan="1"):
    out = []
    for w, (b, d) in zip(words, times):
        out.append("rec %s %s %s %s%s\n" % (chan, num(b), num(d), w, (" " + conf) if conf else ""))
    return "".join(out)


def files_of(c):
    """-> (files, args) of a case, outputs in fixed places."""
    files, a = {}, []
    o, ref, hyp = c["o"], c["ref"], c["hyp"]
    sub = c.get("sub", "wer")
    rname, hname = "ref." + ref["fmt"], "hyp." + hyp["fmt"]
    if ref["fmt"] == "nlp":
        files[rname] = nlp_text(ref["rows"], c.get("cols"))
    elif ref["fmt"] == "ctm":
        files[rname] = ctm_text([x["t"] for x in ref["rows"]], [(i * .5, .25) for i in range(len(ref["rows"]))], "0.9")
    else:
        files[rname] = c.get("reftext") or " ".join(x["t"] for x in ref["rows"]) + "\n"
    if hyp["fmt"] == "nlp":
        rows = []
        for i, w in enumerate(hyp["words"]):
            b, d = hyp["times"][i]
            rows.append(dict(t=w, s="7", p=hyp["punct"][i], pp="", ca="", lb="['3:X']" if i % 5 == 1 else "[]",
                             g=["5"] if i % 7 == 2 else [], ts=num(b), et=num(b + d), cf=""))
        files[hname] = nlp_text(rows)
    elif hyp["fmt"] == "ctm":
        files[hname] = ctm_text(hyp["words"], hyp["times"], hyp.get("confval", "0.75") if hyp["conf"] else "",
                                hyp.get("chan", "1"))
    else:
        files[hname] = c.get("hyptext") or " ".join(hyp["words"]) + "\n"
    a += [sub, "--ref", rname, "--hyp", hname]
    if c["hasnorm"]:
        files["norm.json"] = json.dumps(
            {e["id"]: {"candidates": [{"probability": .5, "verbalization": v} for v in e["cands"]],
                       "class": e.get("cls", "")} for e in c["norm"]}, ensure_ascii=False)
        a += ["--ref-json", "norm.json"]
    if c["hasside"] and sub == "wer":
        files["side.json"] = json.dumps({e["id"]: {"entity_type": e["ty"]} for e in c["side"]}, ensure_ascii=False)
        a += ["--wer-sidecar", "side.json"]
    if c["hassyn"]:
        files["syn.txt"] = "\n".join(e["line"] for e in c["rules"]) + "\n"
        a += ["--syn", "syn.txt"]
    if c.get("symtab") is not None:
        files["words.txt"] = "".join("%s %d\n" % (w, i) for i, w in enumerate(["<eps>"] + c["symtab"]))
        a += ["--symbols", "words.txt"]
    a += ["--composition-approach", o["ap"]]
    if not o["pre"]:
        a.append("--disable-approx-alignment")
    if o["nocut"]:
        a.append("--disable-cutoffs")
    if o["nohyph"]:
        a.append("--disable-hyphen-ignore")
    if o.get("streak") is not None:
        a += ["--levenstein-max-error-streak", str(o["streak"])]
    if o.get("nb") is not None:
        a += ["--numbests", str(o["nb"])]
    if sub == "wer":
        for k, f in (("usecase", "--use-case"), ("usepunc", "--use-punctuation"), ("addins", "--add-inserts-nlp"),
                     ("recase", "--record-case-stats")):
            if o[k]:
                a.append(f)
        a += ["--speaker-switch-context=%d" % o["ctx"]]
        if o["thr"] is not None:
            a += ["--pr_threshold", str(o["thr"])]
    outs = c.get("outs", ("json", "sbs", "nlp"))
    if "json" in outs and sub == "wer":
        a += ["--json-log", "out.json"]
    if "sbs" in outs:
        a += ["--output-sbs", "out.sbs"]
    if "nlp" in outs and ref["fmt"] == "nlp":
        a += ["--output-nlp", "out.nlp"]
    if "log" in outs:
        a += ["--log", "out.log"]
    return files, a
