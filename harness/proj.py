"""Projects what a run wrote into the record that the specification reads."""
import math
import re

import fsx

SYN = re.compile(r"^___(\d+)_SYN_(\d+)-(\d+)___$")
ENT = re.compile(r"^___([^_]*)_(.*)___$")
NLPCOLS = "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|oldTs|oldEndTs|ali_comment|confidence"
BIG = 2000000000


def ratio(x, unit=100000):
    """A number of the report in units of 1e-5; -1 infinite, -2 undefined, -3 absent or not a number at all."""
    if x is None:
        return -2
    if isinstance(x, str):
        try:
            x = float(x)
        except ValueError:
            return -3
    if math.isnan(x):
        return -2
    if math.isinf(x):
        return -1
    v = int(round(x * unit))
    return v if abs(v) < BIG else BIG


def count(x):
    return x if isinstance(x, int) and abs(x) < BIG else -7


def cls(raw):
    m = SYN.match(raw)
    if m:
        return dict(k="syn", id=m.group(1), nm="SYN_%s-%s" % (m.group(2), m.group(3)), n=int(m.group(2)), m=int(m.group(3)))
    m = ENT.match(raw)
    if m:
        return dict(k="ent", id=m.group(1), nm=m.group(2), n=0, m=0)
    if raw == "":
        return dict(k="", id="", nm="", n=0, m=0)
    return dict(k="?", id="", nm=raw, n=0, m=0)


def rows_of(sbs):
    rows, groups = fsx.parse_sbs(sbs)
    if rows is None or groups is None:
        return None, None
    out = []
    for r, h, e, c, t in rows:
        d = dict(r=r, h=h, e=e, c=c, tg=t)
        d.update(cls(c))
        out.append(d)
    return out, [dict(l=l, r=r, h=h) for l, r, h in groups]


def res(nm, d):
    d = d if isinstance(d, dict) else {}
    return {"nm": nm, "ins": count(d.get("insertions")), "del": count(d.get("deletions")),
            "sub": count(d.get("substitutions")), "err": count(d.get("numErrors")),
            "wds": count(d.get("numWordsInReference")), "wer": ratio(d.get("wer", "x"))}


def grams(d):
    d = d if isinstance(d, dict) else {}
    out = []
    for w in sorted(d):
        x = d[w]
        out.append({"w": w, "c": count(x.get("correct")), "i": count(x.get("insertions")),
                    "d": count(x.get("deletions")), "fp": count(x.get("substitutions_fp")),
                    "fn": count(x.get("substitutions_fn")), "p": ratio(x.get("precision", "x"), 1000),
                    "r": ratio(x.get("recall", "x"), 1000)})
    return out


def caseblock(d):
    d = d if isinstance(d, dict) else {}
    return {"tp": count(d.get("true_positive")), "fp": count(d.get("false_positive")),
            "fn": count(d.get("false_negative")), "p": ratio(d.get("precision", "x")), "r": ratio(d.get("recall", "x"))}


def tm(s):
    if s == "":
        return -1
    try:
        return int(round(float(s) * 10000))
    except ValueError:
        return -9


def nlp_lines(text):
    """The aligned NLP file; None when it is not one."""
    if text is None:
        return None
    lines = text.split("\n")
    if lines[0] != NLPCOLS or lines[-1] != "":
        return None
    out = []
    for ln in lines[1:-1]:
        f = ln.split("|")
        if len(f) != 13:
            return None
        g = re.fullmatch(r"\[(?:'([^']*)'(?:, '([^']*)')*)?\]", f[8])
        out.append({"t": f[0], "s": f[1], "b": tm(f[2]), "f": tm(f[3]), "p": f[4], "pp": f[5], "ca": f[6], "lb": f[7],
                    "g": re.findall(r"'([^']*)'", f[8]) if g else ["?" + f[8]],
                    "ots": f[9], "oet": f[10], "cm": f[11], "cf": f[12]})
    return out


STD1 = re.compile(r"best WER: (-?\d+)/(-?\d+) = (\S+) \(Total words in reference: (-?\d+)\)")
STD2 = re.compile(r"best WER: INS:(-?\d+) DEL:(-?\d+) SUB:(-?\d+)")
STD3 = re.compile(r"best WER: Precision:(\S+) Recall:(\S+)")


def stdout_of(text):
    text = re.sub(r"\x1b\[[0-9;]*m", "", text or "")
    a, b, c = STD1.search(text), STD2.search(text), STD3.search(text)
    if not (a and b and c):
        return None
    return {"ins": int(b.group(1)), "del": int(b.group(2)), "sub": int(b.group(3)), "err": int(a.group(1)),
            "wds": int(a.group(2)), "tot": int(a.group(4)), "wer": ratio(a.group(3)), "prec": ratio(c.group(1)),
            "rec": ratio(c.group(2))}


LINE = re.compile(r"\[wer\] (class|speaker|Wer Entity ID|Speaker switch) ?(.*?) *WER: (-?\d+)/(-?\d+) = (\S+)(?: \(Total reference words: (-?\d+)\))?$", re.M)
SWITCH = re.compile(r"\[wer\] Speaker switch WER: INS:(-?\d+) DEL:(-?\d+) SUB:(-?\d+)$", re.M)
CASE = re.compile(r"\[wer\] case WER, \((matching|all)[^)]*\): Precision:(\S+) Recall:(\S+)$", re.M)


def lines_of(text):
    """The figures of single classes, speakers and tags on standard output, by kind."""
    text = re.sub(r"\x1b\[[0-9;]*m", "", text or "")
    d = {"cls": [], "spk": [], "tag": [], "sw": [], "sws": [], "cas": []}
    kind = {"class": "cls", "speaker": "spk", "Wer Entity ID": "tag", "Speaker switch": "sw"}
    for m in LINE.finditer(text):
        d[kind[m.group(1)]].append({"nm": m.group(2), "err": int(m.group(3)), "wds": int(m.group(4)), "wer": ratio(m.group(5)),
                                    "tot": int(m.group(6) or m.group(4))})
    for m in SWITCH.finditer(text):
        d["sws"].append({"ins": int(m.group(1)), "del": int(m.group(2)), "sub": int(m.group(3))})
    for m in CASE.finditer(text):
        d["cas"].append({"nm": m.group(1), "p": ratio(m.group(2)), "r": ratio(m.group(3))})
    return d


NOSTD = {k: -9 for k in ("ins", "del", "sub", "err", "wds", "tot", "wer", "prec", "rec")}


def inputs(c):
    """What the specification is told about a case's inputs."""
    o, ref, hyp = c["o"], c["ref"], c["hyp"]
    d = {}
    d["o"] = {"ap": o["ap"], "pre": o["pre"], "usecase": o["usecase"], "usepunc": o["usepunc"], "nocut": o["nocut"],
              "nohyph": o["nohyph"], "ctx": o["ctx"], "thr": o["thr"] or 0, "addins": o["addins"],
              "recase": o["recase"], "nb": 100 if o["nb"] is None else o["nb"], "rf": ref["fmt"], "hf": hyp["fmt"]}
    keys = ("t", "s", "p", "pp", "ca", "lb", "li", "ln", "g", "ts", "et", "cf")
    d["ref"] = [{k: x[k] for k in keys} for x in ref["rows"]]
    d["norm"] = [{"id": e["id"], "cands": e["cands"]} for e in c["norm"]] if c["hasnorm"] else []
    d["rules"] = [{"k": e["k"], "l": e["l"], "r": e["r"]} for e in c["rules"]] if c["hassyn"] else []
    d["side"] = [{"id": e["id"], "ty": e["ty"]} for e in c["side"]] if c["hasside"] else []
    d["hyp"], d["hp"] = list(hyp["words"]), list(hyp["punct"])
    d["ht"] = [{"b": int(round(b * 10000)), "f": int(round((b + q) * 10000))} for b, q in hyp["times"]]
    return d


def record(cid, c, r, want):
    """The record of one run of case c with result r."""
    o, ref, hyp = c["o"], c["ref"], c["hyp"]
    d = {"id": cid, "want": list(want)}
    d.update(inputs(c))
    outs = c.get("outs", ("json", "sbs", "nlp"))
    rows, groups = rows_of(r.get("out.sbs"))
    std = stdout_of(r.get("stdout"))
    j = fsx.parse_json(r.get("out.json")) if "json" in outs else {}
    w = (j or {}).get("wer") if isinstance(j, dict) else None
    w = w if isinstance(w, dict) else {}
    nlp = nlp_lines(r.get("out.nlp")) if ref["fmt"] == "nlp" and "nlp" in outs else []
    d["lines"] = lines_of(r.get("stdout"))
    d["sbs"], d["js"], d["sub"] = "sbs" in outs, "json" in outs, c.get("sub", "wer")
    d["logged"] = "log" not in outs or "best WER" in (r.get("out.log") or "")
    d["st"] = "%s %d" % (r["status"], r["code"])
    said = re.search(r"\bdone\s*$", re.sub(r"\x1b\[[0-9;]*m", "", r.get("stdout") or "").rstrip() + "\n") is not None
    d["full"] = ("sbs" not in outs or rows is not None) and std is not None and nlp is not None \
        and ("json" not in outs or c.get("sub", "wer") != "wer" or j is not None) and said
    d["rows"], d["groups"], d["std"], d["nlp"] = rows or [], groups or [], std or NOSTD, nlp or []
    d["secs"] = sorted(w)
    b = w.get("bestWER") or {}
    d["best"] = res("", b)
    d["best"]["prec"], d["best"]["rec"] = ratio(b.get("precision", "x")), ratio(b.get("recall", "x"))
    d["cls"] = [res(k, v) for k, v in sorted((w.get("classWER") or {}).items())]
    d["spk"] = [res(k, v) for k, v in sorted((w.get("speakerWER") or {}).items())]
    d["tag"] = [res(k, v) for k, v in sorted((w.get("wer_tag") or {}).items())]
    d["sent"] = [res("", v) for v in (w.get("sentenceWer") or [])]
    sw = w.get("speakerSwitchWER")
    d["sw"] = []
    if isinstance(sw, dict):
        x = res("", sw)
        x["ws"] = count((sw.get("meta") or {}).get("windowSize"))
        d["sw"] = [x]
    d["uni"], d["bi"] = grams(w.get("unigrams")), grams(w.get("bigrams"))
    cs = w.get("caseWER") or {}
    d["cas"] = [caseblock(cs.get("matching")), caseblock(cs.get("all"))]
    return d
