"""Builds the real fstalign from /repo and runs batches of cases through it.

This file holds no oracle: it renders abstract cases to input files, runs the
program, and projects what the program wrote into plain records.  The
TLA+ specifications in /verif/spec decide whether a record is acceptable.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
US = "\x1f"


def scratch(prefix):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def _digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _forget_stale(bdir):
    """Removes the objects whose sources are not those they were made from (times can mislead)."""
    now, stamp = {}, os.path.join(bdir, "sources.json")
    src = os.path.join(REPO, "src")
    for d, _, fs in list(os.walk(src)) + list(os.walk(os.path.join(REPO, "third-party"))) + \
            list(os.walk(os.path.join(VERIF, "harness"))):
        for f in fs:
            if f.endswith((".cpp", ".h", ".hpp", ".cc", ".hh", "Makefile")):
                now[os.path.join(d, f)] = _digest(os.path.join(d, f))
    try:
        with open(stamp) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = None
    if old == now:
        return
    changed = set(k for k in set(now) | set(old or {}) if (old or {}).get(k) != now.get(k))
    everything = old is None or any(not k.endswith(".cpp") for k in changed)
    os.makedirs(bdir, exist_ok=True)
    for f in os.listdir(bdir):
        if f == "sources.json":
            continue
        base = f[:-2] if f.endswith(".o") else None
        if everything or base is None or base == "main_renamed" or any(os.path.basename(k) == base + ".cpp" for k in changed):
            os.remove(os.path.join(bdir, f))
    with open(stamp, "w") as f:
        json.dump(now, f)


def build(bdir=None, opt="-O1", targets=("all",)):
    """Build fstalign and its runner (or apidrv) from /repo's working tree; returns the build dir."""
    bdir = bdir or os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build", "o")
    os.makedirs(bdir, exist_ok=True)
    _forget_stale(bdir)
    p = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "harness"), "-j%d" % NCPU,
                        "B=" + bdir, "OPT=" + opt, "REPO=" + REPO] + [t if t == "all" else os.path.join(bdir, t) for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout)
        print("build of /repo failed")
        sys.exit(3)
    return bdir


class Case:
    """One run of the program.  files: name -> text or bytes.  outs: files to read back."""
    __slots__ = ("files", "args", "outs", "meta", "res", "timeout", "cid")

    def __init__(self, files, args, outs=(), meta=None, timeout=20, cid=None):
        self.files, self.args, self.outs = files, args, outs
        self.meta, self.timeout, self.cid = meta or {}, timeout, cid
        self.res = None


def _run_chunk(runner, root, chunk, errors):
    try:
        lines = []
        for i, c in chunk:
            d = os.path.join(root, "c%d" % i)
            os.mkdir(d)
            for n, t in c.files.items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(t if isinstance(t, bytes) else t.encode("utf-8"))
            lines.append(US.join([d, str(c.timeout)] + list(c.args)) + "\n")
        p = subprocess.Popen([runner], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL,
                             env=dict(os.environ, LC_ALL="C.UTF-8"))
        out, _ = p.communicate("".join(lines).encode("utf-8"))
        got = out.decode("utf-8", "replace").split("\n")
        for k, (i, c) in enumerate(chunk):
            d = os.path.join(root, "c%d" % i)
            f = got[k].split() if k < len(got) else []
            if len(f) != 3:
                raise RuntimeError("runner died at case %d" % i)
            r = {"status": f[1], "code": int(f[2])}
            for n in list(c.outs) + ["stdout"]:
                try:
                    with open(os.path.join(d, n), "rb") as g:
                        r[n] = g.read().decode("utf-8", "replace")
                except OSError:
                    r[n] = None
            c.res = r
            shutil.rmtree(d, ignore_errors=True)
    except Exception as e:  # noqa
        errors.append(e)


def run_cases(cases, bdir, jobs=NCPU):
    root = scratch("fsx")
    runner = os.path.join(bdir, "runner")
    try:
        idx = list(enumerate(cases))
        step = 100
        chunks = [idx[k:k + step] for k in range(0, len(idx), step)]
        if len(idx) < jobs * step:
            step = max(1, (len(idx) + jobs - 1) // jobs)
            chunks = [idx[k:k + step] for k in range(0, len(idx), step)]
        errors = []
        lock = threading.Lock()

        def work():
            while True:
                with lock:
                    if not chunks or errors:
                        return
                    ch = chunks.pop()
                _run_chunk(runner, root, ch, errors)

        ts = [threading.Thread(target=work) for _ in range(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return cases


# ---------------------------------------------------------------- projections
def parse_sbs(text):
    """-> (rows, groups): rows = [ref, hyp, err, class, tags]; groups = [line, ref side, hyp side]."""
    if text is None:
        return None, None
    lines = text.split("\n")
    rows, groups = [], []
    i = 1
    while i < len(lines) and lines[i] != "-" * 60:
        f = lines[i].split("\t")
        if len(f) >= 5:
            rows.append([f[0].lstrip(" "), f[1].rstrip(" "), f[2], f[3], f[4]])
        elif lines[i] != "":
            rows.append(["?bad-row?", lines[i], "", "", ""])
        i += 1
    if i >= len(lines):
        return rows, None
    i += 2
    for ln in lines[i:]:
        if ln == "":
            continue
        f = ln.split("\t", 1)
        if len(f) < 2 or not f[0].strip().isdigit():
            groups.append([-1, ln, ""])
            continue
        a, _, b = f[1].partition("<->")
        groups.append([int(f[0]), a, b])
    return rows, groups


def parse_json(text):
    if not text:
        return None
    def no_constant(x):
        raise ValueError("not JSON: " + x)
    try:
        return json.loads(text, parse_constant=no_constant)
    except ValueError:
        return None


BEST = re.compile(r"best WER: (-?\d+)/(-?\d+) = (\S+)")
BEST2 = re.compile(r"best WER: INS:(-?\d+) DEL:(-?\d+) SUB:(-?\d+)")


def parse_stdout(text):
    text = re.sub(r"\x1b\[[0-9;]*m", "", text or "")
    m, m2 = BEST.search(text), BEST2.search(text)
    if not m or not m2:
        return None
    return {"errors": int(m.group(1)), "words": int(m.group(2)), "wer": m.group(3),
            "ins": int(m2.group(1)), "del": int(m2.group(2)), "sub": int(m2.group(3))}
