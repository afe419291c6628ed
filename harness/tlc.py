"""Runs TLC on the specifications in /verif/spec."""
import json
import os
import re
import shutil
import subprocess

import fsx

SPEC = os.path.join(fsx.VERIF, "spec")


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, workers=8, timeout=800, args=(), heap="6g"):
    """-> (returncode, output, stats)."""
    d = fsx.scratch("tlc")
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -Xss512m -Xmx%s -Djava.io.tmpdir=%s" % (heap, d)
    e["LC_ALL"] = "C.UTF-8"
    e.update(env or {})
    cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", "-config",
           os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    st = {}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st = {"transitions": int(m.group(1)), "states": int(m.group(2))}
    return p.returncode, out, st


def judge(module, records, timeout=800, workers=8, cfg=None):
    """Runs a trace specification over the records; -> ({id: [what is broken]}, stats)."""
    if not records:
        return {}, {"transitions": 0, "states": 0}
    d = fsx.scratch("trc")
    path = os.path.join(d, "trace.ndjson")
    try:
        with open(path, "w", encoding="utf-8") as f:
            for r in records:
                f.write(json.dumps(r, ensure_ascii=False) + "\n")
        rc, out, st = run(module, cfg, {"TRACE": path}, workers, timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    got = {}
    for m in re.finditer(r'^"?VERDICT (\d+)((?:;[^;"\n]*)*)"?$', out, re.M):
        v = got.setdefault(int(m.group(1)), [])
        v += [x for x in m.group(2).split(";") if x and x not in v]
    if rc != 0 or len(got) != len(records):
        raise TlcError("%s: TLC ended with %d, %d verdicts for %d cases\n%s" % (module, rc, len(got), len(records),
                                                                               out[-1800:]))
    return got, st
