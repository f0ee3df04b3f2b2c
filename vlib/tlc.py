"""Runs TLC: exhaustive model checking and trace validation."""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from .build import BUILD, VERIF, MachineryError

SPEC = VERIF + "/spec"
JARS = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    p = subprocess.run(["cat", _which("tlc")], capture_output=True, text=True).stdout
    m = re.search(r"-cp\s+(\S+)", p)
    return m.group(1) if m else JARS


def _which(x):
    for d in os.environ.get("PATH", "").split(":") + ["/usr/local/bin", "/opt/veriftools/bin"]:
        if os.path.exists(d + "/" + x):
            return d + "/" + x
    raise MachineryError("no " + x)


_CP = None


def _unquote(s):
    # TLC prints a string value as "...", with \" and \\ escaped.
    s = s.strip()
    if s.startswith('"') and s.endswith('"'):
        return re.sub(r"\\(.)", r"\1", s[1:-1])
    return s


class Result:
    pass


def run(module, cfg, env=None, workers=1, timeout=600, heap="2g", extra=(), tag=""):
    """Runs TLC on spec/<module>.tla with the configuration text; returns a Result."""
    global _CP
    if _CP is None:
        _CP = _classpath()
    work = "%s/tlc/%s%s.%d" % (BUILD, module, tag, os.getpid())
    os.makedirs(work, exist_ok=True)
    cfgp = work + "/" + module + ".cfg"
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if workers > 1 else "-Dx=1",
           "-cp", _CP, "tlc2.TLC", "-config", cfgp, "-workers", str(workers), "-deadlock",
           "-noGenerateSpecTE", "-metadir", work + "/states"] + list(extra) + [SPEC + "/" + module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=e, cwd=SPEC)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    finally:
        subprocess.run(["rm", "-rf", work], check=False)
    r = Result()
    r.rc, r.out, r.wall = rc, out, time.time() - t
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.prints = {}
    for line in out.splitlines():
        u = _unquote(line) if line.startswith('"@@') else None
        if u:
            key, _, val = u[2:].partition(" ")
            r.prints.setdefault(key, []).append(val)
    return r


def model(module, cfg, env=None, workers=8, timeout=600, heap="6g", extra=()):
    """Exhaustive check of a model; a violated invariant means the *specification* is inconsistent."""
    r = run(module, cfg, env=env, workers=workers, timeout=timeout, heap=heap, extra=extra)
    if r.rc != 0:
        raise MachineryError("TLC on %s: rc=%s\n%s" % (module, r.rc, r.out[-5000:]))
    return r


def cases(r, key="C"):
    return [json.loads(x) for x in r.prints.get(key, [])]


def validate(module, groups, shards=7, timeout=800, heap="3g", cfg=None):
    """Trace validation. groups: list of traces (each a list of event dicts). Returns
    (bad, states): bad = list of (group index, event index in group, [clauses])."""
    cfg = cfg or "SPECIFICATION Spec\nINVARIANT Report\n"
    shards = max(1, min(shards, len(groups)))
    # balance by size
    sizes = sorted(range(len(groups)), key=lambda i: -_weight(groups[i]))
    parts, load = [[] for _ in range(shards)], [0] * shards
    for i in sizes:
        k = load.index(min(load))
        parts[k].append(i)
        load[k] += _weight(groups[i])
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(lambda a: _validate_part(module, groups, a[1], a[0], timeout, heap, cfg),
                          enumerate(sorted(p) for p in parts)))
    bad = sorted((b for r in res for b in r[0]), key=lambda x: (x[0], x[1]))
    return bad, sum(r[1] for r in res)


def _weight(g):
    return sum(e.get("_w", 1) for e in g)


def _validate_part(module, groups, idx, shard, timeout, heap, cfg):
    d = "%s/traces" % BUILD
    os.makedirs(d, exist_ok=True)
    path = "%s/%s.%d.%d.ndjson" % (d, module, os.getpid(), shard)
    todo, bad, states = list(idx), [], 0
    try:
        for _ in range(25):
            if not todo:
                break
            where = []
            with open(path, "w") as f:
                for g in todo:
                    for k, e in enumerate(groups[g]):
                        where.append((g, k))
                        f.write(json.dumps({x: y for x, y in e.items() if not x.startswith("_")},
                                           separators=(",", ":")) + "\n")
            r = run(module, cfg, env={"TRACE": path}, timeout=timeout, heap=heap, tag=".%d" % shard)
            v = r.prints.get("V")
            if r.rc == 0 and v:
                states += r.distinct
                for item in json.loads(v[-1]):
                    g, k = where[item["l"] - 1]
                    bad.append((g, k, sorted(item["v"])))
                break
            # The specification could not be evaluated on one event: name it, drop its trace, go on.
            m = re.findall(r"^/\\ l = (\d+)", r.out, re.M)
            if r.rc in (-1,) or not m or not re.search(r"Error:", r.out):
                raise MachineryError("TLC on %s: rc=%s\n%s" % (module, r.rc, r.out[-5000:]))
            at = min(int(m[-1]), len(where))
            g, k = where[at - 1]
            err = re.sub(r"\s+", " ", r.out[r.out.find("Error:"):][:600])
            bad.append((g, k, ["unevaluable: " + err]))
            todo.remove(g)
        return bad, states
    finally:
        if os.path.exists(path):
            os.remove(path)
