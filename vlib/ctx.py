"""The life of one check: build, model-check, drive the implementation, validate, report."""
import glob
import json
import os
import random
import sys
import time
import traceback

from . import tlc
from .build import VERIF, MachineryError

KNOWN = VERIF + "/known_findings.json"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.samples = 0
        self.models, self.drivers = [], []
        self.violations, self.known_hits = [], []
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.findings = [f for f in json.load(open(KNOWN))["findings"]
                         if f["property"] == pid] if os.path.exists(KNOWN) else []
        self.examples = []
        self.assumptions = []
        self.exhaustive = True

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- specification side ------------------------------------------------------------
    def model(self, module, cfg, name=None, env=None, workers=8, timeout=700, heap="6g"):
        r = tlc.model(module, cfg, env=env, workers=workers, timeout=timeout, heap=heap)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": name or module, "distinct": r.distinct,
                            "generated": r.generated, "wall_s": round(r.wall, 1)})
        self.log("model %s: %d states generated, %d distinct, %.1fs" % (
            name or module, r.generated, r.distinct, r.wall))
        if r.distinct == 0:
            raise MachineryError("model %s explored nothing" % module)
        return r

    def model_cases(self, module, cfg, **kw):
        """Model-checks and returns the behaviours the model prints (@@C json lines)."""
        r = self.model(module, cfg, workers=kw.pop("workers", 1), **kw)
        c = tlc.cases(r)
        if not c:
            raise MachineryError("model %s printed no behaviour" % module)
        return c

    # -- conformance -------------------------------------------------------------------
    def validate(self, module, groups, what, samples=0, shards=7, cfg=None, timeout=800,
                 replay=None):
        """groups: traces of events recorded from the implementation. Every clause the
        specification rejects becomes a violation (unless it is a listed finding)."""
        if not groups:
            raise MachineryError("nothing to validate for " + what)
        t = time.time()
        bad, states = tlc.validate(module, groups, shards=shards, cfg=cfg, timeout=timeout)
        self.traces += len(groups)
        for g in (groups[:1] + groups[-1:]):
            ex = json.dumps([{k: v for k, v in e.items() if not k.startswith("_")} for e in g[:3]])
            self.examples.append({"driver": what, "trace": ex[:1500]})
        self.samples += samples
        self.states += states
        self.transitions += states
        self.drivers.append({"driver": what, "traces": len(groups),
                             "events": sum(len(g) for g in groups), "sampled": samples,
                             "rejected": len(bad)})
        self.log("validated %s: %d traces, %d events, %d rejected, %.1fs" % (
            what, len(groups), sum(len(g) for g in groups), len(bad), time.time() - t))
        for g, k, cl in bad:
            ev = groups[g][k]
            self.violation(what, cl, {"driver": what, "module": module, "event_index": k,
                                      "clauses": cl, "event": ev,
                                      "trace": groups[g] if len(groups[g]) <= 60 else None},
                           key=ev.get("_key"))
        return bad

    def violation(self, what, clauses, data, key=None):
        for f in self.findings:
            if f.get("driver") == what and set(clauses) <= set(f["clauses"]) and (
                    key is not None and key in f["keys"]):
                self.known_hits.append(f["what"])
                return
        data.setdefault("clauses", clauses)
        data.setdefault("driver", what)
        self.violations.append(data)

    # -- report ------------------------------------------------------------------------
    def finish(self):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        for p in glob.glob(VERIF + "/evidence/replay/%s-*.json" % self.pid):
            os.remove(p)
        paths = []
        for i, v in enumerate(self.violations[:int(os.environ.get("VERIF_MAXREPLAY","20"))]):
            p = "%s/evidence/replay/%s-%d.json" % (VERIF, self.pid, i)
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            paths.append(p)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.examples[:12],
               "cases_sampled": self.samples, "models": self.models, "drivers": self.drivers,
               "known_findings_seen": sorted(set(self.known_hits))}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions or ["bounds as printed by the models listed in coverage"],
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
        for w in sorted(set(self.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        for p, v in zip(paths, self.violations):
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  %s: %s" % (v["driver"], "; ".join(v["clauses"])[:500]))
        self.log("states %d, traces %d, samples %d, violations %d" % (
            self.states, self.traces, self.samples, len(self.violations)))
        return 1 if self.violations else 0


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        mod = __import__("props." + pid.lower(), fromlist=["run"])
        mod.run(ctx)
        return ctx.finish()
    except MachineryError as e:
        print("ERROR: machinery: %s" % e)
        if ctx.violations:
            ctx.finish()
            return 1
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            ctx.finish()
            return 1
        return 2
