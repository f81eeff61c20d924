"""Check context: scratch space, TLC runs, verdict collection, evidence."""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

import numpy as np

from . import tla

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def load_known():
    """known_findings.txt -> {(property, key)} of the listed (unfixed) findings."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            # finding: property=C01 key=<key> :: <text>
            head, _, text = line[len("finding: "):].partition(" :: ")
            prop, _, key = head.partition(" key=")
            out[(prop.replace("property=", "").strip(), key.strip())] = text.strip()
    return out


class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        os.chdir(self.scratch)
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.np_rng = np.random.default_rng(self.seed * 1000003 + int(pid[1:]))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.models = []
        self.viol = []      # (clause, key, detail-dict)
        self.known_hit = {}
        self.known = load_known()
        self.counts = {}

    # -- sizing
    def n(self, quick, thorough):
        if not self.quick:
            return thorough
        # case counts (not sizes or names) are affordable several times over on every change
        return min(thorough, 3 * quick) if isinstance(quick, int) and quick >= 20 else quick

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    # -- model checking the design
    def model(self, module, cfg=None, env=None, workers=8, timeout=600, simulate=None, depth=None, heap="6g"):
        r = tla.run(module, cfg, env=env, workers=workers, timeout=timeout, simulate=simulate,
                    depth=depth, scratch=self.scratch, seed=self.seed, heap=heap)
        if not r.ok:
            sys.stderr.write(r.out[-6000:])
            raise RuntimeError("design model %s/%s did not check: %s" % (module, cfg, r.why))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "cfg": cfg or module, "distinct_states": r.distinct,
                            "generated": r.generated, "seconds": round(r.secs, 1)})
        return r

    # -- trace validation
    def trace(self, module, events, traces=None, cfg=None, consts=None, timeout=800, heap="8g", chunk=None, par=8):
        """Validate recorded events with a trace specification.

        events: list of dicts. Each event may carry 'key' (identifies the input) and
        'replay' (python-side data needed to reproduce; not sent to TLC).
        A verdict is a PrintT line <<"BAD", l, {clauses}>> ; the end of the trace prints <<"END", n>>.
        chunk: optional list of lists (independent traces) to be validated in parallel processes.
        """
        groups = chunk if chunk is not None else [events]
        groups = [g for g in groups if g]
        jobs = []
        for gi, evs in enumerate(groups):
            path = os.path.join(self.scratch, "%s_%d_%d.ndjson" % (module, len(self.models), gi))
            with open(path, "w") as f:
                for e in evs:
                    f.write(json.dumps({k: v for k, v in e.items() if k != "replay"}, cls=Enc) + "\n")
            jobs.append((module, cfg, path))
        res = tla.run_many(jobs, self.scratch, timeout, heap, par)
        nbad = 0
        for evs, r in zip(groups, res):
            if r.end != len(evs):
                # total verdicts: an evaluation error at event k is a malformed observation of event k
                if r.eval_error:
                    k = r.last_l + 1
                    e = evs[k - 1] if 0 < k <= len(evs) else {}
                    self._bad(e, ["malformed-observation"], module, k, r.why)
                    nbad += 1
                else:
                    sys.stderr.write(r.out[-6000:])
                    raise RuntimeError("trace spec %s failed: %s" % (module, r.why))
            for l, clauses in r.bad:
                e = evs[l - 1]
                self._bad(e, clauses, module, l, "")
                nbad += 1
            self.states += r.distinct
            self.transitions += r.generated
            self.events += len(evs)
        self.traces += traces if traces is not None else sum(len(g) for g in groups)
        return nbad

    def _bad(self, e, clauses, module, l, why):
        key = str(e.get("key", ""))
        for c in clauses:
            self.violation(c, key, {"module": module, "line": l, "event": e, "why": why})

    def violation(self, clause, key, detail):
        kk = "%s@%s" % (clause, key)
        if (self.pid, kk) in self.known:
            self.known_hit[kk] = self.known[(self.pid, kk)]
            return
        self.viol.append((clause, key, detail))

    # -- running code under test
    @contextlib.contextmanager
    def quiet(self):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            yield

    def call(self, fn, *a, **k):
        """Run code under test; returns (value, None) or (None, 'ExcType: msg')."""
        try:
            with self.quiet():
                return fn(*a, **k), None
        except Exception as ex:  # an exception of the code under test is an observation
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ""
            return None, "%s: %s [%s]" % (type(ex).__name__, str(ex)[:160], where)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    # -- end
    def finish(self):
        out = os.path.join(VERIF, "out")
        os.makedirs(out, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for kk, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, text, kk))
        seen = {}
        for clause, key, detail in self.viol:
            seen.setdefault(clause, []).append((key, detail))
        printed = 0
        for clause, lst in seen.items():
            key, detail = lst[0]
            h = hashlib.sha1(("%s%s%s" % (self.pid, clause, key)).encode()).hexdigest()[:10]
            path = os.path.join(out, "%s-%s.json" % (self.pid, h))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "clause": clause, "key": key, "seed": self.seed,
                           "tier": self.tier, "occurrences": len(lst), "detail": detail,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s bash %s/check.sh %s" % (self.seed, self.tier, VERIF, self.pid)},
                          f, cls=Enc, indent=1)
            print("VIOLATION property=%s replay=%s clause=%s count=%d key=%s" % (self.pid, path, clause, len(lst), key[:300]))
            printed += 1
            if printed >= 20:
                break
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events": self.events,
               "samples": self.samples or ["none"], "models": self.models, "counts": self.counts}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, cls=Enc, indent=1)
        print("%s %s: states=%d transitions=%d traces=%d events=%d violations=%d known=%d wall=%.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, self.events,
            len(self.viol), len(self.known_hit), time.time() - self.t0))
        return 1 if self.viol else 0

    def cleanup(self):
        os.chdir("/")
        shutil.rmtree(self.scratch, ignore_errors=True)


class Enc(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, (np.integer,)):
            return int(o)
        if isinstance(o, (np.bool_,)):
            return bool(o)
        if isinstance(o, (np.floating,)):
            return float(o)
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, (set, frozenset, tuple)):
            return list(o)
        return str(o)
