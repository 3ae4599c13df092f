"""Check runner core: case loop, oracle reporting, known findings, evidence, verdict.

Verdicts: 0 held on what was observed; 1 + VIOLATION line; 2 inconclusive / harness error.
"""
import os, sys, json, time, zlib, traceback, hashlib, logging

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VP_REPO", "/repo")
SCALE = float(os.environ.get("VP_SCALE", "1"))
MAXV = int(os.environ.get("VP_MAXV", "6"))
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)

import numpy as np


class CaseAbort(Exception):
    """A violation was recorded, the rest of the case is meaningless."""


OUTPUT_ERRORS = (LookupError, ValueError, TypeError, AttributeError, ArithmeticError)


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth+1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth+1) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {"re": float(x.real), "im": float(x.imag)}
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def fingerprint(x):
    return hashlib.sha1(json.dumps(jsonable(x), sort_keys=True).encode()).hexdigest()[:16]


class Ctx:
    def __init__(self, prop, rule, assumptions=(), tier=None, seed=None, only=None):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.only = only            # (stage, index) for replay
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.stage_counts = {}
        self.required = {}
        self.violations = []
        self.known_hits = {}
        self.harness_errors = []
        self.cur = None
        self.budget = float(os.environ.get("VP_BUDGET", "420" if self.tier == "quick" else "3000"))
        self.known = load_known(prop)
        self.stride = (0, 1)
        self.scratch = None

    # ------------------------------------------------------------------ case loop
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        k = int(quick if not self.thorough() else (thorough if thorough is not None else 5*quick))
        # VP_SCALE: shorter workloads for experiments (never set by the registered commands)
        return max(2, int(k*SCALE)) if SCALE != 1.0 and k > 12 else k

    def ploop(self, stage, count, fn, require=None, workers=None):
        """As loop, spread over forked workers (cases are independent; results are merged)."""
        workers = workers or int(os.environ.get("VP_WORKERS", min(8, os.cpu_count() or 1)))
        if self.only or workers <= 1 or count < 2:
            return self.loop(stage, count, fn, require)
        import pickle
        sys.stdout.flush()
        jobs = []
        base = os.path.join(self.scratch, "pl_%s" % stage)
        for w in range(min(workers, count)):
            path = "%s_%d" % (base, w)
            pid = os.fork()
            if pid == 0:
                try:
                    self.reset()
                    hook = getattr(self, "on_fork", None)
                    if hook:
                        hook()
                    self.scratch = path+"_d"
                    os.makedirs(self.scratch, exist_ok=True)
                    self.stride = (w, min(workers, count))
                    self.loop(stage, count, fn, require)
                    st = {k: getattr(self, k) for k in ("evaluations", "nontrivial", "samples", "counters", "stage_counts", "violations", "known_hits", "harness_errors")}
                    with open(path, "wb") as f:
                        pickle.dump(st, f)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            jobs.append((pid, path))
        for (pid, path) in jobs:
            (_, status) = os.waitpid(pid, 0)
            if status != 0 or not os.path.exists(path):
                self.harness_errors.append((stage, -1, "worker ended with status %s" % status))
                continue
            with open(path, "rb") as f:
                st = pickle.load(f)
            os.remove(path)
            self.evaluations += st["evaluations"]
            self.nontrivial |= st["nontrivial"]
            self.samples = (self.samples+st["samples"])[:4]
            for k, v in st["counters"].items():
                if k.startswith("worst:"):
                    self.counters[k] = max(self.counters.get(k, 0.0), v)
                else:
                    self.counters[k] = self.counters.get(k, 0)+v
            for k, v in st["stage_counts"].items():
                self.stage_counts[k] = self.stage_counts.get(k, 0)+v
            self.violations += st["violations"]
            self.known_hits.update(st["known_hits"])
            self.harness_errors += st["harness_errors"]
        self.violations.sort(key=lambda v: (v.get("stage") or "", v.get("index") or 0))
        need = require if require is not None else max(1, count//3)
        self.required[stage] = min(need, count)

    def reset(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.stage_counts = {}
        self.violations = []
        self.known_hits = {}
        self.harness_errors = []

    def loop(self, stage, count, fn, require=None):
        """Run fn(rng, i) for every case; a case is replayable from (seed, stage, i).
        require: minimum number of cases that must complete (else inconclusive)."""
        if self.only and self.only[0] != stage:
            return
        done = 0
        (w, k) = self.stride
        idx = range(w, count, k) if not self.only else [self.only[1]]
        for i in idx:
            if time.time()-self.t0 > self.budget:
                self.count("skipped_budget:"+stage)
                continue
            if len(self.violations) >= MAXV:
                done += 1
                continue
            rng = np.random.default_rng([self.seed, zlib.crc32((self.prop+stage).encode()), i])
            self.cur = {"stage": stage, "index": i, "seed": self.seed, "tier": self.tier, "case": None}
            try:
                fn(rng, i)
                done += 1
            except CaseAbort:
                done += 1
            except OUTPUT_ERRORS as ex:
                # the oracle could not read what the code under test returned (missing field, wrong shape or type)
                if isinstance(ex, OSError):
                    self.harness_errors.append((stage, i, traceback.format_exc()))
                    continue
                tb = traceback.extract_tb(sys.exc_info()[2])
                where = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
                self.count("output_not_interpretable")
                self.fail("the output is not as documented: the monitor failed with %s: %s (%s)" % (type(ex).__name__, str(ex)[:300], where))
                done += 1
            except Exception:
                self.harness_errors.append((stage, i, traceback.format_exc()))
        self.stage_counts[stage] = self.stage_counts.get(stage, 0)+done
        need = require if require is not None else max(1, count//3)
        if not self.only:
            self.required[stage] = min(need, count)
        self.cur = None

    def case(self, desc, nontrivial=True, key=None):
        """Register the case being judged."""
        self.evaluations += 1
        if self.cur is not None:
            self.cur["case"] = desc
        k = fingerprint(key if key is not None else desc)
        if nontrivial:
            self.nontrivial.add(k)
        if len(self.samples) < 4 and nontrivial:
            s = jsonable(desc)
            txt = json.dumps(s)
            self.samples.append(s if len(txt) < 4000 else txt[:4000]+"...")

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0)+k

    # ------------------------------------------------------------------ oracles
    def fail(self, msg, mechanism="", abort=False, **data):
        """Record a violation. mechanism: stable text identifying how it fails (for known findings)."""
        for kf in self.known:
            if kf["mechanism"] and kf["mechanism"] == mechanism:
                self.known_hits.setdefault(kf["mechanism"], kf["what"])
                self.count("known_finding")
                if abort:
                    raise CaseAbort()
                return
        self.violations.append({"property": self.prop, "message": msg, "mechanism": mechanism,
                                "data": jsonable(data), **jsonable(self.cur or {})})
        if abort:
            raise CaseAbort()

    def expect(self, cond, msg, mechanism="", abort=False, **data):
        self.count("assertions")
        if not cond:
            self.fail(msg, mechanism, abort, **data)
        return bool(cond)

    def close(self, a, b, tol, msg, scale=None, mechanism="", abort=False, **data):
        """Relative comparison: max|a-b| <= tol*scale."""
        self.count("assertions")
        try:
            a = np.asarray(a)
            b = np.asarray(b)
            ok_shape = a.shape == b.shape or a.ndim == 0 or b.ndim == 0
            if not ok_shape:
                self.fail(msg+": shapes %s and %s" % (a.shape, b.shape), mechanism, abort, **data)
                return False
            if a.size == 0 and b.size == 0:
                return True
            err = np.max(np.abs(a-b))
            if scale is None:
                scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
            ok = bool(np.isfinite(err)) and err <= tol*scale
        except (TypeError, ValueError) as ex:
            self.fail(msg+": not comparable: %r" % ex, mechanism, abort, **data)
            return False
        if not ok:
            self.fail(msg+": error %.3e, scale %.3e, tol %.1e" % (err, scale, tol), mechanism, abort, got=a if a.size <= 40 else "large", want=b if b.size <= 40 else "large", **data)
        else:
            if scale and np.isfinite(scale) and scale > 0:
                key = "worst:"+msg.split(" [")[0]
                self.counters[key] = max(self.counters.get(key, 0.0), float(err/scale))
        return ok

    def call(self, fn, *args, **kw):
        """Call the code under test on input that must be accepted."""
        try:
            return fn(*args, **kw)
        except Exception as ex:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = "%s:%d" % (tb[-1].filename, tb[-1].lineno)
            self.fail("unexpected exception on valid input: %s: %s (%s)" % (type(ex).__name__, str(ex)[:300], where),
                      mechanism="", abort=True)

    def raises(self, fn, *args, what="", mechanism="", allow=(Exception,), **kw):
        """Call the code under test on input that must be rejected."""
        self.count("assertions")
        try:
            fn(*args, **kw)
        except allow:
            return True
        self.fail("invalid input accepted: %s" % what, mechanism)
        return False

    # ------------------------------------------------------------------ verdict
    def finish(self):
        inconclusive = []
        for stage, need in self.required.items():
            if self.stage_counts.get(stage, 0) < need:
                inconclusive.append("stage %s completed %d of %d required cases" % (stage, self.stage_counts.get(stage, 0), need))
        if self.counters.get("assertions", 0) == 0 and not self.violations:
            inconclusive.append("no assertion was evaluated")
        ev = {
            "property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.nontrivial),
                "rule": self.rule,
                "samples": self.samples or ["none"],
                "stages": self.stage_counts,
                "monitor_counters": {k: v for k, v in sorted(self.counters.items())},
                "known_findings_seen": list(self.known_hits.values()),
                "harness_errors": len(self.harness_errors),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time()-self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not self.only and not os.environ.get("VP_NOEV"):
            with open(os.path.join(VERIF, "evidence", self.prop+".json"), "w") as f:
                json.dump(jsonable(ev), f, indent=1)
        for what in self.known_hits.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d assertions, %.1f s" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.nontrivial), self.counters.get("assertions", 0), time.time()-self.t0))
        for (stage, i, txt) in self.harness_errors[:2]:
            print("HARNESS-ERROR stage=%s index=%d\n%s" % (stage, i, txt))
        if self.violations:
            rdir = os.path.join(VERIF, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s%s.json" % (self.prop, os.environ.get("VP_NOEV", "")))
            with open(path, "w") as f:
                json.dump(self.violations, f, indent=1)
            for v in self.violations[:6]:
                print("  violated: [%s #%s] %s" % (v.get("stage"), v.get("index"), v["message"][:600]))
            print("  replay: python3 harness/run.py %s --seed %d --replay STAGE:INDEX" % (self.prop, self.seed))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)))
            return 1
        if self.harness_errors:
            print("INCONCLUSIVE: harness errors")
            return 2
        if inconclusive:
            print("INCONCLUSIVE: "+"; ".join(inconclusive))
            return 2
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get("findings", []) if x["property"] == prop]
