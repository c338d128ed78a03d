"""Runtime-monitoring core: monitors, case scheduling, verdicts, evidence.

A *workload* drives the real pydmd classes (imported from /repo's working
tree) and reports what it observes to a `Mon`.  A `Mon` is the online monitor:
every oracle evaluation is counted by name, with the worst observed
error/tolerance ratio, so that a run that observed nothing is recognisable.

Verdicts are three-valued:
  exit 0  held on everything observed,
  exit 1  violated (VIOLATION line + replay file),
  exit 2  inconclusive (monitors not reached, too many cases timed out).
"""

import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOL_PER_CASE = 8


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """Workload generated an input outside the property's precondition."""


def import_repo():
    """Import pydmd from /repo's current working tree, and nowhere else."""
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import numpy as np  # noqa: F401
    import pydmd

    path = os.path.abspath(pydmd.__file__)
    if not path.startswith(REPO + "/"):
        raise RuntimeError("pydmd imported from %s, not from /repo" % path)
    return pydmd


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # pragma: no cover
        s = "<unreprable %s>" % type(e)
    return s if len(s) <= n else s[:n] + "..."


class Mon:
    """Online monitor for one case."""

    def __init__(self, prop, workload, index, seed):
        self.prop, self.workload, self.index, self.seed = (
            prop,
            workload,
            index,
            seed,
        )
        self.oracles = {}  # name -> [count, max ratio]
        self.events = {}
        self.violations = []
        self.sigs = set()
        self.desc = {}
        self.skips = 0

    # -- observation -----------------------------------------------------
    def event(self, name, k=1):
        self.events[name] = self.events.get(name, 0) + k

    def sig(self, *parts):
        """Record the (non-trivial) shape of what this case exercised."""
        self.sigs.add("|".join(str(p) for p in parts))

    def describe(self, **kw):
        for k, v in kw.items():
            self.desc[k] = short(v, 160)

    def _hit(self, name, ratio=0.0):
        o = self.oracles.setdefault(name, [0, 0.0])
        o[0] += 1
        if ratio > o[1]:
            o[1] = float(ratio)

    def fail(self, name, detail="", kind=None):
        if len(self.violations) < MAX_VIOL_PER_CASE:
            self.violations.append(
                {
                    "oracle": name,
                    "kind": kind or name,
                    "detail": short(detail, 700),
                    "workload": self.workload,
                    "index": self.index,
                    "seed": self.seed,
                    "desc": dict(self.desc),
                }
            )

    # -- oracles ---------------------------------------------------------
    def ok(self, name, cond, detail="", kind=None):
        self._hit(name)
        if not bool(cond):
            self.fail(name, detail, kind)
            return False
        return True

    def eq(self, name, a, b, detail="", kind=None):
        return self.ok(
            name, a == b, "%s: %s != %s" % (detail, short(a), short(b)), kind
        )

    def close(self, name, a, b, tol=1e-8, detail="", kind=None, scale=None):
        """|a-b| <= tol * scale entrywise; scale defaults to max(1,|b|_max)."""
        import numpy as np

        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self._hit(name, float("inf"))
            self.fail(
                name, "%s shape %s != %s" % (detail, a.shape, b.shape), kind
            )
            return False
        if a.size == 0:
            self._hit(name)
            return True
        if scale is None:
            scale = max(1e-300, float(np.max(np.abs(b))) if b.size else 1.0)
            scale = max(scale, 1e-12)
        with np.errstate(all="ignore"):
            err = np.max(np.abs(a - b))
        if not np.isfinite(err):
            same = np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(
                np.nan_to_num(a), np.nan_to_num(b)
            )
            self._hit(name, 0.0 if same else float("inf"))
            if not same:
                self.fail(name, "%s non-finite difference" % detail, kind)
            return same
        ratio = float(err) / (tol * scale)
        self._hit(name, ratio)
        if ratio > 1.0:
            self.fail(
                name,
                "%s: max abs err %.3e > tol %.1e * scale %.3e"
                % (detail, err, tol, scale),
                kind,
            )
            return False
        return True

    def le(self, name, a, b, detail="", kind=None):
        """a <= b, ratio recorded when b > 0."""
        a = float(a)
        b = float(b)
        ratio = a / b if b > 0 else (0.0 if a <= b else float("inf"))
        self._hit(name, ratio if ratio == ratio else float("inf"))
        if not a <= b:
            self.fail(name, "%s: %.6e > %.6e" % (detail, a, b), kind)
            return False
        return True

    def raises(self, name, exc, fn, detail="", kind=None):
        """fn() must raise one of exc (and must not return a result)."""
        try:
            res = fn()
        except exc:
            self._hit(name)
            return True
        except Exception as e:
            self._hit(name)
            self.fail(
                name,
                "%s raised %s(%s), expected %s"
                % (detail, type(e).__name__, short(e, 120), exc),
                kind,
            )
            return False
        self._hit(name)
        self.fail(
            name, "%s returned %s, expected %s" % (detail, short(res, 80), exc),
            kind,
        )
        return False

    def unchanged(self, name, before, after, detail="", kind=None):
        return self.ok(name, before == after, detail, kind)


def digest(obj, depth=0):
    """Content digest of nested python / numpy structures."""
    import numpy as np

    h = hashlib.sha1()

    def rec(o, d):
        if d > 8:
            h.update(b"<deep>")
            return
        if isinstance(o, np.ndarray):
            h.update(("nd%s%s" % (o.dtype.str, o.shape)).encode())
            if o.dtype == object:
                for e in o.ravel():
                    rec(e, d + 1)
            else:
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            h.update(b"{")
            for k in sorted(o, key=repr):
                h.update(repr(k).encode())
                rec(o[k], d + 1)
            h.update(b"}")
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for e in o:
                rec(e, d + 1)
            h.update(b"]")
        elif isinstance(o, (set, frozenset)):
            for e in sorted(o, key=repr):
                rec(e, d + 1)
        elif callable(o):
            h.update(b"fn")
        else:
            h.update(repr(o).encode())

    rec(obj, depth)
    return h.hexdigest()


def case_seed(prop, workload, seed, index):
    s = "%s/%s/%d/%d" % (prop, workload, seed, index)
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "big")


def _alarm(signum, frame):
    raise CaseTimeout()


def _in_repo(tb):
    return any("/repo/" in f.filename for f in traceback.extract_tb(tb))


def run_case(prop, mod, workload, index, seed, timeout):
    import numpy as np

    cs = case_seed(prop, workload, seed, index)
    mon = Mon(prop, workload, index, seed)
    np.random.seed(cs % (2**32))
    rng = np.random.default_rng(cs)
    t0 = time.time()
    timed_out = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            mod.WORKLOADS[workload]["fn"](rng, mon)
    except Skip:
        mon.skips += 1
    except CaseTimeout:
        timed_out = True
    except MemoryError:
        timed_out = True
    except Exception as e:
        tb = traceback.format_exc()
        where = "repo" if _in_repo(sys.exc_info()[2]) else "oracle"
        last = None
        for f in traceback.extract_tb(sys.exc_info()[2]):
            if "/repo/" in f.filename:
                last = "%s:%s" % (os.path.basename(f.filename), f.name)
        mon._hit("no-unexpected-exception")
        mon.fail(
            "no-unexpected-exception",
            "%s at %s: %s\n%s" % (type(e).__name__, last, e, tb[-1500:]),
            kind="exception:%s:%s:%s" % (where, type(e).__name__, last),
        )
        mon.violations[-1]["detail"] = tb[-2500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:
            pass
    return {
        "workload": workload,
        "index": index,
        "oracles": mon.oracles,
        "events": mon.events,
        "violations": mon.violations,
        "sigs": list(mon.sigs),
        "desc": mon.desc,
        "skips": mon.skips,
        "timeout": timed_out,
        "t": time.time() - t0,
    }


_G = {}


def _worker_init(prop, seed, timeout):
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    _G.update(prop=prop, seed=seed, timeout=timeout)


def _worker(task):
    workload, index = task
    mod = _G["mod"]
    return run_case(
        _G["prop"], mod, workload, index, _G["seed"], _G["timeout"]
    )


def load_known():
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def main(prop, argv=None):
    import argparse
    import multiprocessing as mp

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))
    )
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--only", help="comma separated workloads")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"

    t0 = time.time()
    import_repo()
    mod = importlib.import_module("checks." + prop.lower())
    _G["mod"] = mod

    if args.replay:
        rep = json.load(open(args.replay))
        bad = 0
        for v in rep["violations"]:
            r = run_case(
                prop, mod, v["workload"], v["index"], v["seed"], 600
            )
            for w in r["violations"]:
                bad += 1
                print(json.dumps(w, indent=1))
        print("replayed: %d violations" % bad)
        return 1 if bad else 0

    budget = float(
        os.environ.get(
            "VERIF_BUDGET_S", "420" if args.tier == "quick" else "820"
        )
    )
    case_timeout = float(getattr(mod, "CASE_TIMEOUT", 120))
    tasks = []
    names = list(mod.WORKLOADS)
    if args.only:
        names = [n for n in names if n in args.only.split(",")]
    for name in names:
        w = mod.WORKLOADS[name]
        n = w["quick"] if args.tier == "quick" else w.get(
            "thorough", 12 * w["quick"]
        )
        n = max(1, int(round(n * args.scale)))
        tasks += [(i / n, name, i) for i in range(n)]
    tasks.sort()
    tasks = [(n, i) for _, n, i in tasks]

    results = []
    cut = False
    quiet = {
        k["kind"]
        for k in load_known()
        if k.get("property") == prop and k.get("status") == "known"
    }
    bad = [0]

    def enough():
        """stop early once violated: the verdict cannot change any more"""
        r = results[-1]
        bad[0] += sum(v["kind"] not in quiet for v in r["violations"])
        el = time.time() - t0
        return el > budget or (bad[0] and el > 90)

    if args.jobs <= 1:
        _worker_init(prop, args.seed, case_timeout)
        for t in tasks:
            results.append(_worker(t))
            if enough():
                cut = True
                break
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(
            args.jobs, _worker_init, (prop, args.seed, case_timeout)
        ) as pool:
            it = pool.imap_unordered(_worker, tasks, chunksize=1)
            for _ in range(len(tasks)):
                left = budget - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(1.0, left)))
                except mp.TimeoutError:
                    cut = True
                    break
                if enough():
                    cut = True
                    break
            pool.terminate()

    return report(prop, mod, args, results, len(tasks), cut, t0)


def report(prop, mod, args, results, planned, cut, t0):
    oracles, events, per_w = {}, {}, {}
    sigs, viols, samples = set(), [], []
    timeouts = skips = 0
    results.sort(key=lambda r: (r["workload"], r["index"]))
    for r in results:
        for k, (n, m) in r["oracles"].items():
            o = oracles.setdefault(k, [0, 0.0])
            o[0] += n
            o[1] = max(o[1], m)
        for k, n in r["events"].items():
            events[k] = events.get(k, 0) + n
        w = per_w.setdefault(
            r["workload"], {"cases": 0, "skipped": 0, "timeouts": 0, "cpu_s": 0.0}
        )
        w["cases"] += 1
        w["skipped"] += r["skips"]
        w["timeouts"] += int(r["timeout"])
        w["cpu_s"] = round(w["cpu_s"] + r["t"], 3)
        timeouts += int(r["timeout"])
        skips += r["skips"]
        if r["sigs"] and r["oracles"]:
            sigs.add(r["workload"] + ":" + ";".join(sorted(r["sigs"])))
        viols += r["violations"]
        if r["desc"] and sum(s["workload"] == r["workload"] for s in samples) < 2:
            samples.append(
                {
                    "workload": r["workload"],
                    "index": r["index"],
                    "case": r["desc"],
                    "oracles_evaluated": sum(v[0] for v in r["oracles"].values()),
                }
            )

    known = [k for k in load_known() if k.get("property") == prop]
    listed = {k["kind"]: k for k in known if k.get("status") == "known"}
    new = [v for v in viols if v["kind"] not in listed]
    seen_known = {}
    for v in viols:
        if v["kind"] in listed:
            seen_known[v["kind"]] = seen_known.get(v["kind"], 0) + 1
    for kind, k in listed.items():
        # a listed finding is announced whether or not this seed hit it
        print(
            "KNOWN-FINDING: property=%s %s (observed %d times in this run)"
            % (prop, k["what"], seen_known.get(kind, 0))
        )

    missing = []
    if not args.only:
        for name, least in getattr(mod, "REQUIRED", {}).items():
            if oracles.get(name, [0])[0] < least:
                missing.append(name)
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": getattr(mod, "RULE", ""),
            "samples": samples[:12],
            "oracle_evaluations": sum(o[0] for o in oracles.values()),
            "executions_planned": planned,
            "cut_by_budget": cut,
            "executions_outside_precondition": skips,
            "executions_timed_out": timeouts,
            "oracles": {
                k: {"evaluated": v[0], "worst_error_over_tolerance": float("%.3g" % v[1]) if v[1] < 1e300 else "inf"}
                for k, v in sorted(oracles.items())
            },
            "events": dict(sorted(events.items())),
            "workloads": per_w,
            "known_findings_observed": seen_known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if args.verbose:
        for k, v in sorted(oracles.items(), key=lambda kv: -kv[1][1]):
            print("  %-44s n=%-7d worst=%.3g" % (k, v[0], v[1]))
        for k, v in per_w.items():
            print("  wl %-30s %s" % (k, v))
        print("  events", events)
    print(
        "%s tier=%s seed=%d: %d executions, %d oracle evaluations, "
        "%d distinct shapes, %d timeouts, %.1fs"
        % (
            prop,
            args.tier,
            args.seed,
            len(results),
            ev["coverage"]["oracle_evaluations"],
            len(sigs),
            timeouts,
            wall,
        )
    )
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(
            ROOT, "replays", "%s-%s-%d.json" % (prop, args.tier, args.seed)
        )
        new.sort(key=lambda v: (v["kind"], v["workload"], v["index"]))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "how": "python3 /verif/check.py %s --replay <this file>" % prop,
                    "violations": new[:60],
                },
                f,
                indent=1,
            )
        kinds = {}
        for v in new:
            kinds.setdefault(v["kind"], []).append(v)
        for k, vs in sorted(kinds.items()):
            v = vs[0]
            print(
                "  [%s] x%d e.g. %s#%d %s :: %s"
                % (
                    k,
                    len(vs),
                    v["workload"],
                    v["index"],
                    json.dumps(v["desc"])[:300],
                    v["detail"][-700:],
                )
            )
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if missing:
        print("INCONCLUSIVE: monitors not reached: %s" % ", ".join(missing))
        return 2
    if timeouts > max(3, 0.05 * max(1, len(results))):
        print("INCONCLUSIVE: %d cases timed out" % timeouts)
        return 2
    return 0
