"""C09: saved, loaded, pickled and copied models are the same model."""

import copy
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from pydmd import DMD, MrDMD, ParametricDMD
from pydmd.dmdbase import DMDBase
from vmon.core import Skip, digest
from vmon.gen import pick
from vmon.kits import NAMES, diff, make_kit

RULE = (
    "Every public class x random options x random state (unfitted, fitted, masked, "
    "changed time window, refitted): save/load, pickle protocols, copy and deepcopy; "
    "all observations of the two models compared exactly, also after the same "
    "further operations on both, after destroying the original, and in a separate "
    "process; truncated files as injected faults; distinct = distinct "
    "(class, state, channel) tuples."
)
ASSUMPTIONS = ["models built from local functions are not picklable and are not claimed"]
CASE_TIMEOUT = 120
LIGHT = [n for n in NAMES if n not in ("COSTS", "mrCOSTS")]
HEAVY = ["COSTS", "mrCOSTS"]


def state_ops(rng, kit, model):
    """bring the model in a random state; returns a description"""
    done = []
    for _ in range(int(rng.integers(0, 3))):
        op = pick(rng, ["mask", "time", "read", "resample"])
        try:
            if op == "mask":
                k = len(model.modes_activation_bitmask)
                m = rng.random(k) < 0.6
                m[int(rng.integers(k))] = True
                model.modes_activation_bitmask = m
            elif op == "time":
                if kit.name == "DMDc":
                    continue  # its reconstruction is tied to the control inputs
                model.dmd_time["tend"] = model.dmd_time["tend"] + int(rng.integers(1, 4))
            elif op == "resample":
                if kit.name not in ("DMD", "FbDMD", "CDMD", "RDMD", "SpDMD", "SubspaceDMD",
                                    "PiDMD", "EDMD"):
                    continue
                model.dmd_time["dt"] = model.dmd_time["dt"] * pick(rng, [2, 0.5])
            else:
                kit.obs(model)
        except (RuntimeError, AttributeError, TypeError, ValueError, IndexError,
                NotImplementedError):
            continue
        done.append(op)
    return done


def seeded_fit(kit, model, data, seed):
    np.random.seed(seed)
    try:
        kit.fit(model, data)
    except np.linalg.LinAlgError:
        raise Skip()


def channels(kit, model, scratch):
    out = {"deepcopy": lambda m: copy.deepcopy(m)}
    if kit.pickles:
        for p in (2, pickle.HIGHEST_PROTOCOL):
            out["pickle%d" % p] = lambda m, p=p: pickle.loads(pickle.dumps(m, p))
        if isinstance(model, (DMDBase, ParametricDMD)) or hasattr(model, "save"):
            f = os.path.join(scratch, "model.dmd")

            def sl(m):
                m.save(f)
                cls = pick(np.random.default_rng(0), [type(m)])
                if isinstance(m, ParametricDMD):
                    return ParametricDMD.load(f)
                return (cls.load if hasattr(cls, "load") else DMD.load)(f)

            out["saveload"] = sl
    return out


def mask_of(model):
    try:
        return np.array(model.modes_activation_bitmask)
    except (RuntimeError, AttributeError, TypeError, ValueError, NotImplementedError):
        return None


def roundtrip(rng, mon, names=LIGHT):
    name = pick(rng, names)
    kit = make_kit(rng, name, pairs=True)
    model = kit.build()
    hist = []
    if rng.random() < 0.85:
        seeded_fit(kit, model, kit.data(rng), 3)
        hist = ["fit"] + state_ops(rng, kit, model)
        if rng.random() < 0.2:
            seeded_fit(kit, model, kit.data(rng), 4)
            hist.append("refit")
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        ch = channels(kit, model, scratch)
        how = pick(rng, sorted(ch))
        mon.describe(cls=name, kw=kit.kw, hist=hist, how=how)
        mon.sig(name, how, ",".join(sorted(set(hist))))
        mon.event("%s" % how)
        want = kit.obs(model) if hist else None
        wmask = mask_of(model)
        twin = ch[how](model)
        where = "%s %s via %s" % (name, hist, how)
        mon.ok("same-class", type(twin) is type(model), where)
        if hist:
            d = diff(want, kit.obs(twin), 1e-12)
            mon.ok("round-trip-preserves-results", d is None, "%s: %s" % (where, d))
            d = diff(want, kit.obs(model), 0.0)
            mon.ok("round-trip-leaves-original", d is None, "%s: %s" % (where, d))
            tm = mask_of(twin)
            mon.ok("round-trip-preserves-mask",
                   (wmask is None) == (tm is None)
                   and (wmask is None or np.array_equal(wmask, tm)), where)
        # same further operations, same results
        g = int(rng.integers(2**31))
        if hist and rng.random() < 0.6:
            o1 = state_ops(np.random.default_rng(g), kit, model)
            o2 = state_ops(np.random.default_rng(g), kit, twin)
            mon.eq("same-operations-possible", o1, o2, where)
            d = diff(kit.obs(model), kit.obs(twin), 1e-10)
            mon.ok("same-results-after-same-operations", d is None, "%s+%s: %s" % (where, o1, d))
        data = kit.data(rng)
        if hist and rng.random() < 0.5:
            # using the twin must not reach the original
            before = kit.obs(model)
            try:
                seeded_fit(kit, twin, copy.deepcopy(data), 9)
                state_ops(rng, kit, twin)
            except Skip:
                pass
            d = diff(before, kit.obs(model), 0.0)
            mon.ok("twin-is-independent", d is None, "%s: %s" % (where, d))
            return
        seeded_fit(kit, model, copy.deepcopy(data), 9)
        seeded_fit(kit, twin, copy.deepcopy(data), 9)
        d = diff(kit.obs(model), kit.obs(twin), 1e-8)
        mon.ok("round-trip-preserves-configuration", d is None, "%s, fit again: %s" % (where, d))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def roundtrip_heavy(rng, mon):
    roundtrip(rng, mon, HEAVY)


def truncated(rng, mon):
    """a file cut short (crash while saving) never loads as a model"""
    name = pick(rng, ["DMD", "HankelDMD", "BOPDMD", "SpDMD", "MrDMD", "ParametricDMD",
                      "VarProDMD", "DMDc"])
    kit = make_kit(rng, name)
    if not kit.pickles:
        raise Skip()
    model = kit.build()
    seeded_fit(kit, model, kit.data(rng), 3)
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        f = os.path.join(scratch, "m.dmd")
        model.save(f)
        raw = open(f, "rb").read()
        cls = ParametricDMD if name == "ParametricDMD" else DMD
        for _ in range(4):
            n = int(rng.integers(0, len(raw)))
            with open(f, "wb") as o:
                o.write(raw[:n])
            mon.sig(name, "cut")
            mon.raises("truncated-file-rejected", Exception, lambda: cls.load(f),
                       "%s cut at %d of %d" % (name, n, len(raw)))
        with open(f, "wb") as o:
            o.write(b"\0" * 7 + raw)
        # overwriting an existing (longer) file leaves a loadable file
        model.save(f)
        d = diff(kit.obs(model), kit.obs(cls.load(f)), 1e-12)
        mon.ok("overwriting-save-is-clean", d is None, "%s: %s" % (name, d))
        mon.raises("missing-file-rejected", OSError,
                   lambda: cls.load(os.path.join(scratch, "absent")), name)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


CHILD = """
import sys, pickle, warnings
warnings.simplefilter("ignore")
sys.path[:0] = [%r, "/repo"]
import numpy as np
from pydmd import DMD, ParametricDMD
out = []
for f, props, par in pickle.load(open(sys.argv[1], "rb")):
    m = (ParametricDMD if par else DMD).load(f)
    out.append({p: getattr(m, p) for p in props})
pickle.dump(out, open(sys.argv[2], "wb"))
"""


def process(rng, mon):
    """models saved here and loaded by another process give the same results"""
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        todo, wants, names = [], [], []
        pool = [n for n in LIGHT if n not in ("OptDMD", "PiDMD")]
        for i in range(10):
            name = pick(rng, pool)
            kit = make_kit(rng, name)
            if not kit.pickles:
                continue
            model = kit.build()
            try:
                seeded_fit(kit, model, kit.data(rng), 3)
            except Skip:
                continue
            state_ops(rng, kit, model)
            if not hasattr(model, "save"):
                continue
            f = os.path.join(scratch, "m%d" % i)
            model.save(f)
            todo.append((f, kit.props, name == "ParametricDMD"))
            wants.append({p: copy.deepcopy(getattr(model, p)) for p in kit.props})
            names.append(name)
            mon.sig(name, "process")
        a, b = os.path.join(scratch, "todo"), os.path.join(scratch, "done")
        pickle.dump(todo, open(a, "wb"))
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        r = subprocess.run([sys.executable, "-c", CHILD % root, a, b],
                           capture_output=True, timeout=110, cwd=scratch)
        mon.ok("other-process-can-load", r.returncode == 0,
               "%s: %s" % (names, r.stderr.decode()[-500:]))
        if r.returncode == 0:
            for name, w, g in zip(names, wants, pickle.load(open(b, "rb"))):
                d = diff(w, g, 1e-10)
                mon.ok("other-process-sees-same-results", d is None, "%s: %s" % (name, d))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


WORKLOADS = {
    "roundtrip": {"fn": roundtrip, "quick": 2200, "thorough": 50000},
    "roundtrip_heavy": {"fn": roundtrip_heavy, "quick": 16, "thorough": 300},
    "truncated": {"fn": truncated, "quick": 160, "thorough": 4000},
    "process": {"fn": process, "quick": 10, "thorough": 200},
}
REQUIRED = {
    "round-trip-preserves-results": 1400,
    "round-trip-preserves-mask": 1400,
    "round-trip-preserves-configuration": 700,
    "twin-is-independent": 500,
    "same-results-after-same-operations": 700,
    "truncated-file-rejected": 300,
    "other-process-sees-same-results": 40,
}
