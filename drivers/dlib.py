"""Concrete side of the checks: seeded cases over the real, built pywr, compared with independent oracles.

A driver is a function `run(d)`.  It calls d.case(key, inputs) before exercising the code and d.eq/d.near/d.true to compare.
`key` names the kind of disagreement (stable across seeds), so that a known finding can be matched by it."""
import json, math, random, sys, time, traceback
import numpy as np


class Stop(Exception): pass


class Driver:
    def __init__(self, prop, seed, tier, budget, only=None):
        self.prop, self.seed, self.tier, self.t0, self.budget, self.only = prop, seed, tier, time.time(), budget, only
        self.evals = 0
        self.bad = []            # mismatches (first per key)
        self.badn = {}
        self.cases = {}          # key -> count
        self.samples = []
        self.cur = None
        self.nontrivial = set()
        self.rng = random.Random(f"{prop}-{seed}")
        self.np = np.random.RandomState(seed * 7919 + sum(map(ord, prop)))

    def n(self, quick, thorough=None):
        """How many random cases to run."""
        return quick if self.tier == "quick" else (thorough or quick * 10)

    def left(self): return self.budget - (time.time() - self.t0)

    def case(self, key, **inputs):
        self.cur = (key, inputs)
        self.cases[key] = self.cases.get(key, 0) + 1
        self.evals += 1
        try: self.nontrivial.add(hash((key, json.dumps(inputs, default=_js, sort_keys=True))))
        except Exception: pass
        if self.cases[key] == 1 and len(self.samples) < 12: self.samples.append({"case": key, "inputs": plain(inputs)})
        if self.left() < 0: raise Stop()

    def fail(self, what, expected, got):
        key, inputs = self.cur
        k = f"{key}/{what}"
        self.badn[k] = self.badn.get(k, 0) + 1
        if self.badn[k] == 1:
            self.bad.append({"key": k, "inputs": plain(inputs), "expected": plain(expected), "got": plain(got)})

    def true(self, what, cond, got=None):
        if not cond: self.fail(what, "holds", got)
        return cond

    def eq(self, what, got, expected):
        ok = same(got, expected, 0.0, 0.0)
        if not ok: self.fail(what, expected, got)
        return ok

    def near(self, what, got, expected, rtol=1e-9, atol=1e-9):
        ok = same(got, expected, rtol, atol)
        if not ok: self.fail(what, expected, got)
        return ok

    def raises(self, what, exc, f):
        try:
            r = f()
        except exc:
            return True
        except Exception as e:
            self.fail(what, f"raises {exc}", f"raised {type(e).__name__}: {e}")
            return False
        self.fail(what, f"raises {exc}", r)
        return False

    def guard(self, f, *a):
        """Run one case; an exception escaping from the code under test is a disagreement."""
        try:
            return f(*a)
        except Stop: raise
        except Exception as e:
            self.fail(f"exception:{type(e).__name__}", "no exception", traceback.format_exc()[-1500:])


def same(a, b, rtol, atol):
    try:
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return a == b if not isinstance(a, np.ndarray) else bool(np.all(a == b))
    if a.shape != b.shape: return False
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b))
        if rtol or atol: ok |= np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
    return bool(np.all(ok))


def _js(x): return plain(x)


def plain(x):
    if isinstance(x, np.ndarray): return plain(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)): return plain(x.item())
    if isinstance(x, float): return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict): return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)): return [plain(v) for v in x][:400]
    if isinstance(x, (int, str, bool)) or x is None: return x
    return str(x)


def main():
    import argparse, importlib, logging, os, warnings
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick")
    ap.add_argument("--out"); ap.add_argument("--budget", type=float, default=240); ap.add_argument("--key")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
    d = Driver(a.prop, a.seed, a.tier, a.budget)
    err = None
    try:
        import pywr
        m = importlib.import_module("d_" + a.prop.lower())
        for q, f in enumerate(m.DRIVERS):
            spent = time.time() - d.t0
            d.budget = spent + (a.budget - spent) / (len(m.DRIVERS) - q)      # an equal share of what is left
            d.cur = (f.__name__, {})
            # every driver has its own stream, so adding one does not change the cases of another
            d.rng = random.Random(f"{a.prop}-{f.__name__}-{a.seed}"); d.np = np.random.RandomState((a.seed * 7919 + sum(map(ord, a.prop + f.__name__))) % 2**31)
            try:
                f(d)
            except Stop: pass
            except Exception as e:
                d.fail(f"exception:{type(e).__name__}", "no exception", traceback.format_exc()[-1500:])
    except Exception:
        err = traceback.format_exc()[-3000:]
    out = {"property": a.prop, "evaluations": d.evals, "distinct": len(d.nontrivial), "cases": d.cases, "mismatches": d.bad, "counts": d.badn,
           "samples": d.samples, "wall": round(time.time() - d.t0, 2), "pywr": getattr(sys.modules.get("pywr"), "__file__", None), "error": err}
    if a.out: json.dump(out, open(a.out, "w"))
    else:
        for b in d.bad:
            if not a.key or b["key"] == a.key: print(b["key"], "|", str(b["inputs"])[:300], "| expected", str(b["expected"])[:160], "| got", str(b["got"])[-400:])
        print({k: v for k, v in out.items() if k not in ("mismatches", "samples")})
        sys.exit(1 if d.bad or err else 0)


if __name__ == "__main__":
    main()
