#!/usr/bin/env python3
"""check.py --property P03 : decide one property on /repo's current working tree.

1. parse /repo's Cython and Python sources and discharge the contracts registered for the property (contracts/pXX.py);
2. meanwhile make an importable build of the same tree and run the property's concrete driver (drivers/d_pXX.py), which
   replays the contract statements on concrete inputs: it supplies the failing input when an obligation fails, and is the
   labelled bounded stand-in for what the verifier cannot reach.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself could not be run."""
import argparse, importlib, json, multiprocessing as mp, os, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(VT, [VT] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "contracts"), os.path.join(HERE, "tools")]
sys.setrecursionlimit(20000)
threading.stack_size(256 * 1024 * 1024)
import tree, side, front

LEVEL = json.load(open(os.path.join(HERE, "levels.json")))


def run_driver(prop, path, seed, tier, budget, box):
    if not os.path.exists(os.path.join(HERE, "drivers", f"d_{prop.lower()}.py")): return
    out = tempfile.mktemp(prefix="verif_drv_", suffix=".json")
    work = tempfile.mkdtemp(prefix="verif_work_")
    box.setdefault("tmp", []).append(out); box.setdefault("work", []).append(work)
    e = tree.env(path); e["TMPDIR"] = work; e["HOME"] = work
    none = {"evaluations": 0, "distinct": 0, "cases": {}, "samples": [], "error": None}
    try:
        r = subprocess.run([tree.PY, os.path.join(HERE, "drivers", "dlib.py"), prop, "--seed", str(seed), "--tier", tier, "--out", out,
                            "--budget", str(budget)], env=e, cwd=work, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=budget + 120)
        if os.path.exists(out): box["drv"] = json.load(open(out))
        elif r.returncode < 0:
            box["drv"] = {**none, "wall": 0, "mismatches": [{"key": f"process/signal{-r.returncode}", "inputs": {}, "expected": "no crash", "got": (r.stdout + r.stderr)[-1500:]}]}
        else: box["err"] = (r.stdout + r.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        box["drv"] = {**none, "wall": budget + 120, "mismatches": [{"key": "process/hang", "inputs": {}, "expected": "termination", "got": f"still running after {budget + 120} s"}]}


def start_drivers(prop, seed, tier, budget, box):
    try:
        path, scratch, note = tree.ensure()
        box["scratch"], box["tree"], box["path"] = scratch, note, path
        run_driver(prop, path, seed, tier, budget, box)
    except Exception as e:
        box["err"] = f"{type(e).__name__}: {e}"


def worker(args):
    i, timeout, deadline = args
    import contract
    res = []
    def go(): res.append(contract.run_contract(PROG, ENTRIES[i], timeout, deadline))
    t = threading.Thread(target=go); t.start(); t.join()
    return i, res[0]


def prove(prop, tier, t_end):
    global PROG, ENTRIES
    from front import Program
    import contract
    f = os.path.join(HERE, "contracts", f"{prop.lower()}.py")
    if not os.path.exists(f): return [], None
    PROG = Program(tree.REPO)
    importlib.import_module(prop.lower())
    ENTRIES = [e for e in contract.CONTRACTS if e[0] == prop]
    timeout = 10000 if tier == "quick" else 60000
    res = [None] * len(ENTRIES)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, max(1, len(ENTRIES))), maxtasksperchild=1) as pool:
        hs = [(i, pool.apply_async(worker, ((i, timeout, t_end),))) for i in range(len(ENTRIES))]
        for i, h in hs:
            try:
                res[i] = h.get(max(5, t_end + 40 - time.time()))[1]
            except mp.TimeoutError:
                res[i] = {"target": ENTRIES[i][1], "label": ENTRIES[i][4], "status": "undecided", "obligations": [], "reason": "time limit", "used": [], "assumed": [], "wall": 0}
            except Exception as e:
                res[i] = {"target": ENTRIES[i][1], "label": ENTRIES[i][4], "status": "undecided", "obligations": [], "reason": f"worker: {e}", "used": [], "assumed": [], "wall": 0}
        pool.terminate()
    return res, PROG


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    a = ap.parse_args()
    prop, t0 = a.property, time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    box = {}
    budget = 200 if tier == "quick" else 600
    th = threading.Thread(target=start_drivers, args=(prop, seed, tier, budget, box)); th.start()
    try:
        res, prog = prove(prop, tier, t0 + (400 if tier == "quick" else 2400))
        th.join()
        # an obligation that could not be discharged: look harder for a failing input
        d0 = box.get("drv")
        if d0 and not d0["mismatches"] and not d0["error"] and any(r["status"] != "proved" for r in res) and tier == "quick":
            run_driver(prop, box["path"], seed + 1, "thorough", max(30, min(300, 560 - (time.time() - t0))), box)
            d1 = box["drv"]
            if d1 is not d0:
                for k in ("evaluations", "distinct", "wall"): d1[k] += d0[k]
                for k, v in d0["cases"].items(): d1["cases"][k] = d1["cases"].get(k, 0) + v
                d1["samples"] = (d0["samples"] + d1["samples"])[:12]
    finally:
        if th.is_alive(): th.join()
        if box.get("scratch"): shutil.rmtree(box["scratch"], ignore_errors=True)
        for w in box.get("work", []): shutil.rmtree(w, ignore_errors=True)
        for f in box.get("tmp", []):
            if os.path.exists(f): os.remove(f)
    drv = box.get("drv")
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json"))) if k["property"] == prop]
    open_known = {k["key"]: k for k in known if k["status"] == "open"}
    kob = {(k["contract"], k["obligation"]) for k in known if k["status"] == "open" and "obligation" in k}
    obl = [(r, o) for r in res for o in r["obligations"]]
    proved = [x for x in obl if x[1]["result"] == "proved"]
    refuted = [(r, o) for r, o in obl if o["result"] == "refuted" and (r["label"], o["name"]) not in kob]
    undecided = [r for r in res if r["status"] == "undecided" or (r["status"] == "refuted" and not any(o["result"] == "refuted" for o in r["obligations"]))]
    mism, seen = [], set()
    for m in (drv or {}).get("mismatches", []):
        if m["key"] in open_known: seen.add(m["key"])
        else: mism.append(m)
    for k in sorted(open_known):
        if k in seen or "obligation" in open_known[k]: print(f"KNOWN-FINDING: property={prop} {open_known[k]['what']}")
    viol = bool(mism or refuted)
    rp = os.path.join(HERE, "replay", f"{prop}.json")
    if viol:
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({"property": prop, "failed_obligations": [{"function": r["target"], "contract": r["label"], **o} for r, o in refuted],
                   "failing_inputs": mism, "replay_command": f"cd {HERE} && PYTHONPATH=<built tree> {tree.PY} drivers/dlib.py {prop} --seed {seed} --tier {tier}",
                   "undecided": [{"contract": r["label"], "reason": r["reason"]} for r in undecided]}, open(rp, "w"), indent=1)
    lv = LEVEL.get(prop, "other")
    by = {}
    for _, o in proved: by[o["by"]] = by.get(o["by"], 0) + 1
    cov = {"obligations": len(obl), "discharged": len(proved), "checker_cmd": f"python3 check.py --property {prop}",
           "trusted_base": ["the Cython compiler's parser, C compiler and CPython", "z3 4.16 / cvc5", "engine/ (symbolic execution and loop summaries)"],
           "contracts": len(res), "contracts_proved": sum(r["status"] == "proved" for r in res),
           "functions_under_contract": sorted({u for r in res if r["status"] == "proved" for u in r["used"]}),
           "back_ends": by, "solver_s": round(sum(r.get("solver_s", 0) for r in res), 2), "solver_queries": sum(r.get("queries", 0) for r in res),
           "per_contract": [{"contract": r["label"], "status": r["status"], "obligations": len(r["obligations"]), "wall_s": r["wall"], "reason": r["reason"]} for r in res],
           "undecided": [{"contract": r["label"], "reason": r["reason"] or "obligations not discharged within the time limit"} for r in undecided],
           "tree": box.get("tree")}
    if drv:
        cov.update({"evaluations": drv["evaluations"], "distinct_nontrivial": drv["distinct"],
                    "rule": "seeded concrete runs of the built tree against an independent oracle (bounded; replay of the contract statements and stand-in where nothing is proved); distinct by driver and inputs",
                    "samples": drv["samples"], "bounded_cases": drv["cases"], "bounded_wall_s": drv["wall"]})
    if lv == "other":
        cov["explanation"] = f"{len(proved)} of {len(obl)} obligations over {len(res)} contracts discharged deductively; the rest of the property is covered by the bounded driver only"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lv, "coverage": cov,
          "assumptions": sorted({x for r in res for x in r["assumed"]}) + side.ASSUMPTIONS + ["the extraction drops: " + x for x in front.DROPPED],
          "wall_s": round(time.time() - t0, 2), "violations": len(mism) + len(refuted)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} [{tier}]: {len(proved)}/{len(obl)} obligations of {len(res)} contracts discharged ({cov['contracts_proved']} contracts fully); "
          f"concrete cases {drv['evaluations'] if drv else 0}; {ev['wall_s']} s")
    for r in undecided: print(f"  undecided (bounded stand-in only): {r['label']}: {r['reason']}")
    for r, o in refuted: print(f"  obligation failed: {r['label']} :: {o['name']}")
    for m in mism[:20]: print(f"  failing input: {m['key']}: inputs {str(m['inputs'])[:300]} expected {str(m['expected'])[:200]} got {str(m['got'])[-300:]}")
    if viol:
        print(f"VIOLATION property={prop} replay={rp}" + ("" if mism else " no-failing-input-found"))
        return 1
    if box.get("err") or (drv or {}).get("error"):
        print("the concrete driver could not be run:\n" + str(box.get("err") or drv["error"]), file=sys.stderr)
        return 2
    if not obl and not drv:
        print("nothing was checked", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
