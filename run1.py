import sys, json, importlib
sys.path[:0] = ["/verif/engine", "/verif/contracts"]
sys.setrecursionlimit(20000)
from front import Program
import contract
pat = sys.argv[2] if len(sys.argv) > 2 else ""
importlib.import_module(sys.argv[1])
import os; P = Program(os.environ.get("ROOT", "/repo"))
for e in contract.CONTRACTS:
    if pat in e[4]:
        r = contract.run_contract(P, e)
        print("==", r["label"], r["status"], r.get("reason") or "", "cover", r.get("cover"), r["wall"], "s")
        for o in r["obligations"]:
            if o["result"] != "proved": print("   ", o)
        if r.get("trace"): print(r["trace"])
        print("   ", len(r["obligations"]), "obligations", {o["by"] for o in r["obligations"]})
        if os.environ.get("T"):
            for o in r["obligations"]: print("     ", o["name"], o["result"], o["by"], o["s"])
            print("  solver", r.get("solver_s"), r.get("by"), r.get("queries"))
