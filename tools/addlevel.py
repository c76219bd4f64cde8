"""addlevel.py PROPERTY NOTE [OTHER|NA]: claim a property (development)."""
import sys
f = "/verif/tools/levels.py"; s = open(f).read(); kind = sys.argv[3] if len(sys.argv) > 3 else "PROOF"
i = s.index(kind + " = {") + len(kind + " = {")
s = s[:i] + f'\n    "{sys.argv[1]}": {sys.argv[2]!r}' + (" + COMMON" if kind == "PROOF" else "") + "," + s[i:]; open(f, "w").write(s)
