"""writes ../MANIFEST.json from properties.jsonl and engine/props.py"""
import json, os, sys

H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "engine"))
from props import PROPS

TECH = {
    "default": "abstract interpretation of compiler MIR with lazily split abstract regex nodes (static, nothing executed)",
}
try:
    from props import TECHNIQUE, NOTE, NA
except ImportError:
    TECHNIQUE, NOTE, NA = {}, {}, {}
DEFNOTE = (
    "Every abstract trace of the listed scenario shapes is judged against the rule; node contents are abstract, arity and "
    "nesting depth are bounded; language equalities are decided on a finite language domain (3 letters, words up to 3). "
    "Trusts rustc, the MIR exporter, the library-call models and the reference semantics."
)
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in PROPS:
        checks.append(
            dict(
                property=i,
                quick_cmd="python3 run.py " + i,
                thorough_cmd="python3 run.py %s --thorough" % i,
                evidence_file="evidence/%s.json" % i,
                technique=TECHNIQUE.get(i, TECH["default"]),
                level="other",
                level_note=NOTE.get(i, DEFNOTE),
            )
        )
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: the check is under construction")))
m = dict(
    version=1,
    setup_cmd="bash driver/dump.sh /verif/.build/setup.json",
    checks=checks,
    not_applicable=na,
    notes="Static analysis only: driver/ exports type-checked monomorphised MIR of /repo's current source; engine/ interprets it abstractly. See DESIGN.md.",
)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
