#!/usr/bin/env python3
"""One table of the properties; writes properties.jsonl, props.json and MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

U = "crylib/src/big_int/unsigned.rs"


def prop(id, title, statement, over, qtext, why, files, mech, observe, level, bins, proofs, proved, bounded,
         assumptions=(), state=(), hook=None, **kw):
    if len(title) > 80: print("LONG", title)
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, level=level, bins=bins, proofs=proofs, proved=proved, bounded=bounded,
                  assumptions=list(assumptions), state=list(state), hook=hook, kw=kw))


exec(open(V + "/tools/table.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        a = {"files": p["files"],
             "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": p["hook"]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": a}) + "\n")
json.dump({p["id"]: dict(level=p["level"], bins=p["bins"], proofs=p["proofs"], proved=p["proved"],
                         bounded=p["bounded"], assumptions=p["assumptions"], **p["kw"]) for p in P},
          open(V + "/props.json", "w"), indent=1)
TECH = {
    "proof": "contract-based deductive verification (Verus) of functions extracted from /repo on every run",
    "other": "contract-based deductive verification (Verus) of the core functions; bounded contract evaluation for the rest",
    "exploration": "bounded concrete evaluation of the contracts (stand-in where the verifier cannot reach)",
}
checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
               evidence_file=f"evidence/{p['id']}.json", technique=TECH[p["level"]], level=p["level"],
               level_note=("Proved (all inputs, no bound): " + p["proved"] + " " if p["proved"] else "") +
               ("Bounded, not proved: " + p["bounded"] if p["bounded"] else "")) for p in P]
man = dict(version=1, setup_cmd="./setup.sh",
           hooks=dict(guard="cfg(turtls_verif)",
                      enable="RUSTFLAGS='--cfg turtls_verif' TURTLS_VERIF_HOOKS=/verif/hooks; only /verif/tls_hook is built this way",
                      source_commits=HOOK_COMMITS),
           checks=checks, not_applicable=NOT_APPLICABLE, notes=NOTES)
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)

import re, glob
t = ["| id | level | templates | proved for all inputs | bounded only |", "|---|---|---|---|---|"]
for p in P:
    t.append("| %s %s | %s | %s | %s | %s |" % (p["id"], p["title"], p["level"], ", ".join("`%s`" % x.split("@")[0] for x in p["proofs"]) or "-",
             p["proved"].strip() or "-", p["bounded"].strip() or ("-" if p["level"] == "proof" else "everything")))
caught = dict(l.strip().split(" ", 1) for l in open(V + "/tools/caught.txt") if l.strip())
u = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; j = json.load(open(d))
    u.append("| %s | %s | %s | %s |" % (i, j["what_it_breaks"], j["needs"], caught.get(i, "?")))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!--T-->.*<!--/T-->", lambda _: "<!--T-->\n" + "\n".join(t) + "\n<!--/T-->", d, flags=re.S)
d = re.sub(r"<!--S-->.*<!--/S-->", lambda _: "<!--S-->\n" + "\n".join(u) + "\n<!--/S-->", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
