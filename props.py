#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and checks.json: edit here, run, commit."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, rule, tech, note, assumptions=(), observe=(), **conf):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  rule=rule, tech=tech, note=note, assumptions=list(assumptions), observe=list(observe), conf=conf))
C = "pkg/core/"
exec(open(os.path.join(V, "props_data.py")).read())

def main():
    built = {p["id"] for p in P if os.path.isdir(os.path.join(V, "harness", p["id"].lower()))}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
    checks, cj, na = [], {}, []
    for p in P:
        if p["id"] not in built:
            na.append(dict(property=p["id"], reason="its check is not built yet"))
            continue
        c = dict(rule=p["rule"], level="exploration")
        if p["assumptions"]:
            c["assumptions"] = p["assumptions"]
        c.update(p["conf"])
        cj[p["id"]] = c
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["tech"], level="exploration", level_note=p["note"]))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="check.py builds harness/<id> (a Go module of its own that replaces the module under test by /repo) and runs its rapid properties in parallel processes; DESIGN.md explains each oracle.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    with open(os.path.join(V, "checks.json"), "w") as f:
        json.dump(cj, f, indent=1); f.write("\n")
    d = os.path.join(V, "DESIGN.md")
    if os.path.exists(d):
        t = open(d).read()
        a, rest = t.split("<!-- properties -->\n", 1)
        b = rest.split("<!-- end of properties -->", 1)[1]
        body = ""
        for p in P:
            body += "### %s %s\n\n" % (p["id"], p["title"])
            body += "*Decided by*: %s.\n*Generated and compared*: %s\n*Ranges over*: %s.\n*Out of the tests' reach because*: %s\n*Bounds*: %s\n" % (
                p["tech"], p["rule"], p["text"], p["why"], p["note"])
            if p["assumptions"]:
                body += "*Assumes*: %s\n" % " ".join(p["assumptions"])
            body += "\n"
        open(d, "w").write(a + "<!-- properties -->\n" + body + "<!-- end of properties -->" + b)
    assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
main()
