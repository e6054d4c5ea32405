"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CSC = "src/server/pdc_client_server_common.c"
CSH = "src/server/include/pdc_client_server_common.h"


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, na=na))


from props_text import *      # noqa
import props_text
props_text.define(prop)


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"],
                                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks = []; na = []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            assert os.path.exists(V + "/rules/%s.py" % p["id"].lower()), p["id"]
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                           "thorough_cmd": "python3 check.py " + p["id"], "technique": p["tech"], "level": "other",
                           "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "Static analysis over LLVM IR compiled from /repo's current sources (Mercury replaced by "
                  "declaration-only headers); see DESIGN.md."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(checks), "claimed", len(na), "n/a")


main()
