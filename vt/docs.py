"""Writes properties.jsonl and MANIFEST.json from the property table below (single source, so that they stay in step)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None, hook=False):
    PR.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                   technique=technique, note=note, state=state, observe=observe, hook=hook))


SAN = "the real code runs under AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++/Eigen assertions with Eigen storage poisoned by NaN; "

exec(open(os.path.join(V, "vt", "proptable.py")).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PR:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                    anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3 vt/setup.py",
             checks=[dict(property=p["id"], quick_cmd="python3 vt/check.py %s quick" % p["id"],
                          thorough_cmd="python3 vt/check.py %s thorough" % p["id"], technique=(p["technique"] if p["id"] == "N01" else SAN + p["technique"]),
                          level="exploration", level_note=p["note"]) for p in PR if p["id"] not in NA],
             not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
