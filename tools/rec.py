"""rec(...) writes one property record; used from one-off scripts when a property is added or reworded."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties")
def rec(id, title, statement, over, qt, why, mech, technique, note):
    files = []
    for _, w in mech:
        if w not in files: files.append(w)
    assert len(title) <= 80, (id, len(title))
    json.dump({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": [], "hook_needed": "library face of the crate behind cfg nargun_verif"},
        "technique": technique, "level_note": note}, open(f"{D}/{id}.json", "w"), indent=1)
