"""addprop(id, title, statement, over, text, why, files, mech, note)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
def addprop(pid, title, statement, over, text, why, files, mech, note, state=None):
  d = {"id": pid, "title": title, "statement": statement,
       "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
       "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
       "level_note": note}
  if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
  json.dump(d, open(os.path.join(HERE, "props", pid + ".json"), "w"), indent=1)
