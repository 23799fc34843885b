"""Writes /verif/DESIGN.md."""
import ast, glob, json, os, sys
sys.path.insert(0, "/verif/tools_dev")
import design_text as D
V = "/verif/"
P = [json.loads(l) for l in open(V + "properties.jsonl")]
man = json.load(open(V + "MANIFEST.json"))
lvl = dict((c["property"], c["level"]) for c in man["checks"])
out = [D.HEAD, "## 2. Properties\n\n"]
for p in P:
    i = p["id"]
    if i not in lvl: continue
    e = json.load(open(V + "evidence/%s.json" % i)); c = e["coverage"]
    src = ast.parse(open(V + "contracts/%s.py" % i).read())
    doc = ast.get_docstring(src)
    out.append("### %s %s\n" % (i, p["title"]))
    if doc and "\n" in doc.strip(): out.append("\n".join("> " + l for l in doc.strip().split("\n")) + "\n\n")
    out.append(D.WHY.get(i, "") + "\n\n")
    out.append("*Functions under contract*: %s.\n\n" % ", ".join("`%s`" % f for f in sorted(c["functions_under_contract"])))
    bs = []
    for h in c["harnesses"]:
        b = h.get("structure_bound")
        if b and b != "none" and b not in bs: bs.append(b)
    out.append("*Structures* (everything else symbolic): %s.\n\n" % ("; ".join(bs) if len(bs) <= 8 else "; ".join(bs[:6]) + "; ... (%d in all, listed in the evidence)" % len(bs)) if bs else "*Structures*: no bound.\n\n")
    a = [x for x in e.get("assumptions", [])]
    own = []
    for n in src.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("ASSUMPTIONS", "TRUSTED"):
            own += [s.value for s in ast.walk(n.value) if isinstance(s, ast.Constant) and isinstance(s.value, str)]
    if own: out.append("*Assumed here* (besides the standing list): %s.\n\n" % "; ".join(own))
    out.append("*Level* %s; last run: %d obligations, %d discharged, %d run-time evaluations, %.0f s.\n\n" % (lvl[i], c["obligations"], c["discharged"], c.get("evaluations", 0), e["wall_s"]))
out.append("## 3. Planted changes\n\nEach seed (`seeded/<id>`) was confirmed in a scratch build: applies, builds, passes the stable tests, its demonstration fails with it and passes without.\n`ded` = a deductive obligation is refuted, `rt` = the run-time step finds a failing input.\n\n| seed | needs | what it breaks | caught by |\n|---|---|---|---|\n")
tab = json.load(open(V + "tools_dev/seed_results.json")) if os.path.exists(V + "tools_dev/seed_results.json") else {}
for d in sorted(glob.glob(V + "seeded/*/meta.json")):
    m = json.load(open(d)); s = d.split("/")[-2]
    out.append("| %s | %s | %s | %s |\n" % (s, m["needs"], m["what_it_breaks"], tab.get(s, "?")))
out.append(D.TAIL_FIX)
for f in json.load(open(V + "known_findings.json"))["findings"]:
    if f.get("status") == "finding": continue
    out.append("* %s\n" % (f.get("entry") or f.get("fixed") or f.get("what") or json.dumps(f)))
out.append(D.OBS.replace("## 7.", "## 6. Refactor corpus\n\n" + (open(V + "tools_dev/refactor_results.txt").read() if os.path.exists(V + "tools_dev/refactor_results.txt") else "(see tools_dev/refactors.py)\n") + "\n## 7."))
open(V + "DESIGN.md", "w").write("".join(out))
