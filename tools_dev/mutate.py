"""Token-level mutants of the functions under contract, each run against the checks of the properties that list the function.
usage: python3 tools_dev/mutate.py OUT.jsonl N SEED [workers] [file-substring]   (scratch copies only; survivors are listed for reading)"""
import ast, glob, io, json, multiprocessing, os, random, re, shutil, subprocess, sys, tokenize
from lib2to3.refactor import RefactoringTool
TOOL = RefactoringTool(["lib2to3.fixes.fix_print"])
SRC = "/tmp/repo_clean"
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
WORK = int(sys.argv[4]) if len(sys.argv) > 4 else 4
SUB = sys.argv[5] if len(sys.argv) > 5 else ""


def functions():
    fm = {}
    for f in sorted(glob.glob("/verif/evidence/C*.json")):
        e = json.load(open(f))
        for fn in e.get("coverage", {}).get("functions_under_contract", {}): fm.setdefault(fn, []).append((e["wall_s"], e["property"]))
    return fm


def locate(fm):
    """(file, first line, last line, properties) per function, by file stem/class name and function name."""
    out = []
    files = subprocess.check_output(["git", "-C", SRC, "ls-files"], text=True).split()
    files = [f for f in files if f.endswith((".py", ".pyx")) and "test" not in f.lower()]
    for fn, ps in fm.items():
        parts = fn.split(".")
        name, owner = parts[-1], parts[:-1]
        for f in files:
            stem = os.path.basename(f).rsplit(".", 1)[0]
            if owner and stem not in owner and not (stem in ("Transform2NormInd", "cython_lib_sample2ind") and stem in fn): continue
            if not owner and "def %s(" % name not in open(os.path.join(SRC, f)).read(): continue
            lines = open(os.path.join(SRC, f)).read().split("\n")
            for i, l in enumerate(lines):
                m = re.match(r"( *)(?:def|cpdef|cdef)\b.*\b%s\(" % re.escape(name), l)
                if not m: continue
                ind = len(m.group(1))
                j = i + 1
                while j < len(lines) and (not lines[j].strip() or len(lines[j]) - len(lines[j].lstrip()) > ind or lines[j].strip().startswith(")")): j += 1
                out.append((f, i + 1, j, sorted(ps)))
    return out


SW = {"+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "**": ["*"], "<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="],
      "and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"], "+=": ["-=", "="], "-=": ["+="], "*=": ["/="], "/=": ["*="], "is": [], "not": [""], "0": ["1"], "1": ["0", "2"], "2": ["1", "3"]}


def mutants(loc):
    res = []
    for f, a, b, ps in loc:
        src = open(os.path.join(SRC, f)).read()
        lines = src.split("\n")
        doc = False
        code = []
        for i in range(a, b):
            l = lines[i]
            q = l.count('"""') + l.count("'''")
            if doc or q:
                if q % 2: doc = not doc
                continue
            s = l.strip()
            if not s or s.startswith(("#", "print", "def ", "import", "from", "class", ":", '"', "+ \"", "errors.append")) or "description" in s or "zlib" in s or "raise " in s: continue
            code.append(i)
        for i in code:
            l = lines[i].split(" #")[0]
            for m in re.finditer(r"\*\*|[-+*/<>=!]=|[-+*/<>]|\b(?:and|or|not|True|False)\b|(?<![\w.])[012](?![\w.])", l):
                t = m.group(0)
                if (l[:m.start()].count('"') + l[:m.start()].count("'")) % 2: continue
                for r in SW.get(t, []):
                    if t in "-" and l[:m.start()].rstrip().endswith(("=", "(", ",", ":", "[", "return")): r = ""
                    res.append((f, i, ps, l[:m.start()] + r + l[m.end():]))
            s = l.strip()
            if re.match(r"^[\w.\[\]:, ()'\"+*-]+ *[-+*/]?= .*[^,(\[{\\]$", s) and l.count("(") == l.count(")") and l.count("[") == l.count("]"):
                res.append((f, i, ps, l[:len(l) - len(l.lstrip())] + "pass"))
            m = re.match(r"^( *)(if|elif|while) (.*):$", l)
            if m and m.group(2) != "while": res.append((f, i, ps, "%s%s not (%s):" % m.groups()))
            code_ = lambda m: not (l[:m.start()].count('"') + l[:m.start()].count("'")) % 2
            for m in re.finditer(r"(?<=[A-Za-z_])[12](?=\b|_)", l):
                if code_(m): res.append((f, i, ps, l[:m.start()] + {"1": "2", "2": "1"}[m.group(0)] + l[m.end():]))
            for m in re.finditer(r"\b(?:Ur|Us|uR|uS|uS_i|w_i|u_i|w_matrix\w*|u_matrix\w*|start|end|min|max|ib|ie|row|col)\b", l):
                t = m.group(0)
                o = {"Ur": "Us", "Us": "Ur", "uR": "uS", "uS": "uR", "w_i": "u_i", "u_i": "w_i", "start": "end", "end": "start", "min": "max", "max": "min", "ib": "ie", "ie": "ib", "row": "col", "col": "row"}.get(t)
                if o is None and t.startswith(("w_matrix", "u_matrix")): o = {"w": "u", "u": "w"}[t[0]] + t[1:]
                if o and code_(m): res.append((f, i, ps, l[:m.start()] + o + l[m.end():]))
            for m in re.finditer(r"\[(\w+)\]", l):
                if code_(m) and not m.group(1).isdigit(): res.append((f, i, ps, l[:m.start()] + "[" + m.group(1) + "-1]" + l[m.end():]))
            for m in re.finditer(r"deepcopy(?=\()|\[:\](?= *$)|\.copy\(\)|x?range\((?=\w+\))", l):
                if code_(m): res.append((f, i, ps, l[:m.start()] + ("range(-1+" if "range" in m.group(0) else "") + l[m.end():]))
            for m in re.finditer(r"\b(n_mu|i_sensor_1|i_sensor_2|istart|iend)\b", l):
                other = {"i_sensor_1": "i_sensor_2", "i_sensor_2": "i_sensor_1", "istart": "iend", "iend": "istart"}.get(m.group(0))
                if other: res.append((f, i, ps, l[:m.start()] + other + l[m.end():]))
    return res


def go(job):
    k, (f, i, ps, new) = job
    tree = "/tmp/mut/%d" % os.getpid()
    if not os.path.isdir(tree):
        os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree(SRC, tree, symlinks=True)
    p = os.path.join(tree, f)
    src = open(os.path.join(SRC, f)).read()
    lines = src.split("\n")
    old = lines[i]
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    rec = {"k": k, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "props": [q for _, q in ps], "got": {}}
    try:
        if f.endswith(".py"):
            try: TOOL.refactor_string("\n".join(lines) + "\n", "x"); ok = True
            except Exception: ok = False
            if not ok:
                rec["got"]["compile"] = "no"
                return rec
        for w, q in ps:
            r = subprocess.run(["python3-vt", "check.py", q], cwd=os.environ.get("MUT_VERIF", "/verif"), env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1", VERIF_EVIDENCE="/tmp/mut/ev%d" % os.getpid()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            line = [x for x in r.stdout.decode("utf8", "replace").splitlines() if x.startswith(("VIOL", q))]
            rec["got"][q] = "%d %s" % (r.returncode, (line[-1] if line else "")[:160])
            if r.returncode == 1: break
    finally:
        open(p, "w").write(src)
    return rec


if __name__ == "__main__":
    loc = [x for x in locate(functions()) if SUB in x[0]]
    ms = mutants(loc)
    print(len(loc), "functions", len(ms), "mutants")
    random.Random(SEED).shuffle(ms)
    order, per = [], {}
    for m in ms:                        # functions in turn
        fn = next((a for f, a, b, ps in loc if f == m[0] and a - 1 <= m[1] < b), 0)
        per[(m[0], fn)] = per.get((m[0], fn), 0) + 1
        order.append((per[(m[0], fn)], len(order), m))
    ms = [m for _, _, m in sorted(order, key=lambda x: x[:2])]
    with multiprocessing.Pool(WORK) as pool, open(OUT, "a") as o:
        for rec in pool.imap_unordered(go, list(enumerate(ms[:N]))):
            o.write(json.dumps(rec) + "\n"); o.flush()
    shutil.rmtree("/tmp/mut", ignore_errors=True)
