"""Mechanical extraction of Python source from a Cython .pyx file.

Dropped, and nothing else: `cimport` lines, `ctypedef` lines, C type annotations of arguments and return values, and
declarations of C variables without an initial value (declarations with one become plain assignments).  What is lost with
them: fixed integer widths, single-precision storage and the run-time type checks of arguments.  Anything not recognised
makes the extraction fail (the functions are then reported as not under contract)."""
import re
from .terms import Unsupported

TYPE = r"(?:unsigned\s+)?(?:np\.ndarray(?:\s*\[[^\]]*\])?|[A-Za-z_][\w.]*(?:\s*\[[:,\s]*\])?)"


def _split(s):
    """Split at top-level commas."""
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{": d += 1
        if ch in ")]}": d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out


def _arg(a):
    a = " ".join(a.split())
    m = re.match(r"^(?:%s\s+)?(\*{0,2}[A-Za-z_]\w*(?:\s*=.*)?)(?:\s+not None)?$" % TYPE, a)
    if not m: raise Unsupported("cython argument %r" % a)
    return m.group(1)


def _decl(s):
    """`type a, b = 1, c` -> assignments."""
    s = s.split("#")[0].strip()
    if not s: return []
    m = re.match(r"^(%s)\s+([A-Za-z_].*)$" % TYPE, s, re.S)
    if not m: raise Unsupported("cython declaration %r" % s)
    out = []
    for d in _split(m.group(2)):
        d = d.strip()
        if re.match(r"^[A-Za-z_]\w*$", d): continue
        if not re.match(r"^[A-Za-z_]\w*\s*=[^=]", d): raise Unsupported("cython declaration %r" % d)
        out.append(d)
    return out


def _logical(lines, i):
    """The logical line starting at i (joined while brackets are open) and the next index."""
    s, d = "", 0
    while True:
        ln = lines[i]
        code = re.sub(r"#.*", "", ln) if '"' not in ln and "'" not in ln else ln
        s += ("\n" if s else "") + ln
        d += sum(code.count(c) for c in "([{") - sum(code.count(c) for c in ")]}")
        i += 1
        if d <= 0 or i >= len(lines): return s, i


def extract(text):
    lines = text.replace("\r\n", "\n").split("\n")
    out, i = [], 0
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = ln[:len(ln) - len(ln.lstrip())]
        if re.match(r"^(cimport\b|from\s+\S+\s+cimport\b|ctypedef\b|#\s*cython:)", st):
            i += 1
            continue
        if st == "cdef:":
            i += 1
            block = None
            while i < len(lines):
                if not lines[i].strip() or lines[i].strip().startswith("#"):
                    i += 1
                    continue
                b = lines[i][:len(lines[i]) - len(lines[i].lstrip())]
                if len(b) <= len(ind): break
                s, i = _logical(lines, i)
                out += [ind + d for d in _decl(s)]
            continue
        m = re.match(r"^(cpdef|cdef|def)\b", st)
        if m and re.match(r"^(cpdef|cdef|def)\s+.*\(", st):
            s, j = _logical(lines, i)
            body = " ".join(s.split())
            k = re.match(r"^(?:cpdef|cdef|def)\s+(?:inline\s+)?(?:%s\s+)?([A-Za-z_]\w*)\s*\((.*)\)\s*(?:except\s*[^:]*)?(?:nogil\s*)?:$" % TYPE, body)
            if not k: raise Unsupported("cython function head %r" % body[:120])
            out.append("%sdef %s(%s):" % (ind, k.group(1), ", ".join(_arg(a) for a in _split(k.group(2)))))
            i = j
            continue
        if st.startswith("cdef "):
            s, i = _logical(lines, i)
            out += [ind + d for d in _decl(s.strip()[5:])]
            continue
        if re.match(r"^@cython\.", st) or "<" in st and re.search(r"<\s*(int|float|double)\s*>", st): raise Unsupported("cython directive or cast: " + st)
        out.append(ln)
        i += 1
    return "\n".join(out) + "\n"


def translate(text, path):
    """Extracted source, then the same mechanical Python 2 -> 3 translation as the rest of the code."""
    from lib2to3 import refactor
    tool = refactor.RefactoringTool(refactor.get_fixers_from_package("lib2to3.fixes"), {})
    return str(tool.refactor_string(extract(text), path))
