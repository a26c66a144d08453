"""
Inputs worth trying: constants of the source code that are not in the list of constants
that was made when the specification was written (constants.json).  They only influence
which documents are generated, never how a result is judged.
"""
import ast
import json
import os
import re

REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")


def constants(repo=REPO):
    """file -> constant -> how often, as a text with a prefix for its type"""
    found = {}
    for top, dirs, files in os.walk(os.path.join(repo, "creole")):
        dirs[:] = sorted(d for d in dirs if d != "tests" and not d.startswith("__"))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(top, f)
            try:
                with open(path, encoding="utf-8") as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, ValueError, OSError):
                continue
            count = found.setdefault(os.path.relpath(path, repo), {})
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if isinstance(v, str) and v:
                        count["s" + v] = count.get("s" + v, 0) + 1
                    elif isinstance(v, int) and not isinstance(v, bool):
                        count["i%d" % v] = count.get("i%d" % v, 0) + 1
    return found


def pieces(s):
    """a text, and the parts of a pattern"""
    out = set()
    if len(s) <= 30:
        out.add(s)
    for m in re.findall(r"[A-Za-z0-9_]+|[^\sA-Za-z0-9_]+", s):
        if len(m) <= 20:
            out.add(m)
    return out


def news():
    """(texts, sizes) that are new in a file of the code"""
    with open(KNOWN) as f:
        known = json.load(f)
    old = {k for count in known.values() for k in count}
    oldpieces = set()
    for k in old:
        if k[0] == "s":
            oldpieces |= pieces(k[1:])
    texts, ints = set(), set()
    for name, count in constants().items():
        for k, n in count.items():
            if n <= known.get(name, {}).get(k, 0):
                continue
            if k[0] == "i":
                ints.add(int(k[1:]))
            else:
                texts |= pieces(k[1:]) - (oldpieces if k not in old else set())
                if k not in old:
                    ints |= {int(x) for x in re.findall(r"\d{1,3}", k)}
    return sorted(t for t in texts if t)[:40], sorted(i for i in ints if 2 <= i <= 300)[:12]


def vocabulary():
    """the short texts of the code"""
    out = set()
    for count in constants().values():
        for k in count:
            if k[0] == "s" and len(k) <= 13:
                out |= pieces(k[1:])
    return sorted(out)


if __name__ == "__main__":
    with open(KNOWN, "w") as f:
        json.dump(constants(), f, indent=0, sort_keys=True)
