"""Fires / stays-quiet self test of the checks on edited scratch copies.

    python3-vt selftest/run.py C01 [C02 ...] [-v]

Each spec file selftest/cNN.txt holds edits: blocks of

    === broken|same NAME FILE
    <<<
    old text
    ---
    new text
    >>>
    (more <<< >>> pairs allowed)
"""
import ast
import warnings
warnings.simplefilter("ignore")
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def load(fn):
    txt = open(fn).read()
    out = []
    for blk in re.split(r"(?m)^=== ", txt)[1:]:
        head, _, rest = blk.partition("\n")
        kind, name, f = head.split()[:3]
        pairs = re.findall(r"(?ms)^<<<\n(.*?)^---\n(.*?)^>>>", rest)
        out.append((kind, name, f, pairs))
    return out


def normal(src):
    t = ast.parse(src)
    for x in ast.walk(t):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            x.body = [b for b in x.body if not (
                isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))] or \
                [ast.Pass()]
    return ast.unparse(t)


def fuzzy(s, old, new):
    """Replace a run of lines, ignoring the indentation of its first line."""
    src = s.split("\n")
    o = [x for x in old.split("\n") if x.strip()]
    n = [x for x in new.split("\n") if x.strip()]
    ind = lambda x: len(x) - len(x.lstrip())
    idx = [i for i, x in enumerate(src) if x.strip()]
    for k in range(len(idx) - len(o) + 1):
        at = idx[k:k + len(o)]
        d = ind(src[at[0]]) - ind(o[0])
        rest = ""
        last, end = src[at[-1]].strip(), o[-1].strip()
        if last != end and last.startswith(end) and n and n[-1].strip() == end:
            rest = last[len(end):]       # the edit shows only the start of this line
        if all(src[i].strip() == y.strip() + (rest if i == at[-1] else "")
               and ind(src[i]) - ind(y) == d for i, y in zip(at, o)):
            body = [" " * max(0, ind(y) + d) + y.strip() for y in n]
            body = body or ['']
            body[-1] += rest
            return "\n".join(src[:at[0]] + body + src[at[-1] + 1:])
    return None


def main():
    v = "-v" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = None
    ids2 = []
    for a in ids:
        if ":" in a:
            a, only = a.split(":")
        ids2.append(a)
    bad = 0
    for i in ids2:
        fn = os.path.join(HERE, "selftest", i.lower() + ".txt")
        for kind, name, f, pairs in load(fn):
            if only and name != only:
                continue
            d = tempfile.mkdtemp(prefix="st")
            try:
                shutil.copytree(os.path.join(REPO, "katcp"), os.path.join(d, "katcp"),
                                ignore=shutil.ignore_patterns("test", "__pycache__"))
                p = os.path.join(d, f)
                s = open(p).read()
                miss = False
                for old, new in pairs:
                    if ("\n" + s).count("\n" + old) < 1:
                        miss = True
                    s = ("\n" + s).replace("\n" + old, "\n" + new, 1)[1:]
                if miss:
                    # second try: against the normal form printed by ast.unparse
                    s = normal(open(p).read())
                    miss = False
                    for old, new in pairs:
                        r = fuzzy(s, old, new)
                        miss |= r is None
                        s = r if r is not None else s
                if miss:
                    s = open(p).read()
                    miss = any(o not in s for o, _ in pairs)
                    for old, new in pairs:
                        s = s.replace(old, new, 1)
                if miss:
                    print(i, name, "EDIT DOES NOT APPLY")
                    bad += 1
                    continue
                open(p, "w").write(s)
                r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), i],
                                   env=dict(os.environ, KATCHECK_REPO=d,
                                            KATCHECK_NOEVIDENCE="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True)
                want = 1 if kind == "broken" else 0
                ok = r.returncode == want
                bad += not ok
                if v or not ok:
                    print(i, kind, name, "rc=%d" % r.returncode, "" if ok else "<<<<<< WRONG")
                    if not ok or v:
                        print("    " + "\n    ".join(r.stdout.splitlines()[:6]))
            finally:
                shutil.rmtree(d)
        print(i, "done")
    print("wrong:", bad)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
