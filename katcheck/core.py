"""Rule runner: contexts, obligations, findings, evidence."""
import ast
import importlib
import json
import os
import sys
import time
import traceback

from . import engine
from .consteval import ConstEval
from .program import AnalysisError, FuncInfo, Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KATCHECK_REPO", "/repo")
BASELINE_FILE = os.path.join(HERE, "katcheck", "baseline_functions.txt")
KNOWN_FILE = os.path.join(HERE, "known_findings.txt")


class Ctx(object):
    """What one property's rules see and report into."""

    def __init__(self, program, prop, tier):
        self.p = program
        self.prop = prop
        self.tier = tier
        self.deep = tier == "thorough"
        self.ce = ConstEval(program)
        self.obligations = []       # (rule, instance, verdict, where, msg)
        self.occurrences = {}       # how many paths/sites each obligation stands for
        self.functions = set()
        self.inlined = set()
        self.npaths = 0
        self.nevents = 0
        self.samples = []
        self.notes = []

    # -- reporting --------------------------------------------------------
    def ob(self, rule, instance, ok, where="", msg=""):
        """One obligation.  ok: True / False / None (undecided, quiet)."""
        ok = None if ok is None else bool(ok)
        key = (rule, instance, ok, where)
        self.occurrences[key] = self.occurrences.get(key, 0) + 1
        if self.occurrences[key] == 1:
            self.obligations.append((rule, instance, ok, where, msg))
        return ok

    def note(self, s):
        self.notes.append(s)

    # -- analysis helpers -------------------------------------------------
    def paths(self, qual, **kw):
        eng = engine.Engine(self.p, qual, **kw)
        res = eng.run()
        self.functions.add(eng.entry.qual)
        self.inlined |= eng.inlined
        self.npaths += len(res)
        self.nevents += sum(len(r.events) for r in res)
        for r in res:
            r.engine = eng
        return res

    def probe(self, module, src):
        """A function or class as a user of `module` might write it, for analysis in that module's
        namespace (it is parsed, never run)."""
        node = ast.parse(src).body[0]
        if isinstance(node, ast.ClassDef):
            m = self.p.modules[module]
            self.p._index_class(m, node)
            c = self.p.classes["%s.%s" % (module, node.name)]
            c.bases = [b for b in (self.p._resolve_base(m, b) for b in c.base_exprs)
                       if b is not None]
            return c.qual
        fi = FuncInfo("%s.%s" % (module, node.name), node, self.p.modules[module])
        self.p.functions[fi.qual] = fi
        return fi.qual

    def func(self, qual):
        self.functions.add(qual)
        return self.p.func(qual)

    def const(self, module, name):
        return self.ce.module_const(module, name)

    def cconst(self, cls, name):
        return self.ce.class_attr(cls, name)

    def where(self, qual):
        return self.p.func(qual).where


def load_baseline():
    if not engine.BASELINE:
        with open(BASELINE_FILE) as f:
            engine.BASELINE.update(l.strip() for l in f if l.strip())


def known_findings():
    out = []
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:"):
                d = dict(kv.split("=", 1) for kv in l.split("|")[0].split()[1:]
                         if "=" in kv)
                out.append((d.get("property"), d.get("rule"), d.get("instance"),
                            l.split("|", 1)[1].strip() if "|" in l else ""))
    return out


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    load_baseline()
    status = 0
    try:
        program = Program(REPO)
        ctx = Ctx(program, prop, tier)
        mod = importlib.import_module("katcheck.rules." + prop.lower())
        errors = []
        for part in mod.PARTS:
            try:
                part(ctx)
            except AnalysisError as e:
                errors.append("%s: %s" % (part.__name__, e))
            except Exception:
                traceback.print_exc(file=sys.stdout)
                errors.append("%s: internal error" % part.__name__)
        if len(errors) == len(mod.PARTS):
            raise AnalysisError("; ".join(errors))
        for e in errors:                # the other parts still give their answer
            print("  not analysed: " + e)
            ctx.ob("analysis", e.split(":")[0], None, "", e)
        floor = getattr(mod, "MIN_OBLIGATIONS", 1)
        if len(ctx.obligations) < floor:
            raise AnalysisError("only %d obligations matched, expected >= %d" % (
                len(ctx.obligations), floor))
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % prop)
        return 2
    known = known_findings()
    bad, kn = [], []
    for o in ctx.obligations:
        if o[2] is False:
            for k in known:
                if k[0] == prop.upper() and k[1] == o[0] and k[2] == o[1].replace(" ", "_"):
                    kn.append((o, k))
                    break
            else:
                bad.append(o)
    for o, k in kn:
        print("KNOWN-FINDING: property=%s rule=%s %s" % (prop, o[0], k[3] or o[4]))
    evdir = os.path.join(HERE, "evidence")
    if os.environ.get("KATCHECK_NOEVIDENCE"):
        evdir = os.path.join("/tmp", "katcheck-scratch")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, "replay-%s.txt" % prop)
    if bad:
        with open(replay, "w") as f:
            f.write("property %s, tree digest %s\n" % (prop, program.digest))
            for r, i, ok, w, m in bad:
                line = "rule %s [%s] at %s: %s" % (r, i, w, m)
                f.write(line + "\n")
                print("  " + line)
        status = 1
    elif os.path.exists(replay):
        os.remove(replay)
    und = [o for o in ctx.obligations if o[2] is None]
    rules = {}
    for o in ctx.obligations:
        rules[o[0]] = rules.get(o[0], 0) + 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip() or "static rules",
            "obligations": len(ctx.obligations),
            "path_checks": sum(ctx.occurrences.values()),
            "discharged": sum(1 for o in ctx.obligations if o[2] is True),
            "undecided": len(und),
            "known_findings": len(kn),
            "rules": rules,
            "functions_analysed": sorted(ctx.functions),
            "helpers_followed": sorted(ctx.inlined),
            "paths": ctx.npaths,
            "events": ctx.nevents,
            "modules_parsed": len(program.modules),
            "functions_parsed": len(program.functions),
            "tree_digest": program.digest,
            "samples": ["%s [%s] at %s: %s" % (o[0], o[1], o[3],
                        "holds" if o[2] else "undecided" if o[2] is None else "BROKEN")
                        for o in ctx.obligations[:40]],
            "notes": ctx.notes,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", [
            "handlers, callbacks and third-party code do not rebind katcp internals",
            "loops are judged by zero, one and two passes"]),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    with open(os.path.join(evdir, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        print("OK property=%s obligations=%d undecided=%d paths=%d wall=%.2fs" % (
            prop, len(ctx.obligations), len(und), ctx.npaths, time.time() - t0))
    return status


def main(argv):
    prop = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    sys.setrecursionlimit(10000)
    return run(prop, tier)
