"""Check framework: obligations, findings, known findings, evidence."""
import json
import os
import sys
import time
import traceback
from .terms import *
from .engine import Program, Engine, AnalysisError, Func, Cls, Event, REPO

class OutOfTime(BaseException):
    """raised by the watchdog of check.py when one obligation group or the whole check has used its time"""


DEADLINES = []               # innermost last; watched by check.py
GROUP_S, TOTAL_S = 200, 720  # seconds for one guarded group, for the check

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """One run of one property's check."""

    def __init__(self, pid, prog, tier="quick", seed=1):
        self.pid, self.prog, self.tier, self.seed = pid, prog, tier, seed
        self.obl = []            # (rule, construct, verdict, loc, message)
        self.rules = {}
        self.engines = []
        self.units = set()       # functions analysed
        self.notes = []

    # verdict: True discharged, False violated, None undecided
    def ob(self, rule, construct, ok, loc="", msg=""):
        self.obl.append((rule, construct, ok, loc, msg))
        return ok

    def rule(self, name, text):
        self.rules[name] = text

    def engine(self, opaque=()):
        e = Engine(self.prog, opaque)
        self.engines.append(e)
        return e

    def run(self, cls, meth, opaque=(), args=None, kw=None, **k):
        """interpret Class.method with that concrete self class -> (E, value, state)"""
        E = self.engine(opaque)
        f = self.prog.method(cls, meth)
        v, st = E.run(f, args=args, kw=kw, selfcls=self.prog.find_class(cls), **k)
        self.note_units(E, f)
        return E, v, st

    def runf(self, fname, opaque=(), args=None, kw=None, **k):
        E = self.engine(opaque)
        f = self.prog.find_func(fname) if isinstance(fname, str) else fname
        v, st = E.run(f, args=args, kw=kw, **k)
        self.note_units(E, f)
        return E, v, st

    def note_units(self, E, f):
        self.units.add(f.qual)
        self.units.update(E.inlined)

    def guard(self, rule, construct, thunk, loc=""):
        """run thunk; an internal analysis failure leaves the obligation undecided"""
        now = time.time()
        if DEADLINES and now > DEADLINES[0] - 1:
            return self.ob(rule, construct, None, loc, "the check's time is used up")
        DEADLINES.append(min([now + GROUP_S] + DEADLINES[-1:]))
        depth = len(DEADLINES)
        try:
            return thunk()
        except AnalysisError:
            raise
        except OutOfTime:
            self.ob(rule, construct, None, loc, "out of time")
        except Budget:
            self.ob(rule, construct, None, loc, "case-split budget exhausted")
        except RecursionError:
            self.ob(rule, construct, None, loc, "recursion limit in the interpreter")
        except Exception as e:
            if os.environ.get("YVA_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(rule, construct, None, loc, f"analysis failure {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}")
        finally:
            del DEADLINES[depth - 1:]


def known_findings(pid):
    out = {}
    p = os.path.join(HOME, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split("|", 2)[0].split() if "=" in x)
                key = line.split("|", 2)[1].strip()
                what = line.split("|", 2)[2].strip()
                if d.get("property") == pid:
                    out[key] = what
    return out


def locof(E, node_or_event):
    return getattr(node_or_event, "loc", "")


def execute(pid, fn, level, technique, floor):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        prog = Program()
        ctx = Ctx(pid, prog, tier, seed)
        DEADLINES[:] = [t0 + TOTAL_S]
        try:
            fn(ctx)
        except OutOfTime:
            ctx.notes.append("the check ran out of time")
        del DEADLINES[:]
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    known = known_findings(pid)
    bad, kn, und, good = {}, {}, [], []
    for rule, construct, ok, loc, msg in ctx.obl:
        key = f"{rule}:{construct}"
        if ok is True:
            good.append(key)
        elif ok is None:
            und.append((key, loc, msg))
        elif key in known:
            kn[key] = (loc, msg)
        else:
            bad.setdefault(key, (loc, msg))
    decided = len(ctx.obl) - len(und)
    if not bad and decided < floor:
        for key, loc, msg in und:
            print(f"UNDECIDED {key} at {loc}: {msg}")
        print(f"ANALYSIS-BROKEN property={pid}: only {decided} obligations decided, at least {floor} expected")
        return 2
    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    ninl = {}
    nev = 0
    for E in ctx.engines:
        nev += len(E.events)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": f"static analysis ({technique}) of the sources under {prog.root}/yuca; nothing is executed. "
                           f"Each obligation is one rule applied to one construct of the current tree.",
            "modules_parsed": len(prog.modules),
            "functions_interpreted": len(ctx.units),
            "functions": sorted(ctx.units)[:400],
            "effect_events_inspected": nev,
            "obligations": len(ctx.obl), "discharged": len(good),
            "undecided": len(und), "known_findings": len(kn),
            "rules": ctx.rules,
            "samples": [{"rule": r, "construct": c, "verdict": {True: "holds", False: "violated", None: "undecided"}[o],
                         "at": l} for r, c, o, l, m in ctx.obl[:400]],
            "undecided_list": [list(u) for u in und],
            "notes": ctx.notes,
            "checker_cmd": f"python3 check.py {pid}",
            "trusted_base": ["Python ast parser", "yva abstract interpreter (/verif/yva)",
                             "its table of torch/numpy operation meanings"],
        },
        "assumptions": ["library calls behave as documented", "no monkey-patching or reflection beyond what the interpreter models",
                        "real-number arithmetic (rounding ignored)"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    with open(os.path.join(HOME, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for key, loc, msg in und:
        print(f"UNDECIDED {key} at {loc}: {msg}")
    for key, (loc, msg) in kn.items():
        print(f"KNOWN-FINDING: property={pid} {key} at {loc}: {known[key]}")
    if bad:
        rp = os.path.join(HOME, "evidence", f"replay_{pid}.txt")
        with open(rp, "w") as f:
            for key, (loc, msg) in bad.items():
                f.write(f"{key}\n  at {loc}\n  {msg}\n  rule: {ctx.rules.get(key.split(':')[0], '')}\n"
                        f"  reproduce: python3 check.py {pid}\n")
        for key, (loc, msg) in bad.items():
            print(f"  {key} at {loc}: {msg[:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid}: {len(good)} obligations hold, {len(und)} undecided, {len(kn)} known findings, "
          f"{len(ctx.units)} functions interpreted, {evidence['wall_s']} s")
    return 0


# ------------------------------------------------------------------ helpers shared by checks
FAMILIES = ["CA", "CCA", "Lenia", "NCA", "RxnDfn", "MetaCA", "CODE", "RandomStepCA"]


def short(t, n=300):
    s = show(t) if isinstance(t, (T, tuple)) else str(t)
    return s if len(s) <= n else s[:n] + "..."


def facts_text(facts):
    return " and ".join(("" if v else "not ") + short(c, 80) for c, v in facts) or "always"


def func_loc(f):
    return f"{f.module.path}:{f.node.lineno} ({f.qual})"


def equal_ob(ctx, rule, construct, got, want, loc="", what="", do_strip=True):
    """obligation: the two values are equal for every truth assignment"""
    try:
        d = differ(got, want, do_strip=do_strip)
    except Budget:
        return ctx.ob(rule, construct, None, loc, "case-split budget exhausted")
    if d is None:
        return ctx.ob(rule, construct, True, loc)
    facts, a, b = d
    return ctx.ob(rule, construct, False, loc,
                  f"{what}: when {facts_text(facts)}: code computes {short(a)} but the rule requires {short(b)}")
