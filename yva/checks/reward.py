"""C32 what the environments reward."""
from fractions import Fraction
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF
from .entropy import base_name, kws
from .evo import E_full

ACTION = sym("action")
OPAQUE = {"forward", "set_params", "get_accuracy", "train", "eval", "zero_grad", "reset"}
OPEN = ("mu", "havoc", "cell", "opaque", "closure", "undef", "over", "last", "ref", "lam")


def A(n):
    return mk("attr", SELF, n)


def check_C32(ctx):
    ctx.rule("R1", "the reward is the documented function of the documented measurement (sampled arithmetic identity over the interpreted value)")
    ctx.rule("R2", "the measurement is taken over each sample of the final grids, reached by the documented number of CA steps and ended early only when nothing is left")
    ctx.rule("R3", "the starting grids are drawn at random for the whole batch, cleared where documented")
    ctx.rule("R4", "the predictor sees the early grids only, the target comes from those same grids' end, as the prediction mode says")
    ctx.rule("R5", "training is train_steps optimisation steps in training mode, over before the evaluation grids are drawn")
    ctx.rule("R6", "the rule evaluated is the proposed one")
    ctx.guard("R1", "SimpleHaltingWrapper", lambda: simple(ctx))
    ctx.guard("R4", "HaltingWrapper", lambda: halting(ctx))
    ctx.guard("R1", "HaltingWrapper.get_accuracy", lambda: accuracy(ctx))
    ctx.guard("R1", "GliderWrapper", lambda: glider(ctx))
    ctx.guard("R1", "GliderWrapper.init_displacement_grid", lambda: displacement(ctx))
    q = sym("a")
    ctx.ob("R1", "self-test: a reward that grows with the distance is told apart", not same_random(norm(absd(sym("t"), q)), norm(neg(absd(sym("t"), q)))), "", "")


def absd(a, b):
    return mk("call", "abs", (sub(a, b),), ())


def step_of(ctx, cls):
    f = ctx.prog.method(cls, "step")
    E = ctx.engine(OPAQUE)
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    r = E_full(E, E.deref(v, st), st)
    if r.op not in ("tuple", "seq") or len(r.args) != 4:
        return f, E, st, None, None
    info = r.args[3]
    return f, E, st, norm(E_full(E, r.args[1], st), True), info


def entry(E, st, info, key):
    """an entry of the dictionary returned"""
    if info.op == "ref":
        v = E.heapget(st, (info, "i", const(key)))
        return norm(E_full(E, v, st), True) if v is not None else None
    if info.op == "dict":
        for kv in reversed(info.args[1:]):
            if isinstance(kv, T) and kv.op in ("tuple", "seq") and kv.args[0] is const(key):
                return norm(E_full(E, kv.args[1], st), True)
        if isinstance(info.args[0], T) and info.args[0] is not NONE:
            return entry(E, st, info.args[0], key)
    return None


# ---------------------------------------------------------------- runs of the CA

def run_of(t):
    """(number of steps, starting grid, [conditions for ending early], odd) of a grid reached by stepping the CA, or None"""
    conds = []
    while t.op == "ite" and t.args[0].op == "brk":
        conds.append(t.args[0].args[1])
        t = t.args[2]
    if t.op == "ite" and t.args[2].op == "fold" and t.args[1].op != "fold":
        return None
    if t.op != "fold" or not t.args[1]:
        return None
    spec, slots = t.args[0], t.args[1]
    init, body = slots[0]
    b = strip(body)
    if base_name(b) != "ca" or len(b.args[1]) != 2 or b.args[1][0] is not SELF or strip(b.args[1][1]).op != "m" or strip(b.args[1][1]).args[1] != 0:
        return (norm(spec), norm(init, True), conds, short(body, 80))
    return (norm(spec), norm(init, True), conds, None)


def emptiness(c):
    """a condition for ending early: True when it holds exactly on empty grids; False when it holds on others or never; None unclear"""
    q = sym("Q")
    seen = [0]

    def f(y):
        if y.op == "call" and base_name(y) in ("mean", "sum", "max", "amax") and y.args[1]:
            k = kws(y)
            if len(y.args[1]) == 1 and not k:
                seen[0] += 1
                return q
        if y.op == "call" and base_name(y) == "any" and len(y.args[1]) == 1 and not kws(y):
            seen[0] += 1
            return mk("lt", const(0), q)
        return None
    z = norm(subst(c, f), True)
    if not seen[0]:
        return None
    if contains(z, lambda y: y.op == "idx") and not contains(z, lambda y: y.op in OPEN or y.op == "call"):
        # a condition on the number of steps taken: does some step end a run that still has something left?
        for n in (3, 100, 600, 1023, 5000):
            w = norm(subst(z, lambda y: const(n) if y.op == "idx" else const(Fraction(1, 2)) if y is q else const(10 ** 6) if y.op == "attr" else None), True)
            if norm(w, True) is TRUE:
                return False
    v = []
    for x in (0, Fraction(1, 10 ** 7), Fraction(1, 100), Fraction(1, 2)):
        w = norm(subst(z, lambda y: const(x) if y is q else None), True)
        for _ in range(3):
            w = norm(w, True)
        v.append(True if w is TRUE else False if w is FALSE else None)
    if None in v:
        return None
    if not v[0]:
        return False
    return v[2:] == [False, False]


def check_run(ctx, key, t, steps, loc):
    """the starting grid, or None"""
    r = run_of(t)
    if r is None:
        ctx.ob("R2", f"{key}:run", False if t.op == "call" and base_name(t) in ("rand", "ca") else None, loc, f"the grid measured is {short(t, 100)}, not reached by a run of the CA")
        return None
    spec, init, conds, odd = r
    ctx.ob("R2", f"{key}:steps", True if spec is steps else None if contains(spec, lambda y: y.op in OPEN + ("while", "fold")) or contains(spec, lambda y: y.op == "call" and base_name(y) not in ("min_py", "max_py", "len", "floordiv")) else False, loc,
           f"the run takes {short(spec, 60)} steps, not {short(steps, 40)}")
    ctx.ob("R2", f"{key}:step", True if odd is None else None, loc, f"each step is {odd}")
    for c in conds:
        ctx.ob("R2", f"{key}:early end", emptiness(c), loc, f"the run ends early when {short(c, 120)}, not just when nothing is left")
    return init


# ---------------------------------------------------------------- per-sample measurements

def per_sample(t):
    """grid that is reduced over everything but its samples; False if over too much or too little; None unclear"""
    shape = [0, 1, 2, 3]
    chain = []
    while True:
        n = base_name(t)
        if t.op == "item" and t.args[1] is const(0) and base_name(t.args[0]) in ("max",):
            t = t.args[0]
            n = "max"
        if n in ("mean", "sum", "amax", "max", "any", "flatten", "ravel", "view", "reshape") and t.args[1]:
            chain.append((n, t))
            t = t.args[1][0]
            continue
        break
    if not chain:
        return None, t
    for n, c in reversed(chain):
        a, k = c.args[1], kws(c)
        if n in ("flatten", "ravel", "view", "reshape"):
            if n in ("flatten", "ravel") and len(a) == 2 and a[1] is const(1) or n not in ("flatten", "ravel") and len(a) == 3 and a[2] is const(-1):
                if shape != [0, 1, 2, 3]:
                    return None, t
                shape = [0, "rest"]
                continue
            return None, t
        d = k.get("dim", k.get("axis", a[1] if len(a) > 1 else None))
        keep = k.get("keepdim", k.get("keepdims", a[2] if len(a) > 2 else FALSE))
        if d is None:
            return False, t
        ds = list(d.args) if d.op in ("tuple", "seq") else [d]
        if not all(is_num(y) for y in ds) or keep not in (TRUE, FALSE):
            return None, t
        try:
            ix = [int(cval(y)) % len(shape) for y in ds]
        except ZeroDivisionError:
            return None, t
        shape = [(None if i in ix and keep is TRUE else y) for i, y in enumerate(shape) if keep is TRUE or i not in ix]
    left = [y for y in shape if y is not None]
    if left != [0] and t.op == "call" and base_name(t) not in ("abs", "ca"):
        return None, t
    return left == [0], t


def active(t, what=""):
    """(verdict, grid) of a flag per sample that is one when a measurement is positive"""
    t = strip(t)
    x = None
    if t.op == "poly" and len(t.args) == 1 and t.args[0][0] == 1 and len(t.args[0][1]) == 1 and t.args[0][1][0][1] == 1:
        return active(t.args[0][1][0][0])
    if base_name(t) in ("float", "double", "to", "type", "any") and t.args[1] and base_name(t) != "any":
        return active(t.args[1][0])
    if t.op == "lt0":
        p = t.args[0]
        if p.op == "poly":
            cs = [c for c, m in p.args if not m]
            ms = [(c, m) for c, m in p.args if m]
            if len(ms) == 1 and len(ms[0][1]) == 1 and ms[0][1][0][1] == 1:
                thr = cs[0] if cs else Fraction(0)
                if ms[0][0] < 0 and 0 <= thr / -ms[0][0] <= Fraction(1, 1000):
                    return per_sample(ms[0][1][0][0])
                return False, ms[0][1][0][0]
        return None, t
    if t.op == "not" and t.args[0].op == "eq" and const(0) in t.args[0].args:
        x = next((y for y in t.args[0].args if y is not const(0)), None)
        return per_sample(x) if x is not None else (None, t)
    if t.op == "not" and t.args[0].op in ("lt0",):
        return (False, t) if active(t.args[0])[0] else (None, t)
    if t.op == "eq" and const(0) in t.args:
        return False, t
    return None, t


def start(ctx, key, t, loc, border):
    """the starting grid: random over the batch, its outer quarter cleared when border"""
    stores = []
    while t.op == "store" or base_name(t) in ("to", "clone") and t.args[1]:
        if t.op == "store":
            stores.append((t.args[1], t.args[2]))
            t = t.args[0]
        else:
            t = t.args[1][0]
    if t.op in ("mul", "poly"):
        fs = [y for y in walk_factors(t)]
        base = [y for y in fs if base_name(strip(y)) == "rand"]
        rest = [y for y in fs if y not in base]
        if len(base) == 1 and len(rest) == 1:
            m, put = strip(rest[0]), []
            while m.op == "store":
                put.append((m.args[1], m.args[2]))
                m = strip(m.args[0])
            if base_name(m) in ("zeros", "zeros_like") or m is const(0):
                for dim in (16, 40, 42):
                    ctx.ob("R3", f"{key}:cleared:{dim}", kept(put, dim, border), loc, "the outer quarter on each side is not what is cleared")
                return
    if base_name(t) not in ("rand",):
        ok = False if base_name(t) in ("zeros", "ones", "randn", "full") or t is const(0) else None
        if base_name(t) in ("zeros",):
            ok = None
        return ctx.ob("R3", f"{key}:start", ok, loc, f"the run starts from {short(t, 80)}")
    sh = list(t.args[1])
    if len(sh) == 1 and sh[0].op in ("tuple", "seq"):
        sh = list(sh[0].args)
    want = [A("batch_size"), mk("attr", A("ca"), "external_channels"), A("dim"), A("dim")]
    ctx.ob("R3", f"{key}:start", True if sh == want else False if len(sh) == 4 and all(is_num(y) or y.op == "attr" for y in sh) else None, loc, f"the starting grids are drawn with shape {[short(y, 30) for y in sh]}")
    for dim in (16, 40, 42):
        ok = cleared(stores, dim, border)
        ctx.ob("R3", f"{key}:cleared:{dim}", ok, loc, "the outer quarter on each side is not what is cleared" if border else "part of the starting grid is overwritten")


def ev(t, dim):
    z = norm(subst(t, lambda y: const(dim) if y is A("dim") else None), True)
    for _ in range(4):
        z = norm(subst(z, lambda y: const(cval(y.args[0]) // cval(y.args[1])) if y.op == "floordiv" and all(is_num(q) for q in y.args)
                       else const(int(cval(y.args[1][0]))) if base_name(y) == "int" and is_num(y.args[1][0]) else None), True)
    return int(cval(z)) if is_num(z) and cval(z).denominator == 1 else None


def span(k, dim):
    if k.op == "slice":
        lo, hi, stp = (list(k.args) + [NONE] * 3)[:3]
        if stp not in (NONE, const(1)):
            return None
        a = None if lo is NONE else ev(lo, dim)
        b = None if hi is NONE else ev(hi, dim)
        if lo is not NONE and a is None or hi is not NONE and b is None:
            return None
        return set(range(dim)[slice(a, b)])
    i = ev(k, dim)
    return {range(dim)[i]} if i is not None and -dim <= i < dim else None


def walk_factors(t):
    if t.op == "mul":
        return list(t.args)
    if t.op == "poly" and len(t.args) == 1 and t.args[0][0] == 1 and all(e == 1 for y, e in t.args[0][1]):
        return [y for y, e in t.args[0][1]]
    return []


def kept(stores, dim, border):
    """a mask of zeros with ones stored in it"""
    on = set()
    for k, v in stores:
        ks = list(k.args) if k.op in ("tuple", "seq") else [k]
        if len(ks) != 4 or not all(y.op == "slice" and all(z is NONE for z in y.args) for y in ks[:2]) or norm(v, True) is not const(1):
            return None
        a, b = span(ks[2], dim), span(ks[3], dim)
        if a is None or b is None:
            return None
        on |= {(x, y) for x in a for y in b}
    q = dim // 4 if border else 0
    return on == {(x, y) for x in range(q, dim - q) for y in range(q, dim - q)}


def cleared(stores, dim, border):
    gone = set()
    for k, v in stores:
        v = norm(v, True)
        ks = list(k.args) if k.op in ("tuple", "seq") else [k]
        if len(ks) != 4 or not all(y.op == "slice" and all(z is NONE for z in y.args) for y in ks[:2]):
            return None
        a, b = span(ks[2], dim), span(ks[3], dim)
        if a is None or b is None:
            return None
        if v is const(0):
            gone |= {(x, y) for x in a for y in b}
        elif v is not const(0) and not is_num(v):
            return None
        else:
            return False
    q = dim // 4
    want = {(x, y) for x in range(dim) for y in range(dim) if min(x, y) < q or max(x, y) >= dim - q} if border else set()
    return gone == want


def proposed(ctx, cls, E, loc):
    """the parameters proposed are set, unconditionally and before the first step"""
    calls = [e for e in E.events if e.kind == "call"]
    sets = [e for e in calls if str(e.data["name"]).split(".")[-1] == "set_params"]
    runs = [e for e in calls if str(e.data["name"]) == ".ca"]
    if not runs:
        return ctx.ob("R6", f"{cls}:steps", None, loc, "the CA's steps were not recognised")
    first = [e for e in sets if e.seq < runs[0].seq]
    if not first:
        return ctx.ob("R6", cls, False if not sets or sets else None, loc, "the proposed parameters are not set before the CA runs")
    e = first[-1]
    v = norm(e.data["args"][-1], True)
    ctx.ob("R6", cls, True if v is ACTION and e.data["args"][0] in (SELF, A("ca")) else None if contains(v, lambda y: y.op in OPEN) or v.op == "call" and base_name(v) not in ("abs", "clamp", "mul", "relu") else False, e.loc, f"the parameters set are {short(v, 60)}, not the ones proposed")
    g = [x for x in e.guards if norm(x) is not TRUE]
    ctx.ob("R6", f"{cls}:always", not g or None if g and contains(norm(and_(*g)), lambda y: y.op in OPEN or y.op == "call" and base_name(y) not in ("get_params", "sum", "mean", "any", "all", "max", "min", "abs", "norm", "equal", "allclose")) else not g, e.loc, f"the proposed parameters are set only when {short(norm(and_(*e.guards)), 80) if e.guards else ''}")


def restarted(ctx, cls, E, loc):
    """the CA's clock is set back before the first step of a run"""
    runs = [e for e in E.events if e.kind == "call" and str(e.data.get("name")) in (".ca", ".forward") or e.kind == "call" and str(e.data.get("name")).endswith("ca.forward")]
    if not runs:
        return ctx.ob("R2", f"{cls}:restart", None, loc, "no run of the CA was recognised")
    before = [e for e in E.events if e.kind == "call" and str(e.data.get("name")).rsplit(".", 1)[-1] == "reset" and e.data.get("args") and norm(e.data["args"][0]) is A("ca") and e.seq < runs[0].seq]
    late = [e for e in E.events if e.kind == "call" and str(e.data.get("name")).rsplit(".", 1)[-1] == "reset"]
    free = [e for e in before if not [x for x in e.guards if norm(x) is not TRUE]]
    ctx.ob("R2", f"{cls}:restart", True if free else None if before or late or any(e.kind == 'havoc' for e in E.events) else False, loc, "the CA's clock is not set back before the run: it carries on from the previous evaluation")


# ---------------------------------------------------------------- simple halting

def simple(ctx):
    cls = "SimpleHaltingWrapper"
    f, E, st, rew, info = step_of(ctx, cls)
    loc = func_loc(f)
    if rew is None:
        return ctx.ob("R1", cls, None, loc, "the value returned was not recognised")
    proposed(ctx, cls, E, loc)
    restarted(ctx, cls, E, loc)
    act = entry(E, st, info, "active_grid")
    if act is None:
        return ctx.ob("R1", cls, None, loc, "the active share is not recorded under a fixed name")
    a, tg = sym("share"), sym("target")
    z = norm(subst(rew, lambda y: a if y is act else tg if y is A("alive_target") else None), True)
    if a not in set(walk(z)):
        ctx.ob("R1", f"{cls}:of the share", False if not contains(z, lambda y: y.op in OPEN) and contains(z, lambda y: y is tg) else None, loc, f"the reward is {short(z, 100)}, not a function of the share of active grids")
    else:
        want = norm(neg(absd(tg, a)))
        known = not contains(z, lambda y: y.op in OPEN or y.op == "call" and base_name(y) not in ("mean", "sqrt", "abs", "clamp", "max", "min", "square"))
        zz = norm(subst(z, lambda y: y.args[1][0] if base_name(y) in ("mean", "sum") and len(y.args[1]) == 1 else None), True)
        for _ in range(2):
            zz = norm(subst(zz, lambda y: y.args[1][0] if base_name(y) in ("mean", "sum") and len(y.args[1]) == 1 else None), True)
        ctx.ob("R1", f"{cls}:reward", True if same_random(zz, want) else False if known else None, loc, f"the reward is {short(z, 120)}, not minus the distance of the active share from its target")
    t = strip(act)
    if base_name(t) == "mean" and len(t.args[1]) == 1 and not kws(t):
        ok, g = active(t.args[1][0])
        ctx.ob("R2", f"{cls}:share", ok, loc, f"the active share is the mean of {short(t.args[1][0], 100)}: not one flag for each sample")
        if ok:
            i = check_run(ctx, cls, g, A("ca_steps"), loc)
            if i is not None:
                start(ctx, cls, i, loc, True)
    else:
        ctx.ob("R2", f"{cls}:share", False if not contains(t, lambda y: y.op in OPEN) and base_name(t) in ("sum", "max", "min") else None, loc, f"the active share is {short(t, 80)}, not the mean over the samples")


# ---------------------------------------------------------------- halting with a predictor

def halting(ctx):
    cls = "HaltingWrapper"
    f, E, st, rew, info = step_of(ctx, cls)
    loc = func_loc(f)
    if rew is None:
        return ctx.ob("R1", cls, None, loc, "the value returned was not recognised")
    proposed(ctx, cls, E, loc)
    accs = list(dict.fromkeys(y for y in walk(rew) if base_name(y) == "get_accuracy"))
    if len(accs) != 1:
        return ctx.ob("R1", f"{cls}:reward", False if not accs and contains(rew, lambda y: base_name(y) == "loss_fn") else None, loc, f"the reward {short(rew, 80)} is not the accuracy of the predictions")
    z = norm(subst(rew, lambda y: sym("ACC") if y is accs[0] else None), True)
    ctx.ob("R1", f"{cls}:reward", True if z is norm(neg(sym("ACC"))) else None if contains(z, lambda y: y.op in OPEN) else False, loc, f"the reward is {short(z, 80)}, not minus the accuracy")
    a = [y for y in accs[0].args[1] if y is not SELF]
    kw = {k: v for k, v in accs[0].args[2] if k != "#"}
    pred = kw.get("prediction", a[0] if a else None)
    tgt = kw.get("target", a[-1] if a else None)
    if pred is None or tgt is None:
        return ctx.ob("R4", cls, None, loc, "what is compared was not recognised")
    if base_name(pred) != "forward":
        pred, tgt = (tgt, pred) if base_name(tgt) == "forward" else (pred, tgt)
    if base_name(pred) != "forward":
        return ctx.ob("R4", f"{cls}:prediction", None, loc, f"the prediction is {short(pred, 80)}")
    early = [y for y in pred.args[1] if y is not SELF][-1]
    ctx.ob("R4", f"{cls}:prediction", True, loc, "made by the predictor")
    i0 = check_run(ctx, f"{cls}:early", early, A("bigbang_steps"), loc)
    if i0 is not None:
        start(ctx, cls, i0, loc, False)
    mode = A("prediction_mode")
    e0, e1 = (norm(mk("eq", *sorted((const(k), mode), key=str))) for k in (0, 1))
    conds = [c for c in dict.fromkeys(walk(tgt)) if c.op == "eq" and mode in c.args]
    for m in (0, 1, 2):
        t = tgt
        for c in conds:
            k = next((y for y in c.args if y is not mode), None)
            if k is not None and is_num(k):
                t = norm(assume(t, c, cval(k) == m), True)
        parts = [t]
        if base_name(t) in ("cat", "stack", "hstack", "concat", "concatenate", "tcat") or t.op == "tcat":
            parts = pieces_of(t)
        what = ("vanishing", "dynamism", "both")[m]
        if parts is None:
            ctx.ob("R4", f"{cls}:{what}", None, loc, f"the target is {short(t, 80)}")
            continue
        kinds = [kind_of(ctx, cls, what, p, early, loc) for p in parts]
        want = [["vanishing"], ["dynamism"], ["vanishing", "dynamism"]][m]
        ctx.ob("R4", f"{cls}:{what}", True if kinds == want else None if None in kinds else False, loc, f"with prediction mode {m} the target is {kinds}, not {want}")
    training(ctx, cls, E, loc, rew)


def pieces_of(t):
    if t.op == "tcat":
        for x in t.args:
            if isinstance(x, T) and x.op in ("seq", "tuple"):
                return list(x.args)
        return None
    for x in t.args[1]:
        if isinstance(x, T) and x.op in ("seq", "tuple"):
            return list(x.args)
    return None


def kind_of(ctx, cls, what, p, early, loc):
    ok, g = active(p)
    if not ok:
        if ok is False:
            ctx.ob("R2", f"{cls}:{what}:flag", False, loc, f"the target is {short(p, 80)}: not one flag for each sample that something is left or moving")
        return None
    ctx.ob("R2", f"{cls}:{what}:flag", True, loc, "one flag for each sample")
    g = strip(g)
    kind, fin = "vanishing", g
    if base_name(g) == "abs" and len(g.args[1]) == 1:
        d = strip(g.args[1][0])
        ms = d.args if d.op == "poly" else ()
        if len(ms) == 2 and all(len(m) == 1 and m[0][1] == 1 and abs(c) == 1 for c, m in ms) and ms[0][0] * ms[1][0] == -1:
            x, y = ms[0][1][0][0], ms[1][1][0][0]
            if base_name(x) != "ca":
                x, y = y, x
            if base_name(x) == "ca" and x.args[1][-1] is y:
                kind, fin = "dynamism", y
            else:
                return None
        else:
            return None
    i = check_run(ctx, f"{cls}:{what}", fin, A("ca_steps"), loc)
    if i is not None:
        ctx.ob("R4", f"{cls}:{what}:same grids", True if i is early else False if base_name(i) == "rand" or contains(i, lambda y: base_name(y) == "rand") and not contains(i, lambda y: y.op in ("mu", "cell", "havoc", "opaque")) else None, loc,
               f"the outcome is that of {short(i, 80)}, not of the grids the predictor saw")
    return kind


def training(ctx, cls, E, loc, rew):
    def nm(e):
        return str(e.data["name"]).split(".")[-1]
    calls = [e for e in E.events if e.kind == "call"]
    fw = [e for e in calls if nm(e) == "forward"]
    last = fw[-1] if fw else None
    back = [e for e in calls if nm(e) == "backward"]
    opt = [e for e in calls if nm(e) == "step" and e.data["args"] and e.data["args"][0] is A("optimizer")]
    if not back or not opt or last is None:
        return ctx.ob("R5", f"{cls}:optimisation", False if not back and not opt and fw else None, loc, "the predictor is never trained")
    b, o = back[-1], opt[-1]
    ctx.ob("R5", f"{cls}:count", True if len(o.loops) == 1 and norm(o.loops[0][2] if len(o.loops[0]) > 2 else NONE) is A("train_steps") or len(o.loops) == 1 and norm(E.loopinfo[o.loops[0][0]]["spec"]) is A("train_steps")
           else False if len(o.loops) == 1 and (is_num(norm(E.loopinfo[o.loops[0][0]]["spec"])) or norm(E.loopinfo[o.loops[0][0]]["spec"]).op == "attr") or not o.loops else None, o.loc, "the predictor is not trained for train_steps steps")
    ctx.ob("R5", f"{cls}:order", b.seq < o.seq and [l[0] for l in b.loops] == [l[0] for l in o.loops], o.loc, "the optimiser steps before the loss is propagated")
    zg = [e for e in calls if nm(e) == "zero_grad" and [l[0] for l in e.loops] == [l[0] for l in o.loops]]
    zg = [e for e in zg if not {norm(x) for x in e.guards} - {norm(x) for x in o.guards}]
    ctx.ob("R5", f"{cls}:gradients cleared", bool(zg) and not any(b.seq < e.seq < o.seq for e in zg), o.loc, "gradients are not cleared in every training step")
    tr = [e for e in calls if nm(e) == "train" and e.seq < b.seq]
    evs = [e for e in calls if nm(e) == "eval" and e.data["args"] and e.data["args"][0] is SELF]
    ctx.ob("R5", f"{cls}:mode", bool(tr), b.loc, "training does not switch the predictor to training mode")
    if tr:
        ctx.ob("R5", f"{cls}:mode kept", not any(tr[-1].seq < e.seq < b.seq for e in evs), b.loc, "the predictor is in evaluation mode while it is trained")
    done = [e for e in evs if o.seq < e.seq < last.seq and not e.loops]
    ctx.ob("R5", f"{cls}:evaluation mode", bool(done) or None if any(nm(e) == "train" and e.data["args"] and len(e.data["args"]) > 1 for e in calls) else bool(done), last.loc, "the prediction that is scored is not made in evaluation mode")
    draws = [e for e in E.events if e.kind == "rng" and o.seq < e.seq < last.seq and not e.loops]
    ctx.ob("R5", f"{cls}:fresh grids", bool(draws), last.loc, "the predictor is scored on grids it was trained on")
    # what the loss compares
    ls = [e for e in calls if nm(e) == "loss_fn" and [l[0] for l in e.loops] == [l[0] for l in o.loops] and e.seq < b.seq]
    if ls:
        v = norm(ls[-1].data["value"], True)
        g = [contains(x, lambda y: base_name(y) == "forward") for x in v.args[1] if x is not SELF] if v.op == "call" else []
        ctx.ob("R5", f"{cls}:loss", True if g == [True, False] else False if g == [False, True] else None, ls[-1].loc, "the loss takes the outcome as the prediction and the prediction as the outcome")


def accuracy(ctx):
    cls = "HaltingWrapper"
    f = ctx.prog.method(cls, "get_accuracy")
    E, v, st = ctx.run(cls, "get_accuracy")
    ctx.note_units(E, f)
    t = norm(E.deref(v, st), True)
    loc = func_loc(f)
    names = [a.arg for a in f.node.args.args][1:3]
    if len(names) != 2:
        return ctx.ob("R1", f"{cls}.get_accuracy", None, loc, "arguments not recognised")
    P, G = sym(names[0]), sym(names[1])
    bad, unclear = None, None
    for p, g in ((0.1, 0), (0.1, 1), (0.9, 0), (0.9, 1), (0.6, 1), (0.4, 1), (0.4, 0), (0.6, 0), (1, 1), (0, 0)):
        z = t
        for _ in range(8):
            z = norm(subst(z, lambda y: const(Fraction(p).limit_denominator(10)) if y is P else const(g) if y is G else simp(y)), True)
        z = {TRUE: const(1), FALSE: const(0)}.get(z, z)
        if not is_num(z):
            unclear = z
        elif cval(z) != (1 if (p > 0.5) == (g > 0.5) else 0):
            bad = (p, g, z)
    ctx.ob("R1", f"{cls}.get_accuracy", False if bad else None if unclear is not None else True, loc, f"a prediction of {bad[0]} of the outcome {bad[1]} scores {short(bad[2], 20)}" if bad else f"{short(unclear, 60) if unclear is not None else ''}")
    whole = base_name(t) == "mean" and len(t.args[1]) == 1 and not kws(t)
    ctx.ob("R1", f"{cls}.get_accuracy:mean", True if whole else False if base_name(t) in ("sum", "max", "min", "median") else None, loc, f"the accuracy is {short(t, 80)}, not a mean over all predictions")


def simp(y):
    if y.op in ("lt", "le") and all(is_num(q) for q in y.args):
        return TRUE if (cval(y.args[0]) < cval(y.args[1]) or y.op == "le" and cval(y.args[0]) == cval(y.args[1])) else FALSE
    if y.op != "call" or not y.args[1]:
        return None
    n, a = base_name(y), y.args[1]
    if n in ("mean", "float", "sum") and len(a) == 1 and (is_num(a[0]) or a[0] in (TRUE, FALSE)):
        return const(1) if a[0] is TRUE else const(0) if a[0] is FALSE else a[0]
    if not all(is_num(q) for q in a):
        return None
    if n in ("ceil", "floor") and len(a) == 1:
        q = cval(a[0])
        return const(-((-q) // 1) if n == "ceil" else q // 1)
    if n == "relu" and len(a) == 1:
        return const(max(cval(a[0]), 0))
    if n in ("max_py", "min_py", "maximum", "minimum") and len(a) > 1:
        return const((max if n.startswith("max") else min)(cval(q) for q in a))
    if n == "round" and len(a) == 1:
        return const(round(cval(a[0])))
    if n == "clamp" and len(a) == 3:
        return const(min(max(cval(a[0]), cval(a[1])), cval(a[2])))
    if n == "abs":
        return const(abs(cval(a[0])))
    return None


# ---------------------------------------------------------------- gliders

def glider(ctx):
    cls = "GliderWrapper"
    name = "meta_step" if "meta_step" in ctx.prog.find_class(cls).methods else "step"
    f = ctx.prog.method(cls, "step")
    E = ctx.engine(OPAQUE)
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(ctx.prog.method(cls, name))
    r = E.deref(v, st)
    if r.op not in ("tuple", "seq") or len(r.args) != 4:
        return ctx.ob("R1", cls, None, loc, "the value returned was not recognised")
    raw = r.args[1]
    restarted(ctx, cls, E, loc)
    Ls = [L for L, i in E.loopinfo.items() if any(base_name(strip(norm(b, True))) == "ca" for a, b in i["carried"].values())]
    if len(Ls) != 1:
        return ctx.ob("R1", cls, None, loc, f"{len(Ls)} loops step the CA")
    I = E.loopinfo[Ls[0]]
    ctx.ob("R2", f"{cls}:steps", True if norm(I["spec"]) is A("ca_steps") else False if is_num(norm(I["spec"])) or norm(I["spec"]).op == "attr" or not contains(norm(I["spec"]), lambda y: y.op not in ("poly", "attr", "sym", "const")) else None, loc, f"the run takes {short(norm(I['spec']), 60)} steps")
    car = {k: (norm(a, True), norm(b, True)) for k, (a, b) in I["carried"].items()}
    mus = {k: norm(x, True) for k, x in I["mus"].items()}
    G0 = next((k for k, (a, b) in car.items() if base_name(strip(b)) == "ca" and b.args[1][-1] is mus.get(k)), None)
    if G0 is None:
        return ctx.ob("R2", f"{cls}:step", None, loc, "the grid stepped was not recognised")
    ctx.ob("R2", f"{cls}:start", True if car[G0][0] is ACTION else None if contains(car[G0][0], lambda y: y.op in OPEN) else False, loc, f"the run starts from {short(car[G0][0], 60)}, not the pattern proposed")
    g = car[G0][1]
    G, YG, S = sym("GRID"), A("y_grid"), sym("S")

    def view(t):
        t = norm(subst(t, lambda y: G if y is g else None), True)
        t = norm(subst(t, lambda y: const(0) if y.op == "mod" and y.args[1] is const(1) else None), True)
        def f(y):
            if y.op == "item" and y.args[0] is G:
                return G
            if base_name(y) in ("max", "amax") and len(y.args[1]) == 1 and y.args[1][0] is YG:
                return S
            if base_name(y) == "mean" and len(y.args[1]) == 1 and y.args[1][0] is G:
                return sym("MEAN")
            if base_name(y) == "sum" and len(y.args[1]) == 1:
                x = y.args[1][0]
                x = norm(subst(x, lambda q: G if q.op == "item" and q.args[0] is G else None), True)
                if x is G:
                    return sym("MASS")
                if x is norm(mul(YG, G)):
                    return sym("MOMENT")
            return None
        t = norm(subst(t, f), True)
        return t
    own = {}
    bodies = {k: view(b) for k, (a, b) in car.items()}
    # which record is the reward: the one the returned value comes from
    rt = norm(E_full(E, raw, st), True)
    names = {}
    for k in car:
        names[mus[k]] = k
    cand = [k for k in car if k != G0 and mus[k] in set(walk(car[k][1])) and contains(bodies[k], lambda y: y is sym("MEAN")) and is_num(car[k][0]) and any(mus[q] in set(walk(bodies[k])) for q in car if q not in (k, G0))]
    if len(cand) != 1:
        return ctx.ob("R1", f"{cls}:reward", None, loc, f"{len(cand)} records accumulate a reward")
    R = cand[0]
    ctx.ob("R1", f"{cls}:from zero", car[R][0] is const(0), loc, "the reward does not start at zero")
    used = [k for k in car if k not in (R, G0) and mus[k] in set(walk(bodies[R]))]
    # previous centre, previous mass
    eps = Fraction(1, 10 ** 6)
    kinds = {}
    for k in used:
        b = bodies[k]
        vals = [num(b, dict(MEAN=m, MASS=ms, MOMENT=mo, S=16), {}) for m, ms, mo in ((Fraction(1, 3), 5, 7), (Fraction(1, 5), 11, 3))]
        if None in vals:
            kinds[k] = None
        elif all(abs(x - y) < 1e-3 for x, y in zip(vals, (1 / 3, 0.2))):
            kinds[k] = "mass"
        elif all(abs(x - y) < 1e-3 for x, y in zip(vals, (7 / 5, 3 / 11))):
            kinds[k] = "centre"
        else:
            kinds[k] = "other"
    for k in used:
        i = car[k][0]
        if kinds[k] == "mass":
            m0 = i is norm(mk("call", "mean", (ACTION,), ())) or base_name(i) == "mean" and i.args[1][0] is ACTION
            ctx.ob("R1", f"{cls}:first mass", True if m0 else False if is_num(i) else None, loc, f"the first step's growth is relative to {short(i, 40)}, not to the pattern proposed")
        elif kinds[k] == "centre":
            ctx.ob("R1", f"{cls}:first centre", True if i in (const(0), NONE) else None, loc, f"the centre before the first step is {short(i, 40)}")
        else:
            if bodies[k].op == "ite" and mus[k] in bodies[k].args[1:] and not contains(bodies[k].args[0], lambda y: y.op in ("havoc", "cell", "opaque", "fold", "call") or y.op == "attr" and y.args[1] not in ("ca_steps",)):
                ctx.ob("R1", f"{cls}:previous", False, loc, f"the reward compares with a step further back: the record is replaced only when {short(bodies[k].args[0], 60)}")
                continue
            stale = mus[k] in set(walk(bodies[k])) or kinds[k] == "other"
            ctx.ob("R1", f"{cls}:previous", False if stale and not contains(bodies[k], lambda y: y.op in ("havoc", "cell", "opaque", "fold")) and kinds[k] == "other" else None, loc, f"the reward compares with {short(bodies[k], 80)}, neither the previous step's centre nor its mass")
    if sorted(str(x) for x in kinds.values()) != ["centre", "mass"]:
        miss = {"centre", "mass"} - set(kinds.values())
        if None not in kinds.values() and "other" not in kinds.values():
            ctx.ob("R1", f"{cls}:reward", False, loc, f"the reward does not depend on the previous step's {' and '.join(sorted(miss))}")
        return
    back = {mus[k]: kinds[k] for k in used}
    back[mus[R]] = "reward"
    bad = unclear = None
    nocentre = any(kinds[k] == "centre" and car[k][0] is NONE for k in used)
    for mean, mass, moment, span_, y0, m0, r0 in CASES:
        given = {m: {"centre": y0, "mass": m0, "reward": r0}[w] for m, w in back.items()}
        body = bodies[R]
        if y0 == 0 and nocentre:
            given = {m: w for m, w in given.items() if back[m] != "centre"}
            body = subst(body, lambda y: NONE if back.get(y) == "centre" else None)
        z = num(body, dict(MEAN=mean, MASS=mass, MOMENT=moment, S=span_), given)
        y1 = moment / (eps + mass)
        grow = abs(1 - mean / (m0 + eps))
        disp = 0 if y0 == 0 else y1 - y0 + (span_ if y0 > span_ - 2 and y1 < 2 else 0)
        want = r0 + disp - grow
        if z is None:
            unclear = bodies[R]
        elif abs(z - want) > 1e-3:
            bad = (f"centre {float(y0):.3g} to {float(y1):.3g} of {span_}, mass {float(m0):.3g} to {float(mean):.3g}", float(z - r0), float(want - r0))
    ctx.ob("R1", f"{cls}:reward", False if bad else None if unclear is not None else True, loc, f"for {bad[0]} a step adds {bad[1]:.4g}, not {bad[2]:.4g}" if bad else f"the step's reward {short(unclear, 80) if unclear is not None else ''} was not evaluated")
    # what is returned
    fin = contains(rt, lambda y: y.op in ("fold", "atbreak", "last"))
    ctx.ob("R1", f"{cls}:returned", True if rt is mus[R] or rt.op in ("fold",) or rt.op == "ite" and rt.args[0].op == "brk" else None if contains(rt, lambda y: y.op in OPEN) else False if not fin else None, loc, f"what is returned is {short(rt, 60)}, not the sum over the steps")
    e = entry(E, st, r.args[3], "active_grid")
    if e is not None:
        z = E_full(E, e, st)
        z = norm(z, True)
        while z.op == "ite" and z.args[0].op == "brk":
            z = z.args[1]
        if z.op == "atbreak":
            z = z.args[1]
        a_ = z.args[1][0] if z.op == "call" and len(z.args[1]) == 1 else None
        while isinstance(a_, T) and a_.op == "item" and base_name(a_) != "ca":
            a_ = a_.args[0]
        on = isinstance(a_, T) and base_name(a_) == "ca"
        ctx.ob("R2", f"{cls}:active_grid", None if not on else True if base_name(z) == "mean" and z.args[1][0] is a_ else False if base_name(z) in ("max", "amax", "min", "amin", "sum", "std", "var", "median", "mean") else None, loc, f"the active-grid entry is {short(z, 80)}, not the mean of the final grids")
    for c in I.get("breaks") or []:
        c = c if isinstance(c, T) else c[0] if isinstance(c, tuple) and isinstance(c[0], T) else None
        if c is None:
            continue
        z = view(norm(c, True))
        vs = []
        for mean, d in ((0, Fraction(0)), (Fraction(3, 10), Fraction(1, 2)), (Fraction(3, 10), Fraction(1, 200))):
            q = norm(subst(z, lambda y: const(mean) if y is sym("MEAN") else const(d) if base_name(y) in ("max", "amax") and len(y.args[1]) == 1 else None), True)
            q = norm(subst(q, simp), True)
            vs.append(q is TRUE if q in (TRUE, FALSE) else None)
        ctx.ob("R2", f"{cls}:early end", None if None in vs else vs == [True, False, False], loc, f"the run ends early when {short(z, 100)}")


F = Fraction
CASES = [(F(1, 3), F(5), F(40), 16, F(7), F(1, 3), F(2)), (F(1, 4), F(8), F(40), 16, F(6), F(1, 3), F(-1)), (F(1, 2), F(3), F(36), 16, F(11), F(1, 3), F(0)),
         (F(1, 4), F(10), F(30), 16, F(15), F(1, 4), F(3)), (F(1, 4), F(10), F(5), 16, F(15), F(1, 4), F(3)), (F(1, 4), F(10), F(50), 16, F(15), F(1, 4), F(3)), (F(1, 5), F(4), F(12), 16, F(0), F(1, 4), F(0)), (F(1, 4), F(10), F(5), 16, F(12), F(1, 4), F(1))]


def num(t, syms, more):
    z = t
    for _ in range(5):
        z = norm(subst(z, lambda y: const(syms[y.args[0]]) if y.op == "sym" and y.args[0] in syms else const(more[y]) if y in more else simp(y)), True)
    return float(cval(z)) if is_num(z) else None


def displacement(ctx):
    """the coordinate grids count cells along one axis, in units of the kernel's radius"""
    cls = "GliderWrapper"
    name = "init_displacement_grid" if "init_displacement_grid" in ctx.prog.find_class(cls).methods else "__init__"
    f = ctx.prog.method(cls, name)
    E, v, st = ctx.run(cls, name)
    ctx.note_units(E, f)
    for a in ("x_grid", "y_grid"):
        p = E.heapget(st, (SELF, "a", a))
        if p is None:
            ctx.ob("R1", f"{cls}.{a}", None, func_loc(f), "not set")
            continue
        t = norm(E_full(E, p, st), True)
        ms = [y for y in dict.fromkeys(walk(t)) if y.op in ("call", "item") and contains(y, lambda q: base_name(q) == "arange" or base_name(q) in ("meshgrid", "indices", "linspace")) or base_name(y) == "arange"]
        if not ms:
            ctx.ob("R1", f"{cls}.{a}", None, func_loc(f), f"coordinates not recognised: {short(t, 80)}")
            continue
        C_ = sym("COORD")
        z = norm(subst(t, lambda y: C_ if y in ms else None), True)
        want = norm(div(C_, mk("attr", A("ca"), "kernel_radius")))
        ctx.ob("R1", f"{cls}.{a}", True if z is want else False if not contains(z, lambda y: y.op in OPEN + ("call",)) else None, func_loc(f), f"distances are measured in {short(z, 80)}, not in kernel radii")
        gs = [y for y in ms if y.op == "item" and base_name(y.args[0]) in ("meshgrid", "indices")]
        if len(gs) == 1 and len(gs[0].args) == 2 and is_num(gs[0].args[1]):
            q = gs[0].args[0]
            kw = {k: w for k, w in (q.args[2] if len(q.args) > 2 else ())}
            ij = base_name(q) == "indices" or kw.get("indexing") is const("ij")
            plain = not kw or set(kw) == {"indexing"} and is_str(kw["indexing"])
            last = (cval(gs[0].args[1]) % 2 == 0) != ij
            ctx.ob("R1", f"{cls}.{a}:axis", None if not plain or contains(t, lambda y: base_name(y) in ("transpose", "permute", "swapaxes", "flip") or y.op == "attr" and y.args[1] == "T") else last == (a == "y_grid"), func_loc(f), f"{a} counts along the {'last' if last else 'first'} of the grid's two axes")
        r = [y for y in walk(t) if base_name(y) == "arange"]
        ctx.ob("R1", f"{cls}.{a}:extent", True if r and all(y.args[1] in ((A("dim"),), (const(0), A("dim"))) for y in r) else None, func_loc(f), f"coordinates over {short(r[0], 60) if r else '?'}")
    if "to_device" in ctx.prog.find_class(cls).methods:
        g = ctx.prog.method(cls, "to_device")
        E, v, st = ctx.run(cls, "to_device")
        ctx.note_units(E, g)
        for a in ("x_grid", "y_grid"):
            p = E.heapget(st, (SELF, "a", a))
            t = norm(strip(norm(E_full(E, p, st), True)), True) if p is not None else A(a)
            for _ in range(3):
                if t.op == "call" and base_name(t) in ("to", "cpu", "cuda", "float") and t.args[1]:
                    t = t.args[1][0]
                elif t.op == "ite" and t.args[1] is t.args[2]:
                    t = t.args[1]
            other = A("y_grid" if a == "x_grid" else "x_grid")
            ctx.ob("R1", f"{cls}.to_device:{a}", True if t is A(a) else False if contains(t, lambda y: y is other) and not contains(t, lambda y: y.op in OPEN) else None, func_loc(g), f"after a move {a} is {short(t, 60)}")
