"""C28: the universe analyser; C29: cloning a CA into a neural one."""
import ast
from ..lib import *
from ..terms import *
from .rewrite import up
from ..engine import St, Func
from .steps import SELF
from .predictor import full
from .io import NotText, merged
from .names import flat
from .entropy import base_name, kws, C, one_width
from .evo import project

CLS = "Phanes"
KEYS = {"step": "steps", "fertility_ratio": "fertility", "mortality_ratio": "mortality", "autocorrelation": "autocorrelation",
        "entropy_mean": "entropy mean", "entropy_std_dev": "entropy deviation"}
OPEN = ("mu", "havoc", "cell", "brk", "atbreak", "fold", "over", "iter", "last", "ite", "where", "ref", "opaque", "m", "closure", "lam", "undef")


def strange(t, known):
    """an operation whose meaning is not modelled"""
    return contains(t, lambda y: y.op in OPEN or y.op == "call" and base_name(y) not in known)


# ---------------------------------------------------------------- lengths of the series

class Unclear(Exception):
    pass


def added(t, base):
    """elements a list term appends to its base; Unclear when it cannot be told, 'varies' when it depends on data"""
    if t is base or t.op in ("m", "iter", "mu") and base is None:
        return 0
    if t.op == "lcat":
        n = 0
        for x in t.args[1:]:
            if x.op == "seq":
                n += len(x.args)
            elif x.op == "ite" and all(y.op == "seq" for y in x.args[1:]):
                if len(x.args[1].args) != len(x.args[2].args):
                    return "varies"
                n += len(x.args[1].args)
            else:
                raise Unclear(short(x, 60))
        b = added(t.args[0], base)
        return b if b == "varies" else n + b
    if t.op == "ite":
        a, b = added(t.args[1], base), added(t.args[2], base)
        return a if a == b else "varies"
    if t.op == "seq":
        return ("fresh", len(t.args))
    raise Unclear(t.op)


def rate(t):
    """(elements before the loop, elements per step)"""
    if t.op == "over" and t.args[1].op == "seq":
        return (0, len(t.args[1].args))
    if t.op == "lcat" and t.args[0].op == "seq" and len(t.args) == 2 and t.args[1].op == "over":
        return (len(t.args[0].args), len(t.args[1].args[1].args))
    if t.op == "fold":
        init, body = t.args[1][0]
        if init.op != "seq":
            raise Unclear(init.op)
        return (len(init.args), added(body, None))
    if t.op == "seq":
        return (len(t.args), 0)
    raise Unclear(t.op)


def profile(t):
    """growth of a list in a loop that may end early, the same for two lists exactly when they stay as long as each other"""
    if t.op == "ite" and t.args[0].op == "brk":
        return ("stop", t.args[0]) + profile(t.args[1]) + ("else",) + profile(t.args[2])
    if t.op == "atbreak":
        x = t.args[1]
        n = added(x, None)
        if n == "varies":
            return ("varies",)
        b = ends(x)
        if not all(y.op == "iter" for y in b):
            return ("at", n)
        rs = {rate(y.args[0]) for y in b}
        if len(rs) != 1:
            raise Unclear("arms")
        return ("at", n) + rs.pop()
    return rate(t)


def ends(t):
    if t.op == "lcat":
        return ends(t.args[0])
    if t.op == "ite":
        return ends(t.args[1]) | ends(t.args[2])
    return {t}


# ---------------------------------------------------------------- what a step measures

def reduced(t):
    """(tensor, axes left) of repeated means, sums and maxima over a four-axis tensor"""
    n = base_name(t)
    if n in ("mean", "sum", "amax", "any", "count_nonzero") and t.args[1]:
        k = kws(t)
        a = t.args[1]
        d = k.get("dim", k.get("axis", a[1] if len(a) > 1 else None))
        if len(a) > 2 or k.get("keepdim", k.get("keepdims", FALSE)) is not FALSE:
            return None
        r = reduced(a[0])
        if r is None:
            return None
        x, ax = r
        if d is None:
            return (x, [])
        ds = list(d.args) if d.op in ("tuple", "seq") else [d]
        if not all(is_num(y) for y in ds):
            return None
        try:
            gone = [ax[int(cval(y))] for y in ds]
        except IndexError:
            return None
        return (x, [y for y in ax if y not in gone])
    if n in ("flatten", "view", "reshape") and len(t.args[1]) > 1:
        a = t.args[1]
        if n == "flatten" and a[1] is const(1) and len(a) == 2 or n != "flatten" and len(a) == 3 and a[2] is const(-1):
            return (a[0], [0, "rest"])
    return (t, [0, 1, 2, 3])


def per_grid(t):
    r = reduced(t)
    return r[0] if r is not None and r[1] == [0] and r[0] is not t else None


def measures(t):
    """share, alive, dead: a grid is alive when its mean is positive"""
    n = base_name(t)
    if t.op in ("lt0", "gt0") and len(t.args) == 1:
        x = t.args[0]
        if t.op == "lt0":
            if x.op == "poly" and len(x.args) == 1 and x.args[0][0] < 0 and len(x.args[0][1]) == 1 and x.args[0][1][0][1] == 1:
                p = per_grid(x.args[0][1][0][0])
                return C("alive", p) if p is not None else None
            return None
        p = per_grid(x)
        return C("alive", p) if p is not None else None
    if t.op == "eq" and const(0) in t.args:
        x = t.args[1] if t.args[0] is const(0) else t.args[0]
        if base_name(x) == "alive":
            return C("dead", *x.args[1])
        p = per_grid(x)
        return C("dead", p) if p is not None else None
    if t.op == "ne" and const(0) in t.args:
        x = t.args[1] if t.args[0] is const(0) else t.args[0]
        p = per_grid(x)
        return C("alive", p) if p is not None else x if base_name(x) in ("alive", "dead") else None
    if t.op == "not" and base_name(t.args[0]) in ("alive", "dead"):
        return C("dead" if base_name(t.args[0]) == "alive" else "alive", *t.args[0].args[1])
    if t.op == "poly":
        # 1 - alive = dead on flags
        d = {m: c for c, m in t.args}
        if len(d) == 2 and d.get(()) == 1:
            m, c = next((m, c) for m, c in d.items() if m != ())
            if c == -1 and len(m) == 1 and m[0][1] == 1 and base_name(m[0][0]) in ("alive", "dead"):
                x = m[0][0]
                return C("dead" if base_name(x) == "alive" else "alive", *x.args[1])
    if n in ("item", "float") and len(t.args[1]) == 1:
        return t.args[1][0]
    if n in ("float", "double", "to", "type", "int", "long") and t.args[1] and base_name(t.args[1][0]) in ("alive", "dead"):
        return t.args[1][0]
    if n == "mean" and len(t.args[1]) == 1 and not kws(t) and base_name(t.args[1][0]) in ("alive", "dead"):
        x = t.args[1][0]
        return C("share", *x.args[1]) if base_name(x) == "alive" else sub(const(1), C("share", *x.args[1]))
    if n == "sum" and len(t.args[1]) == 1 and not kws(t) and base_name(t.args[1][0]) in ("alive", "dead"):
        x = t.args[1][0]
        b = mk("attr", SELF, "batch_size")
        return mul(b, C("share", *x.args[1]) if base_name(x) == "alive" else sub(const(1), C("share", *x.args[1])))
    if t.op == "eq" and const(-1) in t.args:
        # x * dead == -1
        x = t.args[1] if t.args[0] is const(-1) else t.args[0]
        if x.op == "poly" and len(x.args) == 1 and x.args[0][0] == 1:
            fl = [y for y, e in x.args[0][1] if base_name(y) in ("alive", "dead")]
            if len(fl) == 1 and len(x.args[0][1]) == 2:
                y = next(y for y, e in x.args[0][1] if y is not fl[0])
                return and_(fl[0], norm(mk("eq", y, const(-1))))
    if t.op == "eq" and len(t.args) == 2 and TRUE in t.args:
        return next((x for x in t.args if x is not TRUE), TRUE)
    if n in ("opBitAnd", "logical_and", "bitwise_and") and len(t.args[1]) == 2 or t.op == "opBitAnd":
        a = t.args[1] if t.op == "call" else t.args
        return and_(*a)
    return None


EDGES = {(2, 0), (2, -1), (3, 0), (3, -1)}


def border(t):
    """is a mask one on the outermost cells and zero elsewhere: True/False/None"""
    full_ = mk("slice", NONE, NONE, NONE)
    def spot(k):
        k = list(k.args) if k.op == "tuple" else [k]
        if k and k[0].op in ("ellipsis",):
            k = [full_] * (5 - len(k)) + k[1:]
        if k and k[0] is mk("const", Ellipsis):
            k = [full_] * (5 - len(k)) + k[1:]
        return k + [full_] * (4 - len(k))
    edges = set()
    x = t
    stores = []
    while x.op == "store":
        stores.append((spot(x.args[1]), x.args[2]))
        x = x.args[0]
    zero = x is const(0) or base_name(x) in ("zeros", "zeros_like")
    one = x is const(1) or base_name(x) in ("ones", "ones_like")
    if not zero and not one or not stores:
        return None
    if one:
        if len(stores) == 1 and stores[0][1] is const(0):
            k = stores[0][0]
            ins = mk("slice", const(1), const(-1), NONE)
            return k[:2] == [full_, full_] and k[2:] == [ins, ins] if len(k) == 4 and all(y.op == "slice" for y in k) else None
        return None
    for k, v in stores:
        if len(k) != 4 or not is_num(v):
            return None
        if cval(v) <= 0:
            return False if cval(v) == 0 else None
        pos = [(i, int(cval(y))) for i, y in enumerate(k) if is_num(y)]
        sl = [y for y in k if not is_num(y)]
        if len(pos) != 1 or not all(y is full_ for y in sl):
            return None if not all(y.op == "slice" for y in sl) else False
        edges.add(pos[0])
    return edges == EDGES


def check_C28(ctx):
    ctx.rule("R1", "every series of an analysis grows by exactly one entry per simulated step, also in the step at which the run stops early")
    ctx.rule("R2", "each step's entries are measured on the grid of that step, the autocorrelation between it and the grid of the immediately preceding step")
    ctx.rule("R3", "mortality is one minus the share of grids with a positive mean, fertility the share with activity on the border, last step the first step without activity; the run stops early only without any activity")
    ctx.rule("R4", "every configuration file is loaded, analysed and saved in the same iteration, under a name derived from the file's name")
    ctx.rule("R5", "the correlation is computed between two grids each normalised by its own mean and deviation")
    ctx.rule("R6", "every sample of the batch starts from a pattern of its own")
    ctx.guard("R6", "analyze_universe", lambda: starts(ctx))
    ctx.guard("R1", "analyze_universe", lambda: universe(ctx))
    ctx.guard("R4", "analyze_multiverse", lambda: multiverse(ctx))
    ctx.guard("R5", "autocorrelate", lambda: correlate(ctx))


def starts(ctx):
    f = ctx.prog.method(CLS, "analyze_universe")
    loc = func_loc(f)
    E = ctx.engine({"get_spatial_entropy", "autocorrelate", "__init__", "get_action"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    acts = [e for e in E.events if e.kind == "call" and str(e.data["name"]).endswith("get_action")]
    steps = [e for e in E.events if e.kind == "call" and str(e.data["name"]).endswith(".ca")]
    first = steps[0].seq if steps else len(E.events)
    if not acts:
        ctx.ob("R6", "analyze_universe:networks", None, loc, "no pattern network is used")
    for a in acts:
        if a.seq > first:
            continue
        obj = E.deref(a.data["args"][0], st)
        obj = a.data["args"][0] if a.data["args"][0].op == "ref" else obj
        n = next((e for e in E.events if e.kind == "new" and e.seq < a.seq and e.data.get("ptr") is obj), None)
        n = n or next((e for e in E.events if e.kind == "call" and str(e.data["name"]).endswith("CPPN.__init__") and e.data["args"] and e.data["args"][0] is obj), None)
        if n is None:
            made = [e for e in E.events if e.kind == "new" and e.seq < a.seq and getattr(e.data.get("cls"), "name", "") == "CPPN"]
            part = [e for e in made if [l[0] for l in e.loops] == [l[0] for l in a.loops] and {norm(g) for g in e.guards} - {norm(g) for g in a.guards}]
            ctx.ob("R6", "analyze_universe:networks", False if part and len(part) == len(made) == 1 else None, a.loc, "a pattern network is made for some samples only; the others share one")
            continue
        la, ln = [l[0] for l in a.loops], [l[0] for l in n.loops]
        extra = {norm(g) for g in n.guards} - {norm(g) for g in a.guards}
        ok = ln == la and not extra
        if ok and not la or ln and ln != la:
            ok = None
        ctx.ob("R6", "analyze_universe:networks", True if ok else None if ok is None else False, n.loc, "one pattern network makes the patterns of several samples, which are then all the same")
    for e in E.events:
        if e.kind == "mutate" and e.seq < first and e.loops and contains(norm(e.data["value"]), lambda y: base_name(y) == "get_action"):
            ix = e.data.get("key")
            lead = ix if isinstance(ix, T) else None
            if lead is not None and lead.op in ("tuple", "seq") and lead.args:
                lead = lead.args[0]
            whole = e.data.get("how") == "[:]=" or lead is not None and lead.op == "slice" and all(y in (NONE, const(0), const(1)) for y in lead.args)
            own = lead is not None and contains(norm(lead), lambda y: y.op == "idx")
            ctx.ob("R6", "analyze_universe:own sample", True if own else False if whole or lead is not None and is_num(norm(lead)) else None, e.loc,
                   "the pattern drawn for one sample is written over the starts of the others")
        if e.kind == "mutate" and e.data.get("how") == "[]=" and e.seq < first:
            t = norm(e.data["value"])
            if t.op != "call" or not str(t.args[0]).startswith(("torch.rand", "numpy.random")):
                continue
            ix = e.data.get("key")
            lead = None
            if isinstance(ix, T):
                lead = ix.args[0] if ix.op in ("tuple", "seq") and ix.args else ix
            if lead is None:
                continue
            if lead.op == "slice":
                lo, hi, stp = (list(lead.args) + [NONE] * 3)[:3]
                whole = lo in (NONE, const(0)) and stp in (NONE, const(1)) and (hi is NONE or hi is mk("attr", SELF, "batch_size"))
                ctx.ob("R6", "analyze_universe:random start", True if whole else False if is_num(lo) or is_num(hi) else None, e.loc, f"only samples {short(lead, 40)} get a random start")
            n0 = t.args[1][0] if t.args[1] and lead.op == "slice" else None
            if n0 is not None and n0.op in ("tuple", "seq"):
                n0 = n0.args[0]
            if n0 is not None:
                ctx.ob("R6", "analyze_universe:drawn", False if n0 is const(1) else True if n0 is mk("attr", SELF, "batch_size") else None, e.loc, f"{short(n0, 30)} random starts are drawn for the whole batch")


def universe(ctx):
    f = ctx.prog.method(CLS, "analyze_universe")
    loc = func_loc(f)
    E = ctx.engine({"get_spatial_entropy", "autocorrelate", "__init__", "get_action"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    ctx.note_units(E, f)
    t = norm(E.deref(v, st), do_strip=True)
    if t.op != "dict":
        return ctx.ob("R1", "analyze_universe", None, loc, "the result is not recognised as a dictionary")
    items = {}
    for k in t.args[1:]:
        k = k.args if isinstance(k, T) else k
        if is_str(k[0]):
            items[cval(k[0])] = norm(k[1])
    prof = {}
    for k, name in KEYS.items():
        if k not in items:
            ctx.ob("R1", f"analyze_universe:{name}", None, loc, f"no entry {k!r} in the result")
            continue
        try:
            p = profile(items[k])
        except (Unclear, IndexError, AttributeError) as e:
            ctx.ob("R1", f"analyze_universe:{name}", None, loc, f"growth of the series not recognised: {short(items[k], 60)} ({e})")
            continue
        prof[k] = p
        if "varies" in p:
            ctx.ob("R1", f"analyze_universe:{name}", False, loc, f"the {name} series does not get an entry in every step")
    good = {k: p for k, p in prof.items() if "varies" not in p}
    for k, p in good.items():
        q = [x for x in good.values() if x == p]
        most = max(good.values(), key=lambda x: sum(1 for y in good.values() if y == x))
        one = unit(p)
        ctx.ob("R1", f"analyze_universe:{KEYS[k]}", p == most and one, loc,
               f"the {KEYS[k]} series " + ("does not grow by one entry per simulated step" if not one else "has another length than the other series when the run stops early" if p != most else ""))
    # the loop that simulates
    calls = [e for e in E.events if e.kind == "call" and e.data["name"] in (".ca", "<call>") and e.loops and simulates(e)]
    ca_calls = [e for e in calls]
    Ls = {e.loops[-1][0] for e in ca_calls}
    if len(Ls) != 1 or not ca_calls:
        return ctx.ob("R2", "analyze_universe:simulation", None, loc, "the loop that steps the CA is not recognised")
    L = Ls.pop()
    info = E.loopinfo[L]
    news = {norm(e.data["value"], do_strip=True) for e in ca_calls}
    if len(news) != 1:
        return ctx.ob("R2", "analyze_universe:simulation", None, loc, f"{len(news)} different applications of the CA per step")
    new = news.pop()
    spec = info["spec"]
    ctx.ob("R2", "analyze_universe:number of steps", True if norm(spec) is mk("attr", SELF, "ca_steps") else None if strange(norm(spec), ()) else False, loc, f"the CA is stepped {short(spec, 60)} times")
    mus = {norm(m): key for key, m in info["mus"].items()}
    carried = {}
    for key, m in info["mus"].items():
        if key in info["carried"]:
            a, b = info["carried"][key]
            carried[norm(m)] = (norm(E.deref(a, st), do_strip=True), norm(E.deref(b, st), do_strip=True))
    cur = norm(new.args[1][-1], do_strip=True)
    N, PREV = sym("NEW"), sym("PREV")
    prevs = set()
    if cur in carried:
        init, body = carried[cur]
        ctx.ob("R2", "analyze_universe:trajectory", True if body is new else False if not strange_but(body, carried, new) else None, ca_calls[0].loc, f"the CA is applied to {short(body, 60)}, not to the grid it produced in the previous step")
        for m, (i, b) in carried.items():
            if b is new and i is init:
                prevs.add(m)
    else:
        return ctx.ob("R2", "analyze_universe:trajectory", None, ca_calls[0].loc, f"the CA is applied to {short(cur, 60)}")
    g0 = carried[cur][0]
    def gridlike(F, j, seen=()):
        """does slot j of a loop carry the grid of the previous step"""
        if j in seen:
            return True
        slots = F.args[1]
        if j >= len(slots) or slots[j][0] is not g0:
            return False
        b = slots[j][1]
        if b.op != new.op or b.args[0] != new.args[0] or len(b.args[1]) != len(new.args[1]):
            return False
        x = b.args[1][-1]
        return x.op == "m" and gridlike(F, int(x.args[1]), seen + (j,))
    def rename(y):
        if y.op == "iter" and y.args[0].op == "fold" and norm(y.args[0].args[0]) in (norm(spec), const(0)):
            if gridlike(y.args[0], 0):
                return PREV
            i, b = y.args[0].args[1][0]
            if i is g0 and not contains(b, lambda z: z.op in ("havoc", "cell", "ref", "opaque", "closure")):
                return sym("STALE")
        if y is g0:
            return sym("START")
        if y in carried and carried[y][0] is g0 and y not in prevs and not contains(carried[y][1], lambda z: z.op in ("havoc", "cell", "ref", "opaque", "closure")):
            return sym("STALE")
        if y is new:
            return N
        if y in prevs:
            return PREV
        return None
    def view(x):
        x = norm(E.deref(x, st), do_strip=True)
        x = norm(subst(x, rename), do_strip=True)
        x = norm(subst(x, lambda y: N if y.op == "call" and y.args[0] == new.args[0] and y.args[1][-1:] == (PREV,) else None), do_strip=True)
        return up(x, measures)
    final = {}
    for e in E.events:
        if e.kind == "listmut" and e.loops and e.loops[-1][0] == L:
            final.setdefault(norm(E.deref(e.data["target"], st), do_strip=True), []).append(e)
    offset = None
    for k, name in KEYS.items():
        es = final.get(items.get(k), [])
        vals = {view(e.data["value"]) for e in es if e.data["how"] in ("append", "+=", "extend")}
        key = f"analyze_universe:{name}"
        if len(vals) != 1:
            ctx.ob("R2", key, None, loc, "value appended not recognised")
            continue
        x = vals.pop()
        if x.op == "seq" and len(x.args) == 1 and es[0].data["how"] != "append":
            x = x.args[0]
        l = es[0].loc
        entry(ctx, k, key, x, l, N, PREV, L, info)
        if k == "step":
            offset = is_step(x)
    # last step
    ls = items.get("last_step")
    if ls is not None:
        def top(y):
            return any(top(q) for q in y.args[1:]) if y.op == "ite" and y.args[0].op == "brk" else y.op in ("store", "where", "poly") or base_name(y) in ("clamp", "clip", "abs", "relu", "maximum", "minimum", "nan_to_num", "round", "where") and y.op == "call"
        ctx.ob("R3", "analyze_universe:last step kept", False if top(norm(ls, True)) else True, loc, f"the last steps recorded are changed after the run: {short(ls, 80)}")
    cells = [(m, carried[m]) for m in carried if carried[m][1].op in ("store", "where", "ite") and m in [norm(y) for y in walk(carried[m][1])]]
    done = False
    for m, (i, b) in cells:
        b = view(b)
        if not (b.op == "store" and b.args[0] is m or b.op == "where" and b.args[2] is m):
            continue
        cond, val = (b.args[1], b.args[2]) if b.op == "store" else (b.args[0], b.args[1])
        if ls is None or not contains(ls, lambda y: base_name(y) == "ones" or y is i):
            continue
        i = norm(i, do_strip=True)
        none = i.op == "poly" and len(i.args) == 1 and i.args[0][0] == -1 and len(i.args[0][1]) == 1 and base_name(i.args[0][1][0][0]) == "ones" or base_name(i) == "full" and const(-1) in i.args[1] or i is const(-1)
        want = {C("dead", N), norm(mk("eq", m, const(-1)))}
        ok = cond.op == "and" and {norm(mk("eq", *[y for y in x.args if y is not const(-1)], const(-1))) if x.op == "eq" and const(-1) in x.args else x for x in cond.args} == want
        known = not contains(cond, lambda y: y is not m and (y.op in OPEN or y.op == "call" and base_name(y) not in ("alive", "dead", "share", "mean", "sum")))
        ctx.ob("R3", "analyze_universe:last step", True if ok and is_step(val) is not None and is_step(val) == (offset or 0) else (False if known and not contains(val, lambda y: y.op in OPEN) else None), loc,
               f"the last step is set where {short(cond, 100)} to {short(val, 40)}, not where the grid is empty for the first time to the step")
        ctx.ob("R3", "analyze_universe:never vanished", True if none else (False if is_num(i) or base_name(i) in ("ones", "zeros") else None), loc, f"grids that never vanish keep {short(i, 40)}, not -1")
        done = True
        break
    if not done:
        ctx.ob("R3", "analyze_universe:last step", None, loc, "update of the last step not recognised")
    for b in info.get("breaks", ()):
        x = view(b)
        n = x
        if n.op == "eq" and const(0) in n.args:
            y = n.args[1] if n.args[0] is const(0) else n.args[0]
            ok = base_name(y) in ("mean", "sum", "max", "amax", "count_nonzero") and y.args[1] == (N,) or y is C("share", N) or None
            if ok is None and base_name(y) in ("min", "std", "amin", "median", "var", "mean", "sum", "max", "amax", "share") and len(y.args[1]) == 1 and not contains(y.args[1][0], lambda z: z.op in OPEN):
                ok = False
        elif n.op == "not" and base_name(n.args[0]) == "any":
            ok = n.args[0].args[1] == (N,) or None
        else:
            ok = None if contains(n, lambda y: y.op in OPEN or y.op == "call" and base_name(y) not in ("mean", "sum", "max", "min", "amax", "alive", "dead", "share", "std")) else False
        ctx.ob("R3", "analyze_universe:early stop", ok, loc, f"the run stops early when {short(x, 80)}")


def simulates(e):
    n = e.data["name"]
    if n == ".ca":
        return True
    fn = e.data.get("fn")
    return fn is not None and isinstance(fn, T) and contains(norm(fn), lambda y: y.op == "attr" and y.args[1] == "ca")


def strange_but(body, carried, new):
    return contains(body, lambda y: y.op in OPEN and y not in carried or y.op == "call" and y is not new and base_name(y) not in ("ca", "clone", "detach"))


def unit(p):
    """one entry per step in every arm"""
    out, i = True, 0
    p = list(p)
    while i < len(p):
        if p[i] == "stop":
            i += 2
        elif p[i] == "else":
            i += 1
        elif p[i] == "at":
            if i + 3 < len(p) + 1 and len(p) >= i + 4:
                out = out and p[i + 1] == 1 and p[i + 2] == 0 and p[i + 3] == 1
                i += 4
            else:
                return False
        else:
            out = out and p[i] == 0 and p[i + 1] == 1
            i += 2
    return out


def is_step(x):
    """the constant by which a value differs from the number of the step"""
    x = norm(x)
    ix = [y for y in walk(x) if y.op == "idx"]
    if len(set(ix)) == 1:
        d = norm(sub(x, ix[0]))
        return cval(d) if is_num(d) else None
    return None


MEAS = ("alive", "dead", "share", "mean", "std", "min", "max", "autocorrelate", "get_spatial_entropy", "sum", "abs", "median", "var", "median", "amax", "amin")


def entry(ctx, k, key, x, loc, N, PREV, L, info):
    def verdict(ok, msg):
        known = not contains(x, lambda y: y.op in OPEN and y.op not in () or y.op == "call" and base_name(y) not in MEAS)
        ctx.ob("R3" if k in ("mortality_ratio", "fertility_ratio") else "R2", key, True if ok else (False if known else None), loc, msg)
    if k == "step":
        return verdict(is_step(x) is not None, f"the step series records {short(x, 60)}")
    if k == "mortality_ratio":
        if contains(x, lambda y: y.op == "call" and base_name(y) == "store" or y.op == "store") and contains(x, lambda y: y.op == "mu") and not contains(x, lambda y: base_name(y) == "share"):
            return ctx.ob("R3", key, False, loc, "mortality is taken from the record of last steps: grids that come back to life stay counted as dead")
        return verdict(x is norm(sub(const(1), C("share", N))), f"mortality is {short(x, 100)}, not one minus the share of grids alive")
    if k == "fertility_ratio":
        if base_name(x) == "share" and x.args[1][0].op == "poly" and len(x.args[1][0].args) == 1:
            c, m = x.args[1][0].args[0]
            other = [y for y, e in m if y is not N]
            if c > 0 and len(m) == 2 and len(other) == 1:
                b = border(other[0])
                return ctx.ob("R3", key, b, loc, f"grids are fertile when active where {short(other[0], 100)}, not on the border")
        if base_name(x) == "share" and not contains(x, lambda y: y is N) and contains(x, lambda y: y.op == "sym" and y in (PREV, sym("STALE"), sym("START"))) or x is C("share", N):
            return ctx.ob("R3", key, False, loc, f"fertility is {short(x, 60)}")
        if x.op == "poly" and contains(x, lambda y: base_name(y) == "share") and not contains(x, lambda y: y.op in OPEN):
            return ctx.ob("R3", key, False, loc, f"fertility is {short(x, 100)}, not the share of grids with activity on the border")
        q = x.args[1][0] if base_name(x) == "mean" and x.args[1] else None
        if q is not None and q.op == "lt0" and q.args[0].op == "poly" and contains(q, lambda y: y is N):
            k0 = [c for c, m in q.args[0].args if not m]
            if k0 and abs(k0[0]) >= Fraction(1, 10 ** 4):
                return ctx.ob("R3", key, False, loc, f"grids count as fertile only from a level of activity on: {short(q, 60)}")
        return ctx.ob("R3", key, None, loc, f"fertility is {short(x, 60)}")
    if k == "autocorrelation":
        cs = [y for y in walk(x) if y.op == "call" and base_name(y) == "autocorrelate"]
        cs = list(dict.fromkeys(cs))
        if not cs:
            return ctx.ob("R2", key, None, loc, f"the correlation entry is {short(x, 60)}")
        ok = all(set(positional(y)) == {N, PREV} for y in cs)
        cores = {frozenset(positional(y)) for y in cs}
        z = norm(subst(x, lambda y: sym("CORR") if y in cs else None), do_strip=True)
        loose = any(contains(a, lambda y: y.op in OPEN and y.op != "mu" or y.op == "call") for c in cores for a in c if a.op != "sym")
        ctx.ob("R2", key, True if ok else None if loose else False, loc, f"the correlation is between {[short(a, 40) for a in positional(cs[0])]}, not between the grid and its immediate predecessor")
        if z.op in ("seq", "tuple") and len(z.args) == 4:
            ws = [C(n, sym("CORR")) for n in ("mean", "std", "min", "max")]
            got = [drop_ax(y) for y in z.args]
            ctx.ob("R2", key + ":summary", True if got == ws else False if all(base_name(y) in ("mean", "std", "min", "max", "median", "var") for y in got) else None, loc, f"the correlation is summarised by {[short(y, 20) for y in got]}, not by mean, deviation, minimum and maximum")
        else:
            ctx.ob("R2", key + ":summary", None, loc, f"summary {short(z, 60)}")
        return
    if k in ("entropy_mean", "entropy_std_dev"):
        want = "mean" if k == "entropy_mean" else "std"
        if x.op == "call" and len(x.args[1]) == 1 and base_name(x.args[1][0]) == "get_spatial_entropy":
            s = x.args[1][0]
            a = [y for y in s.args[1] if y is not SELF]
            kw = {q: w for q, w in s.args[2] if q != "#"}
            g = a[0] if a else kw.get("grid")
            w = a[1] if len(a) > 1 else kw.get("window_size")
            ctx.ob("R2", key, base_name(x) == want and g is N if g is not None and not contains(g, lambda y: y.op in OPEN and y.op != "mu") else None, loc, f"the entry is {base_name(x)} over the entropy of {short(g, 40) if g is not None else '?'}, not {want} over that of the step's grid")
            r = mk("attr", mk("attr", SELF, "ca"), "kernel_radius")
            ww = norm(add(const(1), mul(const(2), r)))
            ctx.ob("R2", key + ":window", None if w is None else window_ok(norm(w), r, ww), loc, f"the window is {short(w, 60) if w is not None else 'the default'}, not the kernel's size")
            return
        if x.op == "call" and len(x.args[1]) == 1 and x.args[1][0].op == "ite" and contains(x, lambda y: base_name(y) == "get_spatial_entropy"):
            arms = list(x.args[1][0].args[1:])
            stale = [y for y in arms if y.op in ("mu", "undef", "iter") or y.op == "sym"]
            if stale:
                return ctx.ob("R2", key, False, loc, f"in some steps the entry repeats {short(stale[0], 40)} instead of being measured on the step's grid")
        if x.op == "call" and len(x.args[1]) == 1 and base_name(x) in ("mean", "std") and x.args[1][0].op == "lcat" and x.args[1][0].args[0].op == "mu":
            return ctx.ob("R2", key, False, loc, f"the entry is the {base_name(x)} of the series so far, not of the entropy of the step's grid")
        if x.op == "call" and base_name(x) in ("mean", "std") and x.args[1] and base_name(x.args[1][0]) in ("mean", "std", "var", "max", "min", "median") and contains(x, lambda y: base_name(y) == "get_spatial_entropy") and not (want == base_name(x) == base_name(x.args[1][0]) == "mean"):
            return ctx.ob("R2", key, False, loc, f"the entry is the {base_name(x)} of a {base_name(x.args[1][0])} of the step's entropy, not its {want}")
        return ctx.ob("R2", key, None, loc, f"the entry is {short(x, 60)}")


def window_ok(w, r, ww):
    if w is ww:
        return True
    for k in (1, 5, 9, 13, 31, 63):
        z = norm(subst(w, lambda y: const(k) if y is r else None))
        for _ in range(4):
            z = norm(subst(z, lambda y: const((min if y.args[0] in ("min_py", "minimum") else max)(cval(q) for q in y.args[1]))
                           if y.op == "call" and y.args[0] in ("min_py", "max_py", "minimum", "maximum") and not y.args[2] and y.args[1] and all(is_num(q) for q in y.args[1]) else None))
        if is_num(z) and cval(z) != 2 * k + 1:
            return False
    return None if contains(w, lambda y: y.op == "call" or y.op in OPEN) else False


def positional(y):
    a = [z for z in y.args[1] if z is not SELF]
    return a + [w for q, w in y.args[2] if q != "#"]


def drop_ax(y):
    return y


# ---------------------------------------------------------------- all configurations

def multiverse(ctx):
    f = ctx.prog.method(CLS, "analyze_multiverse")
    loc = func_loc(f)
    E = ctx.engine({"analyze_universe", "__init__", "load_config"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    ctx.note_units(E, f)
    def named(e, *ns):
        return e.kind == "call" and str(e.data["name"]).split(".")[-1] in ns
    an = [e for e in E.events if named(e, "analyze_universe")]
    ld = [e for e in E.events if named(e, "load_config", "restore_config")]
    sv = [e for e in E.events if e.kind == "call" and e.data["name"] in ("numpy.save", "torch.save", "numpy.savez")]
    if not an or not sv:
        return ctx.ob("R4", "analyze_multiverse", None, loc, f"{len(an)} analyses, {len(sv)} results saved")
    for h in swallowed(f.node):
        ctx.ob("R4", "analyze_multiverse:load failed", False, f"{loc.rsplit(':', 1)[0]}:{h.lineno}", "when a configuration cannot be loaded, the universe of the one before is analysed and saved under its name")
    for e in an:
        nm = filename(e)
        vs = [listed(norm(and_(*e.guards)), nm, name) for name in FILES] if nm is not None else [None]
        ctx.ob("R4", "analyze_multiverse:every file", None if None in vs else all(vs), e.loc, f"configurations are left out: {', '.join(n for n, ok in zip(FILES, vs) if ok is False)} would not be analysed")
        before = [x for x in ld if x.seq < e.seq and loops(x) == loops(e)[:len(loops(x))]]
        if not before:
            ctx.ob("R4", "analyze_multiverse:load", False if not [x for x in ld if x.seq < e.seq] or True else None, e.loc, "a universe is analysed before its configuration is loaded")
            continue
        x = before[-1]
        inner = loops(x) == loops(e) and bool(loops(e))
        ctx.ob("R4", "analyze_multiverse:load", inner, x.loc, "the configuration is not loaded anew for every file")
        g1, g2 = norm(and_(*x.guards)), norm(and_(*e.guards))
        ctx.ob("R4", "analyze_multiverse:condition", True if g1 is g2 or holds_in(g2, g1) else (False if not contains(g1, lambda y: y.op in OPEN) else None), x.loc, f"the configuration is loaded only when {short(g1, 80)}")
        c = norm(E.deref(x.data["args"][-1], st), do_strip=True) if x.data["args"] else None
        src = [y for y in walk(c)] if c is not None else []
        lds = [y for y in src if y.op == "call" and str(y.args[0]).split(".")[-1] == "load"]
        nm = filename(e)
        if x.data["name"].split(".")[-1] == "restore_config" and c is not None:
            paths = [c]
        else:
            paths = [norm(y.args[1][0]) for y in lds if y.args[1]]
        if not paths or nm is None:
            ctx.ob("R4", "analyze_multiverse:source", None, x.loc, f"source of the configuration not recognised: {short(c, 60) if c is not None else ''}")
        else:
            for p in paths:
                ctx.ob("R4", "analyze_multiverse:source", True if mentions(p, nm) else False if not contains(p, lambda y: y.op in ("mu", "cell", "havoc", "last", "fold")) or contains(p, lambda y: y.op == "item" and is_num(y.args[1])) else None, x.loc,
                       f"the configuration analysed comes from {short(p, 80)}, which does not depend on the file of this iteration")
            # same directory as listed
            d = listing(nm)
            for p in paths:
                got = p.args[1][0] if p.op == "call" and str(p.args[0]).endswith("path.join") and len(p.args[1]) == 2 else None
                ctx.ob("R4", "analyze_multiverse:directory", None if got is None or d is None else norm(got) is norm(d) or (None if contains(got, lambda y: y.op in OPEN) else False), x.loc, "the file is not read from the directory that was listed")
    for e in sv:
        same = [x for x in an if loops(x) == loops(e) and x.seq < e.seq]
        if not same:
            ctx.ob("R4", "analyze_multiverse:save", False if all(loops(x) for x in an) and len(loops(e)) < len(loops(an[0])) else None, e.loc, "results are not saved in the iteration that produced them")
            continue
        ctx.ob("R4", "analyze_multiverse:save", True, e.loc, "saved in the same iteration")
        g1, g2 = norm(and_(*e.guards)), norm(and_(*same[-1].guards))
        ctx.ob("R4", "analyze_multiverse:saved always", True if g1 is g2 or holds_in(g2, g1) else (False if not contains(g1, lambda y: y.op in OPEN) else None), e.loc, f"the results are saved only when {short(g1, 80)}")
        args = e.data["args"]
        pth, val = (args[0], args[1]) if e.data["name"].startswith("numpy") else (args[1], args[0])
        nm = filename(e)
        res = norm(same[-1].data["value"], do_strip=True)
        w = norm(E.deref(val, st), do_strip=True)
        calls = [y for y in walk(w) if y.op == "call" and base_name(y) == "analyze_universe"]
        ctx.ob("R4", "analyze_multiverse:results", True if res in calls else (None if contains(w, lambda y: y.op in OPEN) else False), e.loc, f"what is saved is {short(w, 60)}, not the results of this iteration's analysis")
        if nm is None:
            ctx.ob("R4", "analyze_multiverse:name", None, e.loc, "file name not recognised")
            continue
        part = {}
        def hide(y):
            if y is nm or y.op in ("item", "call") and y.args[0] is not None and mentions(y, nm) and (y.op == "item" and base_name(y.args[0]) in ("splitext", "split", "rsplit", "partition") or y.op == "item" and y.args[0] is nm):
                return part.setdefault(y, sym(f"part{len(part)}"))
            return None
        p = norm(E.deref(pth, st), do_strip=True)
        try:
            ps = full(subst(p, hide))
        except NotText:
            ctx.ob("R4", "analyze_multiverse:name", True if mentions(p, nm) and not part else False if not mentions(p, nm) and not contains(p, lambda y: y.op in OPEN) else None, e.loc, f"the results are saved as {short(p, 80)}")
            continue
        back = {b: a for a, b in part.items()}
        ps = [q if isinstance(q, str) or q[0] not in back else (back[q[0]],) + tuple(q[1:]) for q in ps]
        stem = [q for q in ps if not isinstance(q, str) and mentions(q[0], nm)]
        ctx.ob("R4", "analyze_multiverse:name", True if stem else (None if any(not isinstance(q, str) and contains(q[0], lambda y: y.op in OPEN) for q in ps) else False), e.loc, f"the results of every file are saved under {''.join(q if isinstance(q, str) else '<' + short(q[0], 30) + '>' for q in ps)}")
        for q in stem:
            y = q[0]
            okk = y is nm or is_stem(y, nm)
            ctx.ob("R4", "analyze_multiverse:name distinct", True if okk else False if y.op == "item" and y.args[0] is nm and y.args[1].op == "slice" and is_num(y.args[1].args[1]) and cval(y.args[1].args[1]) > 0 or y.op == "item" and base_name(y.args[0]) == "splitext" and y.args[1] is const(1) or y.op == "item" and y.args[0] is nm and y.args[1].op != "slice" else None, e.loc, f"the name uses {short(y, 60)} of the file, which differs only in part between files")
    ms = [e for e in E.events if e.kind in ("mutate", "setitem") and is_str(norm(e.data.get("key", e.data.get("index", NONE)) or NONE))]
    for e in ms:
        k = cval(norm(e.data.get("key", e.data.get("index"))))
        if k == "name" and filename(e) is not None:
            x = norm(E.deref(e.data["value"], st), do_strip=True)
            ctx.ob("R4", "analyze_multiverse:record", True if mentions(x, filename(e)) else False if not contains(x, lambda y: y.op in OPEN) else None, e.loc, f"the results are recorded as those of {short(x, 60)}")


def swallowed(node):
    """handlers that let the analysis go on after loading a configuration failed"""
    for t in ast.walk(node):
        if isinstance(t, ast.Try) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("load_config", "restore_config") for b in t.body for c in ast.walk(b)) \
                and not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "analyze_universe" for b in t.body + t.orelse for c in ast.walk(b)):
            for h in t.handlers:
                if not any(isinstance(x, (ast.Raise, ast.Continue, ast.Break, ast.Return, ast.If, ast.Try, ast.Assign, ast.AugAssign)) for b in h.body for x in ast.walk(b)):
                    yield h


def loops(e):
    return tuple(l[0] for l in e.loops)


def holds_in(g, h):
    """every conjunct of h is one of g"""
    a = set(g.args) if g.op == "and" else {g}
    b = set(h.args) if h.op == "and" else {h}
    return b <= a


FILES = ["orbium.npy", "scutium_000.npy", "ca_config_7.npy", "a.npy", "geminium.1.npy"]


def listed(g, nm, name):
    """whether the guard lets a file of this name through (None: not evaluated)"""
    if g in (TRUE, FALSE):
        return g is TRUE
    if g.op in ("and", "or"):
        vs = [listed(y, nm, name) for y in g.args]
        if g.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if g.op == "ite":
        c = listed(g.args[0], nm, name)
        return None if c is None else listed(g.args[1 if c else 2], nm, name)
    if g.op == "not":
        v = listed(g.args[0], nm, name)
        return None if v is None else not v
    def text(y):
        if y is nm:
            return name
        if is_str(y):
            return cval(y)
        if y.op == "item":
            b = y.args[0]
            if base_name(b) == "splitext" and b.args[1] and text(b.args[1][0]) is not None and is_num(y.args[1]):
                import os.path
                return os.path.splitext(text(b.args[1][0]))[int(cval(y.args[1]))]
            s = text(b)
            if s is not None and y.args[1].op == "slice":
                lo, hi, *_ = [None if q is NONE else int(cval(q)) if is_num(q) else "?" for q in y.args[1].args]
                return None if "?" in (lo, hi) else s[lo:hi]
            if base_name(b) in ("split", "rsplit") and len(b.args[1]) == 2 and is_num(y.args[1]):
                s, q = text(b.args[1][0]), text(b.args[1][1])
                return s.split(q)[int(cval(y.args[1]))] if s is not None and q else None
        if y.op == "call" and base_name(y) in ("lower", "upper", "strip", "basename") and len(y.args[1]) == 1:
            s = text(y.args[1][0])
            return None if s is None else {"lower": s.lower(), "upper": s.upper(), "strip": s.strip(), "basename": s}[base_name(y)]
        return None
    if g.op == "in" and len(g.args) == 2:
        a, b = text(g.args[0]), text(g.args[1])
        return None if a is None or b is None else a in b
    if g.op == "eq":
        a, b = text(g.args[0]), text(g.args[1])
        return None if a is None or b is None else a == b
    if g.op == "call" and base_name(g) in ("endswith", "startswith") and len(g.args[1]) == 2:
        a, b = text(g.args[1][0]), g.args[1][1]
        bs = [text(q) for q in b.args] if b.op in ("tuple", "seq") else [text(b)]
        return None if a is None or None in bs else any(getattr(a, base_name(g))(q) for q in bs)
    return None


def filename(e):
    """the listing's element of the innermost loop over a directory"""
    for l in reversed(e.loops):
        spec, ix = norm(l[2]), norm(l[1])
        if spec.op == "len" or base_name(spec) == "len":
            x = spec.args[0] if spec.op == "len" else spec.args[1][0]
            return norm(mk("item", x, ix))
    return None


def mentions(t, x):
    return contains(norm(t), lambda y: y is x)


def listing(nm):
    x = nm.args[0]
    for y in walk(x):
        if y.op == "call" and str(y.args[0]) in ("os.listdir", "os.scandir") and y.args[1]:
            return y.args[1][0]
    return None


def is_stem(y, nm):
    if y.op == "item" and y.args[1] is const(0) and base_name(y.args[0]) == "splitext":
        return norm(y.args[0].args[1][0]) is nm or base_name(y.args[0].args[1][0]) in ("basename", "join") and mentions(y, nm)
    if y.op == "item" and y.args[0] is nm and y.args[1].op == "slice":
        lo, hi = y.args[1].args[:2]
        return lo in (NONE, const(0)) and hi in (const(-4),)
    if y.op == "call" and base_name(y) in ("replace", "removesuffix", "rstrip", "str", "basename"):
        return True if base_name(y) != "rstrip" and mentions(y, nm) else False
    return False


# ---------------------------------------------------------------- correlation

def correlate(ctx):
    f = ctx.prog.method(CLS, "autocorrelate")
    loc = func_loc(f)
    a, b = sym("a"), sym("b")
    E = ctx.engine(set())
    v, st = E.run(f, [a, b], selfcls=ctx.prog.find_class(CLS))
    ctx.note_units(E, f)
    t = norm(E.deref(v, st), do_strip=True)
    cs = [y for y in walk(t) if y.op == "call" and base_name(y) == "conv2d"]
    cs = list(dict.fromkeys(cs))
    if len(cs) != 1:
        return ctx.ob("R5", "autocorrelate", None, loc, "no single convolution")
    c = cs[0]
    ops = []
    for k in (0, 1):
        x = c.args[1][k] if len(c.args[1]) > k else kws(c).get(("input", "weight")[k])
        if x is None:
            return ctx.ob("R5", "autocorrelate", None, loc, "operands not recognised")
        if base_name(x) in ("transpose", "permute", "swapaxes"):
            ax = [y for y in x.args[1][1:]]
            ax = list(ax[0].args) if len(ax) == 1 and ax[0].op in ("tuple", "seq") else ax
            perm = [int(cval(y)) for y in ax] if all(is_num(y) for y in ax) else None
            good = perm in ([0, 1], [1, 0], [1, 0, 2, 3])
            ctx.ob("R5", f"autocorrelate:operand {k}:grids as channels", good if perm is not None else None, loc, f"axes of the operand arranged by {perm}, not batch and channel exchanged")
            x = x.args[1][0]
        else:
            ctx.ob("R5", f"autocorrelate:operand {k}:grids as channels", False if x.op == "poly" else None, loc, "batch and channel are not exchanged: pairs of grids are not correlated with each other")
        ops.append(x)
    eps = lambda t: up(t, small)
    def normal(g):
        return eps(div(sub(g, C("mean", g)), C("std", g)))
    def small(y):
        if y.op == "poly":
            d = {m: k for k, m in y.args}
            c0 = d.get(())
            rest = [abs(k) for m, k in d.items() if m != ()]
            if c0 is not None and rest and all(k * Fr(1, 10 ** 5) >= abs(c0) for k in rest):
                return sub(y, const(c0))
        return None
    got = [loosen(x) for x in ops]
    for k, g in ((0, a), (1, b)):
        x = ops[k]
        r = standard(x, (a, b))
        ctx.ob("R5", f"autocorrelate:operand {k}", True if r is not None else None if strange(x, ("mean", "std", "sqrt", "var")) else False, loc, f"operand {short(x, 120)} is not a grid less its own mean over its own deviation")
        got[k] = r
    if None not in got:
        ctx.ob("R5", "autocorrelate:both grids", set(got) == {a, b}, loc, f"the correlation is of {[short(x, 20) for x in got]}")
    scale = norm(subst(t, lambda y: const(1) if y is c else None), do_strip=True)
    ok = scale in [norm(div(const(1), mk("numel", g)), do_strip=True) for g in (a, b)]
    if not ok:
        try:
            ok = any(norm(mul(scale, prod_shape(g)), do_strip=True) is const(1) for g in (a, b))
        except Exception:
            ok = False
    if not ok and any(base_name(y) == "prod" and y.args[1] and y.args[1][0].op == "item" and y.args[1][0].args[1].op == "slice" for y in walk(scale)):
        ok = [y for y in walk(scale) if y.op == "slice" and y.args[0] in (NONE, const(0)) and y.args[1] in (NONE, const(4))] and None
        return ctx.ob("R5", "autocorrelate:scale", None if ok is None else False, loc, f"the correlation is scaled by {short(scale, 60)}, not by one over the number of cells")
    ctx.ob("R5", "autocorrelate:scale", True if ok else None if strange(scale, ("numel", "prod", "std", "mean")) or contains(scale, lambda y: y.op == "attr") else False, loc, f"the correlation is scaled by {short(scale, 60)}, not by one over the number of cells")


def Fr(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def loosen(x):
    return x


def prod_shape(g):
    r = const(1)
    for i in range(4):
        r = mul(r, mk("item", mk("attr", g, "shape"), const(i)))
    return r


def standard(x, grids):
    """the grid x standardises: x = (g - mean g + e) / (std g + e') with small e"""
    import random
    for g in grids:
        want = div(sub(g, C("mean", g)), C("std", g))
        vals = []
        rnd = random.Random(7)
        ok = True
        for _ in range(4):
            env = {g: Fr(rnd.randint(150, 850), 1000), norm(C("mean", g)): Fr(rnd.randint(150, 850), 1000), norm(C("std", g)): Fr(rnd.randint(150, 850), 1000)}
            f = lambda y: const(env[y]) if y in env else None
            p, q = norm(subst(x, f)), norm(subst(norm(want), f))
            if not is_num(p) or not is_num(q) or abs(float(cval(p)) - float(cval(q))) > 1e-4:
                ok = False
                break
        if ok:
            return g
    return None


# ---------------------------------------------------------------- C29

FROZEN = {"__init__", "update_helper", "forward", "restore_config", "load_config", "set_kernel_config", "get_params", "set_params", "to_device", "yes_grad", "no_grad", "seed_all",
          "query_kwargs", "update_universe", "neighborhood_conv", "weights_layer"}


def check_C29(ctx):
    ctx.rule("R1", "the weights kept are a copy, not the live tensors the optimiser changes")
    ctx.rule("R2", "no optimiser step lies between measuring an error and copying the weights it belongs to")
    ctx.rule("R3", "weights and best error are replaced together, exactly when the step's error is below the lowest recorded for the configuration; the record spans all iterations of a configuration and starts empty for each")
    ctx.rule("R4", "what is saved for a configuration is that record")
    ctx.rule("R5", "the file's name inserts the configuration's own name where the template asks for it")
    ctx.rule("R6", "the optimiser is given the parameters of the neural clone of this configuration only, a clone made afresh for it with its kernel and channels")
    ctx.rule("R7", "the error is the mean absolute difference relative to the target, between the clone's and the CA's update of the same grid; gradients are cleared and computed before every optimiser step")
    ctx.guard("R1", "clone_from_ca", lambda: clone(ctx))


def evname(e):
    return str(e.data["name"]).split(".")[-1] if e.kind == "call" else ""


def unstar_call(t):
    return t


def arms(t, cond=()):
    """(conditions, value) of nested choices"""
    if t.op == "ite":
        c = t.args[0]
        return arms(t.args[1], cond + (c,)) + arms(t.args[2], cond + (norm(not_(c)),))
    return [(cond, t)]


def atoms(cs):
    out = set()
    for c in cs:
        c = norm(c)
        for x in (c.args if c.op == "and" else (c,)):
            out.add(x)
    return frozenset(out)


def clone(ctx):
    f = ctx.prog.modules["yuca.clone"].funcs.get("clone_from_ca")
    if f is None:
        raise AnalysisError("clone_from_ca not found")
    loc = func_loc(f)
    E = ctx.engine(FROZEN)
    v, st = E.run(f)
    ctx.note_units(E, f)
    calls = [e for e in E.events if e.kind == "call"]
    D = lambda x: norm(E.deref(x, st), do_strip=True)
    sds = [e for e in calls if evname(e) == "state_dict"]
    saves = [e for e in calls if e.data["name"] == "torch.save"]
    steps = [e for e in calls if evname(e) == "step" and e.data["name"].startswith(".")]
    news = [e for e in E.events if e.kind == "new" and obj_class(E, e).endswith("NCA")]
    if not saves:
        return ctx.ob("R4", "clone_from_ca", None, loc, "nothing is saved")
    # ---- clones and optimisers
    opts = [e for e in calls if str(e.data["name"]).startswith("torch.optim.")]
    insts = [e for e in calls if str(e.data["name"]).endswith("NCA.__init__")]
    cfg = [e for e in calls if evname(e) in ("restore_config", "load_config") and e.data["args"]]
    if len(insts) != 1 or len(opts) != 1 or len(cfg) != 1 or not steps:
        return ctx.ob("R6", "clone_from_ca:parts", None, loc, f"{len(insts)} clones, {len(opts)} optimisers, {len(cfg)} configurations, {len(steps)} optimiser steps: shape not recognised")
    nca, ca = insts[0].data["args"][0], cfg[0].data["args"][0]
    L0 = cfg[0].loops[0][0] if cfg[0].loops else None
    if L0 is None:
        return ctx.ob("R6", "clone_from_ca:parts", None, loc, "no loop over configurations")
    elem = filename(cfg[0])
    name = D(cfg[0].data["args"][1]) if len(cfg[0].data["args"]) > 1 else None
    ctx.ob("R6", "clone_from_ca:configuration", True if name is not None and is_element(name, cfg[0].loops[0]) else False if name is not None and fixed_element(name) else None if name is None or contains(name, lambda y: y.op in OPEN) else False, cfg[0].loc, "the CA cloned is not set to this iteration's configuration")
    fresh = bool(insts[0].loops) and insts[0].loops[0][0] == L0
    ctx.ob("R6", "clone_from_ca:fresh", fresh, insts[0].loc, "one neural clone is trained for several configurations")
    p = opts[0].data["args"][0] if opts[0].data["args"] else dict(kw_items(opts[0])).get("params")
    p = D(p) if p is not None else None
    if p is None:
        ctx.ob("R6", "clone_from_ca:optimiser", None, opts[0].loc, "parameters not recognised")
    else:
        owners = [y for y in walk(p) if y.op == "ref" and str(y.args[0]).startswith("inst:")]
        ctx.ob("R6", "clone_from_ca:optimiser", True if owners and all(y is nca for y in owners) else False if owners else None, opts[0].loc, f"the optimiser changes {short(p, 80)}, not (only) the neural clone's weights")
        part = [y for y in walk(p) if y.op == "item" and is_num(y.args[1]) and contains(y.args[0], lambda q: q is nca)]
        ctx.ob("R6", "clone_from_ca:optimiser whole", not part, opts[0].loc, f"the optimiser trains {short(part[0], 60) if part else ''} only")
        ctx.ob("R6", "clone_from_ca:optimiser renewed", loops(opts[0]) == loops(insts[0]), opts[0].loc, "an optimiser is not created for every clone")
    ik = {k: D(w) for k, w in kw_items(insts[0])}
    for k in ("internal_channels", "external_channels"):
        w = ik.get(k)
        ctx.ob("R6", f"clone_from_ca:{k}", True if w is mk("attr", ca, k) else None if w is None or contains(w, lambda y: y.op in OPEN and y.op != "ref") else False, insts[0].loc, f"the clone's {k} are {short(w, 40) if w is not None else '?'}")
    hc = ik.get("hidden_channels")
    if hc is not None and hc.op == "iter" and hc.args[0].op == "fold":
        i0 = [a for a, b in hc.args[0].args[1] if contains(a, lambda y: base_name(y) == "query_kwargs" and contains(y, lambda q: q is const("hidden_channels")))]
        ctx.ob("R6", "clone_from_ca:hidden size", None if not i0 else not contains(i0[0], lambda y: y.op in ("iter", "mu")), insts[0].loc, "the hidden size of one configuration's clones carries over to the next configuration's")
    kc = [e for e in calls if evname(e) == "set_kernel_config" and e.data["args"] and e.data["args"][0] is nca]
    ctx.ob("R6", "clone_from_ca:kernel", (D(kc[-1].data["args"][1]) is mk("attr", ca, "neighborhood_kernel_config") or None) if kc and len(kc[-1].data["args"]) > 1 else False, (kc or insts)[-1].loc, "the clone does not get the CA's neighborhood kernel")
    # ---- measurement
    meas = [e for e in calls if evname(e) in ("update_helper", "forward", "<call>") and e.data["args"] and e.data["args"][0] is nca]
    tgts = [e for e in calls if evname(e) == "update_helper" and e.data["args"] and e.data["args"][0] is ca]
    if len(meas) == 2:
        # one of them may drive the grid: training data must come from the CA that is cloned
        drive = [e for e in meas if evname(e) in ("forward", "<call>")]
        if len(drive) == 1 and not any(evname(e) in ("forward", "<call>") and e.data["args"] and e.data["args"][0] is ca for e in calls):
            ctx.ob("R7", "clone_from_ca:grids", False, drive[0].loc, "the grids trained on are those of the clone, not of the CA that is cloned")
            meas = [e for e in meas if e not in drive]
    if len(meas) != 1 or len(tgts) != 1:
        ctx.ob("R7", "clone_from_ca:measurement", None, loc, f"{len(meas)} predictions and {len(tgts)} targets per step")
        return
    P, G = plain_item(D(meas[0].data["value"])), plain_item(D(tgts[0].data["value"]))
    same = D(meas[0].data["args"][-1]) is D(tgts[0].data["args"][-1])
    ctx.ob("R7", "clone_from_ca:same grid", same, meas[0].loc, "prediction and target are computed from different grids")
    # ---- the record
    if not sds:
        return ctx.ob("R1", "clone_from_ca:snapshot", False, saves[0].loc, "no weights are recorded")
    inner = [e for e in sds if len(e.loops) > 1 and loops(e)[:len(loops(meas[0]))] == loops(meas[0])]
    if not inner:
        out = D(saves[0].data["args"][0])
        direct = contains(out, lambda y: base_name(y) == "state_dict") and not contains(out, lambda y: y.op in ("fold", "mu", "ite"))
        return ctx.ob("R4", "clone_from_ca:saved", False if direct else None, saves[0].loc, f"what is saved is {short(out, 60)}, not the weights with the lowest error")
    for e in inner:
        sdv = norm(e.data["value"])
        own = bool(e.data["args"]) and any(y is nca for y in walk(norm(e.data["args"][0]))) and not contains(norm(e.data["args"][0]), lambda y: y is ca)
        if own and norm(e.data["args"][0]) is not nca:
            w = norm(e.data["args"][0])
            own = False if w.op in ("attr", "item") else None
        ctx.ob("R1", "clone_from_ca:whose weights", own, e.loc, "the weights recorded are not the clone's")
        copied = [x for x in calls if evname(x) in ("deepcopy", "clone", "copy", "loads", "detach_copy") and x.seq > e.seq and x.data["args"] and (evname(x) != "copy") and contains(norm(E.deref(x.data["args"][0], st)), lambda y: y is sdv or base_name(y) == "state_dict")]
        # a comprehension that clones every tensor
        comp = [x for x in calls if evname(x) == "clone" and x.seq > e.seq and x.seq < e.seq + 8]
        reload_ = [x for x in calls if evname(x) == "load_state_dict" and x.seq > e.seq]
        ctx.ob("R1", "clone_from_ca:snapshot", True if copied or comp else None if reload_ else False, e.loc, "the weights are recorded as live references: the next optimiser step changes them")
        between = [x for x in steps if loops(x) == loops(meas[0])[:len(loops(x))] and meas[0].seq < x.seq < e.seq]
        ctx.ob("R2", "clone_from_ca:snapshot", not between, e.loc, "the optimiser changes the weights between measuring their error and recording them")
    L2 = inner[0].loops[-1][0]
    for x in reversed(inner[0].loops):
        if any(contains(norm(b[1]), lambda y: base_name(y) == "state_dict") for b in E.loopinfo[x[0]]["carried"].values()):
            L2 = x[0]
            break
    info = E.loopinfo[L2]
    mus = {key: norm(m) for key, m in info["mus"].items()}
    car = {key: (norm(D(a)), plain_item(norm(D(b)))) for key, (a, b) in info["carried"].items()}
    ks = [key for key, (a, b) in car.items() if contains(b, lambda y: base_name(y) == "state_dict")]
    if len(ks) != 1:
        return ctx.ob("R3", "clone_from_ca:record", None, inner[0].loc, f"{len(ks)} variables hold recorded weights")
    key = ks[0]
    init, body = car[key]
    upd = [(c, x) for c, x in arms(body) if contains(x, lambda y: base_name(y) == "state_dict")]
    rest = [(c, x) for c, x in arms(body) if not contains(x, lambda y: base_name(y) == "state_dict")]
    if len(upd) != 1:
        return ctx.ob("R3", "clone_from_ca:record", None, inner[0].loc, "update of the record not recognised")
    ctx.ob("R3", "clone_from_ca:record kept", all(x is mus.get(key) for _, x in rest) or (None if any(contains(x, lambda y: y.op in ("havoc", "cell")) for _, x in rest) else False), inner[0].loc, "recorded weights are lost in a step that is not better")
    conds = atoms(upd[0][0])
    if not conds:
        return ctx.ob("R3", "clone_from_ca:condition", False, inner[0].loc, "the weights are recorded in every step, whatever the error")
    best, others, err = None, [], None
    for k2, (i2, b2) in car.items():
        if k2 == key:
            continue
        ups = [(atoms(c), x) for c, x in arms(b2) if x is not mus.get(k2)]
        if len(ups) != 1:
            continue
        c2, e2 = ups[0]
        if base_name(e2) == "min_py":
            xs = [z for z in e2.args[1] if z is not mus.get(k2)]
            if len(xs) == 1:
                e2 = xs[0]
        mine = [a for a in conds if less(a, e2, mus.get(k2))]
        if mine and c2 == conds:
            best, err = (k2, i2, e2), e2
        elif mine:
            others.append((k2, i2, c2, e2, mine))
    if best is None:
        # is the condition about an error at all, and which
        cmpd = [a for a in conds if contains(a, lambda y: y in (P,) or base_name(y) == "update_helper")]
        stale = [k2 for k2 in car if any(contains(a, lambda y: y is mus.get(k2)) for a in conds)]
        clear = cmpd and not any(contains(a, lambda y: y.op in ("havoc", "cell", "opaque", "closure", "where", "fold")) for a in conds)
        return ctx.ob("R3", "clone_from_ca:condition", False if clear else None, inner[0].loc, f"the weights recorded are not those whose error is below the best so far: they are replaced when {'; '.join(short(a, 100) for a in conds)}" )
    ctx.ob("R3", "clone_from_ca:condition", True, inner[0].loc, "replaced together with the best error")
    used = {a for a in conds if less(a, err, mus[best[0]]) or vs_inf(a, err)}
    extra = []
    for a in conds - used:
        o = next((o for o in others if a in o[4] and o[3] is err and all(less(z, err, mus[o[0]]) for z in o[2]) and is_inf(o[1])), None)
        if o is None:
            extra.append(a)
    ctx.ob("R3", "clone_from_ca:every improvement", True if not extra else (False if all(not contains(a, lambda y: y.op in ("havoc", "cell", "opaque")) for a in extra) else None), inner[0].loc, f"an error below the best so far is recorded only when also {'; '.join(short(a, 80) for a in extra)}")
    # reset per configuration, kept over iterations
    chain = [l[0] for l in inner[0].loops]
    d = chain.index(L2)
    for what, k2, start in (("weights", key, lambda x: x is NONE or is_inf(x) or True), ("error", best[0], is_inf)):
        i2 = car[k2][0]
        ok, why = None, ""
        for l in reversed(chain[:d]):
            m = {k: norm(x) for k, x in E.loopinfo[l]["mus"].items()}.get(k2)
            if l == L0:
                if m is not None and contains(i2, lambda y: y is m):
                    ok, why = False, "is carried from one configuration to the next"
                elif what == "error" and i2.op == "ite" and any(not is_inf(y) for y in i2.args[1:]) and contains(i2.args[0], lambda y: is_element(y, [None, y]) if y.op == "idx" else False) \
                        and all(is_inf(y) or y.op in ("mu", "undef", "sym") or is_num(y) for y in i2.args[1:]):
                    ok, why = False, "does not start at infinity for every configuration"
                elif what == "error" and not is_inf(i2):
                    ok, why = (False if is_num(i2) else None), f"starts at {short(i2, 30)}, not at infinity"
                else:
                    ok = True
            else:
                c = E.loopinfo[l]["carried"].get(k2)
                if c is None:
                    ok, why = False, "is forgotten between the iterations of a configuration"
                    break
                if m is None or i2 is not m:
                    ok, why = (False if not contains(i2, lambda y: y.op in ("havoc", "cell")) else None), "is forgotten between the iterations of a configuration"
                    break
                i2 = norm(D(c[0]))
        ctx.ob("R3", f"clone_from_ca:span of the {what}", ok, inner[0].loc, f"the record of the best {what} {why}")
    # ---- error formula
    p_, t_ = sym("prediction"), sym("target")
    e_ = norm(subst(err, lambda y: p_ if y is P else t_ if y is G else None), do_strip=True)
    want = C("mean", div(C("abs", sub(p_, t_)), C("abs", t_)))
    e_ = up(e_, tiny)
    ok = e_ is norm(want, do_strip=True) or e_ is up(want, tiny)
    if not ok and base_name(e_) == "mean" and len(e_.args[1]) == 1:
        ok = same_numbers(e_.args[1][0], p_, t_)
    ctx.ob("R7", "clone_from_ca:error", True if ok else None if contains(subst(e_, lambda y: sym("IDX") if y.op == "idx" else None), lambda y: y.op in OPEN or y.op == "call" and base_name(y) not in ("mean", "abs", "sum", "sqrt", "max", "min", "square", "mse_loss", "l1_loss", "log", "exp")) else False, meas[0].loc, f"the error compared is {short(e_, 100)}, not the mean relative error of prediction against target")
    # ---- training order
    zg = [e for e in calls if evname(e) == "zero_grad" and loops(e) == loops(meas[0])]
    bw = [e for e in calls if evname(e) == "backward" and loops(e) == loops(meas[0])]
    for s in steps:
        if not bw:
            ctx.ob("R7", "clone_from_ca:gradients", None, s.loc, "no gradients computed")
            continue
        ctx.ob("R7", "clone_from_ca:gradients", bw[-1].seq < s.seq, s.loc, "the optimiser steps before gradients are computed")
        ctx.ob("R7", "clone_from_ca:gradients cleared", True if [z for z in zg if z.seq < bw[0].seq or z.seq > s.seq] else False if not zg else False, (zg or [s])[0].loc, "gradients are not cleared between the computation of one step and that of the next")
        some = [z for z in zg if [g for g in z.guards if norm(g) is not TRUE and contains(norm(g), lambda y: y.op == "idx")]]
        if zg and len(some) == len(zg):
            ctx.ob("R7", "clone_from_ca:gradients cleared always", False if all(norm(g).op in ("eq", "lt0", "not") and not contains(norm(g), lambda y: y.op in ("mu", "havoc", "cell")) for z in some for g in z.guards if norm(g) is not TRUE) else None, zg[0].loc, f"gradients are cleared only when {short(norm(and_(*zg[0].guards)), 60)}")
        same = D(bw[-1].data["args"][0])
        cut = E.deref(bw[-1].data["args"][0], st)
        if base_name(cut) in ("detach", "detach_", "item") or base_name(bw[-1].data["args"][0]) in ("detach", "detach_", "item"):
            ctx.ob("R7", "clone_from_ca:loss", False, bw[-1].loc, "the loss is cut off from the weights before gradients are computed")
        pred = lambda y: y is P or base_name(y) == evname(meas[0]) and len(y.args) > 1 and any(z is nca for a in y.args[1] for z in walk(a)) or y.op == "opaque" and any(z is nca for z in walk(y))
        ctx.ob("R7", "clone_from_ca:loss", True if contains(plain_item(same), pred) else None if contains(same, lambda y: y.op in OPEN and y.op not in ("ite", "ref")) else False, bw[-1].loc, f"the loss does not depend on the prediction: {short(same, 80)}")
    # ---- saving
    for e in saves:
        ctx.ob("R4", "clone_from_ca:per configuration", bool(e.loops) and e.loops[0][0] == L0, e.loc, "only the last configuration's weights are saved")
        for g in e.guards:
            # written only when something was recorded is fine; only when the record is good enough is not
            g = norm(g)
            if any(contains(x, lambda y: y.op in ("fold", "mu", "last", "iter") or y.op == "call" and base_name(y) in ("forward", "update_helper", "query_kwargs")) for x in walk(g) if x.op == "lt0"):
                ctx.ob("R4", "clone_from_ca:always saved", False, e.loc, f"the record is saved only when {short(g, 120)}")
        raw = norm(E.deref(e.data["args"][0], st), do_strip=True)
        if contains(raw, lambda y: y.op in ("fold", "mu")) and contains(raw, lambda y: base_name(y) == "state_dict"):
            top = raw
            ok = top.op in ("fold", "mu", "ite", "brk") and (top.op != "fold" or top.args[1][0][0] is init0(E, chain, key, car, D) or top.args[1][0][0] is NONE) or None
            ctx.ob("R4", "clone_from_ca:saved", ok, e.loc, f"what is saved is {short(raw, 60)}")
        else:
            ctx.ob("R4", "clone_from_ca:saved", False if contains(raw, lambda y: base_name(y) in ("state_dict", "get_params")) or raw is NONE else None, e.loc, f"what is saved is {short(raw, 60)}, not the weights with the lowest error")
        path = D(e.data["args"][1]) if len(e.data["args"]) > 1 else None
        if path is None or not e.loops:
            continue
        l0 = e.loops[0]
        reps = [y for y in walk(path) if base_name(y) == "replace" and len(y.args[1]) >= 3 and y.args[1][1] is const("ca_config")]
        carried0 = contains(path, lambda y: y.op == "mu" and y.args[0] == l0[0] or y.op == "iter")
        if carried0:
            ctx.ob("R5", "clone_from_ca:file name", False, e.loc, "the file name builds on the one of the previous configuration")
        elif reps:
            for y in reps:
                x = y.args[1][2]
                ctx.ob("R5", "clone_from_ca:file name", True if is_element(x, l0) else False if fixed_element(x) else None if contains(x, lambda z: z.op in OPEN) else False, e.loc, f"the template's placeholder becomes {short(x, 60)}, the same for every configuration")
                cut = [z for z in walk(x) if z.op == "item" and is_num(z.args[1]) and base_name(z.args[0]) in ("split", "rsplit", "partition", "rpartition") and not any(q is const(".") for q in z.args[0].args[1])]
                if is_element(x, l0) and (cut and not contains(x, lambda z: base_name(z) == "basename") or contains(x, lambda z: z.op == "item" and z.args[1].op == "slice" and is_num(z.args[1].args[1]) and cval(z.args[1].args[1]) > 0)):
                    ctx.ob("R5", "clone_from_ca:whole name", True if cut and all(q is const("/") or is_const(q) and cval(q) in ("/", "\\") for z in cut for q in z.args[0].args[1][1:]) else False, e.loc, f"the placeholder becomes {short(x, 60)}: configurations whose names differ elsewhere are saved over each other")
                ctx.ob("R5", "clone_from_ca:template", True if contains(y.args[1][0], lambda z: z is const("save_name")) else None if contains(y.args[1][0], lambda z: z.op in OPEN) else False, e.loc, "the name does not come from the template")
        else:
            ctx.ob("R5", "clone_from_ca:file name", True if is_element(path, l0) else None if contains(path, lambda z: z.op in OPEN) else False, e.loc, f"the file name {short(path, 80)} is the same for every configuration")


def init0(E, chain, key, car, D):
    for l in chain:
        c = E.loopinfo[l]["carried"].get(key)
        if c is not None:
            return norm(D(c[0]))
    return car[key][0]


def obj_class(E, e):
    return str(e.data.get("cls", e.data.get("name", "")))


def kw_items(e):
    k = e.data.get("kw") or {}
    return list(k.items()) if isinstance(k, dict) else [tuple(x) for x in k]


def is_element(t, loop):
    ix = norm(loop[1])
    return contains(t, lambda y: y is ix or y.op == "idx" and ix.op == "idx" and y.args[0] is ix.args[0] or y.op == ix.op == "idx" and y.args[-1] is ix.args[-1] and len(ix.args) > 1)


def fixed_element(t):
    """an element of a list of fixed number, whatever the iteration"""
    fixed = [y for y in walk(t) if y.op == "item" and is_num(y.args[1]) and y.args[0].op in ("seq", "ite", "call") and base_name(y.args[0]) != "splitext"]
    return bool(fixed) and not contains(t, lambda y: y.op in ("idx", "mu", "iter", "havoc", "fold", "opaque"))


def is_inf(t):
    t = norm(t)
    if is_num(t):
        try:
            return float(cval(t)) == float("inf")
        except OverflowError:
            return False
    return is_const(t) and isinstance(cval(t), float) and cval(t) == float("inf") or short(t, 20) in ("inf", "ext(math.inf)", "ext(numpy.inf)", "ext(torch.inf)", "math.inf", "numpy.inf")


def vs_inf(a, err):
    """err < infinity: always so"""
    infs = [y for y in walk(a) if is_inf(y)]
    return any(less(a, err, y) for y in infs)


def plain_item(t):
    """t with reads of a tensor's only number taken as that number"""
    return norm(up(t, lambda y: y.args[1][0] if base_name(y) in ("item", "float", "detach") and y.op == "call" and len(y.args[1]) == 1 else None), do_strip=True)


def less(a, err, m):
    """is the condition a: err < m (or <=)"""
    if m is None:
        return False
    forms = [norm(mk("lt0", sub(err, m))), norm(mk("lt", err, m)), norm(not_(mk("lt0", sub(m, err)))), norm(not_(mk("lt", m, err))), norm(mk("le", err, m))]
    return any(a is x for x in forms)


def tiny(y):
    if y.op == "poly":
        d = {m: k for k, m in y.args}
        c0 = d.get(())
        rest = [abs(k) for m, k in d.items() if m != ()]
        if c0 is not None and rest and all(k * Fr(1, 10 ** 5) >= abs(c0) for k in rest):
            return sub(y, const(c0))
    return None


def same_numbers(x, p, t):
    import random
    rnd = random.Random(3)
    for _ in range(5):
        a, b = Fr(rnd.randint(150, 850), 1000), Fr(rnd.randint(150, 850), 1000) * rnd.choice((1, -1))
        def f(y):
            return const(a) if y is p else const(b) if y is t else None
        z = norm(subst(x, f), do_strip=True)
        z = up(z, lambda y: const(abs(cval(y.args[1][0]))) if base_name(y) == "abs" and is_num(y.args[1][0]) else None)
        if not is_num(z) or abs(float(cval(z)) - float(abs(a - b) / abs(b))) > 1e-4:
            return False
    return True
