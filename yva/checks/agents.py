"""C24 evolvable agents."""
import ast
from fractions import Fraction
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF, rng
from .params import vector

P, Q, V2 = sym("P"), sym("CA_P"), sym("V2")
CHANNELS = (1, 2, 3, 4, 5, 8)


def construct(ctx, cls, kw, opaque=(), note=True):
    E = ctx.engine(opaque)
    st = St()
    d = E.newref("dict")
    for k, v in kw.items():
        st.heap[(d, "i", const(k))] = v
    f = ctx.prog.method(cls, "__init__")
    _, st = E.run(f, [], {}, ctx.prog.find_class(cls), st, stars=[d])
    if note:
        ctx.note_units(E, f)
    return E, st, func_loc(f)


def again(ctx, E, st, cls, meth, args=()):
    f = ctx.prog.method(cls, meth)
    v, st = E.run(f, list(args), {}, ctx.prog.find_class(cls), st)
    ctx.note_units(E, f)
    return settle(E, v, st), st, func_loc(f)


def settle(E, v, st):
    t = norm(E.deref(v, st), do_strip=True) if v is not None else None
    for _ in range(6):
        if t is None:
            return t
        u = norm(subst(t, lambda y: (lambda z: z if z is not y else None)(E.deref(y, st)) if y.op in ("cell", "ref", "view") else None), do_strip=True)
        if u is t:
            break
        t = u
    return t


def bare(t):
    """a copy or a change of container or type leaves the numbers alone"""
    while t is not None and t.op == "call" and isinstance(t.args[0], str) and len(t.args[1]) >= 1 and \
            t.args[0].split(".")[-1] in ("array", "asarray", "copy", "clone", "detach", "deepcopy", "astype", "ravel", "flatten", "to", "tensor", "astensor", "float", "double"):
        t = t.args[1][0]
    return t


def odd(t):
    return contains(t, lambda y: y.op in ("mu", "havoc", "fold", "cell", "ref", "opaque", "brk") or y.op == "call" and not known_call(y))


def known_call(y):
    n = y.args[0]
    return isinstance(n, str) and n.split(".")[-1] in ("array", "abs", "clip", "clamp", "resize", "pad", "round", "trunc", "sigmoid", "relu", "maximum", "minimum", "dropout", "rand", "randn", "zeros", "ones", "append", "sort", "flip", "zeros_like", "ones_like", "get_params", "tanh", "exp", "sum", "numel")


def same(t, want):
    t = bare(t) if t is not None else None
    if t is None:
        return False
    if t is want:
        return True
    if t.op == "item" and t.args[0] is want and t.args[1].op == "slice" and t.args[1].args[0] in (NONE, const(0)) and not is_num(t.args[1].args[1]):
        return None
    return None if odd(t) else False


def check_C24(ctx):
    ctx.rule("R1", "an agent built from a parameter vector returns that vector, and an agent given a vector returns it")
    ctx.rule("R2", "the constructor sets the network's weights from the vector it was given, after building the network and with gradients off, and builds the network only before that")
    ctx.rule("R3", "the input of the pattern network has as many channels as its first layer expects, every layer takes what the one before it gives, and one radius and one output channel exist per CA channel")
    ctx.rule("R4", "pattern values are non-negative, fade outside the radius threshold, and keep the grid's axes in place")
    ctx.rule("R5", "the segments of the vector read back are the segments written")
    ctx.rule("R6", "a pattern-plus-rule agent returns its rule first and its pattern second, the rule being the vector behind the pattern's share")
    ctx.rule("R7", "a filtering parameter agent acts with the absolute values of its vector and holds those it is given clipped to [1e-4, 1] (sampled arithmetic over the interpreted value); a random vector has the requested length")
    prog = ctx.prog
    ctx.guard("R1", "ParamsAgent", lambda: params_agent(ctx))
    ctx.guard("R7", "ParamsAgent", lambda: filtered(ctx))
    for cls in ("CPPN", "CPPNPlus"):
        ctx.guard("R2", cls, lambda: weights_set(ctx, cls))
        ctx.guard("R3", cls, lambda: channels(ctx, cls))
    ctx.guard("R4", "CPPN.get_action", lambda: pattern(ctx))
    for cls in ("CPPN", "CPPNPlus", "ParamsAgent"):
        ctx.guard("R5", cls, lambda: vector(ctx, cls, ("R5", "R5", "R5", "R5")))
    ctx.guard("R6", "CPPNPlus", lambda: plus(ctx))
    ctx.ob("R3", "self-test: a channel count is read off a concatenation", width(mk("call", "tcat", (const(1), mk("seq", mk("call", "reshape", (sym("a"), const(1), const(2), const(5), const(5)), ()), mk("call", "reshape", (sym("a"), const(1), const(1), const(5), const(5)), ()))), ())) == 3)


def params_agent(ctx):
    for key in ("params", "ca_params"):
        E, st, loc = construct(ctx, "ParamsAgent", {key: P})
        for m in ("get_params", "get_action"):
            t, st, _ = again(ctx, E, st, "ParamsAgent", m)
            ctx.ob("R1", f"ParamsAgent({key}).{m}", same(t, P), loc, f"built with {key}=P it returns {short(t, 120)}")
        n = settle(E, E.heapget(st, (SELF, "a", "num_params")), st)
        ok = same(n, mk("item", mk("attr", P, "shape"), const(0))) if n is not None else None
        if ok is False and contains(n, lambda y: y.op == "call"):
            ok = None
        ctx.ob("R1", f"ParamsAgent({key}).num_params", ok, loc, f"num_params is {short(n, 100) if n is not None else 'unset'}")
        _, st, _ = again(ctx, E, st, "ParamsAgent", "set_params", [V2])
        for m in ("get_params", "get_action"):
            t, st, _ = again(ctx, E, st, "ParamsAgent", m)
            ctx.ob("R1", f"ParamsAgent({key}).set_params.{m}", same(t, V2), loc, f"after set_params(V2) it returns {short(t, 120)}")


def number(t, x, v):
    """t with the vector x at the number v, or None"""
    if t is x:
        return Fraction(v)
    if is_num(t):
        return Fraction(cval(t)) if not isinstance(cval(t), float) else Fraction(str(cval(t)))
    if t.op == "poly":
        tot = Fraction(0)
        for c, m in t.args:
            z = Fraction(c)
            for y, e in m:
                w = number(y, x, v)
                if w is None or (w == 0 and e < 0) or int(e) != e:
                    return None
                z *= w ** int(e)
            tot += z
        return tot
    if t.op == "call" and isinstance(t.args[0], str):
        n, a = t.args[0].split(".")[-1], [number(y, x, v) for y in t.args[1]]
        if dict(t.args[2]) or None in a and not (n == "clamp" and len(a) == 3 and a[0] is not None):
            return None
        if n == "abs" and len(a) == 1:
            return abs(a[0])
        if n in ("clamp", "clip") and len(a) == 3:
            r = a[0] if t.args[1][1] is NONE else None if a[1] is None else max(a[0], a[1])
            return r if t.args[1][2] is NONE or r is None else None if a[2] is None else min(r, a[2])
        if n in ("maximum", "fmax", "max_py") and len(a) == 2:
            return max(a)
        if n in ("minimum", "fmin", "min_py") and len(a) == 2:
            return min(a)
        if n in ("array", "asarray", "copy", "deepcopy") and a:
            return a[0]
        if n == "relu":
            return max(a[0], Fraction(0))
    return None


def filtered(ctx):
    cls = "ParamsAgent"
    low = Fraction(1, 10000)
    for key in ("params", "ca_params"):
        E, st, loc = construct(ctx, cls, {key: P, "filter_params": TRUE}, note=False)
        t, st, l = again(ctx, E, st, cls, "get_action")
        vs = [number(t, P, v) for v in (Fraction(-1, 2), Fraction(1, 3), 3, Fraction(-1, 10 ** 6))]
        want = [Fraction(1, 2), Fraction(1, 3), 3, Fraction(1, 10 ** 6)]
        ctx.ob("R7", f"{cls}({key}).get_action", None if None in vs else vs == want, l, f"a filtering agent acts with {short(t, 80)}, not with the absolute values")
        _, st, l = again(ctx, E, st, cls, "set_params", [V2])
        t, st, _ = again(ctx, E, st, cls, "get_params")
        vs = [number(t, V2, v) for v in (Fraction(-1, 2), Fraction(1, 3), 3, -7, 0, Fraction(-1, 10 ** 6), Fraction(1, 2000))]
        want = [Fraction(1, 2), Fraction(1, 3), 1, 1, low, low, Fraction(1, 2000)]
        ctx.ob("R7", f"{cls}({key}).set_params", None if None in vs else vs == want, l, f"a filtering agent given a vector holds {short(t, 80)}, not its absolute values clipped to [1e-4, 1]")
    N, F = sym("N"), sym("FLAG")
    E, st, loc = construct(ctx, cls, {"num_params": N, "filter_params": F}, note=False)
    t = settle(E, E.heapget(st, (SELF, "a", "params")), st)
    n = t.args[1][0] if t is not None and t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in ("rand", "random", "randn", "random_sample") and len(t.args[1]) == 1 else None
    ctx.ob("R7", f"{cls}(num_params).length", None if n is None else True if n is N else False if not odd(n) else None, loc, f"asked for num_params parameters it draws {short(n, 40) if n is not None else '?'}")
    k = settle(E, E.heapget(st, (SELF, "a", "num_params")), st)
    ctx.ob("R7", f"{cls}(num_params).num_params", None if k is None else True if k is N else False if not odd(k) else None, loc, f"num_params is {short(k, 40) if k is not None else '?'}")
    for kw in ({"params": P}, {"ca_params": P}, {"num_params": N}):
        E, st, loc = construct(ctx, cls, {**kw, "filter_params": F}, note=False)
        g = settle(E, E.heapget(st, (SELF, "a", "filter_params")), st)
        bad = g is not None and g is not F and (is_const(g) or g.op in ("ite", "and", "or", "not") and not contains(g, lambda y: y.op in ("mu", "havoc", "fold", "opaque", "call")))
        ctx.ob("R7", f"{cls}({next(iter(kw))}).filter_params", True if g is F else False if bad else None, loc, f"the filter is {short(g, 60) if g is not None else 'unset'}, not as asked")


HOOKS = ("set_params", "get_params", "init_model", "get_cppn_input", "no_grad")


def called(e):
    return str(e.data.get("name", "")) if e.kind == "call" else ""


def weights_set(ctx, cls):
    E, st, loc = construct(ctx, cls, {"params": P, "external_channels": sym("N"), "hidden_dim": sym("H"), "internal_channels": sym("I"), "dim": sym("D")}, HOOKS)
    evs = E.events
    sets = [i for i, e in enumerate(evs) if called(e).endswith(".set_params") and e.data["args"] and E.deref(e.data["args"][0], st) is SELF]
    if not sets:
        touched = [e for e in evs if e.kind in ("setitem", "mutate", "augattr") and contains(norm(e.data.get("target") or NONE), lambda y: y is SELF)]
        return ctx.ob("R2", f"{cls}:set", None if touched or any(contains(settle(E, a, st), lambda y: y is P) for e in evs if e.kind == "call" for a in e.data.get("args", ())[1:]) else False,
                      loc, "the constructor never sets the weights from params")
    i = sets[-1]
    e = evs[i]
    vec = settle(E, e.data["args"][-1], st)
    if vec.op == "item" and vec.args[0] is P and vec.args[1].op == "slice" and vec.args[1].args[0] in (NONE, const(0)) and contains(vec, lambda y: y.op == "call" and str(y.args[0]).endswith("CPPN.get_params")):
        vec = P
    ctx.ob("R2", f"{cls}:vector", same(vec, P), e.loc, f"the weights are set from {short(vec, 120)}, not from the given vector")
    gs = [g for g in e.guards if norm(under(norm(g), [(norm(mk("eq", *sorted((NONE, P), key=str))), False)])) is not TRUE]
    e = Event(e.kind, e.data, tuple(gs), e.loops, e.loc, e.fn, e.seq, e.chain)
    ctx.ob("R2", f"{cls}:always", not e.guards and not e.loops if not e.guards else None if any(contains(norm(g), lambda y: y is P) for g in e.guards) else False, e.loc,
           f"set only when {facts_text([(g, True) for g in e.guards])[:120]}" if e.guards else "")
    ctx.ob("R2", f"{cls}:built before", any(called(x).endswith(".init_model") for x in evs[:i]) or None, e.loc, "")
    later = [x for x in evs[i + 1:] if called(x).endswith(".init_model") or x.kind in ("setattr", "setitem") and x.data.get("target") is SELF and x.data.get("name") == "model"]
    ctx.ob("R2", f"{cls}:not rebuilt", not later, later[0].loc if later else e.loc, "the network is built again after its weights were set")
    off = any(called(x).endswith(".no_grad") for x in evs[:i])
    body = ctx.prog.method(cls if called(e).endswith(f"{cls}.set_params") else "CPPN", "set_params")
    safe = any(isinstance(n, ast.Attribute) and n.attr in ("no_grad", "data", "set_grad_enabled") for n in ast.walk(body.node))
    ctx.ob("R2", f"{cls}:gradients off", off or (None if safe else False), e.loc, "weights that still need gradients are written in place")
    held = [j for j, x in enumerate(evs) if x.kind == "setattr" and x.data.get("target") is SELF and x.data.get("name") == "params_agent"]
    for j, x in enumerate(evs):
        if called(x).endswith(("CPPNPlus.set_params", "CPPNPlus.get_params")) and not any(h < j for h in held):
            ctx.ob("R2", f"{cls}:rule agent exists", False, x.loc, f"{called(x).split('.')[-1]} of the pattern-plus-rule agent runs before its rule agent exists")
            break
    else:
        ctx.ob("R2", f"{cls}:rule agent exists", True)


def agent_params(E, st):
    a = E.heapget(st, (SELF, "a", "params_agent"))
    if a is None:
        return None
    a = E.deref(a, st)
    p = E.heapget(st, (a, "a", "params"))
    return settle(E, p, st) if p is not None else None


def share(t):
    """the vector behind the pattern's parameters"""
    t = bare(t)
    if t is None or t.op != "item" or t.args[0] is not P or t.args[1].op != "slice":
        return None if t is None or odd(t) else False
    lo, hi, step = t.args[1].args[:3]
    if hi is not NONE or step not in (NONE, const(1)):
        return False
    if lo.op == "item" and lo.args[1] is const(0) and lo.args[0].op == "attr" and lo.args[0].args[1] == "shape":
        lo = mk("call", "numel", (lo.args[0].args[0],), ())
    if lo.op == "call" and lo.args[0] in ("numel", "len", "size") or lo.op == "len":
        src = lo.args[1][0] if lo.op == "call" else lo.args[0]
        if src.op == "call" and str(src.args[0]).endswith("CPPN.get_params"):
            return True
        return None
    return False if is_num(lo) or lo is NONE else None


def plus(ctx):
    E, st, loc = construct(ctx, "CPPNPlus", {"params": P}, HOOKS)
    t = agent_params(E, st)
    ctx.ob("R6", "CPPNPlus(params):rule", share(t) if t is not None else False, loc, f"the rule agent holds {short(t, 140) if t is not None else 'nothing'}, not the part behind the pattern's parameters")
    f = ctx.prog.method("CPPNPlus", "get_action")
    v, st2 = E.run(f, [], {}, ctx.prog.find_class("CPPNPlus"), st)
    v = settle(E, v, st2)
    if v is not None and v.op in ("tuple", "seq") and len(v.args) == 2:
        ctx.ob("R6", "CPPNPlus.get_action:rule", share(v.args[0]), func_loc(f), f"first of the pair is {short(v.args[0], 120)}")
        pat = contains(v.args[1], lambda y: y.op == "call" and isinstance(y.args[0], str) and y.args[0] == ".model")
        ctx.ob("R6", "CPPNPlus.get_action:pattern", True if pat else None if odd(v.args[1]) else False, func_loc(f), f"second of the pair is {short(v.args[1], 120)}")
    else:
        ctx.ob("R6", "CPPNPlus.get_action", None, func_loc(f), "pair of rule and pattern not recognised")
    for lab, kw in (("params+ca_params", {"params": P, "ca_params": Q}), ("ca_params", {"ca_params": Q})):
        E, st, loc = construct(ctx, "CPPNPlus", kw, HOOKS, False)
        t = agent_params(E, st)
        ctx.ob("R6", f"CPPNPlus({lab}):rule", same(t, Q), loc, f"the rule agent holds {short(t, 140) if t is not None else 'nothing'}, not the given rule parameters")


# ------------------------------------------------------------------ channels
ELEMENTWISE = {"sin", "cos", "abs", "sqrt", "exp", "tan", "tanh", "relu", "clamp", "sigmoid", "log", "square"}


def width(t):
    """size of axis 1 of a 4-axis tensor, read off its construction; None when unclear"""
    if t.op == "call" and isinstance(t.args[0], str):
        n, a = t.args[0].split(".")[-1], t.args[1]
        if n == "tcat" and is_num(a[0]) and a[0] not in (const(1), const(-3)) and a[1].op in ("seq", "tuple") and a[1].args:
            return width(a[1].args[0])
        if n == "tcat" and a[0] in (const(1), const(-3)) and a[1].op in ("seq", "tuple"):
            ws = [width(x) for x in a[1].args]
            return None if None in ws else sum(ws)
        if n in ("reshape", "view") and len(a) == 5 and is_num(a[2]):
            return int(cval(a[2])) if cval(a[2]) > 0 else None
        if n in ("unsqueeze",) and len(a) == 2 and a[1] is const(0) and a[0].op == "call" and a[0].args[0] == "unsqueeze" and a[0].args[1][1] is const(0):
            return 1
        if n in ("repeat", "tile") and len(a) == 5 and is_num(a[2]):
            w = width(a[0])
            return None if w is None else w * int(cval(a[2]))
        if n == "expand" and len(a) == 5 and is_num(a[2]) and cval(a[2]) > 0:
            return int(cval(a[2]))
        if n in ELEMENTWISE and a:
            return width(a[0])
        if n in ("to", "float", "double", "clone", "detach", "contiguous"):
            return width(a[0])
        return None
    if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) >= 2 and all(x.op == "slice" for x in t.args[1].args[:2]):
        lo, hi, step = t.args[1].args[1].args[:3]
        w = width(t.args[0])
        if w is None or not all(x is NONE or is_num(x) for x in (lo, hi, step)):
            return None
        return len(range(w)[slice(*[None if x is NONE else int(cval(x)) for x in (lo, hi, step)])])
    if t.op == "poly":
        ws = {width(x) for _, m in t.args for x, e in m if not scalar(x)}
        return ws.pop() if len(ws) == 1 else None
    if t.op == "pow":
        ws = {width(x) for x in t.args if not scalar(x)}
        return ws.pop() if len(ws) == 1 else None
    return None


def scalar(t):
    return t.op in ("const", "ext") or t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in ("max", "min", "mean", "sum", "item") and len(t.args[1]) == 1 or \
        t.op == "pow" and all(scalar(x) for x in t.args) or t.op == "poly" and all(scalar(x) for _, m in t.args for x, _e in m)


def channels(ctx, cls):
    f = ctx.prog.method("CPPN", "get_action")
    E = ctx.engine()
    v, st = E.run(f, [], {}, ctx.prog.find_class("CPPN"), St())
    masked = contains(settle(E, v, st), lambda y: y.op == "item" and contains(y.args[1], lambda z: z is mk("attr", SELF, "rr")))
    for n in CHANNELS:
        E, st, loc = construct(ctx, cls, {"external_channels": const(n), "hidden_dim": sym("H"), "internal_channels": sym("I")}, ("set_params", "get_params", "no_grad"), n == 1)
        g = settle(E, E.heapget(st, (SELF, "a", "grid")), st)
        r = settle(E, E.heapget(st, (SELF, "a", "rr")), st)
        f = ctx.prog.method(cls, "get_cppn_input")
        wg = width(g) if g is not None else None
        wr = width(r) if r is not None else None
        lins = linears(E, st)
        if not lins:
            ctx.ob("R3", f"{cls}:{n} channels:layers", None, loc, "layers of the pattern network not recognised")
            continue
        first = lins[0][0]
        ok = None if wg is None or not is_num(first) else cval(first) == wg
        ctx.ob("R3", f"{cls}:{n} channels:input", ok, func_loc(f), f"the input has {wg} channels and the first layer takes {short(first, 40)}")
        ctx.ob("R3", f"{cls}:{n} channels:radius", None if wr is None else True if wr == n else False if wr != 1 or masked else None, func_loc(f), f"the radius grid has {wr} channels for {n} CA channels")
        for i, (a, b) in enumerate(zip(lins, lins[1:])):
            d = norm(sub(a[1], b[0]))
            ok = True if d is const(0) else False if is_num(d) or not contains(d, lambda y: y.op == "call") else None
            ctx.ob("R3", f"{cls}:{n} channels:layer {i}", ok, loc, f"layer {i} gives {short(a[1], 60)} values and layer {i + 1} takes {short(b[0], 60)}")
        out = lins[-1][1]
        ctx.ob("R3", f"{cls}:{n} channels:output", out is const(n) if is_num(out) else None, loc, f"the pattern has {short(out, 40)} channels for {n} CA channels")


def linears(E, st):
    m = E.heapget(st, (SELF, "a", "model"))
    if m is None:
        return []
    m = opened(E, m, st)
    evs = [e for e in E.events if e.kind == "call" and str(e.data.get("name", "")).split(".")[-1] == "Linear"]
    terms = []
    for x in walk_order(m):
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] == "Linear":
            terms.append(x)
    if len(terms) != len(evs) or not terms:
        return []
    def dims(x):
        kw = dict(x.args[2])
        a = list(x.args[1])
        i = a[0] if a else kw.get("in_features")
        o = a[1] if len(a) > 1 else kw.get("out_features")
        return i, o
    r = [dims(x) for x in terms]
    return [] if any(None in d for d in r) else r


def opened(E, t, st, depth=6):
    def f(y):
        if y.op in ("cell", "view"):
            z = E.cellget(st, y) if y.op == "cell" else E.deref(y, st)
            return opened(E, z, st, depth - 1) if z is not None and z is not y and depth else None
        if y.op == "ref":
            z = E.deref(y, st)
            return opened(E, z, st, depth - 1) if z is not y and depth else None
        return None
    return norm(subst(E.deref(t, st), f))


def walk_order(t):
    """sub-terms from left to right"""
    yield t
    for a in t.args:
        if hasattr(a, "op"):
            yield from walk_order(a)
        elif isinstance(a, tuple):
            for b in a:
                if hasattr(b, "op"):
                    yield from walk_order(b)


# ------------------------------------------------------------------ the pattern
def axes(t, key=()):
    """(source, permutation of four axes) of nested transpositions"""
    p = [0, 1, 2, 3]
    ops = []
    while t.op == "call" and t.args[0] in ("transpose", "permute", "swapaxes", "clone", "contiguous", "to") and t.args[1]:
        ops.append((t.args[0], t.args[1][1:]))
        t = t.args[1][0]
    for n, a in reversed(ops):
        q = perm(n, a)
        if q is None:
            return t, None
        p = [p[i] for i in q]
    return t, p


def perm(n, a):
    if n in ("clone", "contiguous", "to"):
        return [0, 1, 2, 3]
    if len(a) == 1 and a[0].op in ("seq", "tuple"):
        a = a[0].args
    if not all(is_num(x) for x in a):
        return None
    ks = [int(cval(x)) % 4 for x in a]
    if n == "permute":
        return ks if sorted(ks) == [0, 1, 2, 3] else None
    if len(ks) != 2:
        return None
    q = [0, 1, 2, 3]
    q[ks[0]], q[ks[1]] = q[ks[1]], q[ks[0]]
    return q


def views(t):
    """a view of something whose same view was just stored is the stored value"""
    def f(x):
        if x.op == "call" and x.args[0] in ("transpose", "permute", "swapaxes") and x.args[1] and x.args[1][0].op == "store":
            M, key, V = x.args[1][0].args[:3]
            if key.op == "viewkey" and key.args[0] == x.args[0]:
                ka = key.args[1] if isinstance(key.args[1], tuple) else key.args[1:]
                if perm(x.args[0], list(ka)) == perm(x.args[0], list(x.args[1][1:])) and perm(x.args[0], list(ka)) is not None:
                    return V
        return None
    for _ in range(12):
        u = norm(subst(t, f), do_strip=True)
        if u is t:
            return t
        t = u
    return t


def pattern(ctx):
    f = ctx.prog.method("CPPN", "get_action")
    E = ctx.engine()
    v, st = E.run(f, [], {}, ctx.prog.find_class("CPPN"), St())
    ctx.note_units(E, f)
    loc = func_loc(f)
    t = views(settle(E, v, st))
    lo = rng(t)[0]
    if not (lo is not None and lo >= 0) and network_positive(ctx):
        lo = rng(norm(subst(t, lambda y: mk("call", "abs", (sym("net"),), ()) if y.op == "call" and axes(y)[0].op == "call" and axes(y)[0].args[0] == ".model" else None)))[0]
    ctx.ob("R4", "non-negative", True if lo is not None and lo >= 0 else None if odd2(t) else False, loc, f"the pattern can be negative: {short(t, 200)}")
    nets = [x for x in dict.fromkeys(walk(t)) if x.op == "call" and x.args[0] == ".model"]
    if len(nets) != 1:
        return ctx.ob("R4", "axes", None, loc, f"{len(nets)} calls of the network in the pattern")
    net = nets[0]
    grid = sym(f.node.args.args[1].arg) if len(f.node.args.args) > 1 else None
    arg = net.args[1][-1]
    arg = arg.args[0] if arg.op in ("seq", "tuple") and len(arg.args) == 1 else arg
    for lab, val, src in (("no grid given", NONE, mk("attr", SELF, "grid")), ("grid given", sym("GRID"), sym("GRID"))):
        a = norm(subst(arg, lambda y: val if y is grid else None), do_strip=True)
        if val is not NONE:
            a = norm(subst(a, lambda y: FALSE if y.op == "eq" and NONE in y.args and val in y.args else None), do_strip=True)
        s, p = axes(a)
        outs = [x for x in dict.fromkeys(walk(t)) if x.op == "call" and x.args[0] in ("transpose", "permute", "swapaxes") and axes(x)[0] is net]
        outs = [x for x in outs if not any(x is y.args[1][0] for y in outs)]
        raw = contains(subst(t, lambda y: sym("net") if y in outs else None), lambda y: y is net)
        ok = None
        if p is not None:
            q = [axes(x)[1] for x in outs] + ([[0, 1, 2, 3]] if raw else [])
            if q and None not in q:
                ok = p[3] == 1 and all([p[i] for i in z] == [0, 1, 2, 3] for z in q) and s is src
                if not ok and s is not src and odd2(s):
                    ok = None
        ctx.ob("R4", f"axes:{lab}", ok, loc, f"the network reads {short(s, 60)} with axes {p} and its output's axes are put back by {[axes(x)[1] for x in outs]}")
    rr, th = mk("attr", SELF, "rr"), mk("attr", SELF, "r_threshold")
    if not contains(t, lambda y: y is rr) or not contains(t, lambda y: y is th):
        return ctx.ob("R4", "fades", False if not odd2(t) else None, loc, "the pattern does not depend on the radius and its threshold")
    for r in (Fraction(4, 5), Fraction(9, 10), Fraction(1), Fraction(6, 5), Fraction(7, 5)):
        for y in (Fraction(1), Fraction(3, 5)):
            w = at(t, rr, th, r, y)
            ok = None if not is_num(w) else abs(cval(w)) <= Fraction(1, 1000)
            ctx.ob("R4", f"fades:radius {float(r)}:network {float(y)}", ok, loc, f"at radius {float(r)} (threshold 0.75) where the network gives {float(y)} the pattern is {short(w, 100)}")


def network_positive(ctx):
    """the last layer of the network is a curve without negative values"""
    E, st, _ = construct(ctx, "CPPN", {}, ("set_params", "get_params", "no_grad", "get_cppn_input"), False)
    m = E.heapget(st, (SELF, "a", "model"))
    c = E.cellget(st, m) if m is not None and m.op == "cell" else None
    if c is None or c.op != "call" or str(c.args[0]).split(".")[-1] != "Sequential" or not c.args[1]:
        return False
    z = c.args[1][-1]
    if z.op == "cell":
        z = E.cellget(st, z)
    if z is not None and z.op == "call" and str(z.args[0]).split(".")[-1] in ("ReLU", "Sigmoid", "Softmax", "Softplus"):
        return True
    f = ctx.prog.method("Gaussian", "forward")
    if z is None or z.op != "ref" or z.args[0] != "inst:yuca.activations.Gaussian":
        return False
    mode = E.heapget(st, (z, "a", "mode"))
    return mode is not None and settle(E, mode, st) is const(0)


def at(t, rr, th, r, y):
    rep = {rr: const(r), th: const(Fraction(3, 4))}
    def f(x):
        if x in rep:
            return rep[x]
        if x.op == "call" and (x.args[0] == ".model" or axes(x)[0].op == "call" and axes(x)[0].args[0] == ".model"):
            return const(y)
        return None
    def g(x):
        if x.op == "item" and x.args[1] in (TRUE, FALSE):
            return x.args[0]
        if x.op == "where" and x.args[0] in (TRUE, FALSE):
            return x.args[1] if x.args[0] is TRUE else x.args[2]
        if x.op == "call" and x.args[0] in ("relu", "abs") and is_num(x.args[1][0]):
            c = cval(x.args[1][0])
            return const(max(c, 0) if x.args[0] == "relu" else abs(c))
        if x.op == "call" and x.args[0] == "clamp" and all(is_num(z) for z in x.args[1][:2]) and (len(x.args[1]) < 3 or is_num(x.args[1][2]) or x.args[1][2] is NONE):
            c = max(cval(x.args[1][0]), cval(x.args[1][1]))
            return const(min(c, cval(x.args[1][2])) if len(x.args[1]) > 2 and is_num(x.args[1][2]) else c)
        return None
    t = norm(subst(t, f), do_strip=True)
    for _ in range(8):
        u = norm(subst(t, g), do_strip=True)
        if u is t:
            break
        t = u
    return t


def odd2(t):
    return contains(t, lambda y: y.op in ("mu", "havoc", "fold", "cell", "ref", "opaque", "brk", "store") or
                    y.op == "call" and not (y.args[0] == ".model" or isinstance(y.args[0], str) and y.args[0] in ELEMENTWISE | {"transpose", "permute", "pow", "maximum", "where"}))
