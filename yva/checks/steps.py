"""C01 range, C07 clock, C08 update rule, C09 preview, C20 step bounds."""
import os
from ..lib import *
from ..terms import *

SPEC = os.path.join(HOME, "yva", "spec", "steps.py")
SELF, X, DT, VEL, MODE = sym("self"), sym("x"), sym("<dt>"), sym("<velocity>"), sym("mode")

# family -> reference step function, reference update function
STEP = {"CA": "base_step", "CCA": "cca_step", "Lenia": "lenia_step", "NCA": "nca_step",
        "CODE": "cca_step", "RandomStepCA": "cca_step"}
UPD = {"CA": "base_update", "CCA": "cca_update", "Lenia": "lenia_update", "NCA": "nca_update",
       "CODE": "cca_update", "RandomStepCA": "cca_update", "MetaCA": "cca_update"}


class Steps:
    """forward / get_frame of every family, interpreted once"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.spec_mod = ctx.prog.add_module("yva_spec_steps", SPEC)
        self.memo = {}

    def spec(self, cls, fname, *args):
        E = self.ctx.engine()
        E.types[SELF] = self.ctx.prog.find_class(cls)
        E.scalars.update({MODE})
        E.counters["loop"] = 100000     # never confuse the spec's loops with the code's
        f = self.spec_mod.funcs[fname]
        v, st = E.run(f, args=[SELF] + list(args))
        return E.deref(v, st)

    def method(self, cls, meth, args):
        key = (cls, meth, tuple(args))
        if key in self.memo:
            return self.memo[key]
        f = self.ctx.prog.method(cls, meth)
        n = len(f.node.args.args) - 1
        E, v, st = self.ctx.run(cls, meth, args=list(args)[:n])
        r = (E, E.deref(v, st), st, f)
        self.memo[key] = r
        return r

    def attr(self, E, st, name):
        p = E.heapget(st, (SELF, "a", name))
        if p is None:
            return mk("attr", SELF, name)
        return E.deref(p, st)


# ------------------------------------------------------------------ range analysis
INF = float("inf")
UNB = (-INF, INF)
UNIT = (0.0, 1.0)
SHAPE_ONLY = {"reshape", "transpose", "permute", "squeeze", "unsqueeze", "ravel", "flatten", "view", "expand", "roll", "repeat",
              "swapaxes", "flip", "detach", "clone", "contiguous", "to", "float", "double", "half", "cpu", "cuda", "type", "copy",
              "type_as", "tensor", "max", "min", "mean", "nan_to_num", "narrow", "select", "view_as", "expand_as", "numpy", "asarray",
              "as_tensor", "requires_grad_", "where_idx", "array", "sort", "median", "broadcast_to"}


def rng(t, memo=None):
    """sound interval for every element of t (NaN aside)"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = UNB
    r = _rng(t, memo)
    memo[t] = r
    return r


def hull(*rs):
    return (min(r[0] for r in rs), max(r[1] for r in rs))


def square_sign(t):
    """+1 / -1 when the polynomial is plus / minus a positive multiple of a perfect square, else 0"""
    P = poly(t, lambda x: x)
    if not 2 <= len(P) <= 15:
        return 0
    sq = [(m, c) for m, c in P.items() if all(e % 2 == 0 for _, e in m)]
    roots = [(tuple((a, e // 2) for a, e in m), c) for m, c in sq]
    for m0, c0 in roots[:6]:
        # candidate root: m0 plus every monomial whose cross term with m0 appears
        L = {m0: Fraction(1)}
        for m, c in P.items():
            if all(e % 2 == 0 for _, e in m) and tuple((a, e // 2) for a, e in m) == m0:
                continue
            q = pmul({m: Fraction(c) / (2 * c0)}, {tuple((a, -e) for a, e in m0): Fraction(1)})
            (mm, cc), = q.items()
            sqm = next(iter(pmul({mm: Fraction(1)}, {mm: Fraction(1)})))
            if sqm in P and mm != m0 and P[sqm] * c0 > 0:
                L2 = dict(L)
                L2[mm] = cc
                L = L2
        if {m: c * c0 for m, c in pmul(L, L).items()} == P:
            return 1 if c0 > 0 else -1
    return 0


def _rng(t, m):
    o, a = t.op, t.args
    if o == "const":
        v = a[0]
        if isinstance(v, bool):
            return (float(v), float(v))
        if isinstance(v, Fraction):
            return (float(v), float(v))
        return UNB
    if o in ("lt", "le", "lt0", "eq", "not", "and", "or", "in"):
        return UNIT
    if o in ("ite", "where"):
        return hull(rng(a[1], m), rng(a[2], m))
    if o == "store":
        return hull(rng(a[0], m), rng(a[2], m))
    if o == "item":
        return rng(a[0], m)
    if o == "view":
        return rng(a[1], m)
    if o in ("seq", "tuple", "lcat"):
        return hull(*[rng(x, m) for x in a]) if a else (INF, -INF)
    if o == "over":
        return rng(a[1], m)
    if o == "last":
        return hull(rng(a[1], m), rng(a[2], m)) if a[2] is not UNDEF else rng(a[1], m)
    if o == "add":
        p, q = rng(a[0], m), rng(a[1], m)
        return (p[0] + q[0], p[1] + q[1])
    if o == "mul":
        return imul(rng(a[0], m), rng(a[1], m))
    if o == "pow" and is_num(a[1]):
        return ipow(rng(a[0], m), cval(a[1]))
    if o == "poly":
        lo = hi = 0.0
        for c, mono in a:
            r = (float(c), float(c))
            for y, e in mono:
                r = imul(r, ipow(rng(y, m), Fraction(e)))
            lo, hi = lo + r[0], hi + r[1]
        common = [y for y, e in a[0][1] if len(a) > 1 and all(any(z is y and g == e for z, g in mono) for _, mono in a)] if a else []
        if common:
            e = next(e for y, e in a[0][1] if y is common[0])
            rest = norm(div(t, power(common[0], const(e))))
            p, q = rng(rest, m), ipow(rng(common[0], m), Fraction(e))
            r = imul(p, q)
            lo, hi = max(lo, r[0]), min(hi, r[1])
        sq = square_sign(t)
        if sq > 0:
            lo = max(lo, 0.0)
        elif sq < 0:
            hi = min(hi, 0.0)
        return (lo, hi)
    if o == "call":
        f, xs = a[0], a[1]
        kw = dict(a[2])
        if f == "clamp":
            x = rng(xs[0], m)
            lo = rng(xs[1], m) if len(xs) > 1 and xs[1] is not NONE else (-INF, -INF)
            hi = rng(xs[2], m) if len(xs) > 2 and xs[2] is not NONE else (INF, INF)
            # min(max(x, lo), hi)
            p = (max(x[0], lo[0]), max(x[1], lo[1]))
            return (min(p[0], hi[0]), min(p[1], hi[1]))
        if f in ("minimum", "min_py", "fmin") or (f == "min" and len(xs) > 1):
            rs = [rng(x, m) for x in xs]
            return (min(r[0] for r in rs), min(r[1] for r in rs))
        if f in ("maximum", "max_py", "fmax") or (f == "max" and len(xs) > 1):
            rs = [rng(x, m) for x in xs]
            return (max(r[0] for r in rs), max(r[1] for r in rs))
        if f in ("sigmoid",):
            return UNIT
        if f == "tanh":
            return (-1.0, 1.0)
        if f == "relu":
            r = rng(xs[0], m)
            return (max(0.0, r[0]), max(0.0, r[1]))
        if f == "abs":
            r = rng(xs[0], m)
            return (0.0 if r[0] <= 0 <= r[1] else min(abs(r[0]), abs(r[1])), max(abs(r[0]), abs(r[1])))
        if f == "exp":
            r = rng(xs[0], m)
            import math
            return (math.exp(max(r[0], -700)) if r[0] > -INF else 0.0, math.exp(r[1]) if r[1] < 700 else INF)
        if f in ("torch.zeros_like", "torch.zeros", "numpy.zeros", "numpy.zeros_like", "zeros_like"):
            return (0.0, 0.0)
        if f in ("torch.ones_like", "torch.ones", "numpy.ones", "numpy.ones_like"):
            return (1.0, 1.0)
        if f in ("torch.rand", "torch.rand_like", "numpy.random.rand"):
            return UNIT
        if f in ("tcat", "npcat", "stack"):
            return rng(xs[1], m)
        if f in SHAPE_ONLY and xs:
            return rng(xs[0], m)
        if f in ("logical_and", "logical_or", "logical_not", "isnan", "opBitAnd") :
            return UNIT
    return UNB


def imul(p, q):
    def mm(x, y):
        return 0.0 if x == 0 or y == 0 else x * y
    c = [mm(x, y) for x in p for y in q]
    return (min(c), max(c))


def ipow(r, e):
    if e == 1:
        return r
    if e.denominator == 1 and e > 0:
        if int(e) % 2 == 0:
            hi = max(abs(r[0]), abs(r[1]))
            lo = 0.0 if r[0] <= 0 <= r[1] else min(abs(r[0]), abs(r[1]))
            return (lo ** int(e), hi ** int(e) if hi < INF else INF)
        f = lambda x: x ** int(e) if abs(x) < INF else x
        return (f(r[0]), f(r[1]))
    if e < 0 and r[0] > 0:
        return (0.0 if r[1] == INF else r[1] ** float(e), r[0] ** float(e))
    return UNB


def grid_parts(v):
    """the grid component(s) of a step/preview result: first element of tuples"""
    for facts, leaf in leaves(v):
        if leaf is NONE or leaf is UNDEF:
            continue
        if leaf.op in ("tuple", "seq") and leaf.args:
            for f2, l2 in leaves(leaf.args[0]):
                yield facts + f2, l2
        else:
            yield facts, leaf


def check_C01(ctx):
    ctx.rule("R1", "interval domain: every element of every grid returned by forward / get_frame (each mode) lies in [0,1]")
    S = Steps(ctx)
    for cls in FAMILIES:
        for meth in ("forward", "get_frame"):
            name = f"{cls}.{meth}"

            def go():
                E, v, st, f = S.method(cls, meth, [X, MODE])
                n = 0
                for facts, leaf in grid_parts(v):
                    n += 1
                    r = rng(leaf)
                    ok = r[0] >= 0.0 and r[1] <= 1.0
                    ctx.ob("R1", name, ok, func_loc(f),
                           f"returned grid {short(leaf, 200)} has range [{r[0]:g}, {r[1]:g}] when {facts_text(facts)}; not inside [0,1]")
                if n == 0:
                    ctx.ob("R1", name, None, func_loc(f), "no returned grid found")
            ctx.guard("R1", name, go)
    # positive example: the rule must reject an unclamped sum
    r = rng(add(X, sym("u")))
    ctx.ob("selftest", "unclamped-sum-rejected", not (r[0] >= 0 and r[1] <= 1))


# ------------------------------------------------------------------ C08
def project(t, i):
    """[:, i, :, :] of an elementwise combination of tensors"""
    memo = {}
    full = mk("slice", NONE, NONE, NONE)
    key = mk("tuple", full, const(i), full, full)

    def istensor(x):
        return x.op == "sym" or (x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("."))

    def go(x):
        if x in memo:
            return memo[x]
        r = g(x)
        memo[x] = r
        return r

    def g(x):
        o, a = x.op, x.args
        if o == "const":
            return x
        if o in ("add", "mul"):
            return rebuild(o, tuple(go(y) for y in a))
        if o == "pow":
            return rebuild(o, (go(a[0]), a[1]))
        if o == "poly":
            return mk("poly", *[(c, tuple((go(y), e) for y, e in m)) for c, m in a])
        if o in ("where", "ite"):
            return rebuild(o, (a[0], go(a[1]), go(a[2])))
        if o == "attr":
            return x
        if o == "store":
            k = a[1]
            parts = k.args if k.op == "tuple" else (k,)
            if len(parts) >= 2 and parts[0] is full and all(p is full for p in parts[2:]):
                p = parts[1]
                if is_num(p):
                    return a[2] if cval(p) == i else go(a[0])
                if p.op == "slice" and is_num(p.args[0]) and is_num(p.args[1]) and p.args[1] is const(cval(p.args[0]) + 1):
                    return project0(a[2]) if cval(p.args[0]) == i else go(a[0])
            return mk("item", x, key)
        if o == "call" and a[0] in ("clamp", "exp", "abs"):
            return mk("call", a[0], (go(a[1][0]),) + tuple(a[1][1:]), a[2])
        if o == "call" and a[0] == "stack" and a[1][0] is const(1) and a[1][1].op == "seq":
            return a[1][1].args[i]
        if o == "call" and a[0] == "tcat" and a[1][0] is const(1) and a[1][1].op == "seq" and len(a[1][1].args) == 2:
            return project0(a[1][1].args[i])
        return mk("item", x, key)

    def project0(x):
        """drop a singleton channel axis"""
        if x.op == "call" and x.args[0] == "unsqueeze" and x.args[1][1] is const(1):
            return x.args[1][0]
        if x.op in ("add", "mul"):
            return rebuild(x.op, tuple(project0(y) for y in x.args))
        if x.op == "pow":
            return rebuild("pow", (project0(x.args[0]), x.args[1]))
        if x.op == "poly":
            return mk("poly", *[(c, tuple((project0(y), e) for y, e in m)) for c, m in x.args])
        if x.op == "item" and x.args[1].op == "tuple":
            ks = list(x.args[1].args)
            if len(ks) >= 2 and ks[1].op == "slice" and is_num(ks[1].args[0]):
                ks[1] = ks[1].args[0]
                while len(ks) < 4:
                    ks.append(full)
                return mk("item", x.args[0], mk("tuple", *ks))
        if x.op in ("const", "attr"):
            return x
        return mk("item", x, mk("tuple", full, const(0), full, full))
    return go(norm(t))


def full_keys(t):
    """X[:, i] and X[:, i, :, :] are the same read"""
    full = mk("slice", NONE, NONE, NONE)

    def f(x):
        if x.op == "item" and x.args[1].op == "tuple":
            ks = list(x.args[1].args)
            while ks and ks[-1] is full and len(ks) > 1:
                ks.pop()
            if len(ks) != len(x.args[1].args):
                return mk("item", full_keys(x.args[0]), mk("tuple", *ks))
        return None
    return subst(t, f)


def check_C08(ctx):
    ctx.rule("R1", "normal form: the value returned by a step equals the published rule for every input, growth function and precision branch")
    ctx.rule("R2", "normal form: the update (increment) equals the published rule, per species for Gray-Scott")
    ctx.rule("R3", "MetaCA stores as its new velocity exactly the velocity that moved the grid")
    S = Steps(ctx)
    for cls in ("CA", "CCA", "Lenia", "NCA", "CODE", "RandomStepCA"):
        def go():
            E, v, st, f = S.method(cls, "forward", [X, MODE])
            # the step size of adaptive/random families is whatever the step recorded (C07/C20 decide it)
            dt = S.attr(E, st, "dt") if cls in ("CODE", "RandomStepCA") else mk("attr", SELF, "dt")
            got = v
            want = S.spec(cls, STEP[cls], X, dt)
            equal_ob(ctx, "R1", f"{cls}.forward", got, want, func_loc(f), "step result")
        ctx.guard("R1", f"{cls}.forward", go)
    I, N = sym("identity"), sym("neighborhoods")
    for cls in ("CA", "CCA", "Lenia", "NCA", "CODE", "RandomStepCA", "MetaCA"):
        def go():
            E, v, st, f = S.method(cls, "update_universe", [I, N])
            equal_ob(ctx, "R2", f"{cls}.update_universe", v, S.spec(cls, UPD[cls], I, N), func_loc(f), "update")
        ctx.guard("R2", f"{cls}.update_universe", go)
    for i, sp in ((0, "u"), (1, "v")):
        def go():
            E, v, st, f = S.method("RxnDfn", "update_universe", [I, N])
            equal_ob(ctx, "R2", f"RxnDfn.update_universe[{sp}]", full_keys(project(v, i)), full_keys(norm(S.spec("RxnDfn", f"rd_{sp}", I, N))),
                     func_loc(f), f"increment of species {sp}")
            E, v, st, f = S.method("RxnDfn", "forward", [X, MODE])
            equal_ob(ctx, "R1", f"RxnDfn.forward[{sp}]", full_keys(project(v, i)),
                     full_keys(norm(S.spec("RxnDfn", f"rd_step_{sp}", X, mk("attr", SELF, "dt")))), func_loc(f), f"step of species {sp}")
        ctx.guard("R1", f"RxnDfn.forward[{sp}]", go)

    def meta():
        E, v, st, f = S.method("MetaCA", "forward", [X, MODE])
        vel = S.attr(E, st, "dgrid")
        old = mk("attr", SELF, "dgrid")
        seen = set()
        # the stored velocity is either the previous one or zero (first step / new grid size)
        conds = [c for c in {t.args[0] for t in walk(norm(vel)) if t.op == "ite"} if contains(c, lambda y: y is old)]
        cases = [()]
        for c in conds:
            for a in [y for y in atoms(c)]:
                cases = [k + ((a, b),) for k in cases for b in (True, False)]
        for facts in cases[:16]:
            got_v, got_x = under(norm(vel), facts), under(norm(v), facts)
            res = {}
            for nm, v0 in (("previous velocity", old), ("zero", const(0))):
                res[nm] = differ(got_v, S.spec("MetaCA", "meta_velocity", X, v0)) is None and \
                    differ(got_x, S.spec("MetaCA", "meta_step", X, v0, mk("attr", SELF, "dt"))) is None
            ok = any(res.values())
            seen.update(k for k, b in res.items() if b)
            ctx.ob("R3", "MetaCA.forward", ok, func_loc(f),
                   f"when {facts_text(facts)}: velocity {short(got_v, 200)} / grid {short(got_x, 200)} do not follow velocity + ddt*update, grid + dt*velocity")
        sh = [mk("attr", t, "shape") for t in (X, old)]
        whole = any(contains(c, lambda y: y.op == "eq" and set(y.args) == set(sh)) for c in conds)
        part = {norm(y.args[1]) for c in conds for y in walk(c) if y.op == "item" and y.args[0] is sh[1]}
        full = {const(i) for i in range(4)}
        ctx.ob("R3", "MetaCA.forward.new-grid", True if whole or {norm(p) for p in part} >= full else False if part and all(is_num(p) or p.op == "slice" for p in part) and
               all(not (p.op == "slice" and p.args[0] in (NONE, const(0)) and p.args[1] is NONE) for p in part) else None, func_loc(f),
               f"the stored velocity is kept for a grid that agrees only in {', '.join(short(p, 20) for p in sorted(part, key=str))} of its shape")
        ctx.ob("R3", "MetaCA.forward.keeps-velocity", "previous velocity" in seen, func_loc(f), "the previous velocity never enters the step")
    ctx.guard("R3", "MetaCA.forward", meta)
    ctx.ob("selftest", "sign-flip-rejected", differ(S.spec("CCA", "cca_update", I, N), S.spec("CCA", "cca_update", N, I)) is not None)


# ------------------------------------------------------------------ C09
def check_C09(ctx):
    ctx.rule("R1", "normal form: the grid component of get_frame(x, mode) equals forward(x), for each mode and channel count")
    ctx.rule("R2", "the extra components are the neighborhood, update and input grid of that mode, in the documented order")
    ctx.rule("R3", "effects: get_frame leaves every attribute of the CA as it was (dtype/device caches excepted) and writes into no state tensor")
    S = Steps(ctx)
    for cls in ("CA", "CCA", "NCA", "Lenia", "RxnDfn"):
        def go():
            E, fv, st, ff = S.method(cls, "forward", [X, MODE])
            E2, gv, st2, gf = S.method(cls, "get_frame", [X, MODE])
            m = masked_of(S, cls)
            nb = mk("call", ".neighborhood_layer", (SELF, m), ())
            nb2 = S.spec(cls, "masked", X)
            for mode in range(5):
                got = assume_eq(norm(gv), MODE, mode)
                parts = list(got.args) if got.op == "tuple" else [got]
                want_n = {0: 1, 1: 2, 2: 2, 3: 3, 4: 4}[mode]
                if got.op == "ite":
                    ls = [l for _, l in leaves(got)]
                    if all(l.op == "tuple" for l in ls):
                        n = {len(l.args) for l in ls}
                        if len(n) == 1:
                            parts = [pick(got, i) for i in range(n.pop())]
                name = f"{cls}.get_frame[mode={mode}]"
                ctx.ob("R2", name + ".arity", len(parts) == want_n, func_loc(gf),
                       f"mode {mode} returns {len(parts)} component(s), expected {want_n}")
                equal_ob(ctx, "R1", name, parts[0], fv, func_loc(gf), "preview grid differs from the step")
                names = {1: ["neighborhoods"], 2: ["update"], 3: ["neighborhoods", "update"], 4: ["universe", "neighborhoods", "update"]}.get(mode, [])
                wants = component_terms(S, cls)
                for p, nm in zip(parts[1:], names):
                    ds = [differ(p, w) for w in wants[nm]]
                    ctx.ob("R2", name + "." + nm, any(d is None for d in ds), func_loc(gf),
                           f"component '{nm}' of mode {mode} is {short(p, 200)}")
            for (base, kind, attr), val in list(st2.heap.items()):
                if base is SELF and kind == "a":
                    c = E2.deref(val, st2)
                    if c is mk("attr", SELF, attr):
                        continue
                    alltyp = all(l is mk("attr", SELF, attr) or is_dtype(l) for l in flat_leaves(c))
                    ctx.ob("R3", f"{cls}.get_frame.writes-{attr}", alltyp, func_loc(gf), f"previewing sets self.{attr} to {short(c, 120)}")
            ctx.ob("R3", f"{cls}.get_frame.clock", S.attr(E2, st2, "t_count") is mk("attr", SELF, "t_count"), func_loc(gf),
                   "previewing changes the clock")
            for e in E2.events:
                if e.kind == "mutate" and any(contains(r, lambda y: y is SELF) for r in E2.roots(e.target)):
                    ctx.ob("R3", f"{cls}.get_frame.inplace", False, e.loc, f"previewing writes into CA state: {short(str(e), 160)}")
        ctx.guard("R1", f"{cls}.get_frame", go)
    ctx.ob("selftest", "unmasked-differs", differ(S.spec("CA", "base_step", X, DT), mk("call", "clamp", (X, const(0), const(1)), ())) is not None)


def is_dtype(t):
    return (t.op == "attr" and t.args[1] in ("dtype", "device")) or t.op in ("ext",) or \
        (t.op == "call" and t.args[0] in ("torch.device",)) or \
        (t.op == "last" and is_dtype(t.args[1]))


def flat_leaves(t):
    if t.op == "ite":
        yield from flat_leaves(t.args[1])
        yield from flat_leaves(t.args[2])
    elif t.op == "last":
        yield from flat_leaves(t.args[1])
        if t.args[2] is not UNDEF:
            yield from flat_leaves(t.args[2])
    else:
        yield t


def pick(t, i):
    if t.op == "ite":
        return ite(t.args[0], pick(t.args[1], i), pick(t.args[2], i))
    return t.args[i]


def assume_eq(t, s, v):
    """t with the integer parameter s equal to v"""
    return norm(subst(t, lambda x: const(v) if x is s else None))


def masked_of(S, cls):
    return X if cls == "RxnDfn" else S.spec(cls, "masked", X)


def component_terms(S, cls):
    m = masked_of(S, cls)
    nb = mk("call", ".neighborhood_layer", (SELF, m), ())
    idt = mk("call", ".id_layer", (SELF, m), ())
    if cls == "RxnDfn":
        E, u, st, _ = S.method("RxnDfn", "update_universe", [idt, nb])
        upd = u
    else:
        upd = S.spec(cls, UPD[cls], idt, nb)
    return {"neighborhoods": [nb], "update": [upd], "universe": [X, m]}


# ------------------------------------------------------------------ C07
def clock_delta(S, E, st):
    return norm(sub(S.attr(E, st, "t_count"), mk("attr", SELF, "t_count")))


def check_C07(ctx):
    ctx.rule("R1", "the increment of t_count over one forward equals the multiplier of the update in that very step (normal form)")
    ctx.rule("R2", "get_frame and trial evaluations leave t_count unchanged")
    ctx.rule("R3", "reset and construction leave t_count = 0 on every path")
    S = Steps(ctx)
    for cls in FAMILIES:
        def go():
            E, v, st, f = S.method(cls, "forward", [X, MODE])
            delta = clock_delta(S, E, st)
            name = f"{cls}.forward"
            if delta is const(0):
                ctx.ob("R1", name, False, func_loc(f), "the step does not advance t_count")
                return
            if cls == "RxnDfn":
                for i, sp in ((0, "u"), (1, "v")):
                    equal_ob(ctx, "R1", f"{name}[{sp}]", full_keys(project(v, i)), full_keys(norm(S.spec(cls, f"rd_step_{sp}", X, delta))), func_loc(f),
                             f"clock advances by {short(delta, 120)} but")
            elif cls == "MetaCA":
                vel = S.attr(E, st, "dgrid")
                want = mk("call", "clamp", (add(S.spec(cls, "masked", X), mul(delta, vel)), const(0), const(1)), ())
                equal_ob(ctx, "R1", name, v, want, func_loc(f), f"clock advances by {short(delta, 120)} but")
            else:
                equal_ob(ctx, "R1", name, v, S.spec(cls, STEP[cls], X, delta), func_loc(f),
                         f"clock advances by {short(delta, 120)} but")
        ctx.guard("R1", f"{cls}.forward", go)

        def prev():
            for meth in ("get_frame",) + (("get_new_grid",) if cls == "CODE" else ()):
                E, v, st, f = S.method(cls, meth, [X, MODE])
                ctx.ob("R2", f"{cls}.{meth}", clock_delta(S, E, st) is const(0), func_loc(f), "advances t_count")
        ctx.guard("R2", f"{cls}.preview", prev)

        def rst():
            E, v, st, f = S.method(cls, "reset", [])
            t = norm(S.attr(E, st, "t_count"))
            ctx.ob("R3", f"{cls}.reset", t is const(0), func_loc(f), f"after reset t_count is {short(t)}")
            E = ctx.engine(opaque=HEAVY)
            g = ctx.prog.method(cls, "__init__")
            _, st = E.run(g, selfcls=ctx.prog.find_class(cls))
            ctx.note_units(E, g)
            t = norm(S.attr(E, st, "t_count"))
            ctx.ob("R3", f"{cls}.__init__", t is const(0), func_loc(g), f"after construction t_count is {short(t)}")
        ctx.guard("R3", f"{cls}.reset", rst)


# entry points that load external data into a CA under construction
HEAVY = {"CCA.restore_config", "NCA.restore_config", "RxnDfn.restore_config", "CCA.set_params", "CCA.load_config", "NCA.load_config",
         "RxnDfn.load_config"}


# ------------------------------------------------------------------ C20
def upper(t, X_, facts=()):
    """is t <= X_ provable by min/ite/shrinking structure?"""
    if t is X_:
        return True
    if t.op == "call" and t.args[0] in ("min_py", "minimum", "min"):
        return any(upper(y, X_, facts) for y in t.args[1])
    if t.op == "call" and t.args[0] == "clamp" and len(t.args[1]) == 3:
        return upper(t.args[1][2], X_, facts)
    if t.op == "ite":
        c, a, b = t.args
        return upper(a, X_, facts + ((c, True),)) and upper(b, X_, facts + ((c, False),))
    for c, v in facts:
        # c is lt0(p): p < 0
        if c.op == "lt0":
            d = norm(sub(t, X_))
            p = c.args[0] if v else None
            if v and norm(sub(d, c.args[0])) is const(0):
                return True
            if not v and norm(add(d, c.args[0])) is const(0):
                return True
            # scaled comparison
            for k in (Fraction(1, 2), Fraction(2), Fraction(1)):
                s = mul(const(k), c.args[0])
                if v and norm(sub(d, s)) is const(0):
                    return True
                if not v and norm(add(d, s)) is const(0):
                    return True
    return False


def flatten_min(t):
    """min_py over a literal list"""
    def f(x):
        if x.op == "call" and x.args[0] in ("min_py", "min", "minimum", "max_py") and len(x.args[1]) == 1 and \
                x.args[1][0].op in ("seq", "tuple"):
            return mk("call", x.args[0], tuple(flatten_min(y) for y in x.args[1][0].args), ())
        return None
    return subst(t, f)


def check_C20(ctx):
    ctx.rule("R1", "CODE: the first candidate is at most max_dt and at most twice prev_dt (min structure)")
    ctx.rule("R2", "CODE: a rejected candidate is replaced by a strictly smaller multiple of itself; an accepted one is kept unchanged")
    ctx.rule("R3", "CODE: acceptance requires error < error_threshold where the error compares one full step with two half steps of that candidate")
    ctx.rule("R4", "CODE: the final step is the accepted candidate, min_dt if none passed; no candidate below min_dt is tried; it is taken, counted and remembered")
    ctx.rule("R5", "RandomStepCA: dt = min + U[0,1)*(max-min), one draw per step, remembered")
    ctx.rule("R6", "get_dt returns a number whatever the family stored in self.dt")
    S = Steps(ctx)
    A = lambda n: mk("attr", SELF, n)
    f = ctx.prog.method("CODE", "forward")

    def code():
        E, v, st, _ = S.method("CODE", "forward", [X, MODE])
        dt = norm(S.attr(E, st, "dt"))
        prev = norm(S.attr(E, st, "prev_dt"))
        tc = clock_delta(S, E, st)
        ctx.ob("R4", "CODE.prev_dt", differ(prev, dt) is None, func_loc(f), f"prev_dt after the step is {short(prev, 150)} but dt is {short(dt, 150)}")
        ctx.ob("R4", "CODE.counted", differ(tc, dt) is None, func_loc(f), f"t_count advanced by {short(tc, 150)} but dt is {short(dt, 150)}")
        equal_ob(ctx, "R4", "CODE.taken", v, S.spec("CODE", "cca_step", X, dt), func_loc(f), "the grid returned was not advanced by the accepted step;")
        # the loop that searches the candidate
        loops = [L for L in E.loopinfo.values() if L["spec"].op == "while"]
        cand = None
        for L in loops:
            for key, (init, nxt) in L["carried"].items():
                if key[0] == "loc" and nxt is not None and contains(norm(init), lambda y: y is A("max_dt")) or \
                        (key[0] == "heap" and key[1][2] == "dt" and contains(norm(init), lambda y: y is A("max_dt"))):
                    cand = (L, key, norm(init), norm(nxt))
        if cand is None:
            # bug class: the bound is not there at all
            for L in loops:
                for key, (init, nxt) in L["carried"].items():
                    if key[0] == "loc" and contains(norm(init), lambda y: y is A("prev_dt")):
                        cand = (L, key, norm(init), norm(nxt))
        if cand is None:
            ctx.ob("R1", "CODE.candidate", None, func_loc(f), "no candidate-search loop recognised")
            return
        L, key, init, nxt = cand
        init = flatten_min(init)
        ctx.ob("R1", "CODE.candidate<=max_dt", upper(init, A("max_dt")), func_loc(f), f"first candidate {short(init)} is not bounded by max_dt")
        two = norm(mul(const(2), A("prev_dt")))
        ctx.ob("R1", "CODE.candidate<=2*prev_dt", upper(init, two), func_loc(f), f"first candidate {short(init)} is not bounded by twice prev_dt")
        me = [y for y in walk(nxt) if y.op == "mu" and y.args[1] in (f"{key[0]}:{key[1]}", E.mu_name(key))]
        if not me:
            ctx.ob("R2", "CODE.shrink", False, func_loc(f), f"next candidate {short(nxt, 200)} does not derive from the current one")
            return
        c = me[0]
        kept = shrunk = None
        acc = []
        for facts, leaf in leaves(nxt):
            if leaf is c:
                kept = facts
                acc.append(facts)
            else:
                d = norm(mul(leaf, mk("pow", c, const(-1))))
                ok = is_num(d) and 0 < cval(d) < 1
                shrunk = facts
                ctx.ob("R2", "CODE.shrink", ok, func_loc(f), f"a rejected candidate becomes {short(leaf, 150)}, not a fraction strictly between 0 and 1 of itself")
        ctx.ob("R2", "CODE.has-shrink", shrunk is not None, func_loc(f), "a rejected candidate is never reduced")
        ctx.ob("R2", "CODE.has-keep", kept is not None, func_loc(f), "an accepted candidate is changed")
        if kept is None:
            return
        # acceptance: error - threshold < 0
        def shape_small(t):
            """analyse the error test for grids without an alpha channel (the mask is C08's business)"""
            for _ in range(6):
                cs = [k for k in {a for y in walk(t) if y.op == "ite" for a in atoms(y.args[0])}
                      if k.op == "lt0" and contains(k, lambda z: z.op == "attr" and z.args[1] == "shape")
                      and not contains(k, lambda z: z is A("error_threshold"))]
                if not cs:
                    break
                for k in cs:
                    t = norm(assume(t, k, TRUE))
            return t
        big = norm(S.spec("CODE", "cca_step", X, c))
        half = norm(mul(const(Fraction(1, 2)), c))
        small = norm(S.spec("CODE", "cca_step", S.spec("CODE", "cca_step", X, half), half))
        for facts in acc:
            atoms_ = [(k, b) for cc, vv in facts for k, b in consequences(cc, vv)]
            thr = [k for k, b in atoms_ if k.op == "lt0" and contains(k, lambda y: y is A("error_threshold"))]
            ok, why = False, "no comparison with error_threshold guards acceptance"
            for k, b in atoms_:
                if k not in thr:
                    continue
                p = poly(k.args[0], lambda y: y)
                et = [(m, co) for m, co in p.items() if any(a is A("error_threshold") for a, e in m)]
                rest = [(m, co) for m, co in p.items() if (m, co) not in et]
                # b: p<0 accepted; want  error - thr < 0 (coefficient of thr negative), or not (thr - error < 0)~ thr-error>=0
                sign = et[0][1] < 0 if b else et[0][1] > 0
                body = unpoly(dict(rest))
                sb, bb, ss = shape_small(body), shape_small(big), shape_small(small)
                cl = [y for y in walk(sb) if y.op == "call" and y.args[0] == "clamp"]
                hb, hs = any(differ(y, bb) is None for y in cl), any(differ(y, ss) is None for y in cl)
                ok = sign and hb and hs
                why = (f"acceptance test is {'' if b else 'not '}{short(k, 160)}; "
                       f"{'error below threshold' if sign else 'accepts errors ABOVE the threshold'}, full step {'compared' if hb else 'NOT compared'}, "
                       f"two half steps {'compared' if hs else 'NOT compared'}")
                if ok:
                    break
            ctx.ob("R3", "CODE.accept", ok, func_loc(f), why)
            # reduction must be an upper bound of the errors: max, not min
            if ok:
                mins = [y for y in walk(body) if y.op == "call" and y.args[0] in ("min", "argmin")]
                ctx.ob("R3", "CODE.error-norm", not mins, func_loc(f), "the error estimate takes a minimum over cells")
                part = [y for y in walk(sb) if y.op == "item" and is_num(y.args[1]) and
                        contains(y.args[0], lambda z: z in cl)]
                outside = subst(sb, lambda z: sym("step") if z in cl else None)
                ctx.ob("R3", "CODE.error-cells", not contains(outside, lambda z: z is X), func_loc(f),
                       "which cells count for the error estimate depends on the grid before the step, not on the two results alone")
                ctx.ob("R3", "CODE.error-whole", not part, func_loc(f), "the error estimate looks at one entry of the difference only")
        # loop guard: candidate >= min_dt
        lc = L["spec"].args[0]
        cm = [y for y in walk(lc) if y.op == "m"]
        low = False
        for k, b in consequences(norm(lc), True):
            if k.op == "lt0" and contains(k, lambda y: y is A("min_dt")):
                low = True
        ctx.ob("R4", "CODE.min_dt-guard", low, func_loc(f), f"loop condition {short(lc, 200)} does not keep candidates at or above min_dt")
        def follows(t):
            """what is left in dt by the round that accepts is that round's candidate"""
            slots = t.args[1]
            me = {i for i, (a, _) in enumerate(slots) if norm(a) is init or flatten_min(norm(a)) is init}
            want = {b for facts in acc for c, v in facts for k, b in consequences(c, v)
                    if k.op == "lt0" and contains(k, lambda y: y is A("error_threshold"))}
            if not me or len(want) != 1:
                ctx.ob("R4", "CODE.accepted", None, func_loc(f), "the candidate is not found among the values the search carries")
                return
            for facts, leaf in leaves(norm(slots[0][1])):
                got = {b for c, v in facts for k, b in consequences(c, v)
                       if k.op == "lt0" and contains(k, lambda y: y is A("error_threshold"))}
                if got == want or not got:
                    ok = leaf.op == "m" and leaf.args[1] in me
                    if not ok and contains(leaf, lambda y: y.op in ("havoc", "last", "fold")):
                        ok = None
                    ctx.ob("R4", "CODE.accepted", ok, func_loc(f), f"the round that accepts a candidate leaves {short(leaf, 150)} as the step, not that candidate")
        # final value: candidate or min_dt
        vals = set()
        # the flag that says whether a candidate passed, as far as the choice of the step asks for it
        passed = {(k, norm(k.args[1][0][0]) is FALSE) for facts, leaf in leaves(dt) for c, v in facts for k, b in consequences(c, v)
                  if k.op == "fold" and norm(k.args[1][0][0]) in (TRUE, FALSE) and b is (norm(k.args[1][0][0]) is TRUE)}
        for facts, leaf in leaves(dt):
            if leaf is A("min_dt"):
                vals.add("min")
            elif leaf.op in ("fold", "last", "iter"):
                vals.add("cand")
                if leaf.op == "fold":
                    follows(leaf)
                flag = [(k, b) for k, b in passed if not any(q is k and bb is b for c, v in facts for q, bb in consequences(c, v))]
                if flag:
                    ctx.ob("R4", "CODE.none passed", False, func_loc(f), f"the last candidate tried may be the step although none passed: {short(norm(flag[0][0]), 100)} is not asked")
            else:
                vals.add(short(leaf, 100))
        ctx.ob("R4", "CODE.final", vals <= {"min", "cand"} and "min" in vals and "cand" in vals, func_loc(f),
               f"the accepted step is one of {sorted(vals)}; expected the accepted candidate, or min_dt when none passed")
    ctx.guard("R1", "CODE.forward", code)

    def rand():
        E, v, st, g = S.method("RandomStepCA", "forward", [X, MODE])
        dt = norm(S.attr(E, st, "dt"))
        p = poly(dt, lambda y: y)
        us = {y for y in walk(dt) if y.op == "call" and isinstance(y.args[0], str) and
              y.args[0] in ("numpy.random.rand", "torch.rand", "numpy.random.random", "numpy.random.random_sample", "random.random")}
        un = {y for y in walk(dt) if y.op == "call" and y.args[0] in ("numpy.random.uniform", "random.uniform")}
        if len(un) == 1 and dt in un:
            a = [norm(y) for y in dt.args[1]]
            ok = len(a) >= 2 and a[0] is A("min_dt") and a[1] is A("max_dt")
            ctx.ob("R5", "RandomStepCA.dt", ok, func_loc(g), f"dt is drawn as {short(dt)}")
        elif us or un:
            u = sorted(us | un)[0]
            want = norm(add(A("min_dt"), mul(u, sub(A("max_dt"), A("min_dt")))))
            want2 = norm(sub(A("max_dt"), mul(u, sub(A("max_dt"), A("min_dt")))))
            ctx.ob("R5", "RandomStepCA.dt", dt is want or dt is want2, func_loc(g), f"dt is drawn as {short(dt)}, not min_dt + U*(max_dt - min_dt)")
        elif contains(dt, lambda y: y.op == "call" and isinstance(y.args[0], str) and y.args[0].split(".")[-1] in
                      ("randn", "normal", "standard_normal", "exponential", "lognormal", "gauss", "beta", "gamma", "randint", "choice", "integers")):
            ctx.ob("R5", "RandomStepCA.dt", False, func_loc(g), f"dt is drawn as {short(dt)}, not uniformly between min_dt and max_dt")
        else:
            ctx.ob("R5", "RandomStepCA.dt", None if contains(dt, lambda y: y.op == "call") else False, func_loc(g), f"dt is {short(dt)}")
        ctx.ob("R5", "RandomStepCA.prev_dt", differ(S.attr(E, st, "prev_dt"), dt) is None, func_loc(g), "prev_dt is not the step taken")
        ctx.ob("R5", "RandomStepCA.counted", differ(clock_delta(S, E, st), dt) is None, func_loc(g), "the step counted is not the step drawn")
        equal_ob(ctx, "R5", "RandomStepCA.taken", v, S.spec("RandomStepCA", "cca_step", X, dt), func_loc(g), "the grid was not advanced by the drawn step;")
    ctx.guard("R5", "RandomStepCA.forward", rand)

    for cls in FAMILIES:
        def q():
            E, v, st, g = S.method(cls, "get_dt", [])
            t = E.deref(v, st)
            # what a step leaves in self.dt: tensor (set_dt) or Python number
            E2, v2, st2, _ = S.method(cls, "forward", [X, MODE])
            d = S.attr(E2, st2, "dt")
            number = d is not A("dt") and is_number_term(E2, d)
            tensor_only = contains(t, lambda y: y.op == "call" and y.args[0] in ("item", ".item", "tolist", "detach", "cpu", "numpy") and
                                   contains(y, lambda z: z is A("dt")))
            mentions = contains(t, lambda y: y is A("dt"))
            guarded = any(c.op == "call" and c.args[0] in ("isinstance", "hasattr", "torch.is_tensor") or c.op == "eq"
                          for x in walk(t) if x.op == "ite" for c in atoms(x.args[0]))
            ctx.ob("R6", f"{cls}.get_dt", mentions and (not (number and tensor_only) or guarded), func_loc(g),
                   f"a step stores a Python number in self.dt ({short(d, 100)}) but get_dt applies a tensor-only method to it: {short(t, 100)}")
        ctx.guard("R6", f"{cls}.get_dt", q)
    ctx.ob("selftest", "max-instead-of-min-rejected", not upper(mk("call", "max_py", (A("max_dt"), A("prev_dt")), ()), A("max_dt")))


def is_number_term(E, d):
    d = norm(d, do_strip=False)
    for _, leaf in leaves(d):
        if contains(leaf, lambda y: y.op == "call" and y.args[0] in ("tensor", "torch.tensor", "astensor", "to", "torch.rand")):
            return False
    return True
