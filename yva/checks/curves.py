"""C30 activation curves."""
import itertools
from fractions import Fraction
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF

X = sym("x")
KNOWN = {"exp", "cos", "sin", "tan", "tanh", "clamp", "abs", "where", "sum", "mean", "min", "max", "sqrt", "sigmoid", "log", "unsqueeze", "std", "norm",
         "minimum", "maximum", "heaviside", "relu", "numel", "erf", "sign", "square", "prod", "cosh", "round", "floor", "ceil", "sinh", "atan", "exp2", "expm1"}


def built(ctx, cls, kw, x=None):
    """the value of cls(**kw)(x)"""
    E = ctx.engine()
    st = St()
    d = E.newref("dict")
    for k, v in kw.items():
        st.heap[(d, "i", const(k))] = v
    c = ctx.prog.find_class(cls)
    _, st = E.run(ctx.prog.method(cls, "__init__"), [], {}, c, st, stars=[d])
    f = ctx.prog.method(cls, "forward")
    v, st = E.run(f, [x if x is not None else X], {}, c, st)
    ctx.note_units(E, f)
    ctx.note_units(E, ctx.prog.method(cls, "__init__"))
    t = E.deref(v, st)
    for _ in range(6):
        u = norm(subst(t, lambda y: (lambda z: z if z is not y else None)(E.deref(y, st)) if y.op in ("cell", "ref", "view") else None))
        if u is t:
            break
        t = u
    return E, t, func_loc(f)


def typetests(t):
    return [c for c in dict.fromkeys(walk(t)) if c.op == "eq" and any(a.op == "call" and a.args[0] == "typeof" for a in c.args)
            or c.op == "call" and c.args[0] == "isinstance" or c.op == "isinstance"]


def plain(t):
    """the value with scalars wrapped in one-element tensors, tiny regularisers and spellings of pi removed"""
    def f(x):
        if x.op == "seq" and len(x.args) == 1:
            return x.args[0]
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] in ("tensor", "astensor", "Parameter", "to", "float", "double", "array") and x.args[1]:
            return x.args[1][0]
        if x.op == "ext" and str(x.args[0]).endswith(".pi"):
            return sym("pi")
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] in KNOWN and "." in x.args[0]:
            return mk("call", x.args[0].split(".")[-1], x.args[1], tuple(k for k in x.args[2] if k[0] not in ("#", "dtype")))
        if x.op == "call" and x.args[0] == "pow" and len(x.args[1]) == 2:
            return power(*x.args[1])
        if x.op == "poly":
            d = {m: c for c, m in x.args}
            c0 = d.get(())
            rest = [abs(c) for m, c in d.items() if m != ()]
            if c0 is not None and rest and all(c * Fraction(1, 10 ** 6) >= abs(c0) for c in rest):
                return sub(x, const(c0))
        if x.op == "pow" and x.args[1] is const(0):
            return const(1)
        if x.op in ("opBitAnd", "opBitOr") and len(x.args) == 2 or x.op == "call" and x.args[0] in ("opBitAnd", "opBitOr", "logical_and", "logical_or") and len(x.args[1]) == 2:
            a, b = x.args if x.op != "call" else x.args[1]
            if a in (TRUE, FALSE) and b in (TRUE, FALSE):
                return and_(a, b) if "And" in x.op + str(x.args[0]) or "_and" in str(x.args[0]) else or_(a, b)
        return None
    t = norm(t, do_strip=True)
    for _ in range(6):
        u = norm(subst(t, f), do_strip=True)
        if u is t:
            break
        t = u
    return t


def readings(t):
    """the value under the type tests: all of tensor type, none of tensor type"""
    ts = typetests(t)
    return [(lab, under(t, [(c, b) for c in ts])) for lab, b in (("tensors", True), ("numbers", False))] if ts else [("", t)]


def understood(t):
    def odd(x):
        if x.op == "call":
            return not (isinstance(x.args[0], str) and x.args[0] in KNOWN)
        return x.op in ("mu", "cell", "ref", "havoc", "fold", "over", "bigsum", "brk", "atbreak", "m", "idx", "view", "opaque", "store", "upd")
    return not contains(t, odd)


def decide(t, want):
    a, b = plain(t), plain(want)
    if a is b:
        return True
    wide = lambda t: norm(subst(t, lambda y: sub(mul(const(6), sym("u")), const(3)) if y is X else None))
    try:
        if differ(a, b) is None and (contains(a, lambda y: y.op == "item") or differ(wide(a), wide(b)) is None):
            return True
    except Budget:
        return None
    return False if understood(a) else None


# ------------------------------------------------------------------ the documented curves
def gauss(x, mu, s):
    z = div(sub(x, mu), s)
    return call("exp", neg(div(mul(z, z), const(2))))


def call(n, *a):
    return mk("call", n, tuple(a), ())


def seq(*xs):
    return mk("seq", *xs)


def S(n, p="p"):
    return [sym(f"{p}{i}") for i in range(n)]


def step(x, m, al):
    return div(const(1), add(const(1), call("exp", div(mul(const(-4), sub(x, m)), al))))


def total(ts):
    r = const(0)
    for t in ts:
        r = add(r, t)
    return r


def mixture(ps):
    g = 3 if len(ps) % 3 == 0 else 2
    parts = [ps[i:i + g] for i in range(0, len(ps), g)]
    return call("clamp", total(mul(q[0], gauss(X, q[1], q[2])) if g == 3 else gauss(X, q[0], q[1]) for q in parts), const(0), const(1))


MU, SI, DX, OM, AL = (sym(n) for n in ("MU", "SIGMA", "DX", "OMEGA", "ALPHA"))


def cases():
    M0, M1 = ("mode", const(0)), ("mode", const(1))
    yield "Gaussian", "", dict([("mu", MU), ("sigma", SI), M0]), gauss(X, MU, SI)
    for n in (2, 3, 4, 6, 8, 9, 10, 12, 15):
        p = S(n)
        yield "GaussianMixture", f"{n} parameters", dict([("parameters", seq(*p)), M0]), mixture(p)
    a, b, c, d = S(4)
    two = lambda m, s: call("clamp", add(gauss(X, m[0], s[0]), gauss(X, m[1], s[1])), const(0), const(1))
    yield "DoubleGaussian", "two means, two deviations", dict([("mu", seq(a, b)), ("sigma", seq(c, d)), M0]), two((a, b), (c, d))
    yield "DoubleGaussian", "two means, one deviation", dict([("mu", seq(a, b)), ("sigma", seq(c)), M0]), two((a, b), (c, c))
    yield "DoubleGaussian", "one mean, two deviations", dict([("mu", seq(a)), ("sigma", seq(c, d)), M0]), two((a, a), (c, d))
    yield "DoGaussian", "", dict([("mu", MU), ("sigma", SI), ("dx", DX), M0]), sub(gauss(add(X, DX), MU, SI), gauss(sub(X, DX), MU, SI))
    for n in (1, 2, 3, 5):
        p = S(n)
        yield "Polynomial", f"{n} coefficients", dict([("coefficients", seq(*p)), M0]), total(mul(q, power(X, const(i)) if i else const(1)) for i, q in enumerate(p))
    r = call("abs", sub(MU, X))
    w = div(call("cos", mul(OM, r)), add(const(1), power(mul(const(10), r), const(2))))
    yield "CosOverX2", "", dict([("mu", MU), ("omega", OM), M0]), add(w, const(1))
    yield "CosOverX2", "signed", dict([("mu", MU), ("omega", OM), M1]), w
    for n in (1, 2, 3):
        p = S(2 * n)
        yield "SmoothIntervals", f"{n} intervals", dict([("parameters", seq(*[seq(p[2 * i], p[2 * i + 1]) for i in range(n)])), ("alpha", AL), M0]), \
            total(mul(step(X, p[2 * i], AL), sub(const(1), step(X, p[2 * i + 1], AL))) for i in range(n))
    yield "Identity", "", {}, X
    s2 = mul(SI, SI)
    z = div(mul(X, X), mul(const(2), s2))
    raw = neg(mul(div(const(1), mul(sym("pi"), mul(s2, s2))), mul(sub(const(1), z), call("exp", neg(z)))))
    cen = sub(raw, call("mean", raw))
    yield "LaplacianOfGaussian", "", dict(sigma=SI), div(cen, call("sum", call("abs", cen)))
    ch = lambda k: mk("item", X, mk("tuple", mk("slice", NONE, NONE, NONE), const(k), mk("slice", NONE, NONE, NONE), mk("slice", NONE, NONE, NONE)))
    yield "GaussianMetaMixture", "", dict([M0]), call("unsqueeze", gauss(ch(0), ch(1), ch(2)), const(1))


def check_C30(ctx):
    ctx.rule("R1", "the value of an instance built from given parameters is the documented curve of those parameters")
    ctx.rule("R2", "the annulus profile is one between its two radii and zero outside")
    ctx.rule("R3", "every component of a mixture registers its parameters under names of its own")
    classes = ctx.prog.modules["yuca.activations"].classes
    for cls, lab, kw, want in cases():
        name = f"{cls}:{lab}" if lab else cls
        if cls not in classes:
            ctx.ob("R1", name, None, "", "class not found")
            continue
        ctx.guard("R1", name, lambda: curve(ctx, cls, name, kw, want))
    ctx.guard("R2", "SmoothLifeKernel", lambda: annulus(ctx))
    for n in (4, 6, 9, 8):
        ctx.guard("R3", f"GaussianMixture:{n}", lambda: registered(ctx, n))
    ctx.rule("R4", "evaluating a function leaves its own parameters as they are, so that evaluating it again gives the same")
    for cls in sorted(classes):
        f = classes[cls].methods.get("forward")
        if f is not None:
            ctx.guard("R4", cls, lambda: unchanged(ctx, cls, f))
    ctx.ob("R1", "self-test: a wrong exponent is told apart", decide(gauss(X, MU, SI), call("exp", neg(div(sub(X, MU), SI)))) is False, "", "")


def curve(ctx, cls, name, kw, want):
    E, t, loc = built(ctx, cls, kw)
    for lab, v in readings(t):
        ok = decide(v, want)
        ctx.ob("R1", name + (f":{lab}" if lab else ""), ok, loc, f"computes {short(plain(v), 220)}, documented {short(plain(want), 220)}")


def annulus(ctx):
    E, t, loc = built(ctx, "SmoothLifeKernel", dict(r_a=sym("RA"), r_i=sym("RI")))
    F = Fraction
    for lab, x, ri, ra, want in (("inside the inner radius", F(1, 10), F(1, 3), F(1), 0), ("in the annulus", F(1, 2), F(1, 3), F(1), 1), ("outside the outer radius", F(6, 5), F(1, 3), F(1), 0),
                                 ("between other radii", F(4, 10), F(3, 10), F(1, 2), 1), ("outside other radii", F(6, 10), F(3, 10), F(1, 2), 0), ("inside other radii", F(1, 4), F(3, 10), F(1, 2), 0)):
        for rl, v in readings(t):
            v = plain(subst(v, lambda y: {X: const(x), sym("RA"): const(ra), sym("RI"): const(ri)}.get(y)))
            for _ in range(4):
                v = plain(subst(v, lambda y: ite(*y.args) if y.op == "where" else None))
            ctx.ob("R2", f"SmoothLifeKernel:{lab}", True if v is const(want) else False if is_num(v) else None, loc, f"the profile is {short(v, 100)}, not {want}")


def registered(ctx, n):
    E = ctx.engine()
    st = St()
    d = E.newref("dict")
    st.heap[(d, "i", const("parameters"))] = seq(*S(n))
    f = ctx.prog.method("GaussianMixture", "__init__")
    _, st = E.run(f, [], {}, ctx.prog.find_class("GaussianMixture"), st, stars=[d])
    own = [e for e in E.events if e.kind == "call" and e.fn and str(e.fn).endswith("GaussianMixture.__init__") and str(e.data.get("name", "")).endswith("register_parameter")]
    groups = n // 3 if n % 3 == 0 else n // 2
    names = [norm(E.deref(e.data["args"][-2], st)) if len(e.data["args"]) > 1 else None for e in own]
    if not own or None in names:
        return ctx.ob("R3", f"GaussianMixture:{n}", None, func_loc(f), "registration of the components not recognised")
    names = [norm(subst(x, lambda y: sym("name") if y.op == "call" and y.args[0] == "pname" else None)) for x in names]
    same = [x for i, x in enumerate(names) if x in names[:i]]
    ctx.ob("R3", f"GaussianMixture:{n}:distinct names", not same, own[0].loc, f"two components are registered as {short(same[0], 60) if same else ''}: the later replaces the earlier")
    ctx.ob("R3", f"GaussianMixture:{n}:all components", len(own) in (groups, 2 * groups), own[0].loc, f"{len(own)} registrations for {groups} components")


OWN = {"mu", "sigma", "omega", "amplitudes", "coefficients", "gaussians", "intervals", "alpha", "mode", "r_a", "r_i",
       "gaussian0", "gaussian1", "coef", "parameters", "dim"}


def own_attr(t):
    """the attribute of self that t is, or is part of"""
    while isinstance(t, T) and t.op in ("attr", "item", "view"):
        if t.op == "attr" and t.args[0] is SELF:
            return t.args[1]
        t = t.args[0]
    return None


def unchanged(ctx, cls, f):
    E, v, st = ctx.run(cls, "forward")
    bad = None
    for ev in E.events:
        names = []
        if ev.kind in ("mutate", "listmut", "setitem") and isinstance(ev.data.get("target"), T):
            names = [n for n in map(own_attr, E.roots(ev.data["target"])) if n]
        elif ev.kind == "augattr" and isinstance(ev.data.get("target"), T):
            names = [ev.data["name"] if ev.data["target"] is SELF else own_attr(ev.data["target"])]
        elif ev.kind == "setattr" and isinstance(ev.data.get("target"), T):
            n = ev.data["name"] if ev.data["target"] is SELF else own_attr(ev.data["target"])
            val = ev.data.get("value")
            if n in OWN and norm(E.deref(val, st) if isinstance(val, T) else val, True) is not mk("attr", SELF, n):
                names = [n]
        names = [n for n in names if n in OWN]
        if names and bad is None:
            bad = (ev, names[0])
    ctx.ob("R4", cls, bad is None, bad[0].loc if bad else func_loc(f), f"forward changes self.{bad[1]}: the next evaluation is of another function" if bad else "")
