"""C10 kernels, C25 Life-like rules, C27 signed and unsigned growth functions."""
from fractions import Fraction
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF, rng

X = sym("x")
SHAPERS = {"reshape", "view", "unsqueeze", "expand_dims", "squeeze"}


# ------------------------------------------------------------------ canonical grids
def axis(lo, hi):
    return mk("call", "arange", (norm(lo), norm(hi)), ())


def canon(t, shapes=None):
    """value with equivalent spellings of the sampling grid brought to one form"""
    def f(x):
        if x.op != "call" or not isinstance(x.args[0], str):
            if x.op == "item" and x.args[0].op == "call" and x.args[0].args[0] in ("meshgrid_xy", "meshgrid_ij") and is_num(x.args[1]):
                kind, axes = x.args[0].args[0], x.args[0].args[1]
                i = int(cval(x.args[1]))
                if i < len(axes):
                    which = i if kind == "meshgrid_xy" else 1 - i
                    return mk("call", ("XX", "YY")[which], (axes[i],), ())
            if x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] in ("mgrid", "ogrid"):
                pass
            return None
        nm, a, k = x.args[0].split(".")[-1], x.args[1], dict(x.args[2])
        if nm == "arange" and x.args[0] != "arange":
            k.pop("#", None)
            k.pop("dtype", None)
            lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) <= 2 and not k:
                return axis(lo, hi)
        if nm == "linspace" and len(a) >= 2:
            n = a[2] if len(a) > 2 else k.get("num", k.get("steps"))
            if n is not None and norm(sub(n, add(sub(a[1], a[0]), const(1)))) is const(0):
                return axis(a[0], add(a[1], const(1)))
        if nm == "meshgrid" and x.args[0] not in ("meshgrid_xy",):
            ij = k.get("indexing", const("ij" if "torch" in x.args[0] else "xy"))
            if is_str(ij):
                return mk("call", "meshgrid_" + cval(ij), a, ())
        if nm == "hypot" and len(a) == 2:
            return mk("call", "sqrt", (add(mul(a[0], a[0]), mul(a[1], a[1])),), ())
        if nm in SHAPERS and a:
            if shapes is not None:
                shapes.append((nm, a[1:]))
            return a[0]
        if nm in ("array", "asarray", "tensor", "as_tensor", "from_numpy", "float", "astype", "double") and a:
            return a[0]
        return None
    prev = None
    t = norm(t)
    for _ in range(4):
        if t is prev:
            break
        prev = t
        t = norm(subst(t, f))
    return t


def dist(r, dx=None, dy=None, scale=None):
    ax = axis(neg(r), add(r, const(1)))
    xx, yy = mk("call", "XX", (ax,), ()), mk("call", "YY", (ax,), ())
    if dx is not None:
        xx = sub(xx, dx)
    if dy is not None:
        yy = sub(yy, dy)
    d = div(mk("call", "sqrt", (add(mul(xx, xx), mul(yy, yy)),), ()), r)
    return norm(mul(d, scale) if scale is not None else d)


KNOWN_GRID_OPS = {"sqrt", "XX", "YY", "arange", "abs"}


def understood(t):
    """every operation in the value is one the grid theory covers"""
    for y in walk(t):
        if y.op == "call" and y.args[0] not in KNOWN_GRID_OPS:
            return False
        if y.op in ("fold", "over", "opaque", "mu"):
            return False
    return True


def profiles(t):
    """profile evaluations in a kernel value: [(call, class, grid argument)]"""
    out = []
    for y in walk(t):
        if y.op == "call" and isinstance(y.args[0], str) and y.args[0].endswith(".forward") and y.args[0].startswith("yuca.activations."):
            if y not in [o[0] for o in out]:
                out.append((y, y.args[0].split(".")[-2], y.args[1][1] if len(y.args[1]) > 1 else None, y.args[1][0]))
    return out


def normalised(out, B):
    """out is (B - min B) / (e + sum(B - min B)) for some tiny constant e >= 0"""
    D = sub(B, mk("call", "min", (B,), ()))
    S = mk("call", "sum", (D,), ())
    S2 = sub(mk("call", "sum", (B,), ()), mul(mk("numel", B), mk("call", "min", (B,), ())))
    cands = [Fraction(0), Fraction(1, 10**9)]
    for y in walk(out):
        if is_num(y):
            v = abs(cval(y))
            for c in (Fraction(v), 1 / Fraction(v) if v else Fraction(0)):
                if 0 < c <= Fraction(1, 10000):
                    cands.append(c)
    for e in cands:
        for s in (S,):
            if norm(div(D, add(const(e), s))) is norm(out):
                return True
    return False


def kernel_value(ctx, fname, name=None):
    """(E, value, parameter symbols) of a builder; get_kernel is run for one configured name"""
    prog = ctx.prog
    acts = {f"{n}.forward" for n in prog.modules["yuca.activations"].classes}
    E = ctx.engine(acts)
    f = prog.find_func(fname)
    st = St()
    args = None
    if name is not None:
        cfg = E.newref("dict")
        st.heap[(cfg, "i", const("name"))] = const(name)
        st.heap[(cfg, "i", const("radius"))] = sym("radius")
        st.heap[(cfg, "i", const("kernel_kwargs"))] = sym("kernel_kwargs")
        args = [cfg]
    v, st = E.run(f, args=args, st=st)
    ctx.note_units(E, f)
    return E, norm(E.deref(v, st)), f


RADIAL = ("Gaussian", "GaussianMixture", "CosOverX2", "DoGaussian", "SmoothLifeKernel")
STANDALONE = {"get_gaussian_kernel": ("Gaussian", ("mu", "sigma"), True), "get_cosx2_kernel": ("CosOverX2", ("mu", "omega"), True),
              "get_gaussian_mixture_kernel": ("GaussianMixture", ("parameters",), True), "get_dogaussian_kernel": ("DoGaussian", ("mu", "sigma"), False)}
EDGES = {"get_gaussian_edge_kernel": "Gaussian", "get_dogaussian_edge_kernel": "DoGaussian"}
R = sym("radius")


def check_C10(ctx):
    ctx.rule("R1", "the returned kernel is (B - min B) / (tiny + sum(B - min B)) for the sampled profile B")
    ctx.rule("R2", "B is the profile sampled on distances sqrt(x^2+y^2)/radius over the (2r+1)x(2r+1) grid -r..r centred on the middle cell")
    ctx.rule("R3", "the profile is built from the caller's parameters")
    ctx.rule("R4", "Moore-like kernels are uniform, zero in the centre, and divided by their sum")
    ctx.rule("R5", "the identity kernels have a single unit weight in the centre cell of an odd square")
    ctx.rule("R6", "Laplacian kernels have zero total weight: constant stencils sum to zero, sampled ones have their mean removed before scaling")
    ctx.rule("R7", "kernels are 4-D (1, 1, 2r+1, 2r+1)")
    prog = ctx.prog
    for name in RADIAL:
        def go():
            E, v, f = kernel_value(ctx, "get_kernel", name)
            radial(ctx, f"get_kernel[{name}]", func_loc(f), v, dist(R), E, None)
        ctx.guard("R1", f"get_kernel[{name}]", go)
    for fn, (prof, pars, scaled) in STANDALONE.items():
        def go():
            E, v, f = kernel_value(ctx, fn)
            radial(ctx, fn, func_loc(f), v, dist(R, scale=sym("r_scale")) if scaled else dist(R), E, pars, prof)
        ctx.guard("R1", fn, go)
    for fn, prof in EDGES.items():
        ctx.guard("R1", fn, lambda: edge(ctx, fn, prof))
    ctx.guard("R4", "MooreLike", lambda: moore(ctx))
    ctx.guard("R5", "InnerMoore", lambda: identity(ctx))
    ctx.guard("R6", "Laplacian", lambda: laplacian(ctx))
    # self tests: the rules reject what they must reject
    B = sym("B")
    D = sub(B, mk("call", "min", (B,), ()))
    ctx.ob("selftest", "unnormalised", not normalised(norm(D), B))
    ctx.ob("selftest", "unshifted", not normalised(norm(div(B, mk("call", "sum", (B,), ()))), B))
    ctx.ob("selftest", "halfgrid", dist(R) is not norm(subst(dist(R), lambda y: axis(neg(R), R) if y is axis(neg(R), add(R, const(1))) else None)))


def radial(ctx, label, loc, v, want, E, pars, prof=None):
    v = canon_keep(v)
    ps = profiles(v)
    if len(ps) != 1:
        ctx.ob("R2", label, None if not ps else False, loc, f"{len(ps)} profile evaluations instead of one")
        return
    call, K, g, inst = ps[0]
    if prof is not None:
        ctx.ob("R3", f"{label}:profile", K == prof, loc, f"samples {K} instead of {prof}")
    shapes = []
    gg = canon(g, shapes)
    check_shape(ctx, label, loc, shapes, v)
    ok = gg is want
    if not ok and not understood(gg):
        ok = None
    ctx.ob("R2", label, ok, loc, f"samples the profile at {short(gg, 200)} instead of {short(want, 160)}")
    B = sym("B")
    out = norm(subst(v, lambda y: B if y is call else None))
    ctx.ob("R1", label, verdict_norm(out, B), loc, f"returns {short(out, 240)} for the sampled profile B")
    ctor(ctx, label, loc, E, inst, pars)


def canon_keep(v):
    """drop conversions and shape changes applied to the finished kernel"""
    def f(x):
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] in ("tensor", "as_tensor", "array", "asarray", "to", "detach",
                                                                                         "clone", "double", "float") and x.args[1]:
            return x.args[1][0]
        return None
    return norm(subst(norm(v), f))


def verdict_norm(out, B):
    if normalised(out, B):
        return True
    for y in walk(out):
        if y.op == "call" and y.args[0] not in ("min", "sum", "max", "abs", "mean", "clamp", "sqrt", "numel", "exp", "amin"):
            return None
    return False


def check_shape(ctx, label, loc, shapes, v):
    n = norm(add(mul(const(2), R), const(1)))
    if not shapes:
        ctx.ob("R7", label, None, loc, "no reshape of the grid found")
        return
    for nm, a in shapes:
        if nm in ("reshape", "view"):
            d = a[0].args if len(a) == 1 and a[0].op in ("tuple", "seq") else a
            got = [norm(x) for x in d]
            ok = len(got) == 4 and got[0] is const(1) and got[1] is const(1) and all(x in (n, const(-1)) for x in got[2:])
            ctx.ob("R7", label, ok, loc, f"kernel of shape {short(tuple(got), 80)}")
        else:
            ctx.ob("R7", label, None, loc, f"{nm}")


def ctor(ctx, label, loc, E, inst, pars):
    """the sampled instance was constructed from the caller's parameters, each under its own name"""
    evs = [e for e in E.events if e.kind == "new" and e.data.get("ptr") is inst]
    if not evs:
        ctx.ob("R3", f"{label}:args", None, loc, f"construction of the profile not found ({short(inst, 60)})")
        return
    e = evs[0]
    kw = e.data.get("kw") or {}
    stars = [norm(s) for s in (e.data.get("stars") or ())]
    if pars is None:
        ok = any(s is sym("kernel_kwargs") for s in stars) and not [k for k in kw if k not in ("mode",)]
        ctx.ob("R3", f"{label}:args", ok, e.loc, f"profile built from {short(tuple(stars), 80)} {sorted(kw)}")
        return
    for p in pars:
        got = norm(kw[p]) if p in kw else None
        for s in stars:
            if got is None:
                got = norm(E.item_of(s, const(p)))
        ctx.ob("R3", f"{label}:{p}", got is sym(p), e.loc, f"profile parameter {p} is {short(got, 60) if got is not None else 'not passed'}")
    m = kw.get("mode")
    ctx.ob("R3", f"{label}:mode", m is None or norm(m) is const(0), e.loc, "the profile of a kernel must be unsigned")


def edge(ctx, fn, prof):
    E, v, f = kernel_value(ctx, fn)
    loc = func_loc(f)
    dx = sym("dx")
    for mode in (True, False):
        w = canon_keep(under(v, [(sym("mode"), mode)]))
        ps = profiles(w)
        lab = f"{fn}[{'x' if mode else 'y'}]"
        if len(ps) != 2:
            ctx.ob("R2", lab, None if len(ps) < 1 else False, loc, f"{len(ps)} profile evaluations instead of two")
            continue
        shapes = []
        gs = [canon(holds(g, [(sym("mode"), mode)]), shapes) for _, _, g, _ in ps]
        check_shape(ctx, lab, loc, shapes, w)
        want = [dist(R, dx=s) if mode else dist(R, dy=s) for s in (dx, neg(dx))]
        ok = set(gs) == set(want)
        if not ok and not all(understood(g) for g in gs):
            ok = None
        ctx.ob("R2", lab, ok, loc, f"samples the profile at {short(tuple(gs), 260)} instead of copies shifted by plus and minus dx")
        ctx.ob("R3", f"{lab}:profile", all(K == prof for _, K, _, _ in ps) and ps[0][3] is ps[1][3] or None, loc, "two different profiles")
        A, B = sym("A"), sym("B")
        m = {ps[0][0]: A, ps[1][0]: B}
        out = norm(subst(w, lambda y: m.get(y)))
        okn = normalised(out, norm(sub(A, B))) or normalised(out, norm(sub(B, A)))
        ctx.ob("R1", lab, okn or (verdict_norm(out, A) and None), loc, f"returns {short(out, 240)}")
        ctor(ctx, lab, loc, E, ps[0][3], ("mu", "sigma"))


def conc(t, r):
    """t with radius r, or None when it is not a concrete array then; evaluates constructors, stores, sums and quotients"""
    return arr_eval(norm(subst(norm(t), lambda y: const(r) if y is sym("radius") else None)))


def arr_eval(t):
    """evaluate a constant array expression of the source: {index: Fraction} with shape, or a number, or None"""
    if is_num(t):
        return Fraction(cval(t))
    if t.op in ("seq", "tuple"):
        xs = [arr_eval(x) for x in t.args]
        if any(x is None for x in xs):
            return None
        if all(isinstance(x, Fraction) for x in xs):
            return ((len(xs),), {(i,): x for i, x in enumerate(xs)})
        if any(isinstance(x, Fraction) for x in xs) or len({x[0] for x in xs}) != 1:
            return None
        return ((len(xs),) + xs[0][0], {(i,) + k: v for i, x in enumerate(xs) for k, v in x[1].items()})
    if t.op == "call" and isinstance(t.args[0], str):
        nm = t.args[0].split(".")[-1]
        a = t.args[1]
        if nm in ("zeros", "ones", "full", "empty"):
            dims = a[0].args if len(a) and a[0].op in ("tuple", "seq") else a[:1] if nm == "full" else a
            ds = [int(cval(norm(x))) if is_num(norm(x)) else None for x in dims]
            if None in ds or nm == "empty":
                return None
            fill = {"zeros": Fraction(0), "ones": Fraction(1)}.get(nm)
            if nm == "full":
                fill = arr_eval(a[1])
                if not isinstance(fill, Fraction):
                    return None
            out = {}
            def rec(p, rest):
                if not rest:
                    out[p] = fill
                    return
                for i in range(rest[0]):
                    rec(p + (i,), rest[1:])
            if all(d <= 64 for d in ds):
                rec((), ds)
                return (tuple(ds), out)
            return None
        if nm in ("tensor", "array", "asarray", "to", "as_tensor", "float", "double", "detach", "clone", "copy") and a:
            return arr_eval(a[0])
        if nm == "sum" and len(a) == 1:
            x = arr_eval(a[0])
            return x if isinstance(x, Fraction) else sum(x[1].values(), Fraction(0)) if x else None
        if nm in ("mean", "numel", "size", "count_nonzero") and len(a) == 1:
            x = arr_eval(a[0])
            if x is None or isinstance(x, Fraction):
                return x if nm == "mean" else None
            return sum(x[1].values(), Fraction(0)) / len(x[1]) if nm == "mean" else Fraction(sum(v != 0 for v in x[1].values())) if nm == "count_nonzero" else Fraction(len(x[1]))
        if nm in ("min", "max") and len(a) == 1:
            x = arr_eval(a[0])
            return None if x is None or isinstance(x, Fraction) else (min if nm == "min" else max)(x[1].values())
        if nm in ("reshape", "view", "unsqueeze") and a:
            x = arr_eval(a[0])
            if x is None or isinstance(x, Fraction) or nm == "unsqueeze":
                return None
            d = a[1].args if len(a) == 2 and a[1].op in ("tuple", "seq") else a[1:]
            ds = [int(cval(y)) if is_num(y) else None for y in d]
            if None in ds:
                return None
            n = len(x[1])
            known = 1
            for q in ds:
                known *= q if q > 0 else 1
            ds = [n // known if q == -1 else q for q in ds]
            vals = [x[1][k] for k in sorted(x[1])]
            idx = [()]
            for q in ds:
                idx = [p + (i,) for p in idx for i in range(q)]
            return (tuple(ds), dict(zip(idx, vals))) if len(idx) == n else None
        return None
    if t.op == "store":
        x, v = arr_eval(t.args[0]), arr_eval(t.args[2])
        k = t.args[1]
        if x is None or isinstance(x, Fraction) or not isinstance(v, Fraction):
            return None
        ks = k.args if k.op == "tuple" else (k,)
        pos = []
        for i, q in enumerate(ks):
            q = norm(q)
            if is_num(q):
                pos.append({int(cval(q)) % x[0][i]})
            elif q.op == "slice" and all(z is NONE for z in q.args):
                pos.append(set(range(x[0][i])))
            else:
                return None
        out = dict(x[1])
        for idx in out:
            if all(idx[i] in p for i, p in enumerate(pos)):
                out[idx] = v
        return (x[0], out)
    if t.op in ("attr", "len") and (t.op == "len" or t.args[1] == "size"):
        x = arr_eval(t.args[0])
        return None if x is None or isinstance(x, Fraction) else Fraction(x[0][0] if t.op == "len" else len(x[1]))
    p = poly_eval(t)
    return p


def poly_eval(t):
    """evaluate sums/products of evaluable arrays and numbers"""
    P = poly(t, lambda x: x)
    total = None
    for mono, c in P.items():
        val = Fraction(c)
        for atom, e in mono:
            if atom is t:
                return None
            x = arr_eval(atom)
            if x is None or Fraction(e).denominator != 1:
                return None
            x = ew(x, lambda u: u ** int(e)) if int(e) >= 0 or nonzero(x) else None
            if x is None:
                return None
            val = comb(val, x, lambda u, w: u * w)
            if val is None:
                return None
        total = val if total is None else comb(total, val, lambda u, w: u + w)
        if total is None:
            return None
    return total


def nonzero(x):
    return all(v != 0 for v in ([x] if isinstance(x, Fraction) else x[1].values()))


def ew(x, f):
    return f(x) if isinstance(x, Fraction) else (x[0], {k: f(v) for k, v in x[1].items()})


def comb(a, b, f):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return f(a, b)
    if isinstance(a, Fraction):
        return (b[0], {k: f(a, v) for k, v in b[1].items()})
    if isinstance(b, Fraction):
        return (a[0], {k: f(v, b) for k, v in a[1].items()})
    if a[0] != b[0]:
        return None
    return (a[0], {k: f(a[1][k], b[1][k]) for k in a[1]})


def moore(ctx):
    E, v, f = kernel_value(ctx, "get_kernel", "MooreLike")
    for r in (1, 2, 3, 5):
        x = conc(v, r)
        lab = f"MooreLike[r={r}]"
        if x is None or isinstance(x, Fraction):
            ctx.ob("R4", lab, None, func_loc(f), f"not a constant kernel: {short(v, 160)}")
            continue
        n = 2 * r + 1
        ok = x[0] == (1, 1, n, n) and x[1][(0, 0, r, r)] == 0 and \
            all(abs(w - Fraction(1, n * n - 1)) < Fraction(1, 10**6) for k, w in x[1].items() if k[2:] != (r, r))
        ctx.ob("R4", lab, ok, func_loc(f), f"shape {x[0]}, centre {x[1].get((0, 0, r, r))}, sum {float(sum(x[1].values())):.6g}")


def single_centre(x):
    if x is None or isinstance(x, Fraction):
        return None
    h, w = x[0][-2:]
    return len(x[0]) == 4 and h == w and h % 2 == 1 and x[1].get((0, 0, h // 2, w // 2)) == 1 and sum(abs(v) for v in x[1].values()) == 1


def identity(ctx):
    E, v, f = kernel_value(ctx, "get_kernel", "InnerMoore")
    ctx.ob("R5", "get_kernel[InnerMoore]", single_centre(conc(v, 3)), func_loc(f), f"{short(v, 160)}")
    for cls in FAMILIES:
        g = ctx.prog.method(cls, "add_identity_kernel")
        E = ctx.engine()
        _, st = E.run(g, selfcls=ctx.prog.find_class(cls), stars=())
        ctx.note_units(E, g)
        p = E.heapget(st, (SELF, "a", "id_kernel"))
        t = norm(E.deref(p, st)) if p is not None else None
        kws = sym(g.node.args.kwarg.arg) if g.node.args.kwarg else None
        cases = [(fc, x) for fc, x in leaves(t)] if t is not None else []
        got = [single_centre(arr_eval(x)) for fc, x in cases if kws is None or not contains(x, lambda y: y is kws)]
        got = [x for x in got if x is not None]
        ctx.ob("R5", f"{cls}.add_identity_kernel", all(got) if got else None, func_loc(g), f"default identity kernel {short(t, 160) if t is not None else ''}")


def laplacian(ctx):
    E, v, f = kernel_value(ctx, "get_laplacian_kernel")
    x = conc(v, 1)
    if x is None or isinstance(x, Fraction):
        ctx.ob("R6", "get_laplacian_kernel", None, func_loc(f), short(v, 120))
    else:
        h = x[0][-1]
        c = h // 2
        tot = sum(x[1].values())
        symm = all(x[1][(0, 0, i, j)] == x[1][(0, 0, j, i)] == x[1][(0, 0, h - 1 - i, j)] for i in range(h) for j in range(h))
        cen = x[1][(0, 0, c, c)] < 0 and all(w >= 0 for k, w in x[1].items() if k[2:] != (c, c))
        ctx.ob("R6", "get_laplacian_kernel", abs(tot) < Fraction(1, 10**6) and symm and cen, func_loc(f),
               f"stencil sums to {float(tot):.6g}, symmetric {symm}, negative centre {cen}")
    E, v, f = kernel_value(ctx, "get_kernel", "LaplacianOfGaussian")
    w = canon_keep(v)
    ps = profiles(w)
    if len(ps) == 1:
        call, K, g, inst = ps[0]
        gg = canon(g, [])
        ctx.ob("R2", "get_kernel[LaplacianOfGaussian]", gg is dist(R) or (None if not understood(gg) else False), func_loc(f), f"samples at {short(gg, 160)}")
        scale = norm(div(w, call))
        ctx.ob("R6", "get_kernel[LaplacianOfGaussian]", w is call or is_num(scale), func_loc(f), f"the sampled Laplacian is changed to {short(w, 160)}")
        ctor(ctx, "get_kernel[LaplacianOfGaussian]", func_loc(f), E, inst, None)
    else:
        ctx.ob("R6", "get_kernel[LaplacianOfGaussian]", None, func_loc(f), short(w, 120))
    # the profile itself: proportional to (L - mean L), so its weights add up to zero
    fw = ctx.prog.method("LaplacianOfGaussian", "forward")
    E, v, st = ctx.run("LaplacianOfGaussian", "forward")
    t = norm(under(norm(E.deref(v, st)), ()), do_strip=True)
    res = None
    for _, leaf in leaves(t):
        res = zero_mean(leaf) if res in (None, True) else res
    ctx.ob("R6", "LaplacianOfGaussian.forward", res, func_loc(fw), f"the Laplacian profile is {short(t, 200)}: its weights need not add up to zero")


def zero_mean(t):
    """t = c * (L - mean(L)) for some scale c: replacing mean(L) by L makes it vanish"""
    means = [y for y in walk(t) if y.op == "call" and y.args[0] == "mean" and len(y.args[1]) == 1]
    outer = [m for m in means if not any(m is not q and contains(q, lambda z: z is m) for q in means)]
    for m in means:
        L = m.args[1][0]
        # take the numerator only: the scale may mention mean(L) too
        red = norm(subst_top(t, m, L))
        if red is const(0):
            return True
    return False


def subst_top(t, m, L):
    u = subst(t, lambda y: mk("sym", "$scale") if y.op == "call" and y.args[0] in ("sum", "max", "norm", "amax") else None)
    return subst(u, lambda y: L if y is m else None)


# ------------------------------------------------------------------ C25
def check_C25(ctx):
    ctx.rule("R1", "count n maps to the interval [(2n-1)/16, (2n+1)/16], one interval per listed count, in order")
    ctx.rule("R2", "birth counts go to the genesis function and survival counts to the persistence function, both signed smooth intervals, unit step")
    ctx.rule("R3", "the neighborhood of a Life-like configuration is the Moore neighborhood of the requested radius")
    ctx.rule("R4", "the smooth-interval function is the sum over its intervals of sigma(x, low) * (1 - sigma(x, high))")
    ctx.rule("R5", "SmoothLife configuration: annulus and disc of the requested radius, birth to genesis, survival to persistence")
    prog = ctx.prog
    ctx.guard("R1", "get_smooth_interval", lambda: intervals(ctx))
    ctx.guard("R2", "get_life_like_config", lambda: lifelike(ctx))
    ctx.guard("R5", "get_smooth_life_config", lambda: smoothlife(ctx))
    ctx.guard("R4", "SmoothIntervals", lambda: smooth_fn(ctx))
    if "get_smooth_steps_fn" in ctx.prog.modules["yuca.activations"].funcs:
        ctx.guard("R4", "get_smooth_steps_fn", lambda: smooth_made(ctx))


def intervals(ctx):
    f = ctx.prog.find_func("get_smooth_interval")
    loc = func_loc(f)
    for n in (1, 2):
        E = ctx.engine()
        st = St()
        bs = [sym(f"b{i}") for i in range(n)]
        lst = E.mklist(list(bs), st)
        v, st = E.run(f, args=[lst], st=st)
        ctx.note_units(E, f)
        t = deep(E, v, st)
        want = [[norm(div(add(mul(const(2), b), const(s)), const(16))) for s in (-1, 1)] for b in bs]
        got = [[norm(y) for y in x.args] if x.op in ("seq", "tuple") else None for x in t.args] if t.op in ("seq", "tuple") else None
        ok = got == want if got is not None and None not in got else None
        ctx.ob("R1", f"get_smooth_interval[{n}]", ok, loc, f"counts map to {short(t, 200)}")


def deep(E, v, st):
    t = E.deref(v, st)
    def f(x):
        if x.op in ("cell", "ref", "view"):
            y = E.deref(x, st)
            return y if y is not x else None
        return None
    for _ in range(6):
        u = norm(subst(t, f))
        if u is t:
            break
        t = u
    return t


def cfg_values(ctx, fname, opaque=()):
    f = ctx.prog.find_func(fname)
    E = ctx.engine(opaque)
    v, st = E.run(f)
    ctx.note_units(E, f)
    t = deep(E, v, st)
    def get(*path):
        x = t
        for p in path:
            x = norm(E.item_of(x, const(p)))
        return x
    return f, E, t, get


def conv(t):
    while t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in ("tensor", "as_tensor", "array", "asarray", "to", "float", "double",
                                                                                       "clone", "deepcopy", "copy", "FloatTensor", "list") and t.args[1]:
        t = t.args[1][0]
    return t


def lifelike(ctx):
    f, E, t, get = cfg_values(ctx, "get_life_like_config", {"get_smooth_interval"})
    loc = func_loc(f)
    for slot, src in (("genesis_config", "birth"), ("persistence_config", "survival")):
        p = conv(get(slot, "parameters"))
        ok = p.op == "call" and str(p.args[0]).endswith("get_smooth_interval")
        a = [conv(x) for x in p.args[1]] + [conv(x) for k, x in p.args[2] if k not in ("#", "#=")] if ok else []
        good = ok and a == [sym(src)]
        if not ok:
            good = False if p.op in ("sym", "const", "seq") or not contains(p, lambda y: y is sym(src)) else None
        ctx.ob("R2", f"{slot}.parameters", good, loc, f"{slot} gets {short(p, 120)} instead of the {src} intervals")
        for k, w in (("name", const("SmoothIntervals")), ("mode", const(1))):
            g = get(slot, k)
            ctx.ob("R2", f"{slot}.{k}", g is w or (k == "mode" and is_num(g) and cval(g) != 0), loc, f"{slot} has {k} {short(g, 60)}")
        al = get(slot, "alpha")
        ctx.ob("R2", f"{slot}.alpha", al.op in ("item",) or al.op == "dict" or sharp(al), loc, f"{slot} is blurred over {short(al, 60)}")
    ctx.ob("R2", "dt", num_is(get("dt"), 1), loc, f"step {short(get('dt'), 60)}")
    ctx.ob("R3", "kernel.name", get("neighborhood_kernel_config", "name") is const("MooreLike"), loc, short(get("neighborhood_kernel_config", "name"), 60))
    ctx.ob("R3", "kernel.radius", get("neighborhood_kernel_config", "radius") is sym("radius"), loc, short(get("neighborhood_kernel_config", "radius"), 60))
    # default rule is Conway's Life: B3/S23
    d = {}
    a = f.node.args
    import ast
    for arg, dv in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
        try:
            d[arg.arg] = ast.literal_eval(dv)
        except Exception:
            d[arg.arg] = None
    for k, w in (("birth", [3]), ("survival", [2, 3]), ("radius", 1)):
        if d.get(k) is not None:
            got = list(d[k]) if isinstance(d[k], (list, tuple)) else d[k]
            ctx.ob("R2", f"default.{k}", got == w, loc, f"default {k} is {d[k]}")


def sharp(t):
    t = conv(t)
    return is_num(t) and 0 < cval(t) <= Fraction(3, 100) or None


def num_is(t, v):
    t = conv(t)
    return is_num(t) and cval(t) == v


def smoothlife(ctx):
    f, E, t, get = cfg_values(ctx, "get_smooth_life_config")
    loc = func_loc(f)
    for slot, src, dflt in (("genesis_config", "birth_intervals", ("0.278", "0.365")), ("persistence_config", "survival_intervals", ("0.267", "0.445"))):
        p = conv(get(slot, "parameters"))
        given = conv(under(p, [(mk("eq", NONE, sym(src)), False)]))
        deflt = conv(under(p, [(mk("eq", NONE, sym(src)), True)]))
        ctx.ob("R5", f"{slot}.parameters", given is sym(src), loc, f"{slot} gets {short(given, 120)} instead of {src}")
        want = [[Fraction(x) for x in dflt]]
        got = [[Fraction(cval(y)).limit_denominator(10**6) if is_num(y) else None for y in x.args] if x.op in ("seq", "tuple") else None for x in deflt.args] \
            if deflt.op in ("seq", "tuple") else None
        if deflt is not given:
            ctx.ob("R5", f"{slot}.default", got == want, loc, f"default {src}: {short(deflt, 80)}")
        ctx.ob("R5", f"{slot}.name", get(slot, "name") is const("SmoothIntervals"), loc, short(get(slot, "name"), 60))
        m = get(slot, "mode")
        ctx.ob("R5", f"{slot}.mode", is_num(m) and cval(m) != 0, loc, f"mode {short(m, 40)}")
    ak = "identity_kernel_config"
    if get(ak).op == "item":
        ak = "id_kernel_config"
    for k in (ak, "neighborhood_kernel_config"):
        ctx.ob("R5", f"{k.replace('identity', 'id')}.radius", get(k, "radius") is sym("radius"), loc, short(get(k, "radius"), 60))
        ctx.ob("R5", f"{k.replace('identity', 'id')}.name", get(k, "name") is const("SmoothLifeKernel"), loc, short(get(k, "name"), 60))
    ra, ri = get(ak, "kernel_kwargs", "r_a"), get("neighborhood_kernel_config", "kernel_kwargs", "r_i")
    if is_num(ra) and is_num(ri):
        ctx.ob("R5", "disc-in-annulus", abs(cval(ra) - cval(ri)) < Fraction(1, 10**6), loc, f"inner disc radius {float(cval(ra))}, annulus starts at {float(cval(ri))}")


def smooth_made(ctx):
    """the function get_smooth_steps_fn returns, applied to a cell"""
    mod = ctx.prog.modules.get("yva_spec_fns") or ctx.prog.add_module("yva_spec_fns", os.path.join(HOME, "yva", "spec", "fns.py"))
    g = ctx.prog.modules["yuca.activations"].funcs["get_smooth_steps_fn"]
    al = sym("alpha")
    for n in (1, 2, 3):
        E = ctx.engine()
        st = St()
        bs = [[sym(f"lo{i}"), sym(f"hi{i}")] for i in range(n)]
        iv = E.mklist([E.mklist(list(b), st) for b in bs], st)
        v, st = E.run(mod.funcs["smooth_apply"], args=[iv, al, X], st=st)
        ctx.note_units(E, g)
        t = norm(E.deref(v, st), do_strip=True)
        want = const(0)
        for lo, hi in bs:
            s = [div(const(1), add(const(1), mk("call", "exp", (div(mul(const(-4), sub(X, mu)), al),), ()))) for mu in (lo, hi)]
            want = add(want, mul(s[0], sub(const(1), s[1])))
        ok = same0(t, want) or same_random(norm(zeros_like_zero(t), do_strip=True), want)
        if not ok and any(x.op in ("closure", "call") and not (x.op == "call" and x.args[0] in ("exp", "zeros_like", "abs", "maximum", "clamp", "sigmoid", "tanh"))
                          for x in walk(t)):
            ok = None
        ctx.ob("R4", f"get_smooth_steps_fn[{n}]", ok, func_loc(g), f"computes {short(t, 260)}")


def smooth_fn(ctx):
    f = ctx.prog.method("SmoothIntervals", "forward")
    loc = func_loc(f)
    for n in (1, 2):
        E = ctx.engine()
        st = St()
        bs = [[sym(f"lo{i}"), sym(f"hi{i}")] for i in range(n)]
        st.heap[(SELF, "a", "intervals")] = E.mklist([E.mklist(list(b), st) for b in bs], st)
        v, st = E.run(f, args=[X], selfcls=ctx.prog.find_class("SmoothIntervals"), st=st)
        ctx.note_units(E, f)
        t = norm(E.deref(v, st), do_strip=True)
        al, mode = mk("attr", SELF, "alpha"), mk("attr", SELF, "mode")
        def sg(mu):
            return div(const(1), add(const(1), mk("call", "exp", (div(mul(const(-4), sub(X, mu)), al),), ())))
        def sg2(mu):
            return mk("call", "sigmoid", (div(mul(const(4), sub(X, mu)), al),), ())
        res = []
        for s in (sg, sg2):
            want = const(0)
            for lo, hi in bs:
                want = add(want, mul(s(lo), sub(const(1), s(hi))))
            ok0 = same0(under(t, [(mode, False)]), want)
            ok1 = same0(under(t, [(mode, True)]), sub(mul(const(2), want), const(1)))
            res.append((ok0, ok1))
        best = max(res)
        ctx.ob("R4", f"SmoothIntervals.forward[{n}].unsigned", best[0], loc, f"computes {short(under(t, [(mode, False)]), 260)}")
        ctx.ob("R4", f"SmoothIntervals.forward[{n}].signed", best[1], loc, f"computes {short(under(t, [(mode, True)]), 260)}")
    g = ctx.prog.method("SmoothIntervals", "__init__")
    E = ctx.engine()
    v, st = E.run(g, selfcls=ctx.prog.find_class("SmoothIntervals"))
    K = sym(g.node.args.kwarg.arg) if g.node.args.kwarg else None
    for attr, key in (("intervals", "parameters"), ("alpha", "alpha"), ("mode", "mode")):
        p = E.heapget(st, (SELF, "a", attr))
        t = norm(E.deref(p, st), do_strip=True) if p is not None else None
        ok = None
        if t is not None and K is not None:
            given = under(t, [(mk("in", const(key), K), True), (mk("in", const(key), mk("call", "keys", (K,), ())), True)])
            ok = conv(given) is mk("item", K, const(key))
        ctx.ob("R4", f"SmoothIntervals.{attr}", ok, func_loc(g), f"self.{attr} is {short(t, 120) if t is not None else 'unset'}")


def zeros_like_zero(t):
    def f(x):
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] in ("zeros_like", "zeros"):
            return const(0)
        return None
    return norm(subst(norm(t), f), do_strip=True)


def same0(a, b):
    return zeros_like_zero(a) is norm(zeros_like_zero(b), do_strip=True)


# ------------------------------------------------------------------ C27
GROWTH = ("Gaussian", "GaussianMixture", "DoubleGaussian", "DoGaussian", "Polynomial", "SmoothIntervals", "GaussianMetaMixture")
BOUNDED = ("Gaussian", "GaussianMixture", "DoubleGaussian", "GaussianMetaMixture")


def check_C27(ctx):
    ctx.rule("R1", "signed output = 2 * unsigned output - 1 (clamped to [-1, 1] where the unsigned output is clamped to [0, 1])")
    ctx.rule("R2", "bounded functions stay in [0, 1] unsigned and [-1, 1] signed (interval domain)")
    ctx.rule("R3", "the mode given at construction is the one evaluation uses, unsigned by default")
    prog = ctx.prog
    names = [n for n, c in sorted(prog.modules["yuca.activations"].classes.items()) if has_mode(ctx, n)]
    for n in GROWTH:
        if n not in names:
            ctx.ob("R1", n, None, "", "no signed mode found")
    for n in sorted(set(names) & set(GROWTH)):
        ctx.guard("R1", n, lambda: signed(ctx, n))
    ctx.ob("selftest", "precedence", not is_signed(norm(sub(sub(sym("a"), mul(const(2), sym("b"))), const(1))), norm(sub(sym("a"), sym("b")))))


def has_mode(ctx, n):
    try:
        f = ctx.prog.method(n, "forward")
    except AnalysisError:
        return False
    E, v, st = ctx.run(n, "forward")
    t = norm(E.deref(v, st))
    return contains(t, lambda y: y is mk("attr", SELF, "mode"))


def clamp_parts(t):
    if t.op == "call" and t.args[0] == "clamp" and len(t.args[1]) == 3:
        return t.args[1]
    return None


def is_signed(s, u):
    """s is the rescaling of u"""
    two = norm(sub(mul(const(2), u), const(1)))
    if s is two:
        return True
    cu, cs = clamp_parts(u), clamp_parts(s)
    if cu and cs and cu[1] is const(0) and cu[2] is const(1) and cs[1] is const(-1) and cs[2] is const(1):
        return norm(cs[0]) is norm(sub(mul(const(2), cu[0]), const(1)))
    return False


def rearranged(t):
    return t.op == "call" and t.args[0] in ("unsqueeze", "squeeze", "reshape", "view", "permute", "transpose", "flatten")


def peel_same(s, u):
    """drop the outer element-preserving calls that both values share"""
    while rearranged(s) and rearranged(u) and s.args[0] == u.args[0] and s.args[1][1:] == u.args[1][1:] and s.args[2] == u.args[2]:
        s, u = s.args[1][0], u.args[1][0]
    return s, u


def signed(ctx, n):
    f = ctx.prog.method(n, "forward")
    E, v, st = ctx.run(n, "forward")
    mode = mk("attr", SELF, "mode")
    tx = mk("eq", *sorted((mk("call", "typeof", (X,), ()), mk("ext", "torch.Tensor")), key=str))
    t = norm(E.deref(v, st), do_strip=True)
    s, u = norm(under(t, [(mode, True)]), do_strip=True), norm(under(t, [(mode, False)]), do_strip=True)
    s, u = peel_same(s, u)
    loc = func_loc(f)
    try:
        ok = is_signed(s, u)
        if not ok:
            cu, cs = clamp_parts(u), clamp_parts(s)
            if cu and cs:
                ok = cu[1] is const(0) and cu[2] is const(1) and cs[1] is const(-1) and cs[2] is const(1) and \
                    differ(cs[0], sub(mul(const(2), cu[0]), const(1))) is None
            else:
                ok = differ(s, norm(sub(mul(const(2), u), const(1)))) is None
    except Budget:
        ok = None
    ctx.ob("R1", n, ok, loc, f"signed output is {short(s, 200)} but the unsigned one is {short(u, 200)}")
    if n in BOUNDED:
        for lab, val, lo, hi in (("signed", s, -1, 1), ("unsigned", u, 0, 1)):
            r = rng(val)
            ctx.ob("R2", f"{n}.{lab}", r[0] is not None and r[1] is not None and r[0] >= lo and r[1] <= hi, loc, f"range {r[0]}..{r[1]} of {short(val, 160)}")
    g = ctx.prog.method(n, "__init__")
    E, v, st = ctx.run(n, "__init__")
    K = sym(g.node.args.kwarg.arg) if g.node.args.kwarg else None
    p = E.heapget(st, (SELF, "a", "mode"))
    t = norm(E.deref(p, st)) if p is not None else None
    ok = None
    if t is not None and K is not None:
        given = under(t, [(mk("in", const("mode"), K), True)])
        dflt = under(t, [(mk("in", const("mode"), K), False)])
        ok = given is mk("item", K, const("mode")) and dflt is const(0)
    ctx.ob("R3", n, ok, func_loc(g), f"self.mode is {short(t, 120) if t is not None else 'unset'}")
