"""C34 built-in rules, patterns and prepared inputs are what they are named after."""
import hashlib
from fractions import Fraction
from ..lib import *
from ..terms import *
from .fns import conv
from .io import understood as plain
from .env import branches, cargs, expand, name_of
from .setup import verdict

IMG = sym("img")
H = mk("item", mk("attr", IMG, "shape"), const(2))


def check_C34(ctx):
    ctx.rule("R1", "the Orbium and Geminium configurations carry the published kernel and growth parameters, signed growth in both slots, and the radius asked for")
    ctx.rule("R2", "the built-in patterns are rectangular, between 0 and 1, and cell by cell the pattern of their name")
    ctx.rule("R3", "a mask is 0 exactly where the distance is below the radius and 1 elsewhere; a bite is such a mask around its centre, the same in every channel")
    ctx.rule("R4", "an aperture keeps exactly what a centred bite of its radius removes, and everything from radius 0.975 on")
    ctx.rule("R5", "a prepared batch holds, for every sample, image * aperture * bite + noise in the image's channels and zeros in the others, with a bite and noise of its own")
    ctx.rule("R6", "a training target is the image itself with a sample dimension")
    for fn, want in RULES.items():
        ctx.guard("R1", fn, lambda: rule(ctx, fn, want))
    ctx.guard("R2", "patterns", lambda: patterns(ctx))
    ctx.guard("R3", "get_mask", lambda: mask(ctx))
    ctx.guard("R3", "get_bite_mask", lambda: bite(ctx))
    ctx.guard("R4", "get_aperture", lambda: aperture(ctx))
    ctx.guard("R5", "prep_input", lambda: prepared(ctx))
    ctx.guard("R6", "make_target", lambda: target(ctx))
    ctx.ob("selftest", "a changed cell is told apart", figure([[0, 1], [1, 1]]) != figure([[0, 1], [1, 0]]))


# ------------------------------------------------------------------ rules
RULES = {
    "get_orbium_config": {("neighborhood_kernel_config", "name"): "Gaussian", ("neighborhood_kernel_config", "kernel_kwargs", "mu"): "0.5",
                          ("neighborhood_kernel_config", "kernel_kwargs", "sigma"): "0.15", "growth": ["0.15", "0.015"]},
    "get_geminium_config": {("neighborhood_kernel_config", "name"): "GaussianMixture",
                            ("neighborhood_kernel_config", "kernel_kwargs", "parameters"):
                                ["0.5", "0.093809", "0.033", "1", "0.28143", "0.033", "0.6666666666", "0.46904", "0.033"], "growth": ["0.26", "0.036"]},
}


def entry(E, t, path):
    for p in path:
        t = norm(E.item_of(t, const(p)))
    return t


def same_number(t, x):
    return is_num(t) and abs(float(cval(t)) - float(x)) < 1e-7


def compare(t, want):
    """does the value agree with a number, a name, or a list of numbers"""
    t = conv(t)
    if isinstance(want, list):
        if t.op not in ("seq", "tuple"):
            return None
        if not all(is_num(conv(x)) for x in t.args):
            return None
        return len(t.args) == len(want) and all(same_number(conv(x), w) for x, w in zip(t.args, want))
    if is_num(t):
        return same_number(t, want)
    if is_str(t):
        return cval(t) == want
    return False if t is NONE or t.op == "sym" else None


def rule(ctx, fn, want):
    f = ctx.prog.find_func(fn)
    E = ctx.engine()
    v, st = E.run(f)
    ctx.note_units(E, f)
    t = norm(E.deref(v, st))
    loc = func_loc(f)
    for path, w in want.items():
        if path != "growth":
            got = entry(E, t, path)
            ctx.ob("R1", f"{fn}:{'.'.join(path)}", compare(got, w), loc, f"{' / '.join(path)} is {short(got, 80)}, not {w}")
    for slot in ("genesis_config", "persistence_config"):
        for path, w in ((("name",), "GaussianMixture"), (("parameters",), want["growth"])):
            got = entry(E, t, (slot,) + path)
            ctx.ob("R1", f"{fn}:{slot}.{path[0]}", compare(got, w), loc, f"{slot} / {path[0]} is {short(got, 80)}, not {w}")
        got = entry(E, t, (slot, "mode"))
        ctx.ob("R1", f"{fn}:{slot}.mode", cval(got) != 0 if is_num(got) else None if got.op != "item" else False, loc, f"the growth function is not signed: mode {short(got, 40)}")
    got = entry(E, t, ("neighborhood_kernel_config", "radius"))
    r = sym("radius")
    ctx.ob("R1", f"{fn}:radius", True if got is r else verdict(False, got), loc, f"the kernel's radius is {short(got, 60)}, not the one asked for")
    for k, d in (("get_orbium_config", 13), ("get_geminium_config", 31)):
        if k == fn:
            ds = f.node.args.defaults
            x = ds[-1] if ds else None
            ctx.ob("R1", f"{fn}:default radius", (x.value == d) if x is not None and hasattr(x, "value") else None, loc, f"the radius is {getattr(x, 'value', None)} when none is given, not {d}")


# ------------------------------------------------------------------ patterns
# name -> (shape, fingerprint of the cells); the literals of the published patterns
PATTERNS = {}
LIFE_GLIDER = (".#.", "..#", "###"), ("#.#", ".##", ".#.")
PUFFER = ("..#...", ".####.", "#.#..#", "#.#..#", ".####.", "..#...")


def table():
    if not PATTERNS:
        with open(os.path.join(HOME, "yva", "spec", "patterns.txt")) as fh:
            for line in fh:
                if line.strip() and not line.startswith("#"):
                    n, shape, fig = line.split()
                    PATTERNS[n] = (tuple(int(x) for x in shape.split("x")), fig)
    return PATTERNS


def cells(t, E=None):
    """nested lists of the numbers of an array that is written out, None when it is not"""
    t = norm(t)
    if is_num(t):
        return Fraction(cval(t))
    if t.op in ("seq", "tuple", "lcat"):
        out = [cells(x) for x in t.args]
        return None if any(x is None for x in out) else out
    if t.op == "call":
        n = str(t.args[0]).split(".")[-1]
        xs = t.args[1]
        if n in ("array", "asarray", "float", "astype", "copy", "float32", "float64", "tensor", "list") and xs:
            return cells(xs[0])
        if n in ("transpose", "T", "t") and len(xs) == 1:
            base = cells(xs[0])
            return [list(r) for r in zip(*base)] if base and len(shape(base)) == 2 and -1 not in shape(base) else None
        if n == "reshape" and len(xs) >= 2:
            base = cells(xs[0])
            order = dict(p for p in t.args[2] if p[0] != "#").get("order")
            if order is not None and order is not const("C"):
                d = [x for y in xs[1:] for x in (y.args if y.op in ("tuple", "seq") else (y,))]
                if order is not const("F") or base is None or len(d) != 2 or not all(is_num(x) and cval(x) > 0 for x in d):
                    return None
                b = fold_up(flatten(base), [int(cval(x)) for x in reversed(d)])
                return b and [list(r) for r in zip(*b)]
            dims = list(xs[1].args) if len(xs) == 2 and xs[1].op in ("tuple", "seq") else list(xs[1:])
            if base is None or not all(is_num(d) for d in dims):
                return None
            vals, dims = flatten(base), [int(cval(d)) for d in dims]
            if dims.count(-1) == 1:
                k = 1
                for d in dims:
                    k *= d if d != -1 else 1
                dims[dims.index(-1)] = len(vals) // k
            return fold_up(vals, dims)
        if n in ("zeros", "ones") and xs:
            dims = xs[0].args if xs[0].op in ("tuple", "seq") else xs
            if not all(is_num(d) for d in dims):
                return None
            dims = [int(cval(d)) for d in dims]
            k = 1
            for d in dims:
                k *= d
            return fold_up([Fraction(int(n == "ones"))] * k, dims)
    if t.op == "attr" and t.args[1] == "T":
        base = cells(t.args[0])
        return [list(r) for r in zip(*base)] if base and len(shape(base)) == 2 and -1 not in shape(base) else None
    if t.op == "store":
        base, v = cells(t.args[0]), norm(t.args[2])
        if base is None:
            return None
        v = cells(v)
        return put(base, list(t.args[1].args) if t.args[1].op in ("tuple", "seq") else [t.args[1]], v)
    return None


def put(a, idx, v):
    """a with the cells selected by idx set to the number v"""
    if v is None or a is None:
        return None
    if not idx:
        if isinstance(a, list):
            if isinstance(v, list):
                return v if shape(v) == shape(a) else None
            return [put(x, [], v) for x in a]
        return None if isinstance(v, list) else v
    if not isinstance(a, list):
        return None
    i = norm(idx[0])
    a = list(a)
    if is_num(i):
        k = int(cval(i))
        if not -len(a) <= k < len(a):
            return None
        a[k] = put(a[k], idx[1:], v)
        return None if a[k] is None else a
    if i.op in ("seq", "lcat") and all(is_num(x) for x in i.args):
        sel = [int(cval(x)) for x in i.args]
        if len(idx) > 1 and any(norm(x).op in ("seq", "lcat") for x in idx[1:]):
            return None
    elif i.op == "slice":
        b = [None if x is NONE or x is None else int(cval(x)) if is_num(x) else "?" for x in i.args]
        if "?" in b:
            return None
        sel = range(len(a))[slice(*b)]
    else:
        return None
    vs = v if isinstance(v, list) and len(v) == len(sel) and len(shape(v)) == len(shape(a)) - sum(is_num(norm(x)) for x in idx) else [v] * len(sel)
    for k, w in zip(sel, vs):
        if not -len(a) <= k < len(a):
            return None
        a[k] = put(a[k], idx[1:], w)
        if a[k] is None:
            return None
    return a


def flatten(a):
    return [z for y in a for z in flatten(y)] if isinstance(a, list) else [a]


def fold_up(vals, dims):
    if not dims:
        return vals[0] if len(vals) == 1 else None
    k = 1
    for d in dims[1:]:
        k *= d
    if k * dims[0] != len(vals) or k == 0:
        return None
    out = [fold_up(vals[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])]
    return None if any(x is None for x in out) else out


def shape(a):
    """dimensions, () for a number; ending in -1 when rows differ"""
    if not isinstance(a, list):
        return ()
    s = {shape(x) for x in a}
    return (len(a),) + (s.pop() if len(s) == 1 else (-1,))


def figure(a):
    return hashlib.sha256(" ".join("%.6g" % float(x) for x in flatten(a)).encode()).hexdigest()[:16]


def turned(rows):
    """a drawing in its eight orientations"""
    out, g = set(), [list(r) for r in rows]
    for _ in range(4):
        g = [list(r) for r in zip(*g[::-1])]
        out.add(tuple("".join(r) for r in g))
        out.add(tuple("".join(r[::-1]) for r in g))
    return out


def drawing(a):
    """the live part of a pattern of zeros and ones"""
    on = [(i, j) for i, r in enumerate(a) for j, x in enumerate(r) if x]
    if not on:
        return ()
    i0, i1, j0, j1 = min(i for i, _ in on), max(i for i, _ in on), min(j for _, j in on), max(j for _, j in on)
    return tuple("".join("#" if a[i][j] else "." for j in range(j0, j1 + 1)) for i in range(i0, i1 + 1))


def patterns(ctx):
    mod = ctx.prog.modules["yuca.patterns"]
    n = 0
    for name, f in sorted(mod.funcs.items()):
        if not name.startswith("get_"):
            continue
        def go():
            E = ctx.engine()
            v, st = E.run(f)
            ctx.note_units(E, f)
            t = expand(E, v, st)
            loc = func_loc(f)
            a = cells(t)
            if a is None:
                if name in table() or name in ("get_glider", "get_puffer"):
                    ctx.ob("R2", name, None, loc, "the cells of the pattern are not written out")
                return
            s = shape(a)
            ctx.ob("R2", f"{name}:rectangular", -1 not in s and len(s) >= 2, loc, f"the pattern has shape {s}")
            ctx.ob("R2", f"{name}:range", all(0 <= x <= 1 for x in flatten(a)), loc, "cells of the pattern are not between 0 and 1")
            if name == "get_glider":
                d = drawing(a)
                ctx.ob("R2", f"{name}:cells", any(d in turned(p) for p in LIFE_GLIDER), loc, f"{' / '.join(d)} is not a phase of the Life glider")
            elif name == "get_puffer":
                d = drawing(a)
                ctx.ob("R2", f"{name}:cells", d in turned(PUFFER), loc, f"{' / '.join(d)} is not the common puffer of Morley")
            elif name in table():
                want, fig = table()[name]
                ctx.ob("R2", f"{name}:cells", s == want and figure(a) == fig, loc, f"the cells (shape {s}) are not those of the pattern {name[4:]}")
        ctx.guard("R2", name, go)


# ------------------------------------------------------------------ masks
def told(got, want, *parts):
    """equal / different with everything understood / unknown"""
    try:
        if differ(got, want) is None:
            return True
    except Budget:
        return None
    return False if all(clear(t) for t in parts or (got,)) else None


KNOWN = {"min_py", "max_py", "sqrt", "abs", "meshgrid", "numpy.meshgrid", "numpy.arange", "arange", "numpy.zeros", "numpy.ones", "numpy.random.rand", "exp", "clamp", "minimum", "maximum"}


def clear(t):
    """made of arithmetic, comparisons, conditions and the named array functions only"""
    for x in walk(norm(t)):
        if x.op == "call" and str(x.args[0]) not in KNOWN and str(x.args[0]).split(".")[-1] not in ("get_mask", "get_bite_mask", "get_aperture"):
            return False
        if x.op == "item" and norm(x.args[0]).op in ("poly", "where", "add", "mul"):
            return False
        if x.op in ("havoc", "mu", "m", "fold", "last", "cell", "ref", "bigsum", "view", "over", "brk", "atbreak"):
            return False
    return True


def mask(ctx):
    f = ctx.prog.find_func("get_mask")
    E = ctx.engine()
    v, st = E.run(f)
    ctx.note_units(E, f)
    g, r = (sym(a.arg) for a in f.node.args.args[:2])
    t = norm(E.deref(v, st), do_strip=True)
    c = norm(mk("lt0", norm(sub(g, r))))
    want = norm(mk("where", c, const(0), const(1)))
    t2 = subst(t, lambda x: mk("where", c, const(1), const(0)) if x is c and t.op != "where" and False else None)
    ok = t is want
    res = []
    try:
        for facts in ([(c, True)], [(c, False)]):
            w = const(0) if facts[0][1] else const(1)
            u = norm(subst(under(t2, facts), lambda x: pick(x, c, facts[0][1])), do_strip=True)
            res.append(True if u is w else False if is_const(u) or clear(u) else None)
    except Budget:
        res = [None]
    ctx.ob("R3", "get_mask", True if ok or all(x is True for x in res) else False if False in res else None, func_loc(f),
           f"the mask is {short(t, 120)}, not 0 where grid < radius and 1 elsewhere")


def pick(x, c, truth):
    if x.op == "where" and norm(x.args[0]) is c:
        return x.args[1 if truth else 2]
    if x.op == "where" and norm(x.args[0]) is norm(not_(c)):
        return x.args[2 if truth else 1]
    if x is c:
        return const(1 if truth else 0)
    if x.op == "not" and norm(x.args[0]) is c:
        return const(0 if truth else 1)
    return None


def unrandom(t):
    """fresh-call marks dropped"""
    def f(x):
        if x.op == "call" and any(k == "#" for k, _ in x.args[2]):
            return mk("call", x.args[0], tuple(unrandom(y) if isinstance(y, T) else y for y in x.args[1]), tuple(p for p in x.args[2] if p[0] != "#"))
        return None
    return norm(subst(norm(t), f))


def mesh(half):
    lim = norm(add(half, const(1)))
    stp = norm(div(add(mul(const(2), half), const(1)), mul(const(2), half)))
    return norm(mul(const(-1), half)), lim, stp


def bite(ctx):
    f = ctx.prog.find_func("get_bite_mask")
    loc = func_loc(f)
    E = ctx.engine({"get_mask"})
    v, st = E.run(f)
    ctx.note_units(E, f)
    evs = [e for e in E.events if e.kind == "call" and name_of(e).split(".")[-1] == "get_mask"]
    if not evs:
        return ctx.ob("R3", "get_bite_mask", None, loc, "the mask is not made by get_mask")
    e = evs[-1]
    a = cargs(e)[0]
    a = [norm(expand(E, x, st), do_strip=True) for x in a]
    kw = e.data.get("kw") or {}
    a = a + [norm(expand(E, kw[k], st)) for k in ("radius",) if k in kw and len(a) < 2]
    r = sym("bite_radius")
    if len(a) == 2:
        ctx.ob("R3", "get_bite_mask:radius", True if a[1] is r else verdict(False, a[1]), e.loc, f"the bite has radius {short(a[1], 60)}, not bite_radius")
        half = norm(mk("floordiv", H, const(2)))
        none = mk("eq", NONE, sym("coords"))
        d = unrandom(under(a[0], [(none, False)]))
        axes = sorted({x for x in walk(d) if x.op == "item" and "meshgrid" in short(x.args[0], 30)}, key=lambda x: str(x.args[1]))
        if len(axes) == 2:
            X, Y = axes
            c0, c1 = (mk("item", sym("coords"), const(i)) for i in (0, 1))
            want = norm(div(mk("call", "sqrt", (norm(add(power(sub(X, c0), const(2)), power(sub(Y, c1), const(2)))),), ()), half))
            ctx.ob("R3", "get_bite_mask:distance", told(d, want), e.loc, f"the distance from the bite's centre is {short(d, 160)}")
            g = X.args[0]
            lims = [[norm(y) for y in x.args[1]] for x in g.args[1] if x.op == "call" and str(x.args[0]).endswith("arange")]
            if len(lims) == 2:
                ctx.ob("R3", "get_bite_mask:extent", True if lims[0] == lims[1] == list(mesh(half)) else
                       False if lims[0] != lims[1] and all(clear(y) for l in lims for y in l) else None, e.loc, "the two axes of the bite's grid differ")
            else:
                back = [x for x in g.args[1] if x.op == "call" and str(x.args[0]).endswith("flip") or x.op == "item" and x.args[1].op == "slice" and is_num(norm(x.args[1].args[2])) and cval(norm(x.args[1].args[2])) < 0]
                ctx.ob("R3", "get_bite_mask:extent", False if len(back) == 1 else None, e.loc, "one axis of the bite's grid runs backwards")
        elif not axes:
            ctx.ob("R3", "get_bite_mask:distance", None, e.loc, f"the distance is {short(d, 120)}")
        got = under(a[0], [(none, True)])
        rnd = contains(got, lambda x: x.op == "call" and "random" in str(x.args[0]))
        ctx.ob("R3", "get_bite_mask:anywhere", True if rnd else False if all(str(x.args[0]) in KNOWN for x in walk(got) if x.op == "call") and not contains(got, lambda x: x.op in ("havoc", "mu", "cell")) else None, e.loc, "a bite without coordinates is always at the same place")
    m = e.data["value"]
    t = norm(expand(E, v, st))
    n_ch = mk("item", mk("attr", IMG, "shape"), const(1))
    ok = None
    if t.op == "fold" and len(t.args[1]) == 1:
        init, body = (norm(x) for x in t.args[1][0])
        if body.op == "store" and norm(body.args[0]).op == "m" and body.args[1].op == "tuple" and len(body.args[1].args) >= 2:
            i = [norm(x) for x in body.args[1].args]
            val = norm(body.args[2])
            cnt = norm(t.args[0])
            same = unrandom(val) is unrandom(m)
            every = i[1].op == "idx" and norm(i[1].args[0]) is cnt
            whole = all(x.op == "slice" and all(y is NONE for y in x.args[:2]) for x in i[:1] + i[2:])
            ok = True if same and every and whole and cnt is n_ch else None
            if ok is None and (not same and clear(val) or cnt is not n_ch and clear(cnt) or same and not whole or same and not every and (is_num(i[1]) or plain(i[1]))):
                ok = False
    ctx.ob("R3", "get_bite_mask:every channel", ok, loc, f"the mask is not written to every channel as it is: {short(t, 100)}")


def aperture(ctx):
    f = ctx.prog.find_func("get_aperture")
    loc = func_loc(f)
    E = ctx.engine({"get_bite_mask", "get_mask"})
    v, st = E.run(f)
    ctx.note_units(E, f)
    t = unrandom(expand(E, v, st))
    r = sym("aperture_radius")
    c = norm(mk("lt0", norm(sub(r, const(Fraction("0.975"))))))
    conds = {x.args[0] for x in walk(t) if x.op == "ite"}
    ctx.ob("R4", "get_aperture:limit", True if conds == {c} or conds == {norm(not_(c))} else False if len(conds) == 1 and all(clear(x) for x in conds) or not conds and clear(t) else None, loc,
           f"the image is kept whole unless {short(next(iter(conds)), 80) if conds else 'never'}")
    small, big = under(t, [(x, x.op != "not") for x in conds]), under(t, [(x, x.op == "not") for x in conds])
    calls = sorted({x for x in walk(small) if x.op == "call" and str(x.args[0]).endswith("get_bite_mask")}, key=str)
    if len(calls) == 1:
        B = calls[0]
        flat = subst(small, lambda x: sym("<bite>") if x is B else None)
        ctx.ob("R4", "get_aperture:complement", told(norm(flat), norm(sub(const(1), sym("<bite>")))), loc, f"the aperture is {short(small, 120)}, not 1 minus a bite")
        kw = dict(p for p in B.args[2] if p[0] != "#")
        pos = dict(zip(("img", "bite_radius", "coords"), B.args[1]))
        pos.update({k: x for k, x in kw.items() if isinstance(x, T)})
        br, co = norm(pos.get("bite_radius", NONE)), conv(norm(pos.get("coords", NONE)))
        ctx.ob("R4", "get_aperture:radius", True if br is r else False if clear(br) else None, loc, f"the aperture has radius {short(br, 60)}")
        zero = co.op in ("seq", "tuple") and len(co.args) == 2 and all(is_num(x) and cval(x) == 0 for x in co.args)
        ctx.ob("R4", "get_aperture:centred", True if zero else False if co is NONE or co.op in ("seq", "tuple") and all(is_num(x) for x in co.args) else None, loc,
               f"the aperture's centre is {short(co, 40)}, not the middle of the image")
    else:
        ctx.ob("R4", "get_aperture:complement", None, loc, f"the aperture is {short(small, 120)}")
    one = norm(big, do_strip=True)
    ctx.ob("R4", "get_aperture:whole", True if one is const(1) or one.op == "call" and str(one.args[0]).endswith(("ones_like", "ones")) else False if is_num(one) else None, loc, f"a full aperture is {short(one, 60)}, not 1 everywhere")


# ------------------------------------------------------------------ batches
def prepared(ctx):
    f = ctx.prog.find_func("prep_input")
    loc = func_loc(f)
    E = ctx.engine({"get_bite_mask", "get_aperture", "get_mask"})
    v, st = E.run(f)
    ctx.note_units(E, f)
    t = norm(expand(E, v, st))
    shp = [mk("item", mk("attr", IMG, "shape"), const(i)) for i in range(4)]
    bs, ext, none = sym("batch_size"), sym("external_channels"), mk("eq", NONE, sym("external_channels"))
    if t.op != "fold" or len(t.args[1]) != 1 or norm(t.args[1][0][1]).op != "store":
        return ctx.ob("R5", "prep_input", None, loc, f"the batch is {short(t, 120)}")
    cnt, (init, body) = norm(t.args[0]), (norm(x) for x in t.args[1][0])
    ctx.ob("R5", "prep_input:every sample", True if cnt is bs else False if clear(cnt) else None, loc, f"{short(cnt, 40)} samples are filled, not batch_size")
    if init.op == "call":
        n = str(init.args[0]).split(".")[-1]
        dims = init.args[1][0].args if len(init.args[1]) == 1 and init.args[1][0].op in ("tuple", "seq") else init.args[1]
        if n in ("zeros", "ones", "empty", "full", "rand") or n == "zeros_like":
            ctx.ob("R5", "prep_input:other channels", True if n == "zeros" else False if n in ("ones", "empty", "rand") else None, loc, f"channels beyond the image's hold {n}, not zeros")
            if len(dims) == 4:
                ch = [norm(under(dims[1], [(none, b)])) for b in (True, False)]
                ok = ch[0] is shp[1] and ch[1] is ext
                ctx.ob("R5", "prep_input:channels", True if ok else False if all(clear(x) for x in ch) else None, loc, f"a batch has {short(ch[0], 40)} channels by default and {short(ch[1], 40)} when given")
                rest = [norm(dims[i]) for i in (0, 2, 3)]
                ctx.ob("R5", "prep_input:size", True if rest == [bs, shp[2], shp[3]] else False if all(clear(x) for x in rest) else None, loc, f"the batch has size {', '.join(short(x, 30) for x in rest)}")
    i = [norm(x) for x in body.args[1].args] if body.args[1].op == "tuple" else [norm(body.args[1])]
    one = i[0].op == "idx" or i[0].op == "slice" and norm(i[0].args[0]).op == "idx" and norm(sub(i[0].args[1], i[0].args[0])) is const(1)
    chs = i[1] if len(i) > 1 else None
    chok = chs is not None and chs.op == "slice" and chs.args[0] in (NONE, const(0)) and norm(chs.args[1]) is shp[1] and chs.args[2] in (NONE, const(1))
    ctx.ob("R5", "prep_input:one sample", True if one else False if i[0].op == "slice" and all(x is NONE or clear(x) for x in i[0].args) or is_num(i[0]) else None, loc, f"sample {short(i[0], 60)} is filled in a round")
    if chs is not None:
        ctx.ob("R5", "prep_input:image channels", True if chok else False if chs.op == "slice" and all(x is NONE or clear(x) for x in chs.args) or is_num(chs) else None, loc, f"the channels filled are {short(chs, 60)}, not those of the image")
    val = norm(conv(norm(body.args[2])), do_strip=True)
    while val.op == "item" and (is_num(val.args[1]) and cval(val.args[1]) in (0, -1)):
        val = norm(conv(norm(val.args[0])), do_strip=True)      # the image has one sample
    loops = {}
    for e in E.events:
        if e.kind == "call" and isinstance(e.data.get("value"), T):
            loops.setdefault(norm(e.data["value"]), e)
    B = [x for x in walk(val) if x.op == "call" and str(x.args[0]).endswith("get_bite_mask")]
    A_ = [x for x in walk(val) if x.op == "call" and str(x.args[0]).endswith("get_aperture")]
    R = [x for x in walk(val) if x.op == "call" and "random" in str(x.args[0])]
    B, A_, R = (sorted(set(z), key=str) for z in (B, A_, R))
    lab = {}
    for z, n in ((B, "<bite>"), (A_, "<aperture>"), (R, "<noise>")):
        if len(z) == 1:
            lab[z[0]] = sym(n)
    flat = norm(subst(val, lambda x: lab.get(x)))
    want = norm(add(mul(mul(IMG, sym("<aperture>")), sym("<bite>")), mul(sym("noise_level"), sym("<noise>"))))
    ctx.ob("R5", "prep_input:value", told(flat, want), loc, f"a sample is {short(flat, 140)}, not img * aperture * bite + noise_level * noise")

    def arg(x, names):
        d = dict(zip(names, x.args[1]))
        d.update({k: y for k, y in x.args[2] if k in names})
        return {k: norm(y) for k, y in d.items() if isinstance(y, T)}
    if len(B) == 1:
        d = arg(B[0], ("img", "bite_radius", "coords"))
        ok = d.get("bite_radius") is sym("bite_radius")
        ctx.ob("R5", "prep_input:bite", True if ok else False if clear(d.get("bite_radius", NONE)) else None, loc, f"the bite has radius {short(d.get('bite_radius', NONE), 40)}")
        co = conv(d.get("coords", NONE))
        ctx.ob("R5", "prep_input:bite place", True if co is NONE or contains(co, lambda x: "random" in str(x.args[0]) if x.op == "call" else False) else False if clear(co) else None, loc, "the bite is always at the same place")
        fresh(ctx, "bite", loops.get(B[0]), B[0], E)
    if len(A_) == 1:
        d = arg(A_[0], ("img", "aperture_radius"))
        ok = d.get("aperture_radius") is sym("aperture_radius")
        ctx.ob("R5", "prep_input:aperture", True if ok else False if clear(d.get("aperture_radius", NONE)) else None, loc, f"the aperture has radius {short(d.get('aperture_radius', NONE), 40)}")
    if len(R) == 1:
        n = str(R[0].args[0]).split(".")[-1]
        ctx.ob("R5", "prep_input:noise", True if n in ("rand", "random", "uniform", "random_sample", "rand_like") else False if n in ("randn", "randn_like", "normal", "standard_normal", "randint") else None, loc, f"the noise is drawn by {n}, which is not between 0 and 1")
        fresh(ctx, "noise", loops.get(R[0]), R[0], E)


def fresh(ctx, what, e, x, E):
    if e is None:
        return
    ctx.ob("R5", f"prep_input:own {what}", True if e.loops else False, e.loc, f"all samples of a batch share one {what}")


ALTERED = ("clamp", "clip", "round", "around", "flip", "roll", "sort", "abs", "sign", "floor", "ceil", "transpose", "permute", "minimum", "maximum", "zeros_like", "ones_like")


def target(ctx):
    f = ctx.prog.find_func("make_target")
    E = ctx.engine()
    v, st = E.run(f)
    ctx.note_units(E, f)
    t = norm(expand(E, v, st), do_strip=True)
    shp = [mk("item", mk("attr", IMG, "shape"), const(i)) for i in range(3)]
    x = conv(t)
    ok = None
    if x.op == "call" and str(x.args[0]).split(".")[-1] in ("reshape", "view"):
        dims = x.args[1][1].args if len(x.args[1]) == 2 and x.args[1][1].op in ("tuple", "seq") else x.args[1][1:]
        dims = [norm(d) for d in dims]
        base = conv(norm(x.args[1][0], do_strip=True))
        ok = base is IMG and dims == [const(1)] + shp
        if not ok:
            ok = False if base is IMG and all(clear(d) for d in dims) and len(dims) == 4 and not any(is_num(d) and cval(d) == -1 for d in dims) or clear(base) and base is not IMG else None
    elif x.op == "call" and str(x.args[0]).split(".")[-1] in ("unsqueeze", "expand_dims") and conv(norm(x.args[1][0])) is IMG:
        ok = True if norm(x.args[1][1]) is const(0) else None
    elif x.op == "item" and conv(norm(x.args[0])) is IMG:
        i = list(x.args[1].args) if x.args[1].op == "tuple" else [x.args[1]]
        ok = True if i[:1] == [NONE] and all(y.op == "slice" and y.args[0] is NONE and y.args[1] is NONE for y in i[1:]) else None
    elif clear(x):
        ok = False
    if ok is None and contains(x, lambda y: y.op == "call" and str(y.args[0]).split(".")[-1] in ALTERED):
        ok = False
    ctx.ob("R6", "make_target", ok, func_loc(f), f"the target is {short(t, 100)}, not the image with a sample dimension")
