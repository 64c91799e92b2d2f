"""C31 entropy measures."""
import ast
from fractions import Fraction
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF

G = sym("grid")
LEVELS = 256
TOTAL = sym("TOTAL")
I, J = sym("#i"), sym("#j")


def C(n, *a):
    return mk("call", n, tuple(a), ())


class Odd(Exception):
    pass


def up(t, f, memo=None):
    """rebuild bottom-up"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    def go(a):
        if isinstance(a, T):
            return up(a, f, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    if t.op in ("const", "sym", "idx", "ext", "m", "mu"):
        r = t
    else:
        args = tuple(go(a) for a in t.args)
        r = t if args == t.args else norm(mk(t.op, *args), do_strip=True)
    for _ in range(8):
        s = f(r)
        if s is None or s is r:
            break
        r = norm(s, do_strip=True)
    memo[t] = r
    return r


def base_name(t):
    return str(t.args[0]).split(".")[-1] if t.op == "call" and isinstance(t.args[0], str) else ""


def kws(t):
    return {k: v for k, v in t.args[2] if k not in ("#", "dtype")}


def scalar(t):
    if is_const(t) or t in (TOTAL,) or t.op == "ext" or t.op == "sym" and t.args[0] == "window_size":
        return True
    if t.op == "call":
        n = base_name(t)
        return n in ("sum", "max", "min", "mean", "std") and len(t.args[1]) == 1 and not kws(t) or n in ("log", "sqrt", "float", "numel") and scalar(t.args[1][0])
    if t.op == "pow":
        return all(scalar(x) for x in t.args if isinstance(x, T))
    if t.op == "poly":
        return all(scalar(x) for _, m in t.args for x, _e in m)
    return False


def is_zero(t):
    """an array of zeros"""
    return t is const(0) or base_name(t) in ("zeros", "zeros_like", "empty", "empty_like")


def extent(t):
    """number of iterations: a constant, or the shape entry of an array made here"""
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_num(t.args[1]):
        a, k = t.args[0].args[0], int(cval(t.args[1]))
        if base_name(a) in ("zeros", "ones", "empty") and a.args[1]:
            d = a.args[1][0]
            d = list(d.args) if d.op in ("tuple", "seq") else [d]
            return extent(d[k]) if k < len(d) else None
        if a is const(0) or a.op == "m":
            return sym("whole")
        return t
    if t.op == "poly":
        f = lambda y: extent(y) if y.op == "item" and y.args[0].op == "attr" and y.args[0].args[1] == "shape" else None
        return norm(subst(t, f))
    if t.op == "len" or base_name(t) == "len":
        return extent(mk("item", mk("attr", t.args[0] if t.op == "len" else t.args[1][0], "shape"), const(0)))
    return t


WHOLE = (const(LEVELS), sym("whole"))


def elementwise(V):
    """the value of entry (i) or (i, j) of an array as an operation on whole arrays"""
    full = mk("slice", NONE, NONE, NONE)
    def f(x):
        if x.op == "item" and x.args[1] is mk("tuple", I, J):
            return x.args[0]
        if x.op == "item" and x.args[0].op == "item" and x.args[0].args[1] is I and x.args[1] is J:
            return x.args[0].args[0]
        if x.op == "item" and x.args[1] is I:
            return x.args[0] if not contains(V, lambda y: y is J) else None
        if base_name(x) == "sum" and len(x.args[1]) == 1 and x.args[1][0].op == "item" and x.args[1][0].args[1].op in ("tuple",):
            k = x.args[1][0].args[1].args
            if len(k) == 2 and k[0].op == "slice" and k[0] is full and k[1] is J:
                return C("colsum", x.args[1][0].args[0])
            if len(k) == 2 and k[1] is full and k[0] is I:
                return C("rowsum", x.args[1][0].args[0])
            if len(k) == 2 and k[1] is full and k[0] is J:
                return C("rowsumT", x.args[1][0].args[0])
            if len(k) == 2 and k[0] is full and k[1] is I:
                return C("colsumT", x.args[1][0].args[0])
        if base_name(x) == "sum" and len(x.args[1]) == 1 and x.args[1][0].op == "item" and x.args[1][0].args[1] is I and contains(V, lambda y: y is J):
            return C("rowsum", x.args[1][0].args[0])
        return None
    V = norm(subst(V, f), do_strip=True)
    return None if contains(V, lambda y: y in (I, J)) else V


def conj(t):
    if t.op in ("and", "opBitAnd", "mul") or base_name(t) in ("opBitAnd", "logical_and", "multiply", "bitwise_and"):
        return list(t.args) if t.op != "call" else list(t.args[1])
    if t.op == "poly" and len(t.args) == 1 and t.args[0][0] == 1:
        return [x for x, e in t.args[0][1] if e == 1]
    return [t]


def other(e, s):
    """Q when the term is the comparison Q == s"""
    if e.op == "eq" and s in e.args:
        q = e.args[1] if e.args[0] is s else e.args[0]
        return None if contains(q, lambda y: y in (I, J)) else q
    return None


def counts(V, two):
    """histogram of which V is one entry"""
    n = base_name(V)
    if n in ("sum", "count_nonzero", "mean") and len(V.args[1]) == 1 and not kws(V):
        cs = conj(V.args[1][0])
        h = None
        if not two and len(cs) == 1:
            q = other(cs[0], I)
            h = C("hist", q) if q is not None else None
        if two and len(cs) == 2:
            for a, b in (cs, cs[::-1]):
                q, r = other(a, I), other(b, J)
                if q is not None and r is not None:
                    h = C("hist2", q, r)
        if h is not None:
            return h if n != "mean" else div(h, TOTAL)
    return None


def unfold(t):
    """loops that fill an array entry by entry"""
    if t.op == "over" and len(t.args) == 3 and extent(t.args[0]) in WHOLE and t.args[1].op == "seq" and len(t.args[1].args) == 1:
        V = norm(subst(t.args[1].args[0], lambda y: I if y is t.args[2] else None), do_strip=True)
        return counts(V, False) or elementwise(V)
    if t.op != "fold" or len(t.args[1]) != 1:
        return None
    init, body = t.args[1][0]
    n0 = extent(t.args[0])
    if body.op == "store" and body.args[0].op == "m" and is_zero(init) and (n0 in WHOLE or n0 is not None and is_num(n0)):
        k = body.args[1]
        ix = [y for y in walk(k) if y.op == "idx"]
        off = norm(sub(k, ix[0])) if len(set(ix)) == 1 else None
        if off is None or not is_num(off):
            return None
        V = norm(subst(body.args[2], lambda y: norm(sub(I, off)) if y is ix[0] else None), do_strip=True)
        if contains(V, lambda y: y.op == "m"):
            return None
        if n0 in WHOLE and off is const(0):
            return counts(V, False) or elementwise(V)
        h = counts(V, False)
        if h is None:
            return None
        lo, hi = int(cval(off)), int(cval(off)) + int(cval(n0)) if is_num(n0) else LEVELS
        return h if lo <= 0 and hi >= LEVELS else C("somelevels", h, const(lo), const(hi))
    if body.op == "fold" and len(body.args[1]) == 1 and is_zero(init):
        ini1, b1 = body.args[1][0]
        n1 = extent(body.args[0])
        if ini1.op == "m" and b1.op == "store" and b1.args[0].op == "m" and n0 in WHOLE and n1 in WHOLE:
            k = b1.args[1]
            k = k.args if k.op == "tuple" else ()
            if len(k) == 2 and all(x.op == "idx" for x in k) and k[0] is not k[1]:
                # the outer index is the one whose length is the outer loop's
                V = norm(subst(b1.args[2], lambda y: {k[0]: I, k[1]: J}.get(y)), do_strip=True)
                if contains(V, lambda y: y.op == "m"):
                    return None
                return counts(V, True) or elementwise(V)
    return None


def wrapped(t):
    """a periodic shift: roll(x, s) has entry [i] = x[i + s]"""
    if t.op == "item" and base_name(t.args[0]) == "pad" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and all(k.op == "slice" for k in t.args[1].args):
        p = t.args[0]
        x = p.args[1][0]
        k = kws(p)
        mode = k.get("mode", p.args[1][2] if len(p.args[1]) > 2 else None)
        w = k.get("pad_width", p.args[1][1] if len(p.args[1]) > 1 else None)
        w = one_width(w)
        if w is None or mode is not const("wrap"):
            return C("edgeshift", x) if w is not None and (mode is None or is_str(mode)) else None
        s = []
        for ax, sl in enumerate(t.args[1].args):
            lo, hi, st = sl.args[:3]
            lo = const(0) if lo is NONE else lo
            dim = mk("item", mk("attr", x, "shape"), const(ax))
            d = norm(sub(lo, w))
            if hi is NONE or is_num(hi) and cval(hi) < 0:
                end = norm(add(add(dim, w), w)) if hi is NONE else norm(add(add(add(dim, w), w), hi))
            else:
                end = hi
            size = norm(sub(end, lo))
            if not is_num(d) or st not in (NONE, const(1)):
                return None
            if size is not dim and same_shape(size, dim) is not True:
                return C("cutshift", x, size)
            s.append(d)
        return C("roll_", x, *s)
    if base_name(t) == "roll" and t.args[1]:
        k = kws(t)
        a = list(t.args[1])
        sh = a[1] if len(a) > 1 else k.get("shift", k.get("shifts"))
        ax = a[2] if len(a) > 2 else k.get("axis", k.get("dim", k.get("dims")))
        if sh is None or ax is None:
            return None
        sh = list(sh.args) if sh.op in ("tuple", "seq") else [sh]
        ax = list(ax.args) if ax.op in ("tuple", "seq") else [ax]
        if len(sh) != len(ax) or not all(is_num(x) for x in sh + ax):
            return None
        r = [const(0), const(0)]
        for x, y in zip(sh, ax):
            z = int(cval(y)) % 2
            r[z] = norm(sub(r[z], x))
        return C("roll_", a[0], *r)
    if base_name(t) == "roll_" and base_name(t.args[1][0]) == "roll_":
        a, b = t.args[1], t.args[1][0].args[1]
        return C("roll_", b[0], norm(add(a[1], b[1])), norm(add(a[2], b[2])))
    if base_name(t) == "u8" and base_name(t.args[1][0]) == "roll_":
        r = t.args[1][0].args[1]
        return C("roll_", C("u8", r[0]), *r[1:])
    return None


def same_shape(a, b):
    f = lambda y: sym("dim%d" % int(cval(y.args[1]))) if y.op == "item" and y.args[0].op == "attr" and y.args[0].args[1] == "shape" and is_num(y.args[1]) else None
    return norm(subst(a, f)) is norm(subst(b, f))


def one_width(w):
    if w is None:
        return None
    while w.op in ("tuple", "seq") and w.args and all(x is w.args[0] for x in w.args):
        w = w.args[0]
    return None if w.op in ("tuple", "seq") else w


def rules(t):
    n = base_name(t)
    if t.op in ("fold", "over"):
        return unfold(t)
    r = wrapped(t)
    if r is not None:
        return r
    if n == "uint8" and len(t.args[1]) == 1:
        return C("u8", t.args[1][0])
    if n in ("astype", "to", "asarray", "array", "type") and len(t.args[1]) >= 1:
        ty = t.args[1][1] if len(t.args[1]) > 1 else dict(t.args[2]).get("dtype")
        if ty is not None and (ty.op == "ext" and str(ty.args[0]).split(".")[-1] in ("uint8", "ubyte") or is_str(ty) and cval(ty) in ("uint8", "u1", "B")):
            return C("u8", t.args[1][0])
        if ty is None or ty.op == "ext" and "float" in str(ty.args[0]):
            return t.args[1][0]
    if n == "u8" and base_name(t.args[1][0]) in ("floor", "trunc", "fix"):
        return C("u8", t.args[1][0].args[1][0])
    if n in ("ravel", "flatten", "copy", "reshape", "numpy", "detach", "cpu") and t.args[1]:
        return t.args[1][0]
    k = kws(t) if t.op == "call" else {}
    if n == "bincount" and (k.get("minlength") or (t.args[1][2] if len(t.args[1]) > 2 else None)) is const(LEVELS):
        return C("hist", t.args[1][0])
    if t.op == "item" and t.args[1] is const(0) and base_name(t.args[0]) == "histogram":
        h = t.args[0]
        k = kws(h)
        b = k.get("bins", h.args[1][1] if len(h.args[1]) > 1 else None)
        rg = k.get("range", h.args[1][2] if len(h.args[1]) > 2 else None)
        if b is const(LEVELS) and rg is not None and rg.op in ("tuple", "seq") and rg.args[0] is const(0) and rg.args[1] in (const(LEVELS),) or b is not None and base_name(b) == "arange" and b.args[1] == (const(LEVELS + 1),):
            return C("hist", h.args[1][0])
    if t.op == "item" and t.args[1] is const(1) and base_name(t.args[0]) == "unique" and kws(t.args[0]).get("return_counts") is TRUE:
        return C("hist", t.args[0].args[1][0])
    if n in ("numel", "size") and len(t.args[1]) == 1 and not scalar(t.args[1][0]) or t.op == "attr" and t.args[1] == "size":
        return TOTAL
    if n == "sum" and t.args[1] and base_name(t.args[1][0]) in ("hist", "hist2"):
        ax = k.get("dim", k.get("axis", t.args[1][1] if len(t.args[1]) > 1 else None))
        if ax is None and len(t.args[1]) == 1:
            return TOTAL
        if ax in (const(0), const(-2)):
            return C("colsum", t.args[1][0])
        if ax in (const(1), const(-1)) and dict(k).get("keepdim") is TRUE:
            return C("rowsum", t.args[1][0])
    if t.op == "item" and base_name(t.args[0]) == "colsum" and t.args[1].op == "tuple" and NONE in t.args[1].args[:1]:
        return t.args[0]
    if n == "sum" and len(t.args[1]) == 1 and not k:
        x = t.args[1][0]
        if x.op == "poly" and all(m for _, m in x.args):
            out, change = const(0), len(x.args) > 1
            for c, m in x.args:
                s, v = const(c), const(1)
                for y, e in m:
                    p = power(y, const(e)) if e != 1 else y
                    if scalar(y):
                        s = mul(s, p)
                    else:
                        v = mul(v, p)
                change = change or s is not const(1)
                out = add(out, mul(s, C("sum", v)))
            if change:
                return out
    if n in ("max", "min") and len(t.args[1]) == 1 and t.args[1][0].op == "poly" and not k:
        ms = t.args[1][0].args
        sc = [(c, m) for c, m in ms if all(scalar(y) for y, _ in m)]
        ve = [(c, m) for c, m in ms if not all(scalar(y) for y, _ in m)]
        if len(ve) == 1 and len(ve[0][1]) == 1 and ve[0][1][0][1] == 1:
            c, y = ve[0][0], ve[0][1][0][0]
            s = mk("poly", *sc) if sc else const(0)
            nm = n if c > 0 else ("min" if n == "max" else "max")
            return add(mul(const(c), C(nm, y)), norm(s))
    if t.op == "poly":
        d = {m: c for c, m in t.args}
        c0 = d.get(())
        rest = [abs(c) for m, c in d.items() if m != ()]
        if c0 is not None and rest and all(c * Fraction(1, 10 ** 6) >= abs(c0) for c in rest):
            return sub(t, const(c0))
    if n == "log2":
        return div(C("log", *t.args[1]), C("log", const(2)))
    if n == "log10":
        return div(C("log", *t.args[1]), C("log", const(10)))
    if n == "log1p":
        return C("log", add(const(1), t.args[1][0]))
    if n == "log" and t.args[1] and base_name(t.args[1][0]) in ("clamp", "maximum") and len(t.args[1][0].args[1]) >= 2 and is_num(t.args[1][0].args[1][1]) and cval(t.args[1][0].args[1][1]) <= Fraction(1, 10 ** 6):
        return C("log", t.args[1][0].args[1][0])
    if t.op == "item" and t.args[1].op in ("not", "lt0", "gt0", "lt", "gt", "ne") and contains(t.args[1], lambda y: base_name(y) in ("hist", "hist2")) and contains(t.args[0], lambda y: base_name(y) in ("hist", "hist2")):
        # only non-empty levels: the others add nothing
        if positive(t.args[1]):
            return t.args[0]
    if t.op == "where" and positive(t.args[0]) and t.args[2] is const(0):
        return t.args[1]
    return None


def positive(c):
    """the condition 'count (or probability) > 0'"""
    if c.op == "lt0":
        x = c.args[0]
        return x.op == "poly" and len(x.args) == 1 and x.args[0][0] < 0 and any(base_name(y) in ("hist", "hist2") for y, _ in x.args[0][1]) and all(base_name(y) in ("hist", "hist2", "sum", "colsum") or y is TOTAL for y, _ in x.args[0][1])
    if c.op == "not" and c.args[0].op == "eq":
        return const(0) in c.args[0].args and any(base_name(y) in ("hist", "hist2") for y in c.args[0].args)
    return False


def canon(t):
    for _ in range(6):
        u = up(t, rules)
        if u is t:
            return t
        t = u
    return t


KNOWN = {"somelevels", "hist", "hist2", "u8", "sum", "max", "min", "log", "colsum", "rowsum", "rowsumT", "colsumT", "roll_", "edgeshift", "cutshift", "abs", "mean", "sqrt", "exp", "clamp", "round", "std"}


def understood(t):
    return not contains(t, lambda y: y.op == "call" and base_name(y) not in KNOWN or y.op in ("fold", "over", "m", "mu", "havoc", "cell", "ref", "store", "view", "opaque", "ite", "brk", "idx", "last", "bigsum", "where", "item", "undef"))


def decide(t, wants):
    for w in wants:
        if t is w:
            return True
    if any(contains(t, lambda y: base_name(y) == "hist2") != contains(w, lambda y: base_name(y) == "hist2") for w in wants) and understood(t):
        return False
    try:
        for w in wants:
            if differ(t, w) is None:
                return True
    except Budget:
        return None
    return False if understood(t) else None


def quantised():
    g = G
    return canon(C("u8", div(mul(const(255), sub(g, C("min", g))), sub(C("max", g), C("min", g)))))


def shannon(P, Pc=None):
    return canon(neg(C("sum", mul(P, C("log2", P if Pc is None else Pc)))))


SHIFTS = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}
NAMES = ("top", "right", "bottom", "left")


def run(ctx, fn, args, opaque=()):
    E = ctx.engine(opaque)
    m = ctx.prog.modules["yuca.analyze"]
    if fn.startswith("Phanes."):
        f = ctx.prog.method("Phanes", fn[7:])
        v, st = E.run(f, list(args), {}, ctx.prog.find_class("Phanes"), St())
    else:
        f = m.funcs.get(fn)
        if f is None:
            raise AnalysisError(f"{fn} not found")
        v, st = E.run(f, list(args), {}, None, St())
    ctx.note_units(E, f)
    return E, norm(E.deref(v, st), do_strip=True) if v is not None else NONE, st, func_loc(f)


def check_C31(ctx):
    ctx.rule("R1", "grid entropy is minus the sum over 256 levels of p log2 p of the grid rescaled to 8 bits, p the count divided by the total")
    ctx.rule("R2", "conditional entropy weighs log2 of the count over the neighbor's marginal by the joint probability, for the neighbor in the requested direction")
    ctx.rule("R3", "the multi-directional value is the mean over the four directions")
    ctx.rule("R4", "a neighbor grid is a periodic shift by exactly the given offsets")
    ctx.rule("R5", "the analyser's moving window is periodic, centred on its cell and of the requested size, for every cell, sample and channel")
    ctx.rule("R6", "levels that do not occur contribute nothing: no logarithm of, or division by, a bare count of zero")
    q = quantised()
    P = div(C("hist", q), TOTAL)
    want = shannon(P)
    for fn in ("get_grid_entropy", "Phanes.get_grid_entropy"):
        def grid(fn=fn):
            E, t, st, loc = run(ctx, fn, [G])
            empty_levels(ctx, fn, t, loc)
            t = canon(t)
            ctx.ob("R1", fn, decide(t, [want]), loc, f"computes {short(t, 220)}, not {short(want, 160)}")
        ctx.guard("R1", fn, grid)
    for d in (None, 0, 1, 2, 3):
        def cond(d=d):
            if d is None:
                a = ctx.prog.modules["yuca.analyze"].funcs["get_conditional_grid_entropy"].node.args
                n = (a.posonlyargs + a.args)
                dv = a.defaults[1 - len(n)] if len(n) > 1 and len(a.defaults) >= len(n) - 1 else None
                dv = const(dv.value) if isinstance(dv, ast.Constant) and isinstance(dv.value, int) else None
            args = [G] if d is None and dv is None else [G, dv if d is None else const(d)]
            E, t, st, loc = run(ctx, "get_conditional_grid_entropy", args)
            if d is not None:
                empty_levels(ctx, f"get_conditional_grid_entropy:{NAMES[d]}", t, loc)
            t = canon(t)
            s = SHIFTS[d or 0]
            ws = []
            for qn in (C("roll_", q, const(s[0]), const(s[1])),):
                h = C("hist2", q, qn)
                ws.append(shannon(div(h, TOTAL), div(h, C("colsum", h))))
                h = C("hist2", qn, q)
                ws.append(shannon(div(h, TOTAL), div(h, C("rowsum", h))))
            ctx.ob("R2", f"get_conditional_grid_entropy:{'default (top)' if d is None else NAMES[d]}", decide(t, ws), loc, f"computes {short(t, 260)}, not {short(ws[0], 160)}")
        ctx.guard("R2", f"get_conditional_grid_entropy:{d}", cond)
    ctx.guard("R3", "get_multiconditional_grid_entropy", lambda: multi(ctx))
    ctx.guard("R4", "np_shift", lambda: shifts(ctx))
    ctx.guard("R5", "Phanes.get_spatial_entropy", lambda: window(ctx))
    ctx.ob("R1", "self-test: natural logarithms are told apart", decide(canon(neg(C("sum", mul(P, C("log", P))))), [want]) is False)
    ctx.ob("R1", "self-test: a count over another total is told apart", decide(canon(neg(C("sum", mul(div(P, const(2)), C("log2", P))))), [want]) is False)


def empty_levels(ctx, key, t, loc):
    """a level no cell has contributes nothing: neither its logarithm nor a division by its count may be undefined"""
    bad, seen, safe = [], 0, lambda x: x.op in ("where", "ite") or base_name(x) in ("clamp", "maximum", "where", "nan_to_num", "nansum", "clip", "add", "entr", "xlogy")
    for x in walk(t):
        if base_name(x) in ("log", "log2", "log10") and x.args[1]:
            a = x.args[1][0]
            if is_num(a):
                continue
            seen += 1
            if a.op == "poly" and len(a.args) > 1 and any(not m and c > 0 for c, m in a.args) and all(c > 0 for c, _ in a.args):
                continue
            c = canon(a)
            if not contains(a, safe) and contains(c, lambda y: base_name(y) in ("hist", "hist2")) and not contains(a, lambda y: y.op == "item" and y.args[1].op not in ("idx", "const", "tuple", "slice")):
                bad.append(f"the logarithm of {short(c, 80)}")
            elif not contains(a, lambda y: y.op == "item" and y.args[1].op not in ("idx", "const", "tuple", "slice")):
                seen -= 1
        ms = [m for _, m in x.args] if x.op == "poly" else [((x.args[0], cval(x.args[1])),)] if x.op == "pow" and is_num(x.args[1]) else []
        for m in ms:
            for y, e in m:
                if e < 0 and base_name(y) == "sum" and y.args[1] and not contains(t, safe):
                    z = y.args[1][0]
                    part = z.op == "item" and z.args[1].op in ("tuple", "idx") and contains(z.args[1], lambda q: q.op == "idx") or kws(y) or len(y.args[1]) > 1
                    if part and contains(canon(z if z.op != "item" else z.args[0]), lambda q: base_name(q) == "hist2"):
                        bad.append(f"a division by {short(y, 60)}")
    bad = list(dict.fromkeys(bad))
    if contains(t, lambda y: base_name(y) in ("nan_to_num", "nansum")):
        bad = []
    ctx.ob("R6", key, False if bad else True if seen else None, loc, f"a level that no cell has makes the result undefined: {'; '.join(bad)}" if bad else "no logarithm of a count recognised")


def multi(ctx):
    E, t, st, loc = run(ctx, "get_multiconditional_grid_entropy", [G], ("get_conditional_grid_entropy",))
    f = ctx.prog.modules["yuca.analyze"].funcs["get_conditional_grid_entropy"]
    dflt = f.node.args.defaults[-1] if f.node.args.defaults else None
    dflt = const(dflt.value) if isinstance(dflt, ast.Constant) else None
    def drop(y):
        if y.op == "call" and str(y.args[0]).endswith("get_conditional_grid_entropy"):
            k = kws(y)
            a = list(y.args[1])
            d = a[1] if len(a) > 1 else k.get("direction", dflt)
            if a[:1] == [G] or k.get("grid") is G:
                if d is not None and is_num(d) and int(cval(d)) == cval(d):
                    return sym(f"H{int(cval(d))}")
        return None
    t = norm(subst(t, drop))
    if t.op == "call" and base_name(t) == "mean" and t.args[1][0].op == "seq" and t.args[1][0].args:
        xs = t.args[1][0].args
        t = const(0)
        for x in xs:
            t = add(t, div(x, const(len(xs))))
        t = norm(t)
    want = norm(div(add(add(sym("H0"), sym("H1")), add(sym("H2"), sym("H3"))), const(4)))
    ok = True if t is want else False if not contains(t, lambda y: y.op in ("call", "fold", "bigsum", "mu", "havoc", "cell")) else None
    ctx.ob("R3", "get_multiconditional_grid_entropy", ok, loc, f"computes {short(t, 160)}, H0 to H3 being the four directions")


def shifts(ctx):
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            E, t, st, loc = run(ctx, "np_shift", [G, mk("seq", const(a), const(b))])
            t = canon(t)
            want = C("roll_", G, const(a), const(b))
            ok = True if t is want else False if base_name(t) in ("roll_", "edgeshift", "cutshift") or t is G else None
            if t is G and (a, b) == (0, 0):
                ok = True
            ctx.ob("R4", f"np_shift:({a}, {b})", ok, loc, f"the shift by ({a}, {b}) computes {short(t, 120)}")


def window(ctx):
    W = (3, 5, 7, 11, 63)
    for w in W:
        E, t, st, loc = run(ctx, "Phanes.get_spatial_entropy", [G, const(w)], ("get_grid_entropy",))
        for nd in (2, 4):
            dims = [mk("len", mk("attr", G, "shape")), C("len", mk("attr", G, "shape"))]
            u = norm(subst(t, lambda y: const(nd) if y in dims or y.op == "attr" and y.args[1] == "ndim" and y.args[0] is G else None), do_strip=True)
            key = f"window {w}:{nd} axes"
            try:
                one_window(ctx, key, u, nd, w, loc)
            except Odd as e:
                ctx.ob("R5", key, None, loc, str(e))


def one_window(ctx, key, t, nd, w, loc):
    specs = []
    while t.op == "fold" and len(t.args[1]) == 1:
        specs.append(t.args[0])
        init, t = t.args[1][0]
    if t.op != "store" or len(specs) < 2:
        raise Odd("loops over the cells not recognised: " + short(t, 80))
    ks = t.args[1].args if t.args[1].op == "tuple" else (t.args[1],)
    V = t.args[2]
    if len(ks) != nd or not all(k.op == "idx" for k in ks):
        offs = [k for k in ks if k.op != "idx"]
        raise Odd("position written not recognised: " + short(t.args[1], 80))
    shape = [mk("item", mk("attr", G, "shape"), const(i)) for i in range(nd)]
    lens = [extent_of(k) for k in ks]
    ctx.ob("R5", f"{key}:cells", all(a is b for a, b in zip(lens, shape)) or (False if all(x is not None and not contains(x, lambda y: y.op in ("mu", "cell", "havoc")) for x in lens) else None),
           loc, f"entries are computed for {[short(x, 30) if x is not None else '?' for x in lens]}, not for the whole grid")
    if not (V.op == "call" and str(V.args[0]).endswith("get_grid_entropy")):
        raise Odd("entry is not an entropy: " + short(V, 80))
    win = canon_light(V.args[1][-1])
    if win.op != "item" or base_name(win.args[0]) not in ("pad",):
        if win.op == "item" and win.args[0] is (G if nd == 2 else mk("item", G, mk("tuple", ks[0], ks[1], mk("slice", NONE, NONE, NONE), mk("slice", NONE, NONE, NONE)))):
            return ctx.ob("R5", f"{key}:periodic", False, loc, "the window is cut from the grid itself, not from a periodic extension")
        raise Odd("window not recognised: " + short(win, 80))
    p = win.args[0]
    k = kws(p)
    mode = k.get("mode", p.args[1][2] if len(p.args[1]) > 2 else const("constant"))
    ctx.ob("R5", f"{key}:periodic", mode is const("wrap") if is_str(mode) else None, loc, f"the grid is extended with mode {short(mode, 30)}")
    src = p.args[1][0]
    if nd == 2:
        ok = src is G
    else:
        full = mk("slice", NONE, NONE, NONE)
        ok = src in (mk("item", G, mk("tuple", ks[0], ks[1], full, full)), mk("item", G, mk("tuple", ks[0], ks[1])), mk("item", mk("item", G, ks[0]), ks[1]))
    ctx.ob("R5", f"{key}:source", True if ok else False if not contains(src, lambda y: y.op in ("mu", "cell", "havoc", "fold")) else None, loc, f"the window is cut from {short(src, 60)}")
    pw = one_width(k.get("pad_width", p.args[1][1] if len(p.args[1]) > 1 else None))
    sl = win.args[1].args if win.args[1].op == "tuple" else ()
    if pw is None or len(sl) != 2 or not all(s.op == "slice" for s in sl):
        raise Odd("window bounds not recognised")
    for ax, s in enumerate(sl):
        lo, hi = s.args[0], s.args[1]
        if lo is NONE or hi is NONE:
            raise Odd("window bounds not recognised")
        i = ks[nd - 2 + ax]
        size = norm(sub(hi, lo))
        ctx.ob("R5", f"{key}:axis {ax}:size", None if not is_num(size) else cval(size) == 2 * ((w - 1) // 2) + 1, loc, f"the window has {short(size, 40)} cells for a requested size of {w}")
        mid = norm(sub(sub(add(lo, hi), const(1)), add(mul(const(2), i), mul(const(2), pw))))
        ctx.ob("R5", f"{key}:axis {ax}:centre", True if mid is const(0) else False if is_num(mid) or not contains(mid, lambda y: y.op in ("call", "mu", "cell")) else None, loc,
               f"the window from {short(lo, 60)} to {short(hi, 60)} of a grid padded by {short(pw, 30)} is not centred on cell {short(i, 30)}")


def extent_of(ix):
    return ix.args[0] if ix.op == "idx" else None


def canon_light(t):
    while t.op == "call" and base_name(t) in ("array", "asarray", "copy", "numpy", "detach", "cpu", "ravel", "flatten") and t.args[1]:
        t = t.args[1][0]
    return t
