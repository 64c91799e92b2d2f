"""Hash-consed value-graph terms and their normal forms.

A term is an immutable node of the value graph that the abstract interpreter
(engine.py) builds from the source.  Nothing here runs repository code.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

_table = {}


class T:
    __slots__ = ("op", "args", "_h", "uid", "_memo")
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.uid < other.uid


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__ if isinstance(a, (bool, int, float, Fraction)) and not isinstance(a, T) else None, a)
                        for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        T._n += 1
        t.uid = T._n
        t._h = hash(key)
        t._memo = {}
        _table[key] = t
    return t


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, (int, Fraction)):
        return mk("const", Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", v)
        return mk("const", Fraction(str(v)) if "e" not in repr(v) else Fraction(repr(v)))
    if isinstance(v, complex):
        return mk("const", repr(v))
    raise TypeError(v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
UNDEF = mk("undef")


def sym(name):
    return mk("sym", name)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], Fraction)


def is_str(t):
    return t.op == "const" and isinstance(t.args[0], str)


def tuple_t(items):
    return mk("tuple", *items)


# ---------------------------------------------------------------- conditions
def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if is_const(c):
        return const(not truth(cval(c)))
    return mk("not", c)


def truth(v):
    return bool(v)


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in out:
            continue
        if c.op == "and":
            for x in c.args:
                if x not in out:
                    out.append(x)
            continue
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE or c in out:
            continue
        if c.op == "or":
            for x in c.args:
                if x not in out:
                    out.append(x)
            continue
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if is_const(c):
        return a if truth(cval(c)) else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) + cval(b))
    if is_str(a) and is_str(b):
        return const(cval(a) + cval(b))
    if is_num(a) and cval(a) == 0:
        return b
    if is_num(b) and cval(b) == 0:
        return a
    return mk("add", a, b)


def neg(a):
    if is_num(a):
        return const(-cval(a))
    return mk("mul", const(-1), a)


def sub(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) - cval(b))
    if is_num(b) and cval(b) == 0:
        return a
    return mk("add", a, neg(b))


def mul(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) * cval(b))
    if is_num(a) and cval(a) == 1:
        return b
    if is_num(b) and cval(b) == 1:
        return a
    return mk("mul", a, b)


def power(a, b):
    if is_num(a) and is_num(b) and cval(b).denominator == 1 and abs(cval(b)) < 64:
        if not (cval(a) == 0 and cval(b) < 0):
            return const(cval(a) ** int(cval(b)))
    if is_num(b) and cval(b) == 1:
        return a
    return mk("pow", a, b)


def div(a, b):
    if is_num(a) and is_num(b) and cval(b) != 0:
        return const(cval(a) / cval(b))
    if is_num(b) and cval(b) != 0:
        return mul(const(1 / cval(b)), a)
    return mk("mul", a, mk("pow", b, const(-1)))


# ---------------------------------------------------------------- traversal
def subst(t, f, memo=None):
    """rebuild t bottom-up; f(term) may return a replacement (or None)."""
    if memo is None:
        memo = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            if x.op in ("const", "sym"):
                r = x
            else:
                na = tuple(go(a) for a in x.args)
                r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def rebuild(op, args):
    if op == "ite":
        return ite(*args)
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "poly":
        return unpoly(poly_of(args, lambda x: x))
    if op == "eq" and is_const(args[0]) and is_const(args[1]):
        return const(cval(args[0]) == cval(args[1]))
    if op in ("lt", "le") and is_num(args[0]) and is_num(args[1]):
        return const(cval(args[0]) < cval(args[1]) if op == "lt" else cval(args[0]) <= cval(args[1]))
    if op == "lt0" and is_num(args[0]):
        return const(cval(args[0]) < 0)
    return mk(op, *args)


def poly_of(args, atom):
    """re-expand the (possibly rewritten) children of a poly node"""
    r = {}
    for c, m in args:
        q = {(): Fraction(c)}
        for a, e in m:
            if e > 0:
                f = poly(a, atom)
                for _ in range(e):
                    q = pmul(q, f)
            else:
                q = pmul(q, poly(mk("pow", a, const(e)), atom))
        for k, v in q.items():
            r[k] = r.get(k, 0) + v
            if r[k] == 0:
                del r[k]
    return r


def walk(t, seen=None):
    """every distinct subterm."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def leaves(t, conds=()):
    """the branches of nested conditionals at the root: [(conds, leaf)]"""
    if t.op == "ite":
        c, a, b = t.args
        return leaves(a, conds + ((c, True),)) + leaves(b, conds + ((c, False),))
    return [(conds, t)]


# ---------------------------------------------------------------- poly normal form
def poly(t, atom):
    """dict monomial -> coeff; monomial = sorted tuple of (atom, exponent)."""
    if is_num(t):
        return {(): cval(t)} if cval(t) != 0 else {}
    if t.op == "add":
        p = dict(poly(t.args[0], atom))
        for m, c in poly(t.args[1], atom).items():
            p[m] = p.get(m, 0) + c
            if p[m] == 0:
                del p[m]
        return p
    if t.op == "mul":
        p, q = poly(t.args[0], atom), poly(t.args[1], atom)
        return pmul(p, q)
    if t.op == "pow" and is_num(t.args[1]) and cval(t.args[1]).denominator == 1:
        n = int(cval(t.args[1]))
        p = poly(t.args[0], atom)
        if 0 < n <= 6:
            r = {(): Fraction(1)}
            for _ in range(n):
                r = pmul(r, p)
            return r
        if n < 0:
            if len(p) == 1:
                (m, c), = p.items()
                return {tuple((a, e * n) for a, e in m): Fraction(1) / (c ** (-n)) if c else Fraction(0)}
            # canonical content: make leading coefficient 1
            base, lead = monic(p)
            return {((base, n),): Fraction(1) / (lead ** (-n))}
    if t.op == "poly":
        return poly_of(t.args, atom)
    if t.op == "pow" and is_num(t.args[1]):
        return {((mk("pow", unpoly(poly(t.args[0], atom)), t.args[1]), 1),): Fraction(1)}
    r = atom(t)
    if r.op == "poly":
        return poly_of(r.args, lambda x: x)
    if is_num(r):
        return {(): cval(r)} if cval(r) != 0 else {}
    return {((r, 1),): Fraction(1)}


def monic(p):
    items = sorted(p.items(), key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    if not items:
        return const(0), Fraction(1)
    lead = items[0][1]
    q = {m: c / lead for m, c in p.items()}
    return unpoly(q), lead


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = {}
            for a, e in m1 + m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: ae[0].uid))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def unpoly(p):
    items = sorted(p.items(), key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    if not items:
        return const(0)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", *[(c, m) for m, c in items])


IDENT_CALLS = {"detach", "cpu", "clone", "contiguous", "cuda", "deepcopy", "copy", "requires_grad_"}
CASTS = {"to", "float", "double", "half", "type", "numpy", "asarray", "astensor", "from_numpy", "type_as", "astype"}


def strip(t):
    """drop device/dtype casts and copies: the value ignoring precision."""
    def f(x):
        if x.op == "call" and x.args[0] in (IDENT_CALLS | CASTS) and x.args[1]:
            return strip(x.args[1][0])
        if x.op == "call" and x.args[0] in ("tensor", "Parameter", "array") and x.args[1]:
            return strip(x.args[1][0])
        return None
    return subst(t, f)


def norm(t, do_strip=True, memo=None):
    """canonical form: arithmetic as polynomials, conditionals simplified."""
    if do_strip:
        t = strip(t)
    memo = {} if memo is None else memo

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if x in memo:
            return memo[x]
        if x.op in ("add", "mul") or (x.op == "pow" and is_num(x.args[1])):
            # lift conditionals out of arithmetic so that equal branches meet
            r = unpoly(poly(x, go))
        elif x.op == "poly":
            r = unpoly(poly_of(x.args, go))
        elif x.op in ("const", "sym"):
            r = x
        else:
            r = rebuild(x.op, tuple(go(a) for a in x.args))
            r = post(r)
        memo[x] = r
        return r
    return go(t)


def int_atom(t):
    if t.op in ("len", "idx", "numel"):
        return True
    if t.op == "call" and t.args[0] in ("len", "numel", "ndim", "dim", "size"):
        return True
    if t.op == "attr" and t.args[1] == "ndim":
        return True
    if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
        return True
    if t.op == "attr" and t.args[1] in ("external_channels", "internal_channels"):
        return True
    return False


def lt0(p):
    """canonical strict comparison p < 0 (scaled by a positive constant)"""
    d = poly(p, lambda x: x)
    if not d:
        return FALSE
    if all(c.denominator == 1 and all(int_atom(a) and e > 0 for a, e in m) for m, c in d.items()) and any(m for m in d):
        it = sorted(((m, c) for m, c in d.items() if m), key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
        if it[0][1] < 0:            # integers: p < 0  <=>  not (-p - 1 < 0)
            n = {m: -c for m, c in d.items()}
            n[()] = n.get((), 0) - 1
            if n[()] == 0:
                del n[()]
            return not_(mk("lt0", unpoly(n)))
        return mk("lt0", unpoly(d))
    items = sorted(d.items(), key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    lead = abs(items[-1][1])
    q = unpoly({m: c / lead for m, c in d.items()})
    if is_num(q):
        return const(cval(q) < 0)
    return mk("lt0", q)


def elementwise_cond(t):
    return t.op in ("lt", "le", "lt0") or (t.op == "not" and elementwise_cond(t.args[0])) or \
        (t.op == "call" and t.args[0] in ("opBitAnd", "opBitOr", "logical_and", "logical_or") and
         all(elementwise_cond(a) for a in t.args[1]))


def alpha(x):
    """canonical bound index: named by nesting height, not by where the loop stood"""
    spec = x.args[0]
    if x.op in ("over", "bigsum"):
        if len(x.args) < 3 or not isinstance(x.args[2], T) or x.args[2].op != "idx":
            return x
        old = x.args[2]
    else:
        ds = [y.args[1] for a in x.args[1:] for y in walk(a) if y.op == "idx" and y.args[0] is spec and isinstance(y.args[1], int)]
        if not ds:
            return x
        old = mk("idx", spec, max(ds))
    if isinstance(old.args[1], str):
        return x
    h = [int(y.args[1][1:]) for a in x.args[1:] for y in walk(a) if y.op == "idx" and isinstance(y.args[1], str)]
    new = mk("idx", spec, "b%d" % (max(h) + 1 if h else 0))
    go = lambda a: subst(a, lambda y: new if y is old else None)
    return mk(x.op, spec, *[go(a) if isinstance(a, (T, tuple)) else a for a in x.args[1:]])


def post(x):
    if x.op in ("over", "bigsum", "last", "fold"):
        return alpha(x)
    if x.op == "store" and elementwise_cond(x.args[1]):
        return mk("where", x.args[1], x.args[2], x.args[0])
    if x.op == "call" and x.args[0] == "where" and len(x.args[1]) == 3:
        return mk("where", *x.args[1])
    if x.op == "call" and x.args[0] in ("torch.zeros_like", "numpy.zeros_like", "zeros_like"):
        return const(0)
    if x.op == "call" and x.args[0] in ("torch.ones_like", "numpy.ones_like", "ones_like"):
        return const(1)
    if x.op == "lt" and not (is_str(x.args[0]) or is_str(x.args[1])):
        return lt0(sub(x.args[0], x.args[1]))
    if x.op == "le" and not (is_str(x.args[0]) or is_str(x.args[1])):
        return not_(lt0(sub(x.args[1], x.args[0])))
    if x.op == "ite":
        c, a, b = x.args
        a2, b2 = assume(a, c, TRUE), assume(b, c, FALSE)
        if a2 is b2:
            return a2
        return ite(c, a2, b2)
    if x.op == "call" and x.args[0] == "tcat":
        return flatten_tcat(x)
    return x


EMPTY = ("torch.Tensor", "emptyarr", "torch.FloatTensor")


def is_empty_tensor(e):
    e = strip(e)
    return e.op == "call" and e.args[0] in EMPTY and not e.args[1]


def flatten_tcat(x):
    dim, seq = x.args[1][0], x.args[1][1]
    if seq.op == "lcat":
        parts = [p for p in seq.args if not (p.op == "seq" and all(is_empty_tensor(e) for e in p.args))]
        if len(parts) == 1:
            return mk("call", "tcat", (dim, parts[0]), ())
        return mk("call", "tcat", (dim, mk("lcat", *parts)), ()) if parts != list(seq.args) else x
    if seq.op != "seq":
        return x
    out = []
    for e in seq.args:
        if e.op == "call" and e.args[0] == "tcat" and e.args[1][0] is dim and e.args[1][1].op == "seq":
            out.extend(e.args[1][1].args)
        elif is_empty_tensor(e):
            continue
        else:
            out.append(e)
    return mk("call", "tcat", (dim, mk("seq", *out)), ())


def consequences(c, v):
    """atomic facts [(cond, bool)] implied by condition c having truth value v"""
    if c.op == "not":
        return consequences(c.args[0], not v)
    if c.op == "and" and v:
        return [f for x in c.args for f in consequences(x, True)]
    if c.op == "or" and not v:
        return [f for x in c.args for f in consequences(x, False)]
    return [(c, v)]


def assume(t, c, v):
    """rewrite t under the assumption that condition c has truth value v."""
    val = v is TRUE or v is True
    facts = consequences(c, val)
    table = {}
    eqs = {}
    for x, b in facts:
        table[x] = TRUE if b else FALSE
        if b and x.op == "eq":
            p, q = x.args
            if is_const(q):
                eqs[p] = q
            elif is_const(p):
                eqs[q] = p
    table.setdefault(c, TRUE if val else FALSE)
    if not contains(t, lambda x: x in table or (x.op == "eq" and (x.args[0] in eqs or x.args[1] in eqs))):
        return t
    # a condition that is not a truth value itself (an object, a number) is replaced only where it is tested
    tested = {x: b for x, b in table.items() if x.op not in TRUTHS}
    table = {x: b for x, b in table.items() if x.op in TRUTHS}

    def cond(x):
        if x in tested:
            return tested[x]
        if x.op == "not":
            return not_(cond(x.args[0]))
        if x.op in ("and", "or"):
            return (and_ if x.op == "and" else or_)(*[cond(y) for y in x.args])
        if x.op == "ite":
            return ite(cond(x.args[0]), cond(x.args[1]), cond(x.args[2]))
        return subst(x, f)

    def f(x):
        r = table.get(x)
        if r is not None:
            return r
        if tested:
            if x.op == "ite" and contains(x.args[0], lambda y: y in tested):
                c2 = cond(x.args[0])
                if c2 is TRUE or c2 is FALSE:
                    return subst(x.args[1 if c2 is TRUE else 2], f)
                return ite(c2, subst(x.args[1], f), subst(x.args[2], f))
            if x.op in ("not", "and", "or") and any(contains(y, lambda z: z in tested) for y in x.args):
                return cond(x)
        if x.op == "eq" and eqs:
            p, q = x.args
            if p in eqs and is_const(q):
                return const(cval(eqs[p]) == cval(q))
            if q in eqs and is_const(p):
                return const(cval(eqs[q]) == cval(p))
        return None
    return subst(t, f)


TRUTHS = {"eq", "ne", "lt0", "le0", "lt", "le", "gt", "ge", "in", "and", "or", "not", "isinstance", "const", "is", "hasattr"}


def under(t, facts):
    for c, v in facts:
        t = assume(t, c, TRUE if v else FALSE)
    return t


def holds(c, facts):
    """a condition under assumptions: TRUE, FALSE or what remains of it"""
    yes, no = const("<yes>"), const("<no>")
    r = under(ite(c, yes, no), facts)

    def back(x):
        if x is yes or x is no:
            return TRUE if x is yes else FALSE
        return or_(and_(x.args[0], back(x.args[1])), and_(not_(x.args[0]), back(x.args[2]))) if x.op == "ite" else x
    return back(r)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return "..."
    d = depth + 1
    o, a = t.op, t.args
    if o == "const":
        v = a[0]
        if isinstance(v, Fraction):
            return str(int(v)) if v.denominator == 1 else repr(float(v))
        return repr(v)
    if o == "sym":
        return str(a[0])
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "seq":
        return "[" + ", ".join(show(x, d) for x in a) + "]"
    if o == "add":
        return f"({show(a[0], d)} + {show(a[1], d)})"
    if o == "mul":
        return f"{show(a[0], d)}*{show(a[1], d)}"
    if o == "pow":
        return f"{show(a[0], d)}^{show(a[1], d)}"
    if o == "poly":
        parts = []
        for c, m in a:
            s = "*".join((show(x, d) + (f"^{e}" if e != 1 else "")) for x, e in m)
            if c == 1 and s:
                parts.append(s)
            else:
                cs = str(c) if c.denominator == 1 else f"{float(c):g}"
                parts.append(cs + ("*" + s if s else ""))
        return "(" + " + ".join(parts) + ")"
    if o == "ite":
        return f"[{show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)}]"
    if o == "call":
        f = a[0] if isinstance(a[0], str) else show(a[0], d)
        xs = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{f}({', '.join(xs)})"
    return f"{o}(" + ", ".join(show(x, d) if isinstance(x, (T, tuple)) else str(x) for x in a) + ")"


# ---------------------------------------------------------------- equality by cases
def first_cond(t):
    for x in order(t):
        if x.op == "ite":
            c = x.args[0]
            for a in atoms(c):
                return a
    return None


def atoms(c):
    if c.op in ("not",):
        yield from atoms(c.args[0])
    elif c.op in ("and", "or"):
        for x in c.args:
            yield from atoms(x)
    elif c.op == "ite":
        for x in c.args:
            yield from atoms(x)
    elif not is_const(c):
        yield c


def order(t):
    """deterministic outside-in traversal of distinct subterms"""
    seen, queue = set(), [t]
    while queue:
        x = queue.pop(0)
        if isinstance(x, tuple):
            queue.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        queue.extend(x.args)


class Budget(Exception):
    pass


def differ(a, b, facts=(), budget=None, do_strip=True):
    """None if a and b are equal for every truth assignment of their conditions;
    otherwise (facts, a', b') for the first assignment under which they differ."""
    if budget is None:
        budget = [4000]
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    a, b = norm(a, do_strip), norm(b, do_strip)
    if a is b:
        return None
    c = first_cond(a) or first_cond(b)
    if c is None:
        ca, cb = a, b
        if same_random(ca, cb):
            return None
        return (facts, a, b)
    for v in (True, False):
        if contradicts(facts, c, v):
            continue
        r = differ(assume(a, c, v), assume(b, c, v), facts + ((c, v),), budget, do_strip)
        if r is not None:
            return r
    return None


def contradicts(facts, c, v):
    if c.op == "eq" and v:
        for k, w in facts:
            if k.op == "eq" and w:
                x = set(k.args) & set(c.args)
                if x and any(is_const(p) for p in k.args) and any(is_const(p) for p in c.args) \
                        and not (set(k.args) == set(c.args)):
                    return True
    return False


# ---------------------------------------------------------------- random interpretation
def interp(t, seed, memo=None):
    """numeric value of a term under the seed-th random interpretation: symbols
    and uninterpreted operations are random (but functional), arithmetic and the
    listed real functions have their meaning."""
    import hashlib
    import math
    memo = {} if memo is None else memo

    def h(*key):
        d = hashlib.sha256(repr((seed,) + key).encode()).digest()
        return 0.15 + 0.7 * int.from_bytes(d[:6], "big") / 2 ** 48

    def rd(v):
        return float(f"{v:.7g}") if isinstance(v, float) else v

    def go(x):
        if isinstance(x, tuple):
            return tuple(rd(go(y)) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        o, a = x.op, x.args
        try:
            if o == "const":
                v = a[0]
                r = float(v) if isinstance(v, Fraction) else (h("c", repr(v)))
            elif o == "sym":
                r = h("sym", a[0])
                if seed >= WIDE + 6:
                    r = 6.0 * (r - 0.5)
            elif o == "add":
                r = go(a[0]) + go(a[1])
            elif o == "mul":
                r = go(a[0]) * go(a[1])
            elif o == "pow":
                b, e = go(a[0]), go(a[1])
                r = b ** e if b >= 0 or float(e).is_integer() else h("pow", rd(b), rd(e))
            elif o == "poly":
                r = 0.0
                for c, m in a:
                    p = float(c)
                    for y, e in m:
                        p *= go(y) ** e
                    r += p
            elif o == "lt0":
                r = 1.0 if go(a[0]) < 0 else 0.0
            elif o == "lt":
                r = 1.0 if go(a[0]) < go(a[1]) else 0.0
            elif o == "le":
                r = 1.0 if go(a[0]) <= go(a[1]) else 0.0
            elif o == "not":
                r = 1.0 - go(a[0])
            elif o in ("where", "ite"):
                r = go(a[1]) if go(a[0]) > 0.5 else go(a[2])
            elif o == "eq":
                r = 1.0 if abs(go(a[0]) - go(a[1])) < 1e-9 else 0.0
            elif o == "and":
                r = min(go(y) for y in a)
            elif o == "or":
                r = max(go(y) for y in a)
            elif o == "call" and isinstance(a[0], str) and not a[2] and a[0] in (
                    "exp", "abs", "sqrt", "cos", "sin", "log", "clamp", "min_py", "max_py", "maximum", "minimum",
                    "sigmoid", "tanh", "relu"):
                v = [go(y) for y in a[1]]
                n = a[0]
                if n == "exp":
                    r = math.exp(min(v[0], 50))
                elif n == "abs":
                    r = abs(v[0])
                elif n == "sqrt":
                    r = math.sqrt(abs(v[0]))
                elif n == "cos":
                    r = math.cos(v[0])
                elif n == "sin":
                    r = math.sin(v[0])
                elif n == "log":
                    r = math.log(abs(v[0]) + 1e-9)
                elif n == "clamp" and len(v) == 3 and NONE not in a[1]:
                    r = min(max(v[0], v[1]), v[2])
                elif n in ("min_py", "minimum") and len(v) >= 2:
                    r = min(v)
                elif n in ("max_py", "maximum") and len(v) >= 2:
                    r = max(v)
                elif n == "sigmoid":
                    r = 1 / (1 + math.exp(-v[0]))
                elif n == "tanh":
                    r = math.tanh(v[0])
                elif n == "relu":
                    r = max(v[0], 0.0)
                else:
                    r = h(n, tuple(rd(y) for y in v))
            else:
                r = h(o, *[rd(go(y)) for y in a])
                if seed >= WIDE and o == "call" and isinstance(a[0], str) and a[0].startswith("."):
                    # what a layer, growth function or method gives: any sign and size
                    r = 8.0 * (r - 0.5)
                if seed >= WIDE + 8 and o == "item" and isinstance(a[0], T) and a[0].op == "sym":
                    r = 6.0 * (r - 0.5)
                if seed >= WIDE + 6 and o in ("bigsum", "fold"):
                    r = 6.0 * (r - 0.5)
                if seed >= WIDE + 6 and o == "attr" and a[1] in ("mu", "sigma", "omega", "amplitudes", "coefficients", "dt"):
                    r = 6.0 * (r - 0.5)
        except (OverflowError, ZeroDivisionError, ValueError):
            r = h("undefined", o)
        memo[x] = r
        return r
    return go(t)


WIDE = 12


def same_random(a, b, trials=24):
    for s in range(trials):
        x, y = interp(a, s), interp(b, s)
        if not (isinstance(x, float) and isinstance(y, float)):
            if x != y:
                return False
        elif abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
            return False
    return True
