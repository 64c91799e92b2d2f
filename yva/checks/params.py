"""C03: layout of flat parameter vectors as read (get_params) and as written (set_params)."""
from collections import Counter
import ast
from ..lib import *
from ..terms import *
from .steps import SELF

PEEL = {"ravel", "numpy", "cpu", "detach", "flatten", "astype", "asarray", "astensor", "tensor", "array", "Parameter", "clone", "copy",
        "reshape", "view", "to", "double", "float", "squeeze", "cuda", "view_as", "from_numpy", "type_as", "contiguous", "deepcopy"}


class Unclear(Exception):
    pass


def canon(t):
    """loop indices by the sequence they run over, wherever the loop stands"""
    def f(x):
        if x.op == "idx":
            return mk("idx", canon(x.args[0]), "#")
        return None
    return subst(t, f)


def peel(t):
    while True:
        if t.op == "call" and t.args[0] in PEEL and t.args[1] and not reorders(t):
            t = t.args[1][0]
        elif t.op == "view":
            t = t.args[1]
        else:
            return t


def reorders(t):
    """ravel/flatten/reshape in another element order"""
    return t.args[0] in ("ravel", "flatten", "reshape", "copy", "array") and \
        any(k == "order" for k, _ in t.args[2]) or any(is_str(x) for x in t.args[1][1:] if isinstance(x, T))


# ------------------------------------------------------------------ reading
def read_layout(v):
    """list of ('leaf', term) / ('loop', spec, [...])"""
    o, a = v.op, v.args
    if o in ("seq", "tuple", "lcat"):
        return [s for x in a for s in read_layout(x)]
    if o == "over":
        return [("loop", canon(a[0]), read_layout(a[1]))]
    if o == "call":
        n, xs = a[0], a[1]
        if n in ("append",):
            return read_layout(xs[0]) + read_layout(xs[1])
        if n == "appendover":
            return read_layout(xs[0]) + read_layout(xs[1])
        if n in ("npcat", "tcat", "tcat_", "stack", "numpy.hstack"):
            return read_layout(xs[-1] if n != "numpy.hstack" else xs[0])
        if n in PEEL and xs and not reorders(v):
            return read_layout(xs[0])
        if n in ("numpy.zeros", "numpy.empty", "torch.zeros") and xs and xs[0] in (const(0), mk("tuple", const(0))):
            return []
        if n == "list" and not xs:
            return []
    if o == "view":
        return read_layout(a[1])
    if o == "fold":
        init, nxt = a[1][0]
        inner = read_layout(nxt)
        if len(inner) > 1 and inner[-1][0] == "leaf" and inner[-1][1].op == "m" and not any(t.op == "m" for t in leaf_terms(inner[:-1])) \
                and "revers" not in str(a[0]) and "::-1" not in str(a[0]):
            # what a later round reads comes before what earlier rounds read
            return [("loop back to front", canon(a[0]), inner[:-1])] + read_layout(init)
        if not inner or inner[0][0] != "leaf" or inner[0][1].op != "m":
            raise Unclear(f"loop over {short(a[0], 60)} does not append to what was read before")
        return read_layout(init) + [("loop", canon(a[0]), inner[1:])]
    if o == "const" and (a[0] is None or a[0] == ""):
        return []
    if v is UNDEF:
        return []
    return [("leaf", canon(v))]


def option_names(prog):
    """attributes that only ever hold a constructor argument: self.x = query_kwargs("x", default, **kwargs)"""
    if not hasattr(prog, "_options"):
        opt, other = set(), set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            f = getattr(n.value, "func", None)
                            asks = isinstance(n.value, ast.Call) and getattr(f, "id", getattr(f, "attr", "")) in ("query_kwargs", "get")
                            (opt if asks else other).add(t.attr)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Attribute):
                    other.add(n.target.attr)
        prog._options = opt - other
    return prog._options


# ------------------------------------------------------------------ writing
class Writes:
    def __init__(self, E, vec, floc, leaf_lengths=()):
        self.E, self.vec, self.floc = E, vec, floc
        self.cells = {}
        for L in E.loopinfo.values():
            for k in L["carried"]:
                if k[0] == "cell":
                    self.cells["cell:%d" % k[1].uid] = k[1]
        self.writes = []
        self.altered = []
        for ev in E.events:
            self.collect(ev)

    def resolve(self, t, fold=None):
        """name of the object behind a loop-carried content"""
        def f(x):
            if x.op == "mu" and x.args[1] in self.cells:
                return self.cells[x.args[1]]
            return None
        return subst(t, f)

    def collect(self, ev):
        if ev.kind == "mutate":
            target, val = ev.data["target"], ev.data["value"]
        elif ev.kind == "setattr":
            target, val = mk("attr", ev.data["target"], ev.data["name"]), ev.data["content"]
        elif ev.kind == "call" and ev.data["name"] in (".set_params",) and len(ev.data["args"]) > 1:
            b = ev.data["args"][0]
            target = mk("call", ".get_params", (b,), ())
            val = ev.data["args"][1]
        else:
            return
        if not isinstance(val, T) or not contains(val, lambda y: y is self.vec):
            return
        v = norm(val, do_strip=False)
        if mk("attr", SELF, "filter_params") in set(walk(v)):
            v = assume(v, mk("attr", SELF, "filter_params"), FALSE)     # documented filtering mode
        for g in ev.guards:
            v = assume(v, norm(g, do_strip=False), TRUE)
        v = norm(v)
        base = peel(v)
        if base is self.vec:
            key = None
        elif base.op == "item" and base.args[0] is self.vec:
            key = base.args[1]
        else:
            p = peel(target)
            if contains(p, lambda y: y.op == "call" and y.args[0] == ".parameters") or ev.kind == "call":
                self.altered.append((ev, canon(self.resolve(p)), v))
            return
        p = canon(self.resolve(peel(target)))
        w = dict(ev=ev, target=p, key=key, loops=tuple(l[0] for l in ev.loops))
        if self.writes and self.writes[-1]["target"] is p and self.writes[-1]["loops"] == w["loops"] and \
                exclusive(self.writes[-1]["ev"].guards, ev.guards):
            self.writes[-1].setdefault("alt", []).append(w)
            return
        self.writes.append(w)

    # -------- symbolic lengths: Counter of ('numel', X) | ('loop', spec, items) | ('base', L, var)
    def numel(self, t):
        if t.op == "ite":
            a, b = self.numel(t.args[1]), self.numel(t.args[2])
            if a == b:
                return a
            raise Unclear(f"length {short(t, 80)}")
        if t.op == "numel":
            return ("numel", self.obj(t.args[0]))
        if t.op == "call" and t.args[0] in ("prod", "numel", "len") and t.args[1]:
            x = t.args[1][0]
            if t.args[0] == "prod":
                return self.shape_of(x)
            return ("numel", self.obj(x)) if t.args[0] == "numel" else self.flat(x, t)
        if t.op == "len":
            if t.args[0].op == "call" and t.args[0].args[0] == ".get_params":
                return ("numel", canon(t.args[0]))
            return self.flat(t.args[0], t)
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and t.args[1] is const(0):
            return self.flat(t.args[0].args[0], t)
        if t.op == "attr" and t.args[1] == "size":
            return ("numel", self.obj(t.args[0]))
        if t.op == "attr" and t.args[0] is SELF and t.args[1] in option_names(self.E.prog):
            return ("option", t.args[1])        # a number the user chose at construction
        raise Unclear(f"length {short(t, 80)}")

    def flat(self, x, t):
        """number of rows of x: its size only when x is one-dimensional"""
        o = self.obj(x)
        if not (x.op == "call" and x.args[0] in ("ravel", "flatten")) and \
                contains(o, lambda y: y.op == "call" and y.args[0] == ".parameters"):
            return ("rows", o)
        return ("numel", o)

    def shape_of(self, x):
        if x.op == "ite":
            a, b = self.shape_of(x.args[1]), self.shape_of(x.args[2])
            if a == b:
                return a
        if x.op == "attr" and x.args[1] == "shape":
            return ("numel", self.obj(x.args[0]))
        raise Unclear(f"shape {short(x, 80)}")

    def obj(self, x):
        x = peel(x)
        if x.op == "ite":
            a, b = self.obj(x.args[1]), self.obj(x.args[2])
            if a is b:
                return a
        if x.op == "m" and self.menv and x in self.menv[-1]:
            return self.menv[-1][x]
        return canon(self.resolve(x))

    menv = []
    fdepth = None

    def offset(self, t):
        t = norm(t)
        p = poly(t, lambda y: y)
        out = Counter()
        for m, c in p.items():
            if m == ():
                if c.denominator != 1:
                    raise Unclear("fractional offset")
                out[("const",)] += int(c)
                continue
            if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                for k, n in self.cursor(m[0][0]).items():
                    out[k] += n * int(c)
            else:
                raise Unclear(f"offset {short(t, 100)}")
        return +out

    def cursor(self, t):
        if t.op == "mu":
            return Counter({("base", t.args[0], t.args[1]): 1})
        if t.op == "m":
            return Counter({("m", t.args[0], t.args[1]): 1})
        if t.op == "fold":
            (init, nxt) = t.args[1][0]
            parts = t.args[1]
            depth = self.fdepth if self.fdepth is not None else min([y.args[0] for p in parts for z in p for y in walk(z) if y.op == "m"], default=0)
            prev = self.menv[-1] if self.menv else {}
            env = dict(prev)
            # the fold's own memory cells: position n in parts
            for y in {y for p in parts for z in p for y in walk(z) if y.op == "m" and y.args[0] == depth}:
                if y.args[1] < len(parts):
                    x = peel(parts[y.args[1]][0])
                    x = prev.get(x) if x.op == "m" else canon(self.resolve(x))
                    if x is not None:
                        env[y] = x
            keep = self.fdepth
            self.menv = self.menv + [env]
            self.fdepth = depth + 1
            try:
                inner = self.offset(nxt)
            finally:
                self.menv = self.menv[:-1]
                self.fdepth = keep
            own = [k for k in inner if k[0] == "m"]
            if len(own) != 1 or inner[own[0]] != 1:
                raise Unclear("cursor is not advanced from its previous value")
            del inner[own[0]]
            out = Counter(self.offset(init))
            out[("loop", canon(t.args[0]), tuple(sorted(inner.items(), key=str)))] += 1
            return out
        if t.op == "ite":
            a, b = self.cursor_any(t.args[1]), self.cursor_any(t.args[2])
            if a == b:
                return a
        if t.op == "last":
            raise Unclear(f"cursor {short(t, 80)}")
        return Counter({self.numel(t): 1})

    def cursor_any(self, t):
        return self.offset(t)

    # -------- the tree of writes
    def tree(self):
        def build(ws, depth):
            out = []
            i = 0
            while i < len(ws):
                w = ws[i]
                if len(w["loops"]) > depth:
                    L = w["loops"][depth]
                    j = i
                    while j < len(ws) and len(ws[j]["loops"]) > depth and ws[j]["loops"][depth] == L:
                        j += 1
                    out.append(("loop", L, build(ws[i:j], depth + 1)))
                    i = j
                else:
                    out.append(("leaf", w))
                    i += 1
            return out
        return build(self.writes, 0)

    def layout(self, nodes=None):
        nodes = self.tree() if nodes is None else nodes
        out = []
        for n in nodes:
            if n[0] == "leaf":
                out.append(("leaf", n[1]["target"]))
            else:
                out.append(("loop", canon(norm(self.E.loopinfo[n[1]]["spec"])), self.layout(n[2])))
        return out


def exclusive(g1, g2):
    a = {norm(g, do_strip=False) for g in g1}
    return any(not_(norm(g, do_strip=False)) in a for g in g2)


def check_cursor(ctx, W, name, scalar_targets=(), R="R2"):
    """offsets of the slices written, in order; returns nothing, records obligations"""

    def start_stop(w):
        k = w["key"]
        if k is None:
            return const(0), None
        if k.op == "slice":
            if not (k.args[2] is NONE or k.args[2] is const(1)):
                raise Unclear("strided slice")
            s = const(0) if k.args[0] is NONE else k.args[0]
            return s, (None if k.args[1] is NONE else k.args[1])
        return k, add(k, const(1))

    def simplify(t, w):
        t = norm(t, do_strip=False)
        for g in w["ev"].guards:
            t = assume(t, norm(g, do_strip=False), TRUE)
        return norm(t)

    def numel_of(w):
        return ("numel", w["target"])

    def one(w, acc):
        lab = f"{name}:{short(w['target'], 70)}"
        s, e = start_stop(w)
        s = simplify(s, w)
        off = W.offset(s)
        ctx.ob(R, f"{lab}:start", off == +acc, w["ev"].loc,
               f"the slice written to {short(w['target'], 80)} starts at {short(s, 120)}, not right after the segments written before it")
        if e is None:
            return Counter({numel_of(w): 1}), True
        length = W.offset(simplify(sub(e, s), w))
        scalar = length == Counter({("const",): 1})
        ok = length == Counter({numel_of(w): 1}) or scalar and w["target"] in scalar_targets
        ctx.ob(R, f"{lab}:length", ok, w["ev"].loc,
               f"the slice written to {short(w['target'], 80)} has length {short(simplify(sub(e, s), w), 120)}, not that object's size")
        return length, False

    def go(nodes, acc):
        total = Counter()
        openend = False
        for n in nodes:
            if openend:
                ctx.ob(R, f"{name}:after-rest", False, W.floc, "a segment is written after one that takes the whole rest of the vector")
            if n[0] == "leaf":
                ln, openend = one(n[1], acc + total)
                for w in n[1].get("alt", []):
                    one(w, acc + total)
                total += ln
            else:
                L = n[1]
                info = W.E.loopinfo[L]
                spec = norm(info["spec"])
                cands = cursors(W, n, start_stop)
                if len(cands) != 1:
                    # no loop-carried cursor: every iteration reads the same place
                    if not cands:
                        ctx.ob(R, f"{name}:{short(spec, 60)}:cursor", False if not index_based(n, L) else None, W.floc,
                               f"the position read from the vector does not advance over {short(spec, 80)}")
                        return total
                    raise Unclear("several cursors " + str([c[0] for c in cands]))
                key, init, nxt = cands[0]
                nm = W.E.mu_name(key)
                if os.environ.get("YVA_DEBUG"):
                    print("ENTER", W.offset(init), "\n  WANT", acc + total)
                ctx.ob(R, f"{name}:{short(spec, 70)}:enter", W.offset(init) == +(acc + total), W.floc,
                       f"on entering the loop over {short(spec, 80)} the position is {short(norm(init), 120)}, not the end of the previous segment")
                base = Counter({("base", L, nm): 1})
                t = go(n[2], base)
                ctx.ob(R, f"{name}:{short(spec, 70)}:advance", W.offset(nxt) == +(base + t), W.floc,
                       f"each iteration over {short(spec, 80)} moves the position to {short(norm(nxt), 160)}, not past what it wrote")
                total[("loop", canon(spec), tuple(sorted(t.items(), key=str)))] += 1
        return total
    go(W.tree(), Counter())


def cursors(W, node, start_stop):
    """loop-carried variables of this loop that give the positions read in it"""
    L = node[1]
    wanted = set()
    for c in node[2]:
        terms = []
        if c[0] == "leaf":
            terms = [start_stop(w)[0] for w in [c[1]] + c[1].get("alt", [])]
        else:
            terms = [k[1] for k in cursors(W, c, start_stop)]
        for t in terms:
            for y in walk(norm(t)):
                if y.op == "mu" and y.args[0] == L:
                    wanted.add(y.args[1])
    return [(key, init, nxt) for key, (init, nxt) in W.E.loopinfo[L]["carried"].items()
            if nxt is not None and W.E.mu_name(key) in wanted and key[0] in ("loc", "heap")]


def leaves_of(nodes):
    for n in nodes:
        if n[0] == "leaf":
            yield n[1]
            yield from n[1].get("alt", [])
        else:
            yield from leaves_of(n[2])


def loops_of(nodes):
    for n in nodes:
        if n[0] == "loop":
            yield n[1]
            yield from loops_of(n[2])


def index_based(n, L):
    return any(contains(w["key"], lambda y: y.op == "idx") for w in leaves_of([n]) if w["key"] is not None)


def leaf_terms(ls):
    for l in ls:
        if l[0] == "leaf":
            if l[1].op == "ite":
                for _, y in leaves(l[1]):
                    yield from leaf_terms(read_layout(y))
            yield l[1]
        else:
            yield from leaf_terms(l[2])


def show_layout(ls):
    return "[" + ", ".join(short(l[1], 60) if l[0] == "leaf" else f"each({short(l[1], 50)}): {show_layout(l[2])}" for l in ls) + "]"


def drop_empty(ls):
    return [l for l in ls if not (l[0] == "loop" and not drop_empty(l[2]))]


VECTOR_CLASSES = ["CCA", "MetaCA", "CODE", "RandomStepCA", "Lenia", "NCA", "RxnDfn", "CPPN", "CPPNPlus", "ParamsAgent"]
SCALARS = {"RxnDfn": ("diffusion_u", "diffusion_v", "f", "k")}
VEC = sym("params")


NARROWING = {".half", ".bfloat16", ".short", ".char", ".byte", ".int", ".long", ".round", ".round_", "torch.round", "numpy.round", "numpy.around", "numpy.rint",
             "numpy.float16", "numpy.float32", "numpy.half", "numpy.single", "numpy.int32", "numpy.int64", "torch.trunc", "numpy.trunc", "numpy.floor", "torch.floor"}
TYPED = {"to", "type", "astype", "tensor", "as_tensor", "array", "asarray", "full", "ascontiguousarray"}
NARROW_TYPES = ("float16", "float32", "half", "bfloat16", "single", "int", "long", "short", "uint", "<f2", "<f4", "f2", "f4")


def precision(ctx, rule, what):
    """no call on the way converts the values to a type (or rounds them to digits) that cannot hold them"""
    seen, n = set(), 0
    for E in ctx.engines:
        for e in E.events:
            if e.kind != "call" or not isinstance(e.data.get("name"), str):
                continue
            name, args = e.data["name"], [x for x in e.data.get("args") or () if isinstance(x, T)]
            base = name.split(".")[-1]
            if base not in TYPED and name not in NARROWING:
                continue
            n += 1
            opts = args[1:] + [x for x in (e.data.get("kw") or {}).values() if isinstance(x, T)]
            named = [o for o in opts for y in walk(o) if y.op in ("ext", "attr", "const") and isinstance(y.args[-1], str) and y.args[-1].strip("'").split(".")[-1].startswith(NARROW_TYPES)]
            bad = name in NARROWING or base in TYPED and named
            sizes = not args or is_const(args[0]) or contains(args[0], lambda y: y.op == "attr" and str(y.args[1]) in ("shape", "kernel_radius", "external_channels", "internal_channels") or
                                                               y.op == "const" and y.args[0] in ("radius", "kernel_radius"))
            if bad and not sizes and (e.loc, name) not in seen:
                seen.add((e.loc, name))
                ctx.ob(rule, f"{e.fn.split('.')[-2] if '.' in e.fn else ''}.{e.fn.split('.')[-1]}:{base}", False, e.loc, f"{what} pass through {name}({', '.join(short(x, 40) for x in args)}), which loses digits")
    ctx.ob(rule, "conversions", True if n else None, "", f"{n} conversions looked at")


def check_C03(ctx):
    ctx.rule("R1", "the sequence of segments read by get_params equals the sequence of segments written by set_params")
    ctx.rule("R2", "the slices written are contiguous: each starts where the previous ended and has its target's size, in every loop")
    ctx.rule("R3", "the values written are the slice itself (reshaped), unmodified")
    ctx.rule("R4", "the neighborhood kernel in use after setting is built from the slice stored as kernel parameters")
    ctx.rule("R5", "environment wrappers delegate reading and setting to their CA unchanged")
    prog = ctx.prog
    for cls in VECTOR_CLASSES:
        try:
            ctx.guard("R1", cls, lambda: vector(ctx, cls))
        except Unclear as e:
            ctx.ob("R1", cls, None, "", str(e))
    for cls in ("SimpleHaltingWrapper", "HaltingWrapper", "RandomWrapper"):
        def wrap():
            fg, fs = prog.method(cls, "get_params"), prog.method(cls, "set_params")
            Eg = ctx.engine()
            v, st = Eg.run(fg, selfcls=prog.find_class(cls))
            ctx.note_units(Eg, fg)
            ca = mk("attr", SELF, "ca")
            t = Eg.deref(v, st)
            ctx.ob("R5", f"{cls}.get_params", t is mk("call", ".get_params", (ca,), ()), func_loc(fg), f"returns {short(t, 100)}")
            Es = ctx.engine()
            vec = sym([x.arg for x in fs.node.args.args][1])
            Es.run(fs, selfcls=prog.find_class(cls))
            ctx.note_units(Es, fs)
            calls = [e for e in Es.events if e.kind == "call" and e.data["name"] == ".set_params"]
            ok = len(calls) == 1 and calls[0].data["args"][0] is ca and calls[0].data["args"][1] is vec and not calls[0].guards
            ctx.ob("R5", f"{cls}.set_params", ok, func_loc(fs), "does not pass the vector on to its CA unchanged")
        ctx.guard("R5", cls, wrap)
    ctx.rule("R6", "no conversion between reading and setting loses digits of the values")
    ctx.guard("R6", "precision", lambda: precision(ctx, "R6", "parameters"))
    ctx.rule("R7", "the flat kernel parameters taken from kernel arguments list every argument once, in order")
    ctx.guard("R7", "update_kernel_params", lambda: flat_kernel(ctx))


def flat_kernel(ctx):
    for cls in ("CA", "CCA"):
        f = ctx.prog.method(cls, "update_kernel_params")
        arg = f.node.args.args[1].arg
        for names in (("parameters",), ("amplitudes", "means", "standard_deviations"), ("b", "a")):
            vals = [sym("<" + n + ">") for n in names]
            d = mk("dict", NONE, *[mk("tuple", const(n), x) for n, x in zip(names, vals)])
            E = ctx.engine()
            v, st = E.run(f, [d], selfcls=ctx.prog.find_class(cls))
            ctx.note_units(E, f)
            p = E.heapget(st, (SELF, "a", "kernel_params"))
            t = norm(E.deref(p, st)) if p is not None else NONE
            lab = f"{cls}.update_kernel_params:{len(names)}:{names[0]}"
            try:
                got = [x[1] for x in read_layout(t) if x[0] == "leaf"] if all(x[0] == "leaf" for x in read_layout(t)) else None
            except Unclear:
                got = None
            got = got and [peel(norm(x)) for x in got]
            ok = None if got is None else True if got == vals else False if all(x in vals for x in got) else None
            ctx.ob("R7", lab, ok, func_loc(f), f"the arguments {', '.join(names)} become {short(t, 120)}")


def fresh_part(lay):
    """is part of the vector written into an object created by set_params itself"""
    if isinstance(lay, T):
        return contains(lay, lambda x: x.op == "ref")
    return isinstance(lay, (list, tuple)) and any(fresh_part(x) for x in lay)


def vector(ctx, cls, R=("R1", "R2", "R3", "R4")):
    """reading and writing the parameter vector of one class agree"""
    prog = ctx.prog
    fg, fs = prog.method(cls, "get_params"), prog.method(cls, "set_params")
    Eg = ctx.engine()
    v, st = Eg.run(fg, selfcls=prog.find_class(cls))
    ctx.note_units(Eg, fg)
    Es = ctx.engine()
    argn = [x.arg for x in fs.node.args.args][1]
    vec = sym(argn)
    _, st2 = Es.run(fs, selfcls=prog.find_class(cls))
    ctx.note_units(Es, fs)
    W = Writes(Es, vec, func_loc(fs))
    val = Eg.deref(v, st)
    leafset = set(leaf_terms(read_layout(norm(val, do_strip=False))))
    W.altered = [x for x in W.altered if x[1] in leafset]
    for ev, p, val in W.altered:
        ctx.ob(R[2], f"{cls}:{short(p, 80)}", False, ev.loc, f"{short(p, 80)} is set to {short(val, 200)}, not to its segment of the vector")
    if not W.altered:
        ctx.ob(R[2], cls, True, func_loc(fs))
    val = Eg.deref(v, st)
    writes = drop_empty(W.layout())
    if cls == "ParamsAgent":
        val = assume(val, mk("attr", SELF, "filter_params"), FALSE)
    # optional segments: guards like 'kernel_params is not None'
    variants = leaves(norm(val, do_strip=False)) or [((), val)]
    best = None
    for facts, leaf in variants:
        lay = drop_empty(read_layout(leaf))
        w2 = [l for l in writes]
        ws = [w for w in W.writes if not contradicted(w["ev"].guards, facts)]
        W2 = object.__new__(Writes)
        W2.__dict__.update(W.__dict__)
        W2.writes = ws
        w2 = drop_empty(W2.layout())
        ctx.ob(R[0], f"{cls}({facts_text(facts)[:60]})" if len(variants) > 1 else cls, lay == w2 or (None if fresh_part(w2) else False), func_loc(fs),
               f"get_params reads {show_layout(lay)} but set_params writes {show_layout(w2)}")
    scal = [mk("attr", SELF, a) for a in SCALARS.get(cls, ())]
    check_cursor(ctx, W, cls, scal, R[1])
    if cls in ("CCA", "MetaCA", "CODE", "RandomStepCA", "NCA"):
        kp = Es.heapget(st2, (SELF, "a", "kernel_params"))
        nk = Es.heapget(st2, (SELF, "a", "neighborhood_kernels"))
        if kp is None or nk is None:
            ctx.ob(R[3], cls, False, func_loc(fs), "set_params leaves the kernel parameters or the kernel unchanged")
        else:
            seg = [y for y in walk(norm(Es.deref(kp, st2))) if y.op == "item" and y.args[0] is vec]
            kk = norm(Es.deref(nk, st2))
            ok = bool(seg) and any(contains(kk, lambda y: y is s) for s in seg)
            ctx.ob(R[3], cls, ok, func_loc(fs), "the kernel is not built from the kernel segment of the vector")
            old, kv = mk("attr", SELF, "neighborhood_kernels"), norm(Es.deref(kp, st2))
            if contains(kk, lambda y: y is old):
                for facts, leaf in leaves(kk):
                    if leaf is old:
                        same = under(kv, list(facts)) is mk("attr", SELF, "kernel_params")
                        ctx.ob(R[3], f"{cls}:kept", same, func_loc(fs), f"when {facts_text(facts)} the kernel parameters are set but the kernel stays as it was")


def contradicted(guards, facts):
    t = set()
    for c, v in facts:
        for k, b in consequences(norm(c, do_strip=False), v):
            t.add((k, b))
    for g in guards:
        for k, b in consequences(norm(g, do_strip=False), True):
            if (k, not b) in t:
                return True
    return False
