"""C11 name dispatch, C21 command-line options."""
import ast
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF, HEAVY

MODES = ("universe_search", "pattern_search", "coevolve")
CA_NAMES = ("CCA", "NCA", "RxnDfn", "MetaCA", "CODE", "Lenia", "RandomStepCA")
ENV_NAMES = ("SimpleHaltingWrapper", "HaltingWrapper", "RandomWrapper")
GROWTH_NAMES = ("Gaussian", "DoGaussian", "DoubleGaussian", "GaussianMixture", "Polynomial", "ReLU", "Tanh", "Identity", "SmoothIntervals")
PROFILE_NAMES = ("Gaussian", "GaussianMixture", "CosOverX2", "DoGaussian", "SmoothLifeKernel", "LaplacianOfGaussian")
PLAIN_KERNELS = ("InnerMoore", "MooreLike")
UNKNOWN = ("Nonesuch", "", "zzz")
SEARCH = {"CMAES.__init__", "CMAES.search", "CMACES.__init__", "CMACES.search"}


def last(t):
    """bare name of a class value"""
    if t is None:
        return None
    if t.op in ("cls", "ext"):
        return str(t.args[0]).split(".")[-1]
    if t.op == "ref":
        return str(t.args[0]).split(".")[-1]
    if t.op == "call" and isinstance(t.args[0], str):
        return t.args[0].split(".")[-1]
    return None


def check_C11(ctx):
    ctx.rule("R1", "in each search mode every accepted CA name reaches the search as the CA class of exactly that name")
    ctx.rule("R2", "an unknown CA or environment name stops the run before a search is built")
    ctx.rule("R3", "every accepted environment name reaches the search as the environment class of that name")
    ctx.rule("R4", "the genesis and the persistence slot build the function class of the configured name and append it to their own list, "
                   "with the whole configuration")
    ctx.rule("R5", "kernel names select the profile of that name; unknown ones stop the run")
    ctx.rule("R6", "an NCA activation name selects the activation of that name and is written to the configuration under it")
    ctx.rule("R7", "the experiment tag selects the search mode it names, and the mode fixes its environment, agent and search classes")
    for m in MODES:
        for n in CA_NAMES:
            ctx.guard("R1", f"{m}[{n}]", lambda: dispatch(ctx, m, n, "HaltingWrapper"))
        for n in UNKNOWN:
            ctx.guard("R2", f"{m}[ca={n}]", lambda: refuse(ctx, m, n, "HaltingWrapper"))
    for n in ENV_NAMES:
        ctx.guard("R3", n, lambda: dispatch(ctx, "universe_search", "CCA", n, env=True))
    for n in UNKNOWN:
        ctx.guard("R2", f"universe_search[env={n}]", lambda: refuse(ctx, "universe_search", "CCA", n, what="env"))
    for cls in ("CCA", "Lenia", "MetaCA", "CODE", "RandomStepCA"):
        for slot in ("genesis", "persistence"):
            for n in GROWTH_NAMES:
                ctx.guard("R4", f"{cls}.add_{slot}_fn[{n}]", lambda: growth(ctx, cls, slot, n))
    for n in PROFILE_NAMES + PLAIN_KERNELS:
        ctx.guard("R5", f"get_kernel[{n}]", lambda: kernel(ctx, n))
    for n in UNKNOWN:
        ctx.guard("R5", f"get_kernel[unknown {n}]", lambda: no_kernel(ctx, n))
    ctx.guard("R6", "NCA.activation", lambda: activation(ctx))
    for tag, m in (("pattern_search", "pattern_search"), ("my_pattern", "pattern_search"), ("coevo_1", "coevolve"), ("coevolve", "coevolve"),
                   ("universe_search", "universe_search"), ("exp", "universe_search")):
        ctx.guard("R7", f"evolve[{tag}]", lambda: mode_of(ctx, tag, m))


def run_mode(ctx, m, kw):
    f = ctx.prog.find_func(m)
    E = ctx.engine(SEARCH)
    v, st = E.run(f, kw={k: const(x) for k, x in kw.items()})
    ctx.note_units(E, f)
    return E, v, st, f


def built(E):
    """[(event, class name, options as seen by the constructor)]"""
    out = []
    for ev in E.events:
        if ev.kind == "call" and str(ev.data["name"]).endswith((".CMAES.__init__", ".CMACES.__init__")):
            v = ev.data["value"]
            d = None
            kws = dict(x for x in v.args[2] if isinstance(x, tuple) and len(x) == 2) if v.op == "call" else {}
            for k, x in kws.items():
                if isinstance(k, str) and k.startswith("**"):
                    d = x
            out.append((ev, str(ev.data["name"]).split(".")[-2], d, kws))
    return out


def option(E, d, kws, key):
    if key in kws:
        return norm(kws[key])
    return norm(E.item_of(d, const(key))) if d is not None else None


def dispatch(ctx, m, ca, env_name, env=False):
    E, v, st, f = run_mode(ctx, m, {"ca_fn": ca, "env_fn": env_name})
    b = built(E)
    loc = func_loc(f)
    label = f"{m}[{env_name if env else ca}]"
    rule = "R3" if env else "R1"
    if not b:
        stopped = v is UNDEF or any(e.kind == "raise" for e in E.events)
        ctx.ob(rule, label, False if stopped else None, loc, f"{env_name if env else ca} is rejected" if stopped else "no search constructed")
        return
    if len(b) > 1:
        ctx.ob(rule, label, None, loc, f"{len(b)} searches constructed")
        return
    ev, K, d, kws = b[0]
    got = option(E, d, kws, "env_fn" if env else "ca_fn")
    want = env_name if env else ca
    ok = last(got) == want if got is not None and got.op in ("cls", "ext", "const") else None
    ctx.ob(rule, label, ok and not ev.guards or ok, ev.loc, f"{want} selects {short(got, 60) if got is not None else None}")
    if not env:
        w = {"universe_search": ("CMAES", None, env_name), "pattern_search": ("CMAES", "CPPN", "GliderWrapper"), "coevolve": ("CMACES", "CPPNPlus", "GliderWrapper")}[m]
        ag, en = option(E, d, kws, "agent_fn"), option(E, d, kws, "env_fn")
        ctx.ob("R7", f"{m}[{ca}].search", K == w[0], ev.loc, f"uses {K}")
        if w[1]:
            ctx.ob("R7", f"{m}[{ca}].agent", last(ag) == w[1], ev.loc, f"agent {short(ag, 60)}")
        ctx.ob("R7", f"{m}[{ca}].env", last(en) == w[2], ev.loc, f"environment {short(en, 60)}")
        started = [e for e in E.events if e.kind == "call" and str(e.data["name"]).endswith(".search") and e.seq > ev.seq]
        ctx.ob("R7", f"{m}[{ca}].started", bool(started) and not started[0].guards, ev.loc, "the search is not started")


def refuse(ctx, m, ca, env_name, what="ca"):
    E, v, st, f = run_mode(ctx, m, {"ca_fn": ca, "env_fn": env_name})
    b = built(E)
    n = ca if what == "ca" else env_name
    ctx.ob("R2", f"{m}[{what}={n}]", not b, b[0][0].loc if b else func_loc(f), f"unknown name {n!r} is accepted as {short(option(E, b[0][2], b[0][3], what + '_fn'), 60) if b else ''}")


def growth(ctx, cls, slot, n):
    f = ctx.prog.method(cls, f"add_{slot}_fn")
    E = ctx.engine()
    st = St()
    cfg = E.newref("dict")
    st.heap[(cfg, "i", const("name"))] = const(n)
    st.heap[(cfg, "i", const("probe"))] = sym("probe")
    st.heap[(cfg, "i", const("mode"))] = sym("<mode>")
    before = E.mklist([sym("already")], st)
    other = E.mklist([sym("already2")], st)
    oslot = "persistence" if slot == "genesis" else "genesis"
    st.heap[(SELF, "a", f"{slot}_fns")] = before
    st.heap[(SELF, "a", f"{oslot}_fns")] = other
    v, st = E.run(f, args=[cfg], selfcls=ctx.prog.find_class(cls), st=st)
    ctx.note_units(E, f)
    label = f"{cls}.add_{slot}_fn[{n}]"
    loc = func_loc(f)
    if st is None:
        ctx.ob("R4", label, False, loc, f"{n} is rejected")
        return
    lst = norm(E.deref(E.heapget(st, (SELF, "a", f"{slot}_fns")), st))
    oth = norm(E.deref(E.heapget(st, (SELF, "a", f"{oslot}_fns")), st))
    items = flat(lst)
    if items is None:
        ctx.ob("R4", label, None, loc, f"list of functions is {short(lst, 80)}")
        return
    ok = len(items) == 2 and items[0] is sym("already")
    if not ok:
        ctx.ob("R4", label, False, loc, f"{n} is not added to the {slot} functions ({short(lst, 80)})")
        return
    K = last(items[1]) or last(E.cellget(st, items[1]) if items[1].op == "cell" else None)
    ctx.ob("R4", label, K == n if K else None, loc, f"{n} builds {K}")
    ctx.ob("R4", f"{label}.other", flat(oth) == [sym("already2")], loc, f"adding a {slot} function changes the {oslot} functions")
    if n not in ("ReLU", "Tanh", "Identity"):
        evs = [e for e in E.events if e.kind == "new" and e.data.get("ptr") is items[1]]
        if evs:
            ctx.ob("R4", f"{label}.config", cfg in (evs[0].data.get("stars") or ()) or evs[0].data["kw"].get("probe") is sym("probe"), evs[0].loc, "the function is not built from the configuration")
            fixed = [k for k, x in evs[0].data["kw"].items() if k in ("mode", "probe") and isinstance(x, T) and is_const(E.deref(x, st)) and x is not NONE]
            ctx.ob("R4", f"{label}.options", not fixed, evs[0].loc, f"the function is built with a fixed {', '.join(fixed)}, whatever the configuration says")


def flat(t):
    if t.op in ("seq", "tuple"):
        return list(t.args)
    if t.op == "lcat":
        out = []
        for x in t.args:
            y = flat(x)
            if y is None:
                return None
            out += y
        return out
    return None


def kcfg(E, st, n):
    cfg = E.newref("dict")
    st.heap[(cfg, "i", const("name"))] = const(n)
    st.heap[(cfg, "i", const("radius"))] = sym("radius")
    st.heap[(cfg, "i", const("kernel_kwargs"))] = sym("kernel_kwargs")
    return cfg


def kernel(ctx, n):
    f = ctx.prog.find_func("get_kernel")
    E = ctx.engine({f"{k}.forward" for k in ctx.prog.modules["yuca.activations"].classes})
    st = St()
    v, st = E.run(f, args=[kcfg(E, st, n)], st=st)
    ctx.note_units(E, f)
    loc = func_loc(f)
    made = [e.data["cls"] for e in E.events if e.kind == "new" and not any(q.startswith("yuca.activations.") for q in e.chain)]
    made = [c.qual.split(".")[-1] if hasattr(c, "qual") else str(c) for c in made]
    if n in PLAIN_KERNELS:
        t = norm(E.deref(v, st))
        src = {y.args[0] for y in walk(t) if y.op == "call" and isinstance(y.args[0], str)}
        ones = any(s.endswith("ones") for s in src) or any(s.endswith("full") for s in src)
        zeros = any(s.endswith("zeros") for s in src)
        ok = (ones if n == "MooreLike" else not ones) and not made
        ctx.ob("R5", f"get_kernel[{n}]", ok if st is not None else False, loc, f"{n} gives {short(t, 80)} {made}")
    else:
        ctx.ob("R5", f"get_kernel[{n}]", made == [n] if made else False, loc, f"{n} samples {made}")


def no_kernel(ctx, n):
    f = ctx.prog.find_func("get_kernel")
    E = ctx.engine({f"{k}.forward" for k in ctx.prog.modules["yuca.activations"].classes})
    st = St()
    v, st = E.run(f, args=[kcfg(E, st, n)], st=st)
    ok = st is None or v is UNDEF
    ctx.ob("R5", f"get_kernel[unknown {n}]", ok, func_loc(f), f"unknown kernel name {n!r} yields {short(v, 60)}")


def class_text(t):
    """concrete evaluation of the string made from a class"""
    if is_str(t):
        return cval(t)
    if t.op in ("fstr", "fmt"):
        out = ""
        for x in t.args:
            if x is None or x is NONE or not isinstance(x, T):
                continue
            if is_num(x):
                continue
            y = class_text(x)
            if y is None:
                return None
            out += y
        return out
    if t.op in ("cls", "ext"):
        return f"<class '{t.args[0]}'>"
    if t.op == "attr" and t.args[1] in ("__name__", "__qualname__") and t.args[0].op in ("cls", "ext"):
        return str(t.args[0].args[0]).split(".")[-1]
    if t.op == "call" and t.args[0] == "str" and t.args[1]:
        return class_text(t.args[1][0])
    if t.op == "call" and t.args[0] in (
            ".split", ".rsplit", ".strip", ".replace", ".lstrip", ".rstrip", ".partition", ".rpartition", ".lower", ".upper",
            ".title", ".capitalize", ".casefold", ".removeprefix", ".removesuffix", ".swapcase"):
        a = [class_text(x) for x in t.args[1]]
        if None in a:
            return None
        r = getattr(a[0], t.args[0][1:])(*a[1:])
        return r
    if t.op == "item" and is_num(t.args[1]):
        b = class_text(t.args[0])
        i = int(cval(t.args[1]))
        if isinstance(b, (list, tuple)) and -len(b) <= i < len(b):
            return b[i]
    return None


def activation(ctx):
    prog = ctx.prog
    mod = prog.modules["yuca.ca.neural"]
    E0 = ctx.engine()
    names = None
    for node in mod.tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Dict) and any(isinstance(t, ast.Name) and "activation" in t.id for t in node.targets):
            names = [k.value for k in node.value.keys if isinstance(k, ast.Constant)]
    base = ["Gaussian", "ReLU", "SiLU", "ELU", "Sigmoid", "Tanh", "Identity"]
    names = sorted(set(names or []) | set(base))
    init, mk_cfg = prog.method("NCA", "__init__"), prog.method("NCA", "make_config")
    for n in names:
        E = ctx.engine({"NCA.load_config", "NCA.restore_config"})
        v, st = E.run(init, kw={"activation": const(n)}, selfcls=prog.find_class("NCA"))
        ctx.note_units(E, init)
        attrs = {k[2]: norm(E.deref(p, st)) for k, p in st.heap.items() if isinstance(k, tuple) and len(k) == 3 and k[0] is SELF and k[1] == "a"}
        a = attrs.get("act")
        if a is None:
            cand = [x for x in attrs.values() if x.op in ("cls", "ext") and last(x) in names]
            a = cand[0] if cand else None
        ctx.ob("R6", f"NCA.activation[{n}]", last(a) == n if a is not None and a.op in ("cls", "ext") else None, func_loc(init), f"activation {n} selects {short(a, 60) if a is not None else '?'}")
        v2, st2 = E.run(mk_cfg, selfcls=prog.find_class("NCA"), st=st)
        t = norm(E.deref(E.item_of(E.item_of(E.deref(v2, st2), const("instant_kwargs")), const("activation")), st2))
        got = class_text(t)
        ctx.ob("R6", f"NCA.make_config.activation[{n}]", got == n if got is not None else None, func_loc(mk_cfg), f"activation {n} is saved as {got!r} ({short(t, 80)})")
    # the saved name is read back under the key it was written
    f = prog.method("NCA", "load_config")
    E = ctx.engine()
    v, st = E.run(f, selfcls=prog.find_class("NCA"))
    ctx.note_units(E, f)


def mode_of(ctx, tag, m):
    f = ctx.prog.find_func("evolve")
    E = ctx.engine(set(MODES))
    v, st = E.run(f, kw={"tag": const(tag), "dtype": const("float32"), "ca_fn": const("CCA"), "env_fn": const("HaltingWrapper")})
    ctx.note_units(E, f)
    got = [str(e.data["name"]).split(".")[-1] for e in E.events if e.kind == "call" and str(e.data["name"]).split(".")[-1] in MODES]
    ctx.ob("R7", f"evolve[{tag}]", got == [m] if got else None, func_loc(f), f"tag {tag!r} runs {got}")
    if m == "universe_search":
        for dt in ("float32", "float64"):
            E = ctx.engine(set(MODES))
            E.run(f, kw={"tag": const(tag), "dtype": const(dt), "ca_fn": const("CCA"), "env_fn": const("HaltingWrapper")})
            sets = [e for e in E.events if e.kind == "call" and "set_default_dtype" in str(e.data["name"])]
            arg = last(norm(sets[-1].data["args"][-1])) if sets and sets[-1].data["args"] else None
            ctx.ob("R7", f"evolve.dtype[{dt}]", arg == dt if arg else None, func_loc(f), f"dtype {dt} sets {arg}")


# ------------------------------------------------------------------ C21
CHOICES = {"ca_fn": CA_NAMES, "env_fn": ENV_NAMES, "tag": ("universe_search", "pattern_search", "coevo"), "dtype": ("float32", "float64")}
SLOW = {"clone": {f"{c}.{m}" for c in ("CA", "CCA", "NCA") for m in ("update_universe", "forward", "update_helper", "get_params", "make_config",
                                                                     "persistence", "genesis", "id_conv", "neighborhood_conv", "no_grad", "yes_grad")}}
OPAQUE21 = HEAVY | {"CMAES.search", "CMACES.search", "yuca.cmaes.CMAES.search"}


def check_C21(ctx):
    ctx.rule("R1", "the value of every declared command-line option reaches an attribute, branch, loop bound or library call of the code the command runs")
    ctx.rule("R2", "every option the command reads is one the parser declares, under the name the parser gives it")
    ctx.rule("R3", "an attribute that receives an option is read by the code of its class or through an instance of it")
    ctx.rule("R4", "the attribute of each component that carries an option holds the value of that very option")
    mods = [m for n, m in sorted(ctx.prog.modules.items()) if declared(m)]
    for m in mods:
        ctx.guard("R1", m.name.split(".")[-1], lambda: command(ctx, m))
    ctx.rule("R5", "the option lookup returns the option's value, whatever it is, and the default only when the option is absent")
    ctx.guard("R5", "query_kwargs", lambda: lookup(ctx))
    ctx.rule("R6", "the type an option's text is converted to can express the values the option is for")
    if len(mods) < 5:
        ctx.notes.append(f"only {len(mods)} command lines found")


def lookup(ctx):
    f = ctx.prog.modules["yuca.utils"].funcs.get("query_kwargs")
    if f is None:
        ctx.ob("R5", "query_kwargs", None, "", "no longer defined")
        return
    V, D = sym("value"), sym("default")
    for what, kw, want in (("present", {"opt": V, "zz": sym("other")}, V), ("absent", {"zz": sym("other")}, D)):
        E = ctx.engine()
        v, st = E.run(f, args=[const("opt"), D], kw=kw)
        ctx.note_units(E, f)
        v = norm(v)
        for c in [x for x in walk(v) if x.op == "call" and x.args[0] == "in" or x.op == "in"]:
            v = norm(assume(v, c, TRUE if what == "present" else FALSE))
        got = {x.args[0] for _, x in leaves(v) if x.op == "sym"}
        ctx.ob("R5", f"query_kwargs.{what}", True if v is want else (False if got else None), func_loc(f), f"returns {short(v)}")


def declared(m):
    """{dest: (line, default node)} of a module's argument parser"""
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            dest = [k.value.value for k in n.keywords if k.arg == "dest" and isinstance(k.value, ast.Constant)]
            longs = [x for x in names if x.startswith("--")]
            if not dest:
                dest = [longs[0][2:].replace("-", "_")] if longs else [names[0].lstrip("-").replace("-", "_")] if names else []
            if dest:
                out[dest[0]] = n.lineno
    return out


def converters(ctx, m, label):
    """R6: the type an option is converted to can express the values it is for"""
    for n in ast.walk(m.tree):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument"):
            continue
        longs = [a.value for a in n.args if isinstance(a, ast.Constant) and str(a.value).startswith("--")] or [a.value for a in n.args if isinstance(a, ast.Constant)]
        kw = {k.arg: k.value for k in n.keywords}
        t, d = kw.get("type"), kw.get("default")
        if t is None or not longs or not isinstance(t, ast.Name):
            continue
        key, loc = f"{label}{longs[0]}", f"{m.path}:{n.lineno}"
        ok = True
        if t.id == "bool":
            ok = False
            why = "every non-empty text, 0 and False included, is true to bool()"
        elif t.id == "int" and isinstance(d, ast.Constant) and isinstance(d.value, float) and d.value != int(d.value):
            ok, why = False, f"its default {d.value} is not a value its type int can express"
        ctx.ob("R6", key, ok, loc, "" if ok else f"option {longs[0]}: {why}")


def main_func(m, opts):
    """the command's body after parsing, as a function of the parsed namespace"""
    from ..engine import Func
    body = None
    for s in m.tree.body:
        if isinstance(s, ast.If) and "__main__" in ast.dump(s.test):
            body = s.body
    if body is None:
        # parser inside a function: take that function
        for s in ast.walk(m.tree):
            if isinstance(s, ast.FunctionDef) and any(isinstance(x, ast.Attribute) and x.attr == "parse_args" for x in ast.walk(s)):
                body = s.body
    if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call) and isinstance(body[0].value.func, ast.Name):
        f = m.funcs.get(body[0].value.func.id)
        if f is not None and any(isinstance(x, ast.Attribute) and x.attr == "parse_args" for x in ast.walk(f.node)):
            body = f.node.body
    name, rest = None, []
    for i, s in enumerate(body):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "parse_args":
            name, rest = s.targets[0].id, body[i + 1:]
    if name is None:
        raise AnalysisError(f"{m.name}: no parse_args in the command")

    class Ns(ast.NodeTransformer):
        """the namespace as a dictionary of its options"""
        def whole(self, n, pairs=False):
            ks = [ast.Constant(k) for k in opts]
            vs = [ast.Attribute(ast.Name(name, ast.Load()), k, ast.Load()) for k in opts]
            if pairs:
                x = ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(ks, vs)], ctx=ast.Load())
            else:
                x = ast.Dict(keys=ks, values=vs)
            x._ns = 1
            return ast.copy_location(x, n)

        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "_get_kwargs" and isinstance(f.value, ast.Name) and f.value.id == name:
                return self.whole(n, True)
            if isinstance(f, ast.Attribute) and f.attr == "items" and not n.args and isinstance(f.value, ast.Dict) and getattr(f.value, "_ns", 0):
                return self.whole(n, True)
            if isinstance(f, ast.Name) and f.id in ("dict", "vars") and len(n.args) == 1 and not n.keywords:
                a = n.args[0]
                if (f.id == "vars" and isinstance(a, ast.Name) and a.id == name) or getattr(a, "_ns", 0):
                    return self.whole(n)
            return n

        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id == name:
                return self.whole(n)
            return n
    import copy
    fn = ast.FunctionDef(name="main__", args=ast.arguments(posonlyargs=[], args=[ast.arg(name)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=[Ns().visit(copy.deepcopy(s)) for s in rest], decorator_list=[], returns=None, type_comment=None)
    fn.lineno = rest[0].lineno
    fn.col_offset = 0
    ast.fix_missing_locations(fn)
    return Func(f"{m.name}.main__", fn, m, None), name, rest


def mentions(t, out, E=None):
    """option symbols in a value, not counting dictionaries of options handed on as they are"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen or x.op in ("dict", "ref"):
            continue
        seen.add(x)
        if x.op == "sym" and str(x.args[0]).startswith("opt:"):
            out.add(str(x.args[0])[4:])
        if x.op == "mu" and E is not None and x.args[0] in E.loopinfo:
            # a loop variable stands for what it starts from and what it becomes
            for k, (i, n) in E.loopinfo[x.args[0]]["carried"].items():
                tag = {"loc": lambda: "loc:%s" % k[1], "cell": lambda: "cell:%d" % k[1].uid,
                       "heap": lambda: "heap:%d:%s:%s" % (k[1][0].uid, k[1][1], k[1][2])}[k[0]]()
                if tag == x.args[1]:
                    stack.extend(y for y in (i, n) if isinstance(y, T))
            continue
        if x.op == "call":
            stack.extend(x.args[1])
            stack.extend(v for k, v in x.args[2] if isinstance(v, T) and not str(k).startswith("**"))
            continue
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                todo = list(a)
                while todo:
                    b = todo.pop()
                    if isinstance(b, T):
                        stack.append(b)
                    elif isinstance(b, tuple):
                        todo.extend(b)


def runs(opts):
    """option settings that are decided by name: enough to reach every family in every mode"""
    base = {k: None for k in opts}
    if "ca_fn" in opts:
        for ca in CA_NAMES:
            yield {"ca_fn": ca, "env_fn": "HaltingWrapper", "tag": "universe_search", "dtype": "float32"}
        for env in ENV_NAMES:
            yield {"ca_fn": "CCA", "env_fn": env, "tag": "universe_search", "dtype": "float64"}
        for tag in ("pattern_search", "coevo"):
            for ca in ("CCA", "NCA"):
                yield {"ca_fn": ca, "env_fn": "HaltingWrapper", "tag": tag, "dtype": "float32"}
    else:
        yield {}


def command(ctx, m):
    opts = declared(m)
    label = m.name.split(".")[-1]
    f, ns, rest = main_func(m, opts)
    converters(ctx, m, label)
    # R2: attributes read from the namespace
    for s in rest:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ns and isinstance(n.ctx, ast.Load) and not n.attr.startswith("_"):
                ctx.ob("R2", f"{label}.args.{n.attr}", n.attr in opts, f"{m.path}:{n.lineno}", f"reads option {n.attr}, which the parser does not declare")
    used, attrs, fail, stores, seeded, picks = {}, {}, None, {}, None, {}
    n_ok = 0
    for pick in runs(opts):
        E = ctx.engine(OPAQUE21 | SLOW.get(label, set()))
        st = St()
        ref = E.newref("obj")
        for k in opts:
            st.heap[(ref, "a", k)] = const(pick[k]) if k in pick else sym("opt:" + k)
        try:
            v, st = E.run(f, args=[ref], st=st)
        except AnalysisError:
            raise
        except Exception as e:
            fail = f"{type(e).__name__}: {e}"
            continue
        n_ok += 1
        picks[n_ok] = pick
        for u in E.units if hasattr(E, "units") else ():
            pass
        for ev in E.events:
            ctx.unit(ev.fn) if hasattr(ctx, "unit") else None
            got = set()
            for g in ev.guards:
                mentions(g, got, E)
            for lp in ev.loops:
                for y in lp if isinstance(lp, tuple) else ():
                    mentions(y, got, E) if isinstance(y, T) else None
            if ev.kind == "setattr":
                c = ev.data.get("content")
                here = ev.fn.rsplit(".", 2)[-2] if ev.fn.count(".") > 1 else ""
                if isinstance(c, T):
                    direct = norm(c)
                    stores.setdefault((here, ev.data["name"]), {}).setdefault(n_ok, []).append(direct)
                    mentions(direct, got, E)
                    root = direct
                    while root.op == "call" and root.args[0] in ("torch.device", "device", "int", "float", "str") and root.args[1]:
                        root = root.args[1][0]
                    if root.op == "sym" and str(root.args[0]).startswith("opt:"):
                        attrs.setdefault(str(root.args[0])[4:], set()).add((here, ev.data["name"]))
            elif ev.kind in ("call", "new"):
                nm = str(ev.data.get("name") or "")
                if nm.split(".")[-1] in ("manual_seed", "seed", "default_rng", "seed_all"):
                    seeded = seeded if seeded is not None else set()
                    for a in list(ev.data["args"]) + list((ev.data["kw"] or {}).values()):
                        mentions(a, seeded, E)
                if ev.kind == "new" or not nm.startswith("yuca.") or nm.split(".")[-1] in ("restore_config", "load_config", "set_params"):
                    if not (ev.kind == "new"):
                        for a in ev.data["args"]:
                            mentions(a, got, E)
                        for k, a in (ev.data["kw"] or {}).items():
                            mentions(a, got, E)
            elif ev.kind in ("with", "assert", "print"):
                if ev.kind != "print":
                    for a in ev.data.values():
                        mentions(a, got, E) if isinstance(a, T) else None
            for k in got:
                used.setdefault(k, (ev.kind, ev.fn, ev.loc))
        for kind in ("ca_fn", "env_fn", "tag", "dtype"):
            if kind in pick:
                used.setdefault(kind, ("dispatch", "C11", ""))
        for k, c in returned(E, st, ref):
            used.setdefault(k, c)
    if not n_ok:
        raise AnalysisError(f"{m.name}: {fail}")
    for k, line in sorted(opts.items()):
        ctx.ob("R1", f"{label}.{k}", k in used, f"{m.path}:{line}", f"the value of --{k} reaches nothing the command runs")
    # R3: stored options are read
    loads = attr_loads(ctx.prog)
    for k, where in sorted(attrs.items()):
        ok = any(a in loads for _, a in where)
        ctx.ob("R3", f"{label}.{k}", ok, "", f"--{k} is stored as {sorted(where)} and never read")
    # R4: what is stored under an option's name is that option
    for (c, a), k in sorted(HOLDS.get(label, {}).items()):
        got = stores.get((c, a))
        if got is None:
            ctx.ob("R4", f"{c}.{a}", None, "", "not stored under that name any more")
            continue
        ok, last_ = True, None
        if c != "CMAES" or a == "external_channels":
            # components are also built without the option (two channels for reaction-diffusion, random baselines): once is enough
            mine = {i: ts for i, ts in got.items() if picks[i].get("ca_fn") == c}
            got = {0: [t for ts in got.values() for t in ts]}
            if mine and k in HOLDS_EACH.get(c, ()):
                for i, ts in sorted(mine.items()):
                    has = set()
                    for t in ts:
                        mentions(t, has)
                    ctx.ob("R4", f"{c}.{a}:{picks[i].get('tag')}", k in has, "", f"with --ca_fn {c} --tag {picks[i].get('tag')} {c}.{a} is {short(ts[-1])}, whatever --{k} is given")
        for ts in got.values():
            names_ = set()
            for t in ts:
                mentions(t, names_)
            if k not in names_:
                ok, last_ = False, ts[-1]
        ctx.ob("R4", f"{c}.{a}", ok, "", f"{c}.{a} holds {short(last_) if last_ is not None else ''}, not the value of --{k}")
    if label == "step_predictor" and "seed" in opts:
        ctx.ob("R4", f"{label}.seed", "seed" in seeded if seeded is not None else None, "", "--seed does not reach the generators' seeding")


def returned(E, st, ref):
    return ()


def attr_loads(prog):
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
    return out


_EVO = {
    "CMAES": {"workers": 0, "my_seed": "seed", "dim": 0, "ca_steps": 0, "replicates": 0, "batch_size": 0, "population_size": 0, "generations": 0,
              "selection_mode": 0, "kernel_radius": 0, "prediction_mode": 0, "my_device": "device", "external_channels": 0, "input_filepath": 0},
    "GliderWrapper": {"dim": 0, "ca_steps": 0, "batch_size": 0, "my_device": "device", "external_channels": 0, "ca_config": 0},
    "HaltingWrapper": {"dim": 0, "ca_steps": 0, "batch_size": 0, "my_device": "device", "prediction_mode": 0, "ca_config": 0},
    "CPPN": {"grid_dim": "dim", "external_channels": 0, "internal_channels": 0},
    "CCA": {"kernel_radius": 0, "conv_mode": 0, "external_channels": 0, "internal_channels": 0, "my_device": "device"},
    "CA": {"kernel_peaks": 0},
    "NCA": {"hidden_channels": 0},
}
# options every search mode hands to the universe class asked for
HOLDS_EACH = {"NCA": ("hidden_channels",), "CCA": ("kernel_radius", "external_channels", "internal_channels", "conv_mode")}
# (class, attribute) -> the option it holds
HOLDS = {
    "evolve": {(c, a): k or a for c, d in _EVO.items() for a, k in d.items()},
    "analyze": {("Phanes", a): k for a, k in (("ca_steps", "ca_steps"), ("batch_size", "batch_size"), ("use_cppn", "use_cppn"),
                                              ("input_directory", "input_directory"), ("my_device", "device"))},
    "clone": {("NCA", "my_device"): "device"},
    "step_predictor": {("StepPredictor", "my_device"): "device"},
}
