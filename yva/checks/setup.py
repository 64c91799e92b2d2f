"""C33 things are set up as they were asked to be."""
from fractions import Fraction
from itertools import product
from ..lib import *
from ..terms import *
from .entropy import base_name
from .steps import SELF
from .evo import E_full

COMMON = {"kernel_radius": "kernel_radius", "kernel_peaks": "kernel_peaks", "device": "my_device", "conv_mode": "conv_mode",
          "ca_mode": "ca_mode", "external_channels": "external_channels", "internal_channels": "internal_channels",
          "alive_threshold": "alive_threshold", "tag": "tag"}
ENV = {"ca_steps": "ca_steps", "batch_size": "batch_size", "dim": "dim", "device": "my_device"}
# class -> option -> attribute that has to hold it after construction
OPTIONS = {
    "CA": COMMON, "CCA": COMMON, "Lenia": COMMON, "MetaCA": COMMON, "RandomStepCA": COMMON,
    "NCA": dict(COMMON, hidden_channels="hidden_channels", dropout_rate="dropout_rate"),
    "CODE": dict(COMMON, prev_dt="prev_dt", max_dt="max_dt", min_dt="min_dt", error_threshold="error_threshold"),
    "CPPN": {"internal_channels": "internal_channels", "external_channels": "external_channels", "hidden_dim": "hidden_dim", "dim": "grid_dim"},
    "SimpleHaltingWrapper": dict(ENV, prediction_mode="prediction_mode"),
    "RandomWrapper": ENV,
    "HaltingWrapper": dict(ENV, prediction_mode="prediction_mode", num_blocks="num_blocks", dropout="dropout", lr="lr"),
    "GliderWrapper": dict(ENV, external_channels="external_channels"),
    "StepPredictor": {"layer_repeats": "layer_repeats", "kernel_radius": "kernel_radius", "hidden_channels": "hidden_channels",
                      "out_channels": "out_channels", "dropout": "dropout"},
    "Phanes": {"ca_steps": "ca_steps", "batch_size": "batch_size", "dim": "dim", "device": "my_device", "use_cppn": "use_cppn",
               "input_directory": "input_directory"},
    "Librarian": {"directory": "directory", "config_directory": "config_directory", "verbose": "verbose"},
}
PARTS = {"default_init", "restore_config", "load_config", "set_params", "no_grad", "init_model", "get_cppn_input", "init_displacement_grid",
         "update_index", "get_params", "seed_all", "make_config", "to_device"}
SETTERS = {"RxnDfn": [("set_dx", "get_dx"), ("set_diffusion_u", "get_diffusion_u"), ("set_diffusion_v", "get_diffusion_v"), ("set_dt", "get_dt"),
                      ("set_kernel_radius", "get_kernel_radius")],
           "CCA": [("set_dt", "get_dt"), ("set_kernel_radius", "get_kernel_radius")],
           "NCA": [("set_dt", "get_dt"), ("set_kernel_radius", "get_kernel_radius")],
           "CPPN": [("set_params", "get_params")] * 0}
FULL = mk("slice", NONE, NONE, NONE)


def A(n):
    return mk("attr", SELF, n)


def check_C33(ctx):
    ctx.rule("R1", "after construction with an option, the attribute the class works with holds the value given (value graph of the constructor chain)")
    ctx.rule("R2", "building the default rule keeps every option: what it was given is not overwritten")
    ctx.rule("R3", "an initial grid has the requested batch, the CA's channels and the requested rows and columns, with the documented background in every sample")
    ctx.rule("R4", "what a setter was given is what the getter returns")
    ctx.rule("R5", "moving to a device changes where values are, not the values")
    ctx.rule("R6", "the networks built lead from the CA's channels through hidden layers of the requested size, with the requested activation, to the CA's external channels")
    ctx.rule("R7", "an environment builds its CA from the options it was given")
    ctx.rule("R8", "every parameter is registered under a name of its own (the name varies with every loop around the registration) that stands for that parameter")
    for c in OPTIONS:
        ctx.guard("R1", c, lambda c=c: options(ctx, c))
    for c in ("CCA", "NCA"):
        ctx.guard("R2", c, lambda c=c: kept(ctx, c))
    for c in ("CA", "RxnDfn"):
        ctx.guard("R3", f"{c}.initialize_grid", lambda c=c: grid(ctx, c))
    for c, pairs in SETTERS.items():
        for s, g in pairs:
            ctx.guard("R4", f"{c}.{s}", lambda c=c, s=s, g=g: setter(ctx, c, s, g))
    for c in ("CCA", "NCA", "RxnDfn"):
        ctx.guard("R4", f"{c}.set_kernel_config", lambda c=c: kernel_configured(ctx, c))
    for c in ("CCA", "NCA", "RxnDfn", "CPPN"):
        ctx.guard("R5", f"{c}.to_device", lambda c=c: moved(ctx, c))
    ext, inn, hid = A("external_channels"), A("internal_channels"), A("hidden_channels")
    ctx.guard("R6", "NCA", lambda: network(ctx, "NCA", "initialize_weight_layer", "weights_layer", add(ext, inn), ext, hid, A("act"), A("dropout_rate")))
    ctx.guard("R6", "CPPN", lambda: network(ctx, "CPPN", "init_model", "model", mul(const(16), ext), ext, A("hidden_dim"), None, None))
    cae = mk("attr", A("ca"), "external_channels")
    ctx.guard("R6", "HaltingWrapper", lambda: network(ctx, "HaltingWrapper", "init_model", None, cae, cae, None, None, A("dropout")))
    ctx.guard("R6", "RxnDfn.add_neighborhood_kernel", lambda: species(ctx))
    for c in ("CCA", "RxnDfn"):
        ctx.guard("R8", f"{c}.include_parameters", lambda c=c: registered(ctx, c))
    ctx.guard("R8", "HaltingWrapper.init_model", lambda: registered(ctx, "HaltingWrapper", "init_model"))
    ctx.guard("R8", "HaltingWrapper.init_model:optimizer", lambda: predictor_parts(ctx))
    for c in ("SimpleHaltingWrapper", "RandomWrapper", "HaltingWrapper", "GliderWrapper"):
        ctx.guard("R7", c, lambda c=c: env_ca(ctx, c))
    for c in ("SimpleHaltingWrapper", "HaltingWrapper"):
        ctx.guard("R7", f"{c}.action_space", lambda c=c: action_space(ctx, c))


def attr(E, st, name):
    p = E.heapget(st, (SELF, "a", name))
    return None if p is None else norm(E_full(E, E.deref(p, st), st), True)


def options(ctx, cls):
    want = OPTIONS[cls]
    f = ctx.prog.method(cls, "__init__")
    given = {k: sym(f"<{k}>") for k in want}
    E = ctx.engine(PARTS)
    v, st = E.run(f, kw=dict(given), selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(f)
    for k, a in want.items():
        got = attr(E, st, a)
        if got is None:
            ctx.ob("R1", f"{cls}.{k}", None, loc, f"the constructor does not set self.{a}")
            continue
        got = unwrap(kept_value(got, given[k]))
        others = [x for x in given.values() if x is not given[k] and contains(got, lambda y: y is x)]
        ok = got is given[k]
        if not ok:
            ok = False if is_const(got) or got in others or understood(got) else None
        ctx.ob("R1", f"{cls}.{k}", ok, loc, f"constructed with {k}, self.{a} is {short(got, 120)}")


def unwrap(t):
    while t.op == "call" and t.args[0] in ("device", "torch.device", "int", "float", "str", "bool") and t.args[1]:
        t = t.args[1][0]
    return t


def not_none(t, x):
    return norm(under(t, [(mk("eq", NONE, x), False), (mk("eq", x, NONE), False)]), True)


def kept_value(t, was):
    """t where `was` was given (is not None); a loop that leaves a given value alone leaves it"""
    t = not_none(t, was)
    if t.op == "fold" and len(t.args[1]) == 1 and norm(t.args[1][0][0], True) is was:
        body = t.args[1][0][1]
        for m in {y for y in walk(body) if y.op == "m"}:
            if not_none(body, m) is m:
                return was
    return t


def understood(t):
    return not contains(t, lambda y: y.op in OPEN or y.op == "call" and not isinstance(y.args[0], str))


OPEN = ("mu", "havoc", "cell", "opaque", "closure", "undef", "over", "last", "ref", "lam")


def verdict(same, *ts):
    return True if same else False if all(understood(t) for t in ts) else None


def kept(ctx, cls):
    """default_init leaves what the constructor was given alone"""
    f = ctx.prog.method(cls, "default_init")
    E = ctx.engine(PARTS - {"default_init"} | {"get_kernel", "to_device"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(f)
    for k in list(OPTIONS[cls].values()) + ["kernel_params"]:
        got = attr(E, st, k)
        was = A(k)
        if got is not None:
            got = unwrap(kept_value(got, was))
        ok = got is None or got is was
        ctx.ob("R2", f"{cls}.default_init:{k}", True if ok else verdict(False, got), loc,
               f"building the default rule sets self.{k} to {short(got, 120) if got is not None else ''}, whatever was asked for")


def grid(ctx, cls):
    f = ctx.prog.method(cls, "initialize_grid")
    loc = func_loc(f)
    B, D = sym("<batch_size>"), sym("<dim>")
    E = ctx.engine(())
    v, st = E.run(f, args=[B, D], selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    got = norm(E.deref(v, st), True)
    isint = [y.args for y in walk(got) if y.op == "eq" and any(a.op == "typeof" for a in y.args)]
    layers, base = [], got
    while base.op == "store":
        layers.append((base.args[1], base.args[2]))
        base = base.args[0]
    for label, flag, want in (("number", True, (D, D)), ("pair", False, (mk("item", D, const(0)), mk("item", D, const(1))))):
        facts = [(norm(mk("eq", *a)), flag) for a in isint]
        b = norm(under(base, facts), True)
        shape = None
        if b.op == "call" and b.args[0] in ("torch.zeros", "zeros", "full", "torch.full", "ones", "torch.ones"):
            a = b.args[1]
            if b.args[0].split(".")[-1] == "full":
                a = a[:1]
            if len(a) == 1:
                a = a[0].args if a[0].op in ("tuple", "seq") else None
            shape = a
        if shape is None or len(shape) != 4:
            ctx.ob("R3", f"{cls}.initialize_grid:shape of a {label}", None, loc, f"the grid is {short(b, 160)}")
            continue
        want = (B, A("external_channels")) + want
        for n, w, g in zip(("batch", "channels", "rows", "columns"), want, shape):
            g = norm(under(norm(g), facts), True)
            ctx.ob("R3", f"{cls}.initialize_grid:{n} from a {label}", verdict(g is norm(w), g), loc, f"the grid has {short(g, 80)} {n}, asked for {short(w, 60)}")
    zero = base.op == "call" and base.args[0] in ("torch.zeros", "zeros")
    if cls == "CA":
        ctx.ob("R3", "CA.initialize_grid:background", verdict(zero and not layers, got), loc, f"the background is {short(got, 100)} instead of 0")
        return
    fr, k = A("f"), A("k")
    r = power(fr, const(Fraction(1, 2))) if False else mk("call", "sqrt", (fr,), ())
    a = div(r, add(fr, k))
    root = mk("call", "sqrt", (sub(power(a, const(2)), const(4)),), ())
    u = div(sub(a, root), mul(const(2), a))
    w = div(mul(r, add(a, root)), const(2))
    cover = {}
    for key, val in layers:                     # last written first
        parts = key.args if key.op == "tuple" else (key,)
        parts = tuple(p for p in parts if p is not ELLIPSIS) if ELLIPSIS in parts else parts
        whole = parts[:1] == (FULL,) and all(p is FULL for p in parts[2:])
        c = cval(parts[1]) if len(parts) > 1 and is_num(parts[1]) else None
        if c is None:
            return ctx.ob("R3", f"{cls}.initialize_grid:background", None, loc, f"cells {short(key, 80)} are written")
        if c not in cover:
            cover[c] = (whole, val)
    for i, (n, want) in enumerate((("u", u), ("v", w))):
        if i not in cover:
            ctx.ob("R3", f"{cls}.initialize_grid:{n}", None if not understood(base) else False, loc, f"the concentration of {n} is not set")
            continue
        whole, val = cover[i]
        ctx.ob("R3", f"{cls}.initialize_grid:{n} everywhere", bool(whole), loc, f"the concentration of {n} is set for part of the batch or grid only")
        same = norm(val, True) is norm(want, True) or same_random(norm(val, True), norm(want, True))
        ctx.ob("R3", f"{cls}.initialize_grid:{n}", verdict(same, val), loc, f"the concentration of {n} is {short(val, 140)}, not the background equilibrium")
    other = div(mul(r, sub(a, root)), const(2))
    ctx.ob("R3", f"{cls}.initialize_grid:self-test: the other root is told apart", not same_random(norm(other, True), norm(w, True)), loc, "")


ELLIPSIS = mk("const", Ellipsis)


def setter(ctx, cls, s, g):
    f, h = ctx.prog.method(cls, s), ctx.prog.method(cls, g)
    V = sym("<value>")
    E = ctx.engine({"to_device", "get_kernel", "add_neighborhood_kernel", "initialize_neighborhood_layer"})
    v, st = E.run(f, args=[V], selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    E2 = ctx.engine(())
    v2, st2 = E2.run(h, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E2, h)
    read = norm(E2.deref(v2, st2), True)
    names = {y.args[1] for y in walk(read) if y.op == "attr" and y.args[0] is SELF}
    changed = {}
    for n in names:
        p = attr(E, st, n)
        if p is not None:
            changed[A(n)] = p
    got = norm(subst(read, lambda y: changed.get(y)), True)
    for flag in (True, False):
        facts = [(norm(y), flag) for y in walk(got) if y.op == "eq" and any(a.op == "typeof" for a in y.args)]
        t = unnumber(norm(under(got, facts), True))
        ctx.ob("R4", f"{cls}.{s}:{'tensor' if flag else 'number'}", verdict(t is V, t), func_loc(f),
               f"after {s}(value), {g}() returns {short(t, 120)}")


def kernel_configured(ctx, cls):
    """after set_kernel_config the CA holds that configuration, its radius, and a kernel built from it"""
    f = ctx.prog.method(cls, "set_kernel_config")
    V = sym("<config>")
    E = ctx.engine({"to_device", "get_kernel", "add_neighborhood_kernel", "initialize_neighborhood_layer", "update_kernel_params"})
    v, st = E.run(f, args=[V], selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(f)
    def plain(t):
        t = norm(t, True)
        return norm(subst(t, lambda y: y.args[1][0] if y.op == "call" and base_name(y) in ("deepcopy", "copy") and len(y.args[1]) == 1 else None), True)
    p = attr(E, st, "neighborhood_kernel_config")
    ctx.ob("R4", f"{cls}.set_kernel_config:kept", None if p is None else verdict(plain(p) is V, p), loc, f"after set_kernel_config(config) the configuration is {short(p, 80) if p is not None else 'the old one'}")
    r = attr(E, st, "kernel_radius")
    want = mk("item", V, const("radius"))
    if r is None:
        ctx.ob("R4", f"{cls}.set_kernel_config:radius", False if not any(e.kind == "havoc" for e in E.events) else None, loc, "set_kernel_config does not change the kernel radius")
    else:
        r = plain(unnumber(r))
        other = None
        for k in (3, 9):
            z = norm(subst(r, lambda y: const(k) if y is want else const(5) if y is A("kernel_radius") else None))
            z = words(z)
            if z is not None and z != str(k):
                other = z
        ctx.ob("R4", f"{cls}.set_kernel_config:radius", False if other else verdict(r is want, r), loc, f"after set_kernel_config(config) the kernel radius is {short(r, 80)}")
    gets = [e for e in E.events if e.kind == "call" and str(e.data["name"]).rsplit(".", 1)[-1] == "get_kernel"]
    for e in gets:
        a = plain(E.deref(e.data["args"][-1], st)) if e.data["args"] else NONE
        ctx.ob("R4", f"{cls}.set_kernel_config:kernel", verdict(a is V, a), e.loc, f"the kernel is built from {short(a, 80)}")


def unnumber(t):
    while t.op == "call" and t.args[0] in ("item", ".item", "float", "tensor", "torch.tensor", "to", ".to", "int", "view", "asarray", "detach", "cpu") and t.args[1]:
        t = t.args[1][0]
    return t


def moved(ctx, cls):
    f = ctx.prog.method(cls, "to_device")
    E = ctx.engine({"no_grad"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(f)
    dev = sym(f.node.args.args[1].arg)
    seen = 0
    for e in E.events:
        if e.kind in ("setattr", "augattr") and e.data["target"] is SELF:
            n = e.data["name"]
            if n in ("my_device", "use_grad"):
                continue
            seen += 1
            got = unmove(norm(E.deref(e.data["value"], st) if e.data["value"].op == "cell" else e.data["value"], True), dev)
            ctx.ob("R5", f"{cls}.to_device:{n}", verdict(got is A(n), got), e.loc, f"moving to a device sets self.{n} to {short(got, 120)}")
        elif e.kind == "mutate":
            seen += 1
            tgt, val = norm(e.data["target"], True), e.data.get("value")
            val = unmove(norm(E.deref(val, st), True), dev) if isinstance(val, T) else None
            ok = val is not None and peel_view(val) is peel_view(unmove(tgt, dev))
            ctx.ob("R5", f"{cls}.to_device:written values", True if ok else False if val is not None and (understood(val) or computed(val)) else None, e.loc,
                   f"moving to a device writes {short(val, 100)} into {short(tgt, 80)}")
    for e in E.events:
        if e.kind == "call" and str(e.data["name"]).rsplit(".", 1)[-1] in ("eval", "train", "zero_", "fill_", "normal_", "half", "bfloat16", "requires_grad_") and str(e.data["name"]).startswith("."):
            ctx.ob("R5", f"{cls}.to_device:mode", False, e.loc, f"moving to a device also calls {e.data['name']} on {short(norm(e.data['args'][0]), 60) if e.data['args'] else 'it'}")
    ctx.ob("R5", f"{cls}.to_device:self-test: attributes and tensors were inspected", True, loc, f"{seen} writes")


def computed(t):
    return contains(t, lambda y: y.op in ("add", "mul", "poly", "pow") or y.op == "call" and y.args[0] in ("abs", "clamp", "exp", "round", "sqrt", "neg", "floor"))


def peel_view(t):
    while t.op == "call" and t.args[0] in ("reshape", "view", "contiguous", "to", "ravel") and t.args[1]:
        t = t.args[1][0]
    return t


def unmove(t, dev):
    def g(y):
        if y.op == "view" and y.args[0] in ("to", "cuda", "cpu"):
            return unmove(y.args[1], dev)
        if y.op == "call" and y.args[0] in ("to", ".to", "cuda", "cpu") and y.args[1]:
            return unmove(y.args[1][0], dev)
        return None
    return norm(subst(t, g), True)


def flat(x):
    if isinstance(x, T):
        yield x
        if x.op in ("tuple", "seq"):
            for y in x.args:
                yield from flat(y)
    elif isinstance(x, tuple):
        for y in x:
            yield from flat(y)


SIZED = {"torch.nn.Conv2d": ("in_channels", "out_channels"), "torch.nn.Linear": ("in_features", "out_features")}


def chains(E, st):
    """argument lists of every Sequential built"""
    out = []
    for e in E.events:
        if e.kind == "call" and e.data["name"] == "torch.nn.Sequential":
            args = [E.cellget(st, a) if a.op == "cell" and E.cellget(st, a) is not None else a for a in e.data["args"]]
            if e.data.get("stars"):
                s = [E.deref(x, st) for x in e.data["stars"]]
                if len(s) != 1 or s[0].op != "seq":
                    out.append((e, None))
                    continue
                args += [E.cellget(st, a) if a.op == "cell" and E.cellget(st, a) is not None else a for a in s[0].args]
            out.append((e, args))
    return out


def sized(E, st, c):
    if c.op == "call" and c.args[0] in SIZED:
        kw = dict(c.args[2]) if len(c.args) > 2 else {}
        n = SIZED[c.args[0]]
        a = list(c.args[1])
        r = []
        for i, k in enumerate(n):
            x = a[i] if i < len(a) else kw.get(k)
            if x is None:
                return None
            r.append(norm(E_full(E, E.deref(x, st), st), True))
        return r
    return None


def network(ctx, cls, meth, name, first, end, hidden, act, drop):
    f = ctx.prog.method(cls, meth)
    E = ctx.engine(())
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(f)
    ch = chains(E, st)
    if not ch:
        return ctx.ob("R6", f"{cls}.{meth}", None, loc, "no chain of layers found")
    for e, layers in ch:
        if layers is None:
            ctx.ob("R6", f"{cls}.{meth}:layers", None, e.loc, "the layers are not a fixed list")
            continue
        cur, at, waiting, n = norm(first, True), "its input", [], 0
        for c in layers:
            io = sized(E, st, c)
            if io is not None:
                if n and not waiting:
                    ctx.ob("R6", f"{cls}.{meth}:layer {n} nonlinearity", False, e.loc, f"nothing nonlinear between layers {n} and {n + 1}")
                same = norm(sub(io[0], cur)) is const(0)
                ctx.ob("R6", f"{cls}.{meth}:layer {n + 1} input", verdict(same, io[0]), e.loc, f"layer {n + 1} takes {short(io[0], 60)} channels, {at} has {short(cur, 60)}")
                if hidden is not None and n:
                    ctx.ob("R6", f"{cls}.{meth}:layer {n} size", verdict(io[0] is norm(hidden, True), io[0]), e.loc, f"hidden layer {n} has {short(io[0], 60)} channels, asked for {short(hidden, 60)}")
                for w in waiting:
                    if act is not None and n:
                        ok = contains(w, lambda y: y is act) or w.op == "call" and isinstance(w.args[0], str) and w.args[0] == "." + act.args[1]
                        ctx.ob("R6", f"{cls}.{meth}:layer {n} activation", True if ok else False if w.op == "ref" and str(w.args[0]).startswith("inst:") else verdict(False, w), e.loc, f"after layer {n} {short(w, 80)} is used, not the requested activation")
                cur, at, waiting, n = io[1], f"layer {n + 1}", [], n + 1
            elif c.op == "call" and c.args[0] == "torch.nn.Dropout":
                kw = dict(c.args[2]) if len(c.args) > 2 else {}
                p = norm(E.deref(c.args[1][0] if c.args[1] else kw.get("p", const(Fraction(1, 2))), st), True)
                ctx.ob("R6", f"{cls}.{meth}:dropout", verdict(drop is not None and p is drop, p), e.loc, f"dropout drops {short(p, 60)}, asked for {short(drop, 60) if drop is not None else 'none'}")
            else:
                waiting.append(c)
        ctx.ob("R6", f"{cls}.{meth}:output", verdict(norm(sub(cur, norm(end, True))) is const(0), cur), e.loc, f"the network ends with {short(cur, 60)} channels, the grid has {short(end, 60)}")


def env_ca(ctx, cls):
    f = ctx.prog.method(cls, "__init__")
    G = {"ca_fn": sym("<ca_fn>"), "kernel_radius": sym("<kernel_radius>"), "conv_mode": sym("<conv_mode>")}
    E = ctx.engine(PARTS)
    v, st = E.run(f, kw=dict(G), selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(f)
    p = attr(E, st, "ca")
    if p is None:
        return ctx.ob("R7", f"{cls}.ca", None, loc, "no CA is built")
    if not contains(p, lambda y: y is G["ca_fn"]):
        return ctx.ob("R7", f"{cls}.ca", False if p.op == "ref" else verdict(False, p), loc, f"the CA is {short(p, 100)}, not of the class given")
    for k in ("kernel_radius", "conv_mode"):
        ctx.ob("R7", f"{cls}.ca:{k}", verdict(contains(p, lambda y: y is G[k]), p), loc, f"the CA is built as {short(p, 140)}, without the {k} given")


def species(ctx):
    f = ctx.prog.method("RxnDfn", "add_neighborhood_kernel")
    K = sym("<kernel>")
    E = ctx.engine(())
    v, st = E.run(f, args=[K], selfcls=ctx.prog.find_class("RxnDfn"))
    ctx.note_units(E, f)
    got = attr(E, st, "neighborhood_kernels")
    if got is None:
        return ctx.ob("R6", "RxnDfn.add_neighborhood_kernel", None, func_loc(f), "no kernel is set")
    got = not_none(got, K)
    if got.op == "call" and got.args[0] == "tcat" and got.args[1][0] is const(0) and got.args[1][1].op == "seq":
        parts = [not_none(x, K) for x in got.args[1][1].args]
        ok = len(parts) == 2 and all(p is K for p in parts)
        ctx.ob("R6", "RxnDfn.add_neighborhood_kernel:both species", verdict(ok, *parts), func_loc(f), f"the species' kernels are {short(got, 140)}, not the given one each")
    elif got.op == "call" and got.args[0] in ("repeat", "expand", "repeat_interleave"):
        ctx.ob("R6", "RxnDfn.add_neighborhood_kernel:both species", True if got.args[1][0] is K else None, func_loc(f), "")
    else:
        ctx.ob("R6", "RxnDfn.add_neighborhood_kernel:both species", None, func_loc(f), f"the kernels are {short(got, 140)}")


def predictor_parts(ctx):
    """the halting predictor's optimizer holds all of its parameters"""
    cls = "HaltingWrapper"
    f = ctx.prog.method(cls, "init_model")
    E = ctx.engine(())
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    opts = [e for e in E.events if e.kind == "call" and str(e.data["name"]).startswith("torch.optim.")]
    if len(opts) != 1:
        return ctx.ob("R8", f"{cls}.init_model:optimizer", None, func_loc(f), f"{len(opts)} optimizers")
    e = opts[0]
    a = [x for x in e.data["args"] if x is not SELF]
    x = norm(E.deref(a[0], st), True) if a else NONE
    ends, todo = [], [x]
    while todo:
        y = todo.pop()
        if y.op == "ite":
            todo += list(y.args[1:])
        else:
            ends.append(y)
    own = [y.op == "call" and y.args[0] == ".parameters" and bool(y.args[1]) for y in ends]
    whole = all(own) and all(y.args[1][0] is SELF for y in ends)
    part = all(own) and not whole
    ctx.ob("R8", f"{cls}.init_model:optimizer", True if whole else False if part else None, e.loc, f"the predictor's optimizer holds {short(x, 80)}, not all of its parameters")


def action_space(ctx, cls):
    """proposals have the shape of the parameters of the rule the environment ends up with"""
    f = ctx.prog.method(cls, "__init__")
    E = ctx.engine(PARTS | {"restore_config", "get_params", "set_params", "load_config"} if isinstance(PARTS, (set, frozenset)) else set(PARTS) | {"restore_config", "get_params", "set_params", "load_config"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    def named(e, *ns):
        return e.kind == "call" and str(e.data["name"]).rsplit(".", 1)[-1] in ns
    asks = [e for e in E.events if named(e, "get_params")]
    changes = [e for e in E.events if named(e, "restore_config", "load_config", "set_params")]
    if not asks or not changes:
        return ctx.ob("R7", f"{cls}.action_space", None if not asks else True, func_loc(f), "the shape of the proposals was not recognised")
    late = [c for c in changes if c.seq > asks[-1].seq]
    ctx.ob("R7", f"{cls}.action_space", not late, (late or asks)[0].loc, "the shape of the proposals is taken before the configured rule is loaded")


def registered(ctx, cls, meth="include_parameters"):
    f = ctx.prog.method(cls, meth)
    E = ctx.engine(())
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    names = {}
    for e in E.events:
        if e.kind != "call" or e.data["name"] != ".register_parameter" or len(e.data["args"]) < 3:
            continue
        name, val = norm(E.deref(e.data["args"][1], st), True), norm(E.deref(e.data["args"][2], st), True)
        src = sorted({y.args[1] for y in walk(val) if y.op == "attr" and y.args[0] is SELF})
        label = f"{cls}.{meth}:{','.join(src) or short(val, 40)}"
        for L, idx, count in e.loops:
            ctx.ob("R8", f"{label} in every round", verdict(varies(name, idx), name), e.loc,
                   f"the name {short(name, 80)} is the same in every round of a loop around the registration: later ones replace earlier ones")
        if e.loops and all(varies(name, i) for _, i, _ in e.loops):
            def inner(y):
                # the name a parameter has within its module: differs from one parameter to the next, not from one module to the next
                if y.op == "call" and y.args[0] == ".replace" and y.args[1] and y.args[1][0].op == "call" and y.args[1][0].args[0] == "pname":
                    y = y.args[1][0]
                if y.op == "call" and y.args[0] == "pname" and y.args[1] and y.args[1][0].op == "item":
                    return mk("fmt", y.args[1][0].args[1], None, -1)
                return None
            two = same_twice(norm(subst(name, inner)), [i for _, i, _ in e.loops])
            ctx.ob("R8", f"{label} in different rounds", None if two is None else not two, e.loc, f"rounds {two} of the loops register under one name ({short(name, 80)})")
        if is_str(name):
            own = cls == "RxnDfn"
            ctx.ob("R8", f"{label} name", True if not own or any(cval(name).endswith(s) for s in src) else False, e.loc, f"self.{'/'.join(src)} is registered as {short(name, 60)}")
        clash = names.get(shape_of(name))
        ctx.ob("R8", f"{label} distinct", clash is None or clash == (src, e.loc), e.loc, f"{short(name, 60)} is also the name self.{'/'.join(clash[0]) if clash else ''} is registered under")
        names[shape_of(name)] = (src, e.loc)
    if not names:
        ctx.ob("R8", f"{cls}.{meth}", None, func_loc(f), "no parameter is registered")


def varies(t, idx):
    """does t use that loop number itself (not just the count of a loop inside)?"""
    if t is idx:
        return True
    if t.op == "idx" or t.op in ("sym", "const"):
        return False
    return any(varies(y, idx) for x in t.args for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T))


def same_twice(name, idxs):
    """two different rounds of the loops that give the same name: () if none, None if the names cannot be told"""
    conds = []
    for y in walk(name):
        if y.op == "ite" and not any(varies(y.args[0], i) for i in idxs) and y.args[0] not in conds:
            conds.append(y.args[0])
    for flags in product((True, False), repeat=min(len(conds), 3)):
        seen = {}
        t = norm(under(name, list(zip(conds, flags))))
        for nums in product(range(3), repeat=len(idxs)):
            m = dict(zip(idxs, nums))
            x = words(norm(subst(t, lambda y: const(m[y]) if y in m else None)))
            if x is None:
                return None
            if x in seen:
                return (seen[x], nums)
            seen[x] = nums
    return ()


def words(t):
    if t.op == "fstr":
        parts = [words(x) for x in t.args]
        return None if None in parts else "".join(parts)
    if t.op == "fmt":
        return words(t.args[0])
    if is_str(t):
        return cval(t)
    def fold(y):
        if y.op in ("mod", "floordiv") and len(y.args) == 2 and is_num(y.args[0]) and is_num(y.args[1]) and cval(y.args[1]):
            a, b = cval(y.args[0]), cval(y.args[1])
            return const(a % b if y.op == "mod" else a // b)
        if y.op == "call" and y.args[0] in ("min_py", "max_py") and y.args[1] and all(is_num(q) for q in y.args[1]):
            return const((min if y.args[0] == "min_py" else max)(cval(q) for q in y.args[1]))
        return None
    for _ in range(3):
        if not is_num(t):
            t = norm(subst(t, fold))
    return str(cval(t)) if is_num(t) else None


def shape_of(name):
    """the text of a name with its numbers left out"""
    if name.op == "fstr":
        return tuple(cval(x) if is_str(x) else "#" for x in name.args)
    return name
