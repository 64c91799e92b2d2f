"""C04 kernel / convolution consistency, C18 shape of the convolutions."""
from ..lib import *
from ..terms import *
from .steps import SELF, HEAVY
from .rewrite import up

KF = {"get_kernel", "get_gaussian_mixture_kernel", "get_laplacian_kernel"}
SETTERS = ["default_init", "load_config", "set_kernel_radius", "set_kernel_config", "set_params"]
CONV = {"torch.nn.Conv2d": ("in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "bias", "padding_mode")}
WPEEL = {"to", "detach", "clone", "requires_grad_", "reshape", "tensor", "Parameter", "copy", "contiguous", "array", "asarray", "double", "float",
         "view", "unsqueeze", "cpu"}


def is_kernel_call(t, *names):
    return t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in (names or KF)


def never_none(t):
    """facts about values that cannot be None"""
    def f(x):
        if x.op == "eq" and NONE in x.args:
            y = x.args[0] if x.args[1] is NONE else x.args[1]
            if is_kernel_call(y) or y.op == "call" and y.args[0] in ("tcat", "reshape", "tensor"):
                return FALSE
        return None
    return norm(subst(norm(t), f))


def final(E, st, obj, name):
    p = E.heapget(st, (obj, "a", name))
    return E.deref(mk("attr", obj, name) if p is None else p, st)


def layer_cases(E, st, ptr):
    """((facts), cell, constructor call) of every object a layer attribute may hold"""
    if ptr.op == "ite":
        for v, k in ((True, 1), (False, 2)):
            for facts, c, call in layer_cases(E, st, ptr.args[k]):
                yield ((ptr.args[0], v),) + facts, c, call
        return
    call = E.cellget(st, ptr)
    yield (), ptr, call


def conv_args(call):
    names = CONV[call.args[0]]
    d = dict(zip(names, call.args[1]))
    d.update({k: v for k, v in call.args[2] if k != "#"})
    return d


def weight_base(t):
    """layer object whose weights the storage t belongs to, or None"""
    while True:
        if t.op == "attr" and t.args[1] in ("data", "weight"):
            if t.args[1] == "weight":
                return t.args[0]
            t = t.args[0]
        elif t.op == "view":
            t = t.args[1]
        elif t.op == "item":
            t = t.args[0]
        elif t.op == "call" and t.args[0] in (".parameters", ".state_dict") and t.args[1]:
            return t.args[1][0]
        elif t.op == "call" and t.args[0] in WPEEL and t.args[1]:
            t = t.args[1][0]
        else:
            return None


def weight_writes(E, cell):
    out = []
    for ev in E.events:
        if ev.kind == "mutate":
            if weight_base(ev.data["target"]) is cell:
                out.append((ev, ev.data["value"]))
        elif ev.kind == "setattr" and ev.data["target"] is cell and ev.data["name"] in ("weight",):
            out.append((ev, ev.data["content"]))
        elif ev.kind == "setattr" and ev.data["name"] == "data" and weight_base(ev.data["target"]) is cell:
            out.append((ev, ev.data["content"]))
    return out


def bare(t):
    """t with the gradient-only views of tensors taken as the tensors"""
    def f(y):
        if y.op == "view" and y.args[0] in ("detach", "requires_grad_"):
            return y.args[1]
        if y.op == "ite" and y.args[1] is y.args[2]:
            return y.args[1]
        return None
    return up(t, f)


def check_layer(ctx, rule, E, st, obj, label, loc, layer, kernels, dimname):
    """the layer object holds the final kernel, with its padding"""
    ptr = E.heapget(st, (obj, "a", layer))
    changed = [a for a in (kernels, dimname) if E.heapget(st, (obj, "a", a)) is not None]
    if ptr is None:
        if changed:
            ctx.ob(rule, f"{label}:{layer}", False, loc, f"changes {', '.join(changed)} but leaves the convolution {layer} as it was")
        return False
    for facts, cell, call in layer_cases(E, st, ptr):
        def fin(t):
            return never_none(under(never_none(t), [(norm(c, do_strip=False), v) for c, v in facts]))
        K = fin(final(E, st, obj, kernels))
        dim = fin(final(E, st, obj, dimname))
        if cell is mk("attr", obj, layer):
            same = K is mk("attr", obj, kernels) and dim is mk("attr", obj, dimname)
            ctx.ob(rule, f"{label}:{layer}.kept", same, loc, f"when {facts_text(facts)} the kernel changes but the convolution does not")
            continue
        if call is None or call.op != "call" or call.args[0] not in CONV:
            ctx.ob(rule, f"{label}:{layer}", None, loc, f"{layer} is {short(call) if call is not None else short(cell)}")
            continue
        old = [n for n in (dimname, kernels) if contains(dim, lambda y: y is mk("attr", obj, n)) and not contains(K, lambda y: y is mk("attr", obj, n))]
        ctx.ob(rule, f"{label}:{layer}.dim", False if old else True if set(sources(dim)) == set(sources(K)) else None, loc,
               f"the recorded size {short(dim, 160)} is not (always) the size of the current kernel {short(K, 120)}" +
               (f": it depends on the previous {old[0]}" if old else ""))
        a = conv_args(call)
        ks = fin(E.deref(a["kernel_size"], st))
        ctx.ob(rule, f"{label}:{layer}.size", ks is dim or bare(ks) is bare(dim), loc,
               f"{layer} is built for kernel size {short(ks, 120)}, but the current kernel has size {short(dim, 120)}")
        if "padding" in a:
            pad = fin(E.deref(a["padding"], st))
            same = pad is const("same") or pad in halves(dim)
            ctx.ob(rule, f"{label}:{layer}.padding", same, loc, f"padding {short(pad, 160)} is not half of the kernel size {short(dim, 120)}")
        else:
            ctx.ob(rule, f"{label}:{layer}.padding", False, loc, "no padding given: every step would shrink the grid")
        ws = weight_writes(E, cell)
        if not ws:
            ctx.ob(rule, f"{label}:{layer}.weights", False, loc, f"the weights of the new {layer} are never set to the kernel")
            continue
        ev, val = ws[-1]
        w = fin(E.deref(val, st) if val.op in ("cell", "ref", "view") else val)
        for g in ev.guards:
            w = assume(w, norm(g, do_strip=False), TRUE)
        kk = K
        for g in ev.guards:
            kk = assume(kk, norm(g, do_strip=False), TRUE)
        key = ev.data.get("key")
        if ev.kind == "mutate" and ev.data.get("how") == "[]=" and isinstance(key, T):
            first = norm(key.args[0] if key.op == "tuple" and key.args else key)
            out_ch = norm(fin(E.deref(a["out_channels"], st))) if "out_channels" in a else None
            if first.op == "slice" and any(norm(x) is not NONE for x in first.args):
                every = norm(first.args[0]) in (NONE, const(0)) and out_ch is not None and fin(norm(first.args[1])) is out_ch
                ctx.ob(rule, f"{label}:{layer}.whole", True if every else False, ev.loc, f"only the part {short(first, 80)} of {layer} is filled with the kernel")
        ctx.ob(rule, f"{label}:{layer}.weights", never_none(w) is never_none(kk), ev.loc,
               f"{layer} is filled with {short(w, 200)} but the current kernel is {short(kk, 200)}")
    return True


def halves(dim):
    """half of an odd size, in the ways it can be computed"""
    m1 = norm(sub(dim, const(1)))
    return {never_none(norm(x)) for x in (mk("floordiv", m1, const(2)), mk("floordiv", norm(dim), const(2)), div(m1, const(2)),
                                          mk("call", "int", (div(m1, const(2)),), ()), mk("call", "int", (div(dim, const(2)),), ()))}


def sources(K):
    """kernel-building calls inside a kernel value (outermost first)"""
    out = []
    for y in walk(K):
        if is_kernel_call(y) and y not in out:
            out.append(y)
    return out


def call_args(c, names):
    d = dict(zip(names, [x for x in c.args[1] if not (isinstance(x, tuple))]))
    d.update({k: v for k, v in c.args[2] if k not in ("#", "#=")})
    return d


def cfg_item(E, cfg, key):
    return norm(E.item_of(cfg, const(key)))


def check_source(ctx, E, st, obj, label, loc):
    """radius and stored configuration describe the kernel in use"""
    if E.heapget(st, (obj, "a", "neighborhood_kernels")) is None:
        if E.heapget(st, (obj, "a", "kernel_radius")) is not None or E.heapget(st, (obj, "a", "neighborhood_kernel_config")) is not None:
            ctx.ob("R3", f"{label}:kernel", False, loc, "changes the kernel radius or configuration but not the kernel")
        return
    K0 = never_none(final(E, st, obj, "neighborhood_kernels"))
    conds = [c for c, v in (leaves(K0)[0][0] if K0.op == "ite" else ()) if contains(c, lambda y: y is mk("attr", obj, "kernel_params"))]
    for c in conds[:1]:
        for v in (True, False):
            source_case(ctx, E, st, obj, label, loc, ((c, v),))
        return
    source_case(ctx, E, st, obj, label, loc, ())


def source_case(ctx, E, st, obj, label, loc, facts):
    def fin(t):
        return never_none(under(never_none(t), facts))
    K = fin(final(E, st, obj, "neighborhood_kernels"))
    rad = fin(final(E, st, obj, "kernel_radius"))
    cfg = fin(final(E, st, obj, "neighborhood_kernel_config"))
    if K is mk("attr", obj, "neighborhood_kernels"):
        ctx.ob("R4", f"{label}:kept", cfg is mk("attr", obj, "neighborhood_kernel_config") and rad is mk("attr", obj, "kernel_radius"), loc,
               f"when {facts_text(facts)} the kernel stays but its configuration or radius changes")
        return
    old = mk("attr", obj, "neighborhood_kernels")
    if contains(K, lambda y: y is old):
        for fs, leaf in leaves(K):
            if leaf is old:
                c2 = under(cfg, list(fs))
                ctx.ob("R4", f"{label}:kept", c2 is mk("attr", obj, "neighborhood_kernel_config"), loc,
                       f"when {facts_text(fs)} the kernel stays as it was but the stored configuration becomes {short(c2, 120)}")
    srcs = [c for c in sources(K) if not is_kernel_call(c, "get_laplacian_kernel")]
    if not srcs:
        ctx.ob("R3", f"{label}:radius", None, loc, f"no kernel builder found in {short(K, 200)}")
        return
    for c in srcs:
        if is_kernel_call(c, "get_kernel"):
            a = call_args(c, ("kernel_config",))
            kc = never_none(a["kernel_config"])
            r = cfg_item(E, kc, "radius")
            ctx.ob("R3", f"{label}:radius", never_none(r) is rad, loc,
                   f"the kernel is built with radius {short(r, 120)} but the reported radius is {short(rad, 120)}")
            ctx.ob("R4", f"{label}:config", kc is cfg, loc,
                   f"the kernel is built from {short(kc, 200)} but the stored configuration is {short(cfg, 200)}")
        else:
            a = call_args(c, ("radius", "parameters"))
            r = never_none(a.get("radius", const(13)))
            ctx.ob("R3", f"{label}:radius", r is rad, loc,
                   f"the kernel is built with radius {short(r, 120)} but the reported radius is {short(rad, 120)}")
            p = never_none(a.get("parameters", NONE))
            want = {"name": const("GaussianMixture"), "radius": r}
            for k, v in want.items():
                g = never_none(cfg_item(E, cfg, k))
                ctx.ob("R4", f"{label}:config.{k}", g is v, loc,
                       f"the kernel is a Gaussian mixture with {k} {short(v, 100)} but the stored configuration has {short(g, 100)}")
            g = never_none(cfg_item(E, cfg_item(E, cfg, "kernel_kwargs"), "parameters"))
            ctx.ob("R4", f"{label}:config.parameters", same_modulo_default(g, p), loc,
                   f"the kernel is built from parameters {short(p, 160)} but the stored configuration has {short(g, 160)}")


def same_modulo_default(g, p):
    return g is p or differ_free(g, p)


def differ_free(a, b):
    try:
        return differ(a, b) is None
    except Budget:
        return False


INITS = {f"{c}.__init__" for c in FAMILIES} | {"GaussianMixture", "Gaussian"}


def setter_run(ctx, cls, meth, opaque=frozenset(KF)):
    # load_config ends with set_params, which is taken on its own: each keeps the invariant
    E = ctx.engine(opaque | INITS | ({f"{cls}.set_params"} if meth == "load_config" else set()))
    f = ctx.prog.method(cls, meth)
    if meth == "default_init" and cls != "RxnDfn":
        E.base.heap[(SELF, "a", "internal_channels")] = const(2)
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    return E, st, f


def check_C04(ctx):
    ctx.rule("R1", "after every operation that changes the neighborhood kernel, the neighborhood convolution is a new layer of that kernel's "
                   "size, with half that as padding, whose weights were set to that kernel")
    ctx.rule("R2", "the same for the identity kernel and the identity convolution")
    ctx.rule("R3", "the reported kernel radius is the radius the current kernel was built with")
    ctx.rule("R4", "the stored kernel configuration describes the current kernel")
    ctx.rule("R5", "a neural CA cloned from a CA gets that CA's kernel through an operation that rebuilds its convolution")
    prog = ctx.prog
    for cls in FAMILIES:
        for meth in SETTERS:
            try:
                f = prog.method(cls, meth)
            except AnalysisError:
                f = None
            if f is None:
                continue
            label = f"{cls}.{meth}"

            def go():
                E, st, f = setter_run(ctx, cls, meth)
                loc = func_loc(f)
                check_layer(ctx, "R1", E, st, SELF, label, loc, "neighborhood_layer", "neighborhood_kernels", "neighborhood_dim")
                check_layer(ctx, "R2", E, st, SELF, label, loc, "id_layer", "id_kernel", "id_dim")
                check_source(ctx, E, st, SELF, label, loc)
            ctx.guard("R1", label, go, func_loc(f))
    clone(ctx)


REBUILD = ("set_kernel_config", "load_config")


def clone(ctx):
    prog = ctx.prog
    f = prog.find_func("clone_from_ca")
    loc = func_loc(f)

    def go():
        op = {f"NCA.{m}" for m in all_names(prog, "NCA")} | {f"CCA.{m}" for m in all_names(prog, "CCA")} | {f"CA.{m}" for m in all_names(prog, "CA")}
        op |= {f"{c}.__init__" for c in ("NCA", "CCA", "CA")}
        E = ctx.engine(op)
        E.run(f)
        ctx.note_units(E, f)
        calls = [e for e in E.events if e.kind == "call"]
        ups = [e for e in calls if e.data["name"].split(".")[-1] in ("update_helper", "update_universe") and obj_kind(e) == "NCA"]
        ctx.ob("R5", "clone:trained", True if ups else None, loc, "no training call on the neural CA found")
        for u in ups[:1]:
            recv = u.data["args"][0]
            i = E.events.index(u)
            before = [e for e in E.events[:i] if e.kind == "call" and e.data["args"] and e.data["args"][0] is recv]
            names = [e.data["name"].split(".")[-1] for e in before]
            ok = None
            given = [k for k, n in enumerate(names) if n in ("set_kernel_config", "load_config", "add_neighborhood_kernel")]
            if given:
                k = given[-1]
                ok = names[k] in REBUILD or "initialize_neighborhood_layer" in names[k + 1:]
                src = content_of(E, before[k].data["args"][1])
                orig = {e.data["args"][0] for e in calls if e.data["name"].split(".")[-1] in ("update_helper", "update_universe", "forward")
                        and e.data["args"] and e.data["args"][0] is not recv}
                names_ = ("neighborhood_kernels", "neighborhood_kernel_config", "config")
                owners = {y.args[0] for y in walk(src) if y.op == "attr" and y.args[1] in names_}
                frm = bool(owners & orig) and recv not in owners
                if not orig:
                    frm = None
                ctx.ob("R5", "clone:source", frm, before[k].loc, f"the clone's kernel comes from {short(src, 100)}")
            else:
                ok = False
            ctx.ob("R5", "clone:rebuilt", ok, u.loc, "the neural CA is trained with a convolution that does not hold the kernel of the CA it clones")
    ctx.guard("R5", "clone", go, loc)


def obj_kind(e):
    a = e.data["args"]
    if not a or not isinstance(a[0], T) or a[0].op != "ref":
        return None
    return a[0].args[0].split(".")[-1]


def content_of(E, p):
    """what a pointer made during the run held when it was made"""
    for e in E.events:
        if e.kind == "call" and e.data.get("res") is p and e.data["args"]:
            return content_of(E, e.data["args"][0])
    return p


def all_names(prog, cls):
    from .state import all_methods
    return all_methods(prog, cls)


# ------------------------------------------------------------------ C18
GRID_LAYERS = ("id_layer", "neighborhood_layer")


def conv_cells(E, st, obj, name):
    p = E.heapget(st, (obj, "a", name))
    if p is None:
        return
    for facts, cell, call in layer_cases(E, st, p):
        if call is not None and call.op == "call" and call.args[0] == "torch.nn.Sequential":
            for x in call.args[1]:
                x2 = E.deref(x, st)
                c = x2 if x2.op == "call" else E.cellget(st, x2)
                if c is None and x2.op == "cell":
                    c = E.cellget(st, x2)
                if c is not None and c.op == "call" and c.args[0] in CONV:
                    yield facts, x2, c
        elif call is not None:
            yield facts, cell, call


def check_C18(ctx):
    ctx.rule("R1", "identity and neighborhood convolutions: stride 1, dilation 1, padding half of the kernel size, no bias")
    ctx.rule("R2", "their padding mode is the boundary mode of the instance")
    ctx.rule("R3", "one group per external channel when the channel counts divide, else one group; input and output channels are those of the instance")
    ctx.rule("R4", "their weights are excluded from gradients, and stay so after every operation that rebuilds them")
    ctx.rule("R5", "channel-mixing layers are 1x1, unpadded, without bias")
    ctx.rule("R6", "the convolution methods apply exactly that layer to the grid")
    prog = ctx.prog
    E0, I0 = mk("attr", SELF, "external_channels"), mk("attr", SELF, "internal_channels")
    want_groups = ite(norm(mk("mod", I0, E0)), const(1), E0)
    for cls in FAMILIES:
        for meth, layer in (("initialize_id_layer", "id_layer"), ("initialize_neighborhood_layer", "neighborhood_layer")):
            def go():
                f = prog.method(cls, meth)
                E, v, st = ctx.run(cls, meth)
                loc = func_loc(f)
                label = f"{cls}.{layer}"
                dimname = "id_dim" if layer == "id_layer" else "neighborhood_dim"
                n = 0
                for facts, cell, call in conv_cells(E, st, SELF, layer):
                    if call.op != "call" or call.args[0] not in CONV:
                        ctx.ob("R1", label, None, loc, f"layer is {short(call, 100)}")
                        continue
                    n += 1
                    a = {k: E.deref(x, st) for k, x in conv_args(call).items()}
                    dim = norm(final(E, st, SELF, dimname))
                    one = {const(1), mk("tuple", const(1), const(1))}
                    ctx.ob("R1", f"{label}:stride", norm(a.get("stride", const(1))) in one, loc, f"stride {short(a.get('stride', const(1)))}")
                    ctx.ob("R1", f"{label}:dilation", norm(a.get("dilation", const(1))) in one, loc, f"dilation {short(a.get('dilation', const(1)))}")
                    ctx.ob("R1", f"{label}:kernel_size", norm(a["kernel_size"]) is dim, loc, f"kernel size {short(a['kernel_size'])}")
                    pad = norm(a.get("padding", const(0)))
                    ctx.ob("R1", f"{label}:padding", pad is const("same") or pad in halves(dim), loc, f"padding {short(pad)}")
                    ctx.ob("R1", f"{label}:bias", a.get("bias", TRUE) is FALSE, loc, "the convolution has a bias")
                    pm = norm(a.get("padding_mode", const("zeros")))
                    ctx.ob("R2", label, pm is mk("attr", SELF, "conv_mode"), loc, f"padding mode {short(pm)} instead of self.conv_mode")
                    g = a.get("groups", const(1))
                    equal_ob(ctx, "R3", f"{label}:groups", norm(g), norm(want_groups), loc, "groups")
                    ctx.ob("R3", f"{label}:channels", norm(a["in_channels"]) is E0 and norm(a["out_channels"]) is I0, loc,
                           f"channels {short(a['in_channels'])} -> {short(a['out_channels'])}")
                    fz = frozen(E, cell)
                    ctx.ob("R4", label, fz, loc, f"the weights of {layer} keep requires_grad on")
                if not n:
                    ctx.ob("R1", label, None, loc, f"{meth} builds no convolution")
            ctx.guard("R1", f"{cls}.{layer}", go)
        for meth, layer in (("id_conv", "id_layer"), ("neighborhood_conv", "neighborhood_layer")):
            def use():
                f = prog.method(cls, meth)
                x = sym("universe")
                E, v, st = ctx.run(cls, meth, args=[x])
                t = norm(E.deref(v, st))
                want = mk("call", "." + layer, (SELF, x), ())
                got = subst(t, lambda y: None)
                ok = t.op == "call" and t.args[0] == "." + layer and t.args[1][0] is SELF and norm(t.args[1][1]) is x and len(t.args[1]) == 2
                ctx.ob("R6", f"{cls}.{meth}", ok, func_loc(f), f"computes {short(t, 160)} instead of self.{layer}(grid)")
            ctx.guard("R6", f"{cls}.{meth}", use)
        try:
            f = prog.method(cls, "initialize_weight_layer")
        except AnalysisError:
            f = None
        if f is not None:
            def mix():
                E, v, st = ctx.run(cls, "initialize_weight_layer")
                k = 0
                for facts, cell, call in conv_cells(E, st, SELF, "weights_layer"):
                    a = {kk: norm(E.deref(x, st)) for kk, x in conv_args(call).items()}
                    lab = f"{cls}.weights_layer[{k}]"
                    k += 1
                    one = {const(1), mk("tuple", const(1), const(1))}
                    ok = a["kernel_size"] in one and a.get("padding", const(0)) in (const(0), const("same"), mk("tuple", const(0), const(0))) and \
                        a.get("stride", const(1)) in one and a.get("dilation", const(1)) in one and a.get("groups", const(1)) is const(1)
                    ctx.ob("R5", f"{lab}:1x1", ok, func_loc(f), f"channel mixing with {facts_text(facts)}: " + ", ".join(f"{x}={short(y, 30)}" for x, y in a.items()))
                    ctx.ob("R5", f"{lab}:bias", a.get("bias", TRUE) is FALSE, func_loc(f), "channel-mixing layer has a bias")
                if not k:
                    ctx.ob("R5", f"{cls}.weights_layer", None, func_loc(f), "no convolution found in weights_layer")
            ctx.guard("R5", f"{cls}.weights_layer", mix)


def frozen(E, cell):
    """requires_grad was last set to False for every weight of the layer (or the layer was frozen)"""
    last = None
    for ev in E.events:
        if ev.kind == "setattr" and ev.data["name"] == "requires_grad":
            b = base_of_param(ev.data["target"])
            if b is cell:
                last = norm(ev.data["content"]) is FALSE and not ev.guards
        elif ev.kind == "call" and ev.data["name"].split(".")[-1] == "requires_grad_" and ev.data["args"]:
            a = ev.data["args"]
            if a[0] is cell or base_of_param(a[0]) is cell:
                val = a[1] if len(a) > 1 else ev.data["kw"].get("requires_grad", TRUE)
                last = norm(val) is FALSE and not ev.guards
        elif ev.kind == "setattr" and ev.data["target"] is cell and ev.data["name"] == "weight":
            c = ev.data["content"]
            if c.op == "call" and c.args[0] == "Parameter":
                kw = dict(x for x in c.args[2] if isinstance(x, tuple) and len(x) == 2)
                last = kw.get("requires_grad", c.args[1][1] if len(c.args[1]) > 1 else TRUE) is FALSE
    return bool(last)


def base_of_param(t):
    while True:
        if t.op == "item" or t.op == "view":
            t = t.args[0] if t.op == "item" else t.args[1]
        elif t.op == "attr" and t.args[1] == "weight":
            return t.args[0]
        elif t.op == "call" and t.args[0] == ".parameters":
            return t.args[1][0]
        else:
            return None
