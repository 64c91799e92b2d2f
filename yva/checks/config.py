"""C05 saved configurations restore the rule, C06 configurations are not shared."""
import ast
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF
from .kernels import KF, INITS
from .state import foreign_writes, all_methods
from .params import precision

CFG = sym("config")
CONV = {"item", "float", "deepcopy", "copy", "tensor", "to", "detach", "cpu", "clone", "numpy", "array", "asarray", "reshape", "tolist",
        "double", "as_tensor"}

# written key -> attribute of the CA that the update uses
LIVE = {
    "CCA": {"dt": "dt", "neighborhood_kernel_config": "neighborhood_kernel_config", "id_kernel_config": "id_kernel_config"},
    "NCA": {"dt": "dt", "neighborhood_kernel_config": "neighborhood_kernel_config", "id_kernel_config": "id_kernel_config"},
    "RxnDfn": {"dt": "dt", "dx": "dx", "diffusion_u": "diffusion_u", "diffusion_v": "diffusion_v", "feed_rate": "f", "decay_rate": "k",
               "neighborhood_kernel_config": "neighborhood_kernel_config", "id_kernel_config": "id_kernel_config"},
}
FNS = {"genesis_config": ("genesis_fn_config", "genesis_fns", "add_genesis_fn"),
       "persistence_config": ("persistence_fn_config", "persistence_fns", "add_persistence_fn")}
# arguments that shape the update and cannot be reconstructed from anything else that is written
INSTANT = {"CCA": ("kernel_radius", "kernel_peaks", "conv_mode", "external_channels", "internal_channels"),
           "NCA": ("kernel_radius", "kernel_peaks", "conv_mode", "external_channels", "internal_channels", "dropout_rate", "hidden_channels")}
FILES = ("ca_config", "input_filepath")
WITH_PARAMS = ("NCA", "RxnDfn")


def peel(t):
    """drop conversions that keep the number"""
    def f(x):
        if x.op == "call" and isinstance(x.args[0], str) and x.args[0] in CONV and x.args[1]:
            return x.args[1][0]
        return None
    return norm(subst(norm(t), f), do_strip=True)


def key_of(E, v, st, key):
    return norm(E.item_of(E.deref(v, st), const(key)))


def with_facts(t, facts):
    return under(t, facts)


def is_none(t, v):
    return (norm(mk("eq", *sorted((NONE, t), key=str))), v)


def none_facts(t, bases):
    """t with every comparison of one of the bases to None decided as 'not None'"""
    def f(x):
        if x.op == "eq" and NONE in x.args:
            y = x.args[0] if x.args[1] is NONE else x.args[1]
            if y in bases or (y.op in ("upd", "dict") or y.op == "call" and y.args[0] in ("deepcopy", "copy")):
                return FALSE
        return None
    return norm(subst(norm(t), f))


def present(t, keys, absent=()):
    """assume 'key in config' for keys, not for absent"""
    for k, v in [(k, TRUE) for k in keys] + [(k, FALSE) for k in absent]:
        def f(x, k=k, v=v):
            if x.op == "in" and x.args[0] is const(k) and x.args[1] in (CFG, mk("call", "keys", (CFG,), ())):
                return v
            return None
        t = norm(subst(norm(t), f))
    return t


def load_engine(ctx, cls, extra=()):
    op = KF | INITS | {f"{cls}.set_params", f"{cls}.get_params", f"{cls}.default_init", f"{cls}.restore_config"} | set(extra)
    return ctx.engine(op)


def check_C05(ctx):
    ctx.rule("R1", "after loading a configuration, the attribute the update uses for a field holds the value stored under that field's name")
    ctx.rule("R2", "a written configuration holds, under each field's name, the CA's current value of that field (or of the kernel/function in use)")
    ctx.rule("R3", "a configuration written right after loading one carries the loaded value of every field")
    ctx.rule("R4", "every field that loading requires is written, every written field is read")
    ctx.rule("R5", "the parameters of the growth functions in use are written under the names their constructors read")
    ctx.rule("R6", "construction arguments that shape the update are written from the CA's current attributes, without the files it was started "
                   "from, and are used for re-initialisation before anything else when loading")
    ctx.rule("R7", "saving writes the given configuration, otherwise one made by this instance at that moment; restoring loads exactly what the "
                   "file holds")
    prog = ctx.prog
    for cls in LIVE:
        load, make = prog.method(cls, "load_config"), prog.method(cls, "make_config")
        ctx.guard("R1", cls, lambda: loaded(ctx, cls, load), func_loc(load))
        ctx.guard("R2", cls, lambda: made(ctx, cls, make), func_loc(make))
        ctx.guard("R3", cls, lambda: roundtrip(ctx, cls, load, make), func_loc(load))
        ctx.guard("R4", cls, lambda: keysets(ctx, cls, load, make), func_loc(load))
        ctx.guard("R7", cls, lambda: files(ctx, cls), func_loc(make))
    ctx.guard("R5", "CCA", lambda: live_fns(ctx))
    ctx.rule("R8", "loading builds as many growth functions as the CA that wrote the configuration has (one per neighborhood channel)")
    for key, (attr, fns, adder) in FNS.items():
        ctx.guard("R8", f"CCA.{key}", lambda: counts(ctx, key, fns))
    ctx.rule("R9", "no conversion between the CA and the configuration loses digits of the values")
    ctx.guard("R9", "precision", lambda: precision(ctx, "R9", "values of the configuration"))


def counts(ctx, key, fns):
    load = ctx.prog.method("CCA", "load_config")
    init = ctx.prog.method("CCA", "default_init")
    E = load_engine(ctx, "CCA")
    v, st = E.run(load, args=[CFG], selfcls=ctx.prog.find_class("CCA"))
    t = list_of(E, st, fns)
    E2 = ctx.engine(KF | INITS)
    E2.base.heap[(SELF, "a", "internal_channels")] = const(2)
    v, st2 = E2.run(init, selfcls=ctx.prog.find_class("CCA"))
    t2 = list_of(E2, st2, fns)
    n2 = max(lengths(t2)) if t2 is not None and lengths(t2) else None
    lens = lengths(t) if t is not None else None
    allseq = bool(lens)
    ok = True
    if n2 is None:
        ok = None
    elif n2 > 1 and allseq and max(lens) <= 1:
        ok = False
    ctx.ob("R8", f"CCA.{key}", ok, func_loc(load), f"a CA with several neighborhood channels has one function per channel, but loading its "
           f"configuration builds a single {fns[:-4]} function")


def lengths(t):
    """possible lengths of a list value, or None when it is not bounded by the source"""
    if t.op in ("seq", "tuple"):
        return {len(t.args)}
    if t.op == "ite":
        a, b = lengths(t.args[1]), lengths(t.args[2])
        return a | b if a and b else None
    if t.op == "lcat":
        out = {0}
        for x in t.args:
            n = lengths(x)
            if not n:
                return None
            out = {i + j for i in out for j in n}
        return out
    return None


def list_of(E, st, name):
    p = E.heapget(st, (SELF, "a", name))
    return E.deref(p, st) if p is not None else None


def loaded(ctx, cls, load):
    loc = func_loc(load)
    E = load_engine(ctx, cls)
    v, st = E.run(load, args=[CFG], selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, load)
    for key, attr in LIVE[cls].items():
        p = E.heapget(st, (SELF, "a", attr))
        if p is None:
            ctx.ob("R1", f"{cls}.{key}", False, loc, f"loading never sets self.{attr} from '{key}'")
            continue
        got = E.deref(p, st)
        got = peel(none_facts(present(got, [key], ["identity_kernel_config"]), {norm(mk("item", CFG, const(key)))}))
        want = norm(mk("item", CFG, const(key)))
        if key == "neighborhood_kernel_config":
            same = base_of(got) is want
        else:
            same = got is want
        ctx.ob("R1", f"{cls}.{key}", same, loc, f"after loading, self.{attr} is {short(got, 160)} instead of the stored '{key}'")
    if cls == "CCA":
        for key, (attr, fns, adder) in FNS.items():
            p = E.heapget(st, (SELF, "a", attr))
            got = peel(E.deref(p, st)) if p is not None else None
            want = norm(mk("item", CFG, const(key)))
            ctx.ob("R1", f"{cls}.{key}", got is want, loc, f"after loading, self.{attr} is {short(got, 160) if got is not None else 'unset'}")
            # the list of functions is started anew and built from that configuration
            lst = E.heapget(st, (SELF, "a", fns))
            t = E.deref(lst, st) if lst is not None else None
            ok = t is not None and contains(t, lambda x: x.op == "ref" or x.op == "cell") and not contains(t, lambda x: x is mk("attr", SELF, fns))
            refs = [x for x in walk(t) if x.op == "ref" and str(x.args[0]).startswith("inst:")] if t is not None else []
            src = set()
            for ev in E.events:
                if ev.kind == "new" and ev.data.get("ptr") in refs:
                    a = [x for x in ev.data["args"]] + [x for x in (ev.data.get("stars") or ())]
                    a += list((ev.data.get("kw") or {}).values()) if isinstance(ev.data.get("kw"), dict) else []
                    for x in a:
                        if isinstance(x, T):
                            for k2 in FNS:
                                if contains(norm(E.deref(x, st)), lambda y: y is norm(mk("item", CFG, const(k2)))):
                                    src.add(k2)
            ctx.ob("R1", f"{cls}.{fns}", bool(ok) and (src == {key} or (not src and None)), loc,
                   f"the {fns} in use after loading are built from {sorted(src) or short(t, 120) if t is not None else 'nothing'} instead of '{key}'")
    if cls in WITH_PARAMS:
        sp = [e for e in E.events if e.kind == "call" and e.data["name"].endswith(".set_params") and e.data["args"] and e.data["args"][0] is SELF]
        ok = bool(sp) and peel(E.deref(sp[-1].data["args"][1], st)) is norm(mk("item", CFG, const("params")))
        ctx.ob("R1", f"{cls}.params", ok, sp[-1].loc if sp else loc, "loading does not set the stored parameter vector")
        # nothing the vector determines is rebuilt after it was set
        if sp:
            i = E.events.index(sp[-1])
            late = [e for e in E.events[i + 1:] if e.kind == "setattr" and e.data.get("target") is SELF
                    and e.data["name"] in ("weights_layer", "kernel_params", "f", "k", "diffusion_u", "diffusion_v")]
            ctx.ob("R1", f"{cls}.params.last", not late, late[0].loc if late else loc,
                   f"self.{late[0].data['name'] if late else ''} is replaced after the stored parameters were set")
    inits = [e for e in E.events if e.kind == "call" and e.data["name"].endswith(".__init__") and e.data["args"] and e.data["args"][0] is SELF]
    if cls in INSTANT:
        ok = bool(inits)
        i = E.events.index(inits[0]) if inits else 0
        early = [e for e in E.events[:i] if e.kind in ("setattr", "mutate") and (e.data.get("target") is SELF or e.kind == "setattr")]
        ctx.ob("R6", f"{cls}.load:init", ok, loc, "the stored construction arguments are not used when loading")
        if ok:
            e = inits[0]
            stars = e.data.get("stars") or ()
            src = [norm(E.deref(x, st)) for x in list(stars) + list(e.data["args"][1:])]
            src += [norm(E.deref(x, st)) for x in (e.data.get("kw") or {}).values()] if isinstance(e.data.get("kw"), dict) else []
            good = any(contains(peel(s), lambda y: y is norm(mk("item", CFG, const("instant_kwargs")))) for s in src)
            ctx.ob("R6", f"{cls}.load:init.args", good if src else None, e.loc, f"re-initialised with {short(tuple(src), 160)}")
            asks = [c for g in e.guards for c in atoms(norm(g, do_strip=False)) if contains(c, lambda y: y is SELF) and
                    not contains(c, lambda y: y is CFG)]
            ctx.ob("R6", f"{cls}.load:init.always", not asks, e.loc,
                   f"the stored construction arguments are used only when {short(asks[0], 100) if asks else ''}, whatever the configuration holds")
            ctx.ob("R6", f"{cls}.load:init.first", not early, e.loc,
                   f"self.{early[0].data.get('name') if early else ''} is set before re-initialisation, which then overwrites it")


def base_of(t):
    while t.op == "upd":
        if any(e.args[0] is not const("kernel_kwargs") and e.args[0] is not const("radius") for e in t.args[1:]):
            return t
        t = t.args[0]
    return t


def made(ctx, cls, make):
    loc = func_loc(make)
    E = ctx.engine(KF | INITS | {f"{cls}.get_params"})
    v, st = E.run(make, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, make)
    for key, attr in LIVE[cls].items():
        want = mk("attr", SELF, attr)
        got = peel(none_facts(key_of(E, v, st, key), {want}))
        ctx.ob("R2", f"{cls}.{key}", got is want, loc, f"'{key}' is written as {short(got, 160)} instead of self.{attr}")
    if cls in WITH_PARAMS:
        got = key_of(E, v, st, "params")
        got = peel(got)
        ok = got.op == "call" and str(got.args[0]).endswith(".get_params") and got.args[1][0] is SELF
        ctx.ob("R2", f"{cls}.params", ok, loc, f"'params' is written as {short(got, 160)}")
    if cls == "NCA":
        ik = key_of(E, v, st, "instant_kwargs")
        act = norm(E.item_of(ik, const("activation")))
        ok = contains(act, lambda y: y is mk("attr", SELF, "act"))
        ctx.ob("R6", "NCA.activation", ok, loc, f"the activation is written as {short(act, 120)}")
    for k in INSTANT.get(cls, ()):
        ik = key_of(E, v, st, "instant_kwargs")
        got = peel(E.item_of(ik, const(k)))
        ctx.ob("R6", f"{cls}.{k}", got is mk("attr", SELF, k), loc, f"construction argument '{k}' is written as {short(got, 160)}")
    if cls in INSTANT:
        # arguments that are passed through, and the two that must not be
        ik = key_of(E, v, st, "instant_kwargs")
        pass_through(ctx, cls, ik, loc)
        ctx.guard("R6", f"{cls}.init", lambda: ctor_reads(ctx, cls, loc), loc)
    # identity kernel when none is configured: the single centre cell the CA then uses
    none = mk("attr", SELF, "id_kernel_config")
    idk = under(key_of(E, v, st, "id_kernel_config"), [(mk("eq", NONE, none), True)])
    nm = norm(E.item_of(idk, const("name")))
    ctx.ob("R2", f"{cls}.id_kernel_config.default", nm in (const("InnerMoore"),) or idk is NONE or idk is none, loc,
           f"without an identity kernel configuration '{short(nm, 80)}' is written")


def ctor_reads(ctx, cls, loc):
    """each construction argument that is written is read by the constructor under that name, into the attribute it was written from"""
    f = ctx.prog.method(cls, "__init__")
    E = ctx.engine((KF | INITS | {"query_kwargs", "yuca.utils.query_kwargs", f"{cls}.default_init", f"{cls}.restore_config", f"{cls}.set_params",
                                 f"{cls}.reset", f"{cls}.no_grad"}) - {"CA.__init__", f"{cls}.__init__"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    pairs = [(k, k) for k in INSTANT[cls]] + ([("activation", "act")] if cls == "NCA" else []) + [("ca_mode", "ca_mode"), ("alive_threshold", "alive_threshold")]
    for k, a in pairs:
        p = E.heapget(st, (SELF, "a", a))
        if p is None:
            ctx.ob("R6", f"{cls}.init.{k}", None, func_loc(f), f"the constructor does not set self.{a}")
            continue
        t = norm(E.deref(p, st))
        asked = {cval(y.args[1][0]) for y in walk(t) if y.op == "call" and y.args[0] == "yuca.utils.query_kwargs" and y.args[1] and is_str(y.args[1][0])}
        asked |= {cval(y.args[0]) for y in walk(t) if y.op == "in" and is_str(y.args[0])}
        ctx.ob("R6", f"{cls}.init.{k}", True if k in asked else False if asked or is_const(t) else None, func_loc(f),
               f"construction argument '{k}' is written, but the constructor sets self.{a} from {sorted(asked) or short(t, 80)}")


def pass_through(ctx, cls, ik, loc):
    src = mk("attr", SELF, "instant_kwargs")
    whole = contains(ik, lambda y: y is src)
    ctx.ob("R6", f"{cls}.instant_kwargs", whole, loc, "the construction arguments are not written")
    for k in FILES:
        # either filtered by name or removed from the copy
        mention = contains(ik, lambda y: y is const(k))
        ctx.ob("R6", f"{cls}.instant_kwargs.{k}", mention, loc, f"'{k}' is not excluded from the written construction arguments")
    # nothing else that shapes the update is filtered out
    keys = ctor_keys(ctx, cls)
    explicit = {cval(e.args[0]) for x in walk(ik) if x.op in ("dict", "upd") for e in x.args[1:] if is_str(e.args[0])}
    lost = sorted(({cval(y) for y in walk(ik) if is_str(y)} & keys) - explicit - set(FILES) - HARMLESS)
    ctx.ob("R6", f"{cls}.instant_kwargs.kept", not lost if keys else None, loc, f"the construction arguments {lost} are left out of the written configuration")


HARMLESS = {"device", "tag", "use_grad", "verbose"}


def ctor_keys(ctx, cls):
    """names of the keyword arguments the constructors of this family (and of those that inherit its make_config) read"""
    out = set()
    for c in ctx.prog.classes.values():
        if any(k.name == cls or c.name == k.name and cls in [m.name for m in ctx.prog.mro(c)] for k in ctx.prog.mro(c)):
            for k in ctx.prog.mro(c):
                f = k.methods.get("__init__")
                if f is None:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and \
                            getattr(n.func, "id", getattr(n.func, "attr", "")) in ("query_kwargs", "get", "pop"):
                        out.add(n.args[0].value)
    return out


def roundtrip(ctx, cls, load, make):
    loc = func_loc(load)
    E = load_engine(ctx, cls)
    v, st = E.run(load, args=[CFG], selfcls=ctx.prog.find_class(cls))
    v, st = E.run(make, selfcls=ctx.prog.find_class(cls), st=st)
    keys = list(LIVE[cls])
    allk = keys + (list(FNS) if cls == "CCA" else []) + ["params", "instant_kwargs"]
    for key in keys + (list(FNS) if cls == "CCA" else []):
        want = norm(mk("item", CFG, const(key)))
        got = key_of(E, v, st, key)
        got = peel(none_facts(present(got, allk, ["identity_kernel_config"]), {want}))
        if key == "neighborhood_kernel_config" or key in FNS:
            got = fn_base(got)
        ctx.ob("R3", f"{cls}.{key}", got is want, loc, f"written as {short(got, 160)} right after loading")
        if key == "id_kernel_config":
            alt = norm(mk("item", CFG, const("identity_kernel_config")))
            got = key_of(E, v, st, key)
            got = peel(none_facts(present(got, allk + ["identity_kernel_config"]), {alt}))
            ctx.ob("R3", f"{cls}.{key}.alias", got is alt, loc,
                   f"a configuration with 'identity_kernel_config' is written back with {short(got, 160)}")


def fn_base(t):
    while t.op == "upd" or t.op == "ite" and fn_base(t.args[1]) is fn_base(t.args[2]):
        t = t.args[0] if t.op == "upd" else t.args[1]
    return t


def keysets(ctx, cls, load, make):
    loc = func_loc(load)
    E = load_engine(ctx, cls)
    v, st = E.run(make, selfcls=ctx.prog.find_class(cls))
    d = E.deref(v, st)
    while d.op == "call" and d.args[0] in ("deepcopy", "copy", "dict"):
        d = d.args[1][0]
    if d.op not in ("dict", "upd"):
        ctx.ob("R4", f"{cls}.make", None, loc, f"made configuration is {short(d, 120)}")
        return
    written = {cval(e.args[0]) for e in d.args[1:] if is_const(e.args[0])}
    E2 = load_engine(ctx, cls)
    E2.run(load, args=[CFG], selfcls=ctx.prog.find_class(cls))
    read, tested = set(), set()
    for node_key in literal_reads(ctx, E2):
        read.add(node_key[0])
        if node_key[1]:
            tested.add(node_key[0])
    for k in sorted(read - tested):
        ctx.ob("R4", f"{cls}.{k}:written", k in written, loc, f"loading requires '{k}', which is never written")
    for k in sorted(written):
        ctx.ob("R4", f"{cls}.{k}:read", k in read, loc, f"'{k}' is written but loading ignores it")


def literal_reads(ctx, E):
    """(key, tested first) for every constant key of the configuration that the run mentions in events"""
    seen, tested = set(), set()
    def scan(t):
        if not isinstance(t, T):
            return
        for x in walk(t):
            if x.op == "item" and x.args[0] is CFG and is_str(x.args[1]):
                seen.add(cval(x.args[1]))
            if x.op == "in" and is_str(x.args[0]):
                tested.add(cval(x.args[0]))
    for e in E.events:
        for v in e.data.values():
            if isinstance(v, T):
                scan(v)
            elif isinstance(v, (tuple, list)):
                for y in v:
                    scan(y)
            elif isinstance(v, dict):
                for y in v.values():
                    scan(y)
        for g in e.guards:
            scan(g)
    return {(k, k in tested) for k in seen}


def live_fns(ctx):
    """the written genesis/persistence configuration carries the live parameters of the function in use"""
    prog = ctx.prog
    make = prog.method("CCA", "make_config")
    loc = func_loc(make)
    for key, (attr, fns, adder) in FNS.items():
        E0 = ctx.engine(INITS)
        E0.run(prog.method("CCA", adder), selfcls=prog.find_class("CCA"))
        classes = sorted({e.data["cls"].qual.split(".")[-1] for e in E0.events if e.kind == "new"})
        ctx.ob("R5", f"{key}.registry", True if len(classes) >= 3 else None, loc, f"function classes found: {classes}")
        for K in classes:
            def go():
                params = ctor_params(ctx, K)
                E = ctx.engine(KF | INITS | {"CCA.get_params"})
                st = St()
                ref = mk("ref", f"inst:{prog.find_class(K).qual}", 900)
                E.types[ref] = prog.find_class(K)
                st.heap[(SELF, "a", fns)] = E.mklist([ref], st)
                v, st = E.run(make, selfcls=prog.find_class("CCA"), st=st)
                ctx.note_units(E, make)
                got = none_facts(key_of(E, v, st, key), {mk("attr", SELF, attr)})
                if K == "GaussianMixture":
                    g = peel(E.item_of(got, const("parameters")))
                    order = mixture_order(g, ref)
                    ctx.ob("R5", f"{key}.{K}", order == ["amplitudes", "mu", "sigma"], loc,
                           f"the mixture's parameters are written as {order or short(g, 120)} instead of amplitude, mu, sigma of each component")
                    ok, why = mixture_whole(g, ref)
                    ctx.ob("R5", f"{key}.{K}.every", ok, loc, why)
                    return
                if not params:
                    ctx.ob("R5", f"{key}.{K}", True, loc)
                for a, k in params:
                    g = peel(E.item_of(got, const(k)))
                    g = assume_hasattr(g, ref, {x for x, _ in params})
                    ctx.ob("R5", f"{key}.{K}.{k}", g is mk("attr", ref, a), loc,
                           f"parameter '{k}' of {K} is written as {short(g, 120)} instead of its current value")
            ctx.guard("R5", f"{key}.{K}", go, loc)


def assume_hasattr(t, ref, attrs):
    def f(x):
        if x.op == "call" and x.args[0] == "hasattr" and x.args[1][0] is ref and is_str(x.args[1][1]):
            return TRUE if cval(x.args[1][1]) in attrs else FALSE
        return None
    return norm(subst(t, f))


def mixture_order(g, ref):
    out = []
    for x in walk(g):
        if x.op == "attr" and x.args[1] in ("amplitudes", "mu", "sigma"):
            out.append(x)
    tc = None
    for x in walk(g):
        if x.op == "call" and x.args[0] in ("tcat", "stack", "npcat"):
            tc = x
    for x in walk(g):
        if x.op == "seq":
            names = []
            for y in x.args:
                nm = [z.args[1] for z in walk(y) if z.op == "attr" and z.args[1] in ("amplitudes", "mu", "sigma")]
                if nm:
                    names.append(nm[0] if "amplitudes" not in nm else "amplitudes")
            if len(names) == 3:
                return names
    return None


def mixture_whole(g, ref):
    """every component is written, with its own amplitude"""
    whole = {mk("attr", ref, n) for n in ("gaussians", "amplitudes")}
    counts = {x.args[0] for x in walk(g) if x.op == "over"} | {x.args[0].args[0] for x in walk(g) if x.op == "iter" and x.args[0].op == "fold"} | \
             {x.args[0] for x in walk(g) if x.op == "fold"}
    ok = True if counts else None
    for c in counts:
        c = norm(c)
        if any(c is norm(mk("len", w)) or c is norm(mk("item", mk("attr", w, "shape"), const(0))) for w in whole) or \
                c.op == "len" and c.args[0] in whole or c.op == "call" and c.args[0] == "len" and c.args[1][0] in whole:
            continue
        if any(contains(c, lambda y: y.op == "item" and y.args[0] is w and y.args[1].op == "slice") for w in whole) or \
                contains(c, lambda y: y.op == "attr" and y.args[0] is SELF) or is_num(c):
            return False, f"only {short(c, 100)} of the mixture's components are written"
        ok = None
    for w in whole:
        if contains(g, lambda y: y.op == "item" and y.args[0] is w and (is_num(y.args[1]) or y.args[1].op == "slice" and is_num(norm(y.args[1].args[0])) and is_num(norm(y.args[1].args[1])))):
            return False, f"one fixed entry of {w.args[1]} is written for every component"
    return ok, "how many components are written was not recognised"


def ctor_params(ctx, K):
    """(attribute, configuration key) of every trainable parameter the constructor makes from its arguments"""
    E = ctx.engine()
    f = ctx.prog.method(K, "__init__")
    E.run(f, selfcls=ctx.prog.find_class(K))
    out = []
    for e in E.events:
        if e.kind == "setattr" and e.data["target"] is SELF:
            c = e.data["content"]
            if isinstance(c, T) and c.op == "call" and str(c.args[0]).endswith("Parameter"):
                keys = {cval(x.args[1]) for x in walk(c) if x.op == "item" and x.args[0] is sym("kwargs") and is_str(x.args[1])}
                if len(keys) == 1:
                    out.append((e.data["name"], keys.pop()))
    return out


def files(ctx, cls):
    prog = ctx.prog
    f = prog.method(cls, "save_config")
    E = ctx.engine(KF | INITS | {f"{cls}.make_config"})
    v, st = E.run(f, selfcls=prog.find_class(cls))
    ctx.note_units(E, f)
    saves = [e for e in E.events if e.kind == "call" and e.data["name"] in ("numpy.save", "np.save", "torch.save", "pickle.dump")]
    ctx.ob("R7", f"{cls}.save", True if saves else False, func_loc(f), "nothing is saved")
    fp, cf = sym("filepath"), sym("config")
    for e in saves:
        args = [norm(a) for a in e.data["args"]]
        val = [a for a in args if a is not fp]
        ctx.ob("R7", f"{cls}.save.path", fp in args, e.loc, f"saved to {short(tuple(args), 120)}")
        ok = None
        for a in val:
            facts = [(norm(x, do_strip=False), True) for x in e.guards]
            for given in (True, False):
                w = peel(under(norm(E.deref(a, st)), [(mk("eq", NONE, cf), not given)] + facts))
                reach = all(holds(norm(x, do_strip=False), [(mk("eq", NONE, cf), not given)]) is not FALSE for x in e.guards)
                if not reach:
                    continue
                good = w is cf if given else (w.op == "call" and str(w.args[0]).endswith(".make_config") and w.args[1][0] is SELF)
                ctx.ob("R7", f"{cls}.save.value", good, e.loc, f"when a configuration is {'' if given else 'not '}given, {short(w, 160)} is saved")
    g = prog.method(cls, "restore_config")
    E = ctx.engine(KF | INITS | {f"{cls}.load_config"})
    E.run(g, selfcls=prog.find_class(cls))
    ctx.note_units(E, g)
    loads = [e for e in E.events if e.kind == "call" and e.data["name"].endswith(".load_config")]
    ctx.ob("R7", f"{cls}.restore", bool(loads), func_loc(g), "restoring never loads the configuration")
    for i, e in enumerate(loads):
        a = norm(e.data["args"][1]) if len(e.data["args"]) > 1 else None
        ok = a is not None and contains(a, lambda y: y.op == "call" and str(y.args[0]).split(".")[-1] == "load") or None
        src = [y for y in walk(a) if y.op == "call" and str(y.args[0]).split(".")[-1] == "load"] if a is not None else []
        if src:
            ok = contains(src[0], lambda y: y is sym("filepath"))
        ctx.ob("R7", f"{cls}.restore.{i}", ok, e.loc, f"restores {short(a, 160)}")


# ------------------------------------------------------------------ C06
TAKERS = ("load_config", "set_kernel_config", "save_config")


def check_C06(ctx):
    ctx.rule("R1", "loading, setting or saving a configuration never writes into the caller's configuration object")
    ctx.rule("R2", "no attribute of the CA shares storage with the caller's configuration afterwards")
    ctx.rule("R3", "a made configuration shares no storage with the CA that made it")
    ctx.rule("R4", "configuration factories build fresh objects: no entry is shared with another entry, with module or default-argument state, or with the caller's lists")
    ctx.rule("R5", "no instance shares mutable state through class attributes or default arguments")
    prog = ctx.prog
    seen = set()
    for cls in FAMILIES:
        for m in TAKERS:
            f = try_method(prog, cls, m)
            if f is None or (f, m) in seen and cls not in ("CCA", "NCA", "RxnDfn", "CA"):
                continue
            seen.add((f, m))
            ctx.guard("R1", f"{cls}.{m}", lambda: taker(ctx, cls, f, m), func_loc(f))
        f = try_method(prog, cls, "make_config")
        if f is not None:
            ctx.guard("R3", f"{cls}.make_config", lambda: maker(ctx, cls, f), func_loc(f))
        ctx.guard("R5", cls, lambda: class_state(ctx, cls))
    import ast
    mod = prog.modules["yuca.configs"]
    inside = {n.func.id for g in mod.funcs.values() for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
    for name, f in sorted(mod.funcs.items()):
        if name in inside and name not in FACTORIES:
            continue                                # a helper: judged where it is called
        ctx.guard("R4", name, lambda: factory(ctx, name, f), func_loc(f))


def try_method(prog, cls, m):
    try:
        return prog.method(cls, m)
    except AnalysisError:
        return None


def own_chain(ctx, cls):
    return KF | INITS | {f"{cls}.get_params", f"{cls}.set_params", f"{cls}.default_init", f"{cls}.restore_config", f"{cls}.to_device",
                         f"{cls}.initialize_neighborhood_layer", f"{cls}.initialize_id_layer", f"{cls}.initialize_weight_layer"}


def taker(ctx, cls, f, m):
    E = ctx.engine(own_chain(ctx, cls))
    a = [x.arg for x in f.node.args.args][1:]
    params = [sym(x) for x in a]
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    bad = foreign_writes(E, params)
    ctx.ob("R1", f"{cls}.{m}", not bad, bad[0][0].loc if bad else func_loc(f),
           f"writes into the caller's configuration ({bad[0][0].data.get('how') or bad[0][0].kind if bad else ''})")
    # final pointers of self attributes
    for (o, kind, name), p in sorted(st.heap.items(), key=lambda kv: str(kv[0])):
        if o is SELF and kind == "a" and isinstance(p, T):
            shared = [q for q in shared_roots(E, st, p) if q in params]
            if name in ("my_device", "kernel_radius"):
                shared = []
            if shared and isinstance(p, T):
                vals = [x for _, x in leaves(p)]
                if all(scalar_entry(x) for x in vals):
                    shared = []
            ctx.ob("R2", f"{cls}.{m}:{name}", not shared, func_loc(f), f"self.{name} keeps (part of) the caller's {show(shared[0]) if shared else ''}")


SCALAR_KEYS = {"radius", "dt", "dx", "name", "mode", "decay_rate", "feed_rate", "diffusion_u", "diffusion_v"}


def scalar_entry(p):
    return p.op == "const" or p.op == "item" and is_str(p.args[1]) and cval(p.args[1]) in SCALAR_KEYS


def shared_roots(E, st, p, depth=0):
    """objects outside the run that p, or an entry of the container p, may share storage with"""
    out = set(E.roots(p))
    if depth > 4:
        return out
    for x in list(out):
        if x.op == "ref" and x.args[0] in ("dict", "list"):
            for h in (E.base.heap, st.heap):
                for k, v in h.items():
                    if k[0] is x and isinstance(v, T) and k[1] in ("i", "base", "c"):
                        if k[1] == "i" and isinstance(k[2], T) and is_str(k[2]) and cval(k[2]) in SCALAR_KEYS:
                            continue
                        subs = v.args if v.op == "seq" else (v,)
                        for s in subs:
                            if isinstance(s, T):
                                out |= shared_roots(E, st, s, depth + 1)
        if x.op == "cell" and x in E.shallow:
            out |= shared_roots(E, st, E.shallow[x], depth + 1)
    return out


def maker(ctx, cls, f):
    E = ctx.engine(KF | INITS | {f"{cls}.get_params"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    sh = [q for q in shared_roots(E, st, v) if of_self(q)]
    ctx.ob("R3", f"{cls}.make_config", not sh, func_loc(f), f"the made configuration shares {short(sh[0], 80) if sh else ''} with the CA")


def of_self(q):
    while q.op in ("item", "attr"):
        if q.op == "attr" and q.args[0] is SELF:
            return q.args[1] not in ("kernel_radius", "kernel_peaks", "conv_mode", "dropout_rate", "hidden_channels", "external_channels",
                                     "internal_channels")
        q = q.args[0]
    return q is SELF


FACTORIES = ("get_smooth_interval", "get_smooth_life_config", "get_life_like_config", "get_orbium_config", "get_geminium_config")


def factory(ctx, name, f):
    E = ctx.engine()
    a = f.node.args
    params = [sym(x.arg) for x in a.posonlyargs + a.args + a.kwonlyargs]
    v, st = E.run(f)
    ctx.note_units(E, f)
    writes = foreign_writes(E, params)
    ctx.ob("R4", f"{name}.args", not writes, writes[0][0].loc if writes else func_loc(f), "changes one of its arguments (also a shared default)")
    glob = [e for e in E.events if e.kind in ("setglobal",)]
    ctx.ob("R4", f"{name}.globals", not glob, glob[0].loc if glob else func_loc(f), "keeps state between calls")
    old = [x for x in shared_roots(E, st, v) if x.op == "ref" and x.args[0] in ("dict", "list") and existed(E, x)]
    ctx.ob("R4", f"{name}.fresh", not old, func_loc(f), "returns (part of) an object that outlives the call")
    for d in f.node.decorator_list:
        text = ast.unparse(d)
        ctx.ob("R4", f"{name}.cached", False if "cache" in text or "memo" in text else None, func_loc(f),
               f"decorated with {text}: every call returns the same object")
    entries = {}
    collect(E, st, v, "", entries)
    if not entries:
        return
    by = {}
    for path, p in entries.items():
        r = {x for x in shared_roots(E, st, p) if x.op in ("cell", "ref", "sym", "attr", "item", "gvar", "mod") and not scalar_entry(x)}
        outside = [x for x in r if x in params and not path.endswith("radius")] + [x for x in r if x.op in ("gvar", "mod", "ext")]
        outside += [x for x in r if x.op == "ref" and x.args[0] in ("dict", "list") and existed(E, x)]
        ctx.ob("R4", f"{name}{path}:own", not outside, func_loc(f), f"entry {path} is shared with {short(outside[0], 60) if outside else ''}")
        for x in r:
            if x.op in ("cell", "ref"):
                by.setdefault(x, []).append(path)
    for x, paths in by.items():
        tops = {q.split("/")[1] for q in paths}
        if len(tops) > 1:
            ctx.ob("R4", f"{name}:shared:{'+'.join(sorted(tops))}", False, func_loc(f), f"entries {', '.join(sorted(paths))} are the same object")


def existed(E, r):
    """object that exists before the run (module state)"""
    return any(k[0] is r for k in E.base.heap) or any(isinstance(v, T) and r in E.roots(v) for v in E.gcache.values())


def collect(E, st, p, path, out):
    if p.op == "ref" and p.args[0] == "dict":
        if path:
            out[path] = p
        for h in (E.base.heap, st.heap):
            for k, v in h.items():
                if k[0] is p and k[1] == "i" and is_str(k[2]) and isinstance(v, T) and v is not UNDEF:
                    collect(E, st, v, path + "/" + cval(k[2]), out)
        return
    if path and p.op not in ("const",):
        out[path] = p


def class_state(ctx, cls):
    from .state import mutated_attrs, stored_params
    prog = ctx.prog
    c = prog.find_class(cls)
    loc = f"{c.module.path}:{c.node.lineno}"
    shared = {}
    for k in prog.mro(c):
        node = getattr(k, "node", None)
        if node is None:
            continue
        for s in node.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name):
                        shared[t.id] = s.lineno
    ctx.ob("R5", f"{cls}.class_attributes", not shared, loc, f"class attribute {', '.join(shared)} is one object for all instances")
    for name, f in sorted(all_methods(prog, cls).items()):
        a = f.node.args
        defs = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        muts = [n for n, d in defs.items() if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call))]
        if not muts:
            continue
        E = ctx.engine(own_chain(ctx, cls))
        E.run(f, selfcls=c)
        params = [sym(n) for n in muts]
        bad = foreign_writes(E, params) or stored_params(E, params)
        ctx.ob("R5", f"{cls}.{name}.defaults", not bad, func_loc(f), f"default argument {muts} is kept or changed, so calls share it")
