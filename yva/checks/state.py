"""C02 caller's objects untouched."""
from ..lib import *
from ..terms import *
from .steps import Steps, SELF, X, MODE, HEAVY

# entry points whose arguments belong to the caller
STEP_METHODS = ("forward", "get_frame", "update_universe", "update_helper", "alive_mask", "id_conv", "neighborhood_conv",
                "genesis", "persistence", "get_new_grid", "adaptive_euler", "add_neighborhood_kernel", "add_identity_kernel",
                "set_params", "set_dt", "set_dx", "update_kernel_params", "add_genesis_fn", "add_persistence_fn",
                "set_diffusion_u", "set_diffusion_v")
KERNEL_FUNCS = "yuca.kernels"
UTIL_FUNCS = {"yuca.utils": ("get_mask", "get_bite_mask", "get_aperture", "prep_input", "make_target", "query_kwargs"),
              "yuca.analyze": ("np_shift", "get_grid_entropy", "get_spatial_entropy", "get_conditional_grid_entropy",
                               "get_multiconditional_grid_entropy")}
CLASS_METHODS = [("Librarian", "crop"), ("Librarian", "autocrop"), ("Librarian", "store"),
                 ("Phanes", "autocorrelate"), ("Phanes", "get_grid_entropy"), ("Phanes", "get_spatial_entropy"),
                 ("GliderWrapper", "step"), ("GliderWrapper", "meta_step"), ("SimpleHaltingWrapper", "step"),
                 ("HaltingWrapper", "step"), ("HaltingWrapper", "get_accuracy"), ("HaltingWrapper", "forward"),
                 ("RandomWrapper", "step"), ("HaltingWrapper", "set_params"), ("SimpleHaltingWrapper", "set_params"),
                 ("CPPN", "forward"), ("CPPN", "set_params"), ("CPPN", "get_action"), ("CPPNPlus", "set_params"),
                 ("CPPNPlus", "get_action"), ("ParamsAgent", "set_params"), ("ParamsAgent", "get_action"),
                 ("StepPredictor", "forward")]


def foreign_writes(E, params):
    """mutations of storage reachable from the given parameters"""
    out = []
    for ev in E.events:
        t = None
        if ev.kind in ("mutate", "listmut", "setitem"):
            t = ev.data.get("target") or ev.data.get("obj") or ev.data.get("base")
        elif ev.kind == "setattr":
            t = ev.data.get("obj") or ev.data.get("target")
        if t is None or not isinstance(t, T):
            continue
        r = E.roots(t)
        hit = [p for p in params if p in r]
        if hit:
            out.append((ev, hit))
    return out


def entry_points(ctx):
    """(label, class or None, Func)"""
    prog = ctx.prog
    out = []
    for cls in FAMILIES:
        for m in STEP_METHODS:
            try:
                f = prog.method(cls, m)
            except AnalysisError:
                continue
            if f is None:
                continue
            out.append((f"{cls}.{m}", cls, f))
    mod = prog.modules["yuca.activations"]
    for name, c in sorted(mod.classes.items()):
        f = prog.method(name, "forward")
        out.append((f"{name}.forward", name, f))
    for name, f in sorted(prog.modules[KERNEL_FUNCS].funcs.items()):
        out.append((name, None, f))
    for m, fs in UTIL_FUNCS.items():
        for n in fs:
            out.append((f"{m}.{n}", None, prog.modules[m].funcs[n]))
    for c, m in CLASS_METHODS:
        out.append((f"{c}.{m}", c, prog.method(c, m)))
    return out


def mutated_attrs(E):
    """attributes of self whose storage is written in place: {attr: event}"""
    out = {}
    for ev in E.events:
        if ev.kind in ("mutate", "listmut", "setitem"):
            t = ev.data.get("target")
            if not isinstance(t, T):
                continue
            for p in E.roots(t):
                if p.op == "attr" and p.args[0] is SELF:
                    out.setdefault(p.args[1], ev)
        elif ev.kind == "augattr" and ev.data["target"] is SELF:
            out.setdefault(ev.data["name"], ev)     # may be in place when it holds a tensor or array
    return out


def stored_params(E, params):
    """attributes of self that end up holding (a view of) a caller's argument: {attr: (param, event)}"""
    out = {}
    for ev in E.events:
        if ev.kind == "setattr" and ev.data.get("target") is SELF:
            v = ev.data.get("value")
            if isinstance(v, T):
                for p in params:
                    if p in E.roots(v):
                        out.setdefault(ev.data["name"], (p, ev))
    return out


def check_C02(ctx):
    ctx.rule("R2", "an attribute that keeps a caller's tensor or array is never written in place by any method of the class")
    ctx.rule("R1", "no in-place operation of the function (or anything it calls) targets storage that may alias one of its arguments")
    stored, mutated = {}, {}
    for label, cls, f in entry_points(ctx):
        def go():
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if cls is not None:
                names = names[1:]
            params = [sym(x) for x in names]
            if a.kwarg:
                params.append(sym(a.kwarg.arg))
            E = ctx.engine()
            E.run(f, selfcls=ctx.prog.find_class(cls) if cls else None)
            ctx.note_units(E, f)
            bad = foreign_writes(E, params)
            if cls is not None:
                for k, v in stored_params(E, params).items():
                    stored.setdefault(cls, {}).setdefault(k, (label,) + v)
                for k, v in mutated_attrs(E).items():
                    mutated.setdefault(cls, {}).setdefault(k, (label, v))
            if not bad:
                ctx.ob("R1", label, True, func_loc(f))
            for ev, hit in bad[:3]:
                ctx.ob("R1", f"{label}({show(hit[0])})", False, ev.loc,
                       f"{ev.kind} in {ev.fn} writes into storage shared with the caller's argument {show(hit[0])}")
        ctx.guard("R1", label, go)
    for cls in sorted(stored):
        # every other method of the class may write in place too
        for name, f in sorted(all_methods(ctx.prog, cls).items()):
            def more():
                E = ctx.engine(HEAVY if name == "__init__" else ())   # those are taken on their own
                E.run(f, selfcls=ctx.prog.find_class(cls))
                for k, v in mutated_attrs(E).items():
                    mutated.setdefault(cls, {}).setdefault(k, (f"{cls}.{name}", v))
            try:
                more()
            except AnalysisError:
                raise
            except Exception as e:
                ctx.notes.append(f"R2: {cls}.{name} not interpreted ({type(e).__name__})")
        for a, (label, p, ev) in sorted(stored[cls].items()):
            hit = mutated.get(cls, {}).get(a)
            ctx.ob("R2", f"{cls}.{a}", hit is None, ev.loc,
                   f"{label} keeps the caller's {show(p)} as self.{a}, and {hit[0] if hit else ''} writes it in place at {hit[1].loc if hit else ''}")


def all_methods(prog, cls):
    """methods visible on the class (own and inherited), by name"""
    out = {}
    c = prog.find_class(cls)
    for k in prog.mro(c):
        for n, f in getattr(k, "methods", {}).items():
            out.setdefault(n, f)
    return {n: f for n, f in out.items() if f.kind == "inst"}


# ------------------------------------------------------------------ C26
GRAD_ENTRIES = ("__init__", "set_params", "to_device", "load_config", "restore_config", "set_kernel_config", "update_kernel_params",
                "update_kernel_config", "add_genesis_fn", "add_persistence_fn", "add_neighborhood_kernel", "add_identity_kernel",
                "initialize_neighborhood_layer", "initialize_id_layer", "initialize_weight_layer", "default_init", "include_parameters",
                "reset", "set_diffusion_u", "set_diffusion_v", "initialize_dynamic_weights", "initialize_dynamics", "init_model", "no_grad")
GRAD_CLASSES = ("CA", "CCA", "Lenia", "NCA", "RxnDfn", "MetaCA", "CODE", "RandomStepCA", "CPPN", "CPPNPlus")


def canon_loops(t):
    """loop indices named by what they run over"""
    return subst(t, lambda x: mk("idx", canon_loops(x.args[0]), "#") if x.op == "idx" else None)


def param_base(t):
    """module (or parameter attribute) whose parameters the storage belongs to, or None"""
    while True:
        if t.op == "view":
            t = t.args[1]
        elif t.op == "item":
            t = t.args[0]
        elif t.op == "call" and t.args[0] == ".parameters" and t.args[1]:
            return canon_loops(t.args[1][0])
        elif t.op == "call" and t.args[0] in (".get_parameter",) and t.args[1]:
            return canon_loops(t.args[1][0])
        elif t.op == "call" and t.args[0] == "Parameter":
            return t
        elif t.op == "attr" and t.args[1] in ("weight", "bias"):
            return canon_loops(t.args[0])
        elif t.op == "attr" and t.args[1] == "data":
            return None
        else:
            return None


def covers(a, b):
    """freezing the parameters of module a freezes those of b"""
    if a is b:
        return True
    while b.op == "attr":
        b = b.args[0]
        if a is b:
            return True
    return False


def grad_off_spans(ctx, E):
    """event numbers inside `with torch.no_grad()` (or inference_mode)"""
    out, open_ = set(), []
    for ev in E.events:
        if ev.kind == "with":
            c = ev.data["ctx"]
            open_.append(off_ctx(c))
        elif ev.kind == "endwith" and open_:
            open_.pop()
        elif any(open_):
            out.add(ev.seq)
        elif any(decorated(ctx, q) for q in ev.chain):
            out.add(ev.seq)
    return out


def off_ctx(c):
    if c.op == "call" and isinstance(c.args[0], str):
        nm = c.args[0].split(".")[-1]
        if nm in ("no_grad", "inference_mode"):
            return not c.args[1] or c.args[1][0] is TRUE
        if nm == "set_grad_enabled":
            return bool(c.args[1]) and c.args[1][0] is FALSE
    return False


def decorated(ctx, qual):
    import ast
    cache = ctx.__dict__.setdefault("_deco", {})
    if qual not in cache:
        parts = qual.split(".")
        r = False
        try:
            f = ctx.prog.method(parts[-2], parts[-1]) if parts[-2][:1].isupper() else None
            r = bool(f) and any("no_grad" in ast.dump(d) or "inference_mode" in ast.dump(d) for d in f.node.decorator_list)
        except Exception:
            r = False
        cache[qual] = r
    return cache[qual]


def freezes(E):
    """[(event, base, False/True/None)] every change of requires_grad"""
    out = []
    for ev in E.events:
        if ev.kind == "setattr" and ev.data["name"] == "requires_grad":
            b = param_base(ev.data["target"])
            if b is None:
                b = canon_loops(ev.data["target"])
            v = norm(ev.data["content"])
            out.append((ev, b, False if v is FALSE else True if v is TRUE else None))
        elif ev.kind == "call" and str(ev.data["name"]).split(".")[-1] == "requires_grad_" and ev.data["args"]:
            a = ev.data["args"]
            b = param_base(a[0])
            if b is None:
                b = canon_loops(a[0])
            v = norm(a[1]) if len(a) > 1 else ev.data["kw"].get("requires_grad", TRUE)
            out.append((ev, b, False if v is FALSE else True if v is TRUE else None))
    return out


def unconditional(fz, wr):
    """the freeze happens whenever the write does: its guards and its non-parameter loops enclose the write too"""
    return all(g in wr.guards for g in fz.guards)


def grad_values(t):
    """requires_grad settings under which a written value was made: FALSE/TRUE/terms"""
    out = []
    t0 = t
    while True:
        if t.op == "call" and t.args[0] == "Parameter":
            kw = dict(x for x in t.args[2] if isinstance(x, tuple) and len(x) == 2)
            out.append(kw.get("requires_grad", t.args[1][1] if len(t.args[1]) > 1 else TRUE))
            return out
        if t.op == "call" and t.args[0] in ("tensor", "to", "reshape", "view") and t.args[1]:
            kw = dict(x for x in t.args[2] if isinstance(x, tuple) and len(x) == 2)
            if "requires_grad" in kw:
                out.append(kw["requires_grad"])
                return out
            if t.args[0] == "tensor":
                return out
            t = t.args[1][0]
            continue
        if t.op in ("ite",):
            return grad_values(t.args[1]) + grad_values(t.args[2])
        return out


def check_C26(ctx):
    ctx.rule("R1", "every in-place overwrite of a module's parameters comes after requires_grad was set to False for them on the same path "
                   "(or inside torch.no_grad(), or they are frozen by construction and never thawed)")
    ctx.rule("R2", "the value written into a parameter carries no gradient requirement of its own")
    ctx.rule("R3", "switching gradients off sets every parameter family that set_params and to_device overwrite to requires_grad=False, unconditionally")
    ctx.rule("R4", "switching gradients off records use_grad = False, and set_params and to_device of every CA switch gradients off")
    prog = ctx.prog
    for cls in GRAD_CLASSES:
        born = None
        for name in GRAD_ENTRIES:
            try:
                f = prog.method(cls, name)
            except AnalysisError:
                continue
            if f is None:
                continue
            def go():
                nonlocal born
                grad_rules(ctx, cls, name, f, lambda: born_frozen(ctx, cls))
            ctx.guard("R1", f"{cls}.{name}", go)
        if cls in FAMILIES and cls != "CA":
            ctx.guard("R4", cls, lambda: use_grad(ctx, cls))


def born_frozen(ctx, cls):
    """families frozen at the end of construction and never thawed by a method"""
    cache = ctx.__dict__.setdefault("_born", {})
    if cls in cache:
        return cache[cls]
    f = ctx.prog.method(cls, "__init__")
    E = ctx.engine(HEAVY)
    _, end = E.run(f, selfcls=ctx.prog.find_class(cls))
    names = {v: mk("attr", SELF, k[2]) for k, v in end.heap.items() if isinstance(k, tuple) and len(k) == 3 and k[0] is SELF and k[1] == "a" and isinstance(v, T)}
    state = {}
    for ev, b, v in freezes(E):
        state[names.get(b, b)] = v if not ev.guards else None
    ok = {b for b, v in state.items() if v is False}
    for name, g in all_methods(ctx.prog, cls).items():
        if name == "__init__":
            continue
        try:
            E2 = ctx.engine(HEAVY)
            E2.run(g, selfcls=ctx.prog.find_class(cls))
        except Exception:
            continue
        for ev, b, v in freezes(E2):
            if v is not False:
                ok.discard(b)
    cache[cls] = ok
    return ok


def grad_rules(ctx, cls, name, f, born):
    E = ctx.engine(HEAVY if name in ("__init__", "restore_config") else ())   # those are taken on their own
    E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    off = grad_off_spans(ctx, E)
    fz = freezes(E)
    seen = {}
    for ev in E.events:
        if ev.kind != "mutate":
            continue
        t = ev.data["target"]
        b = param_base(t)
        if b is None:
            continue
        key = f"{cls}.{name}->{ev.fn.split('.')[-1]}({short(b, 60)})"
        ok = ev.seq in off
        if not ok:
            hits = [(e, v) for e, bb, v in fz if e.seq < ev.seq and covers(bb, b)]
            last = hits[-1] if hits else None
            # conditional thawing after an unconditional freeze counts as not frozen
            if last and last[1] is False and unconditional(last[0], ev):
                ok = True
            elif last is None:
                ok = any(covers(x, b) for x in born())
            else:
                good = [e for e, v in hits if v is False and unconditional(e, ev)]
                ok = bool(good) and not [e for e, v in hits if v is not False and e.seq > good[-1].seq]
        if seen.get(("R1", key), True):
            seen[("R1", key)] = ok
            seen[("R1", key, "loc")] = ev.loc
        vals = grad_values(norm(ev.data["value"], do_strip=False))
        bad = [v for v in vals if norm(v) is not FALSE]
        good = None if bad and not all(norm(v) is TRUE or norm(v) is mk("attr", SELF, "use_grad") for v in bad) else not bad
        if ev.seq in off:
            good = True
        if seen.get(("R2", key), True) is True:
            seen[("R2", key)] = good
            seen[("R2", key, "loc")] = ev.loc
    for k in [k for k in seen if len(k) == 2]:
        ctx.ob(k[0], k[1], seen[k], seen[k + ("loc",)],
               "overwrites parameters that may still require gradients" if k[0] == "R1" else "writes a value that requires gradients into a parameter")


def use_grad(ctx, cls):
    f = ctx.prog.method(cls, "no_grad")
    E = ctx.engine()
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    u = E.heapget(st, (SELF, "a", "use_grad"))
    ctx.ob("R4", f"{cls}.use_grad", u is not None and norm(E.deref(u, st)) is FALSE, func_loc(f), "switching gradients off does not record use_grad = False")
    on = [b for e, b, val in freezes(E) if val is False and not e.guards]
    bad = [e for e, b, val in freezes(E) if val is not False]
    ctx.ob("R3", f"{cls}.no_grad", bool(on) and not bad, func_loc(f), "no_grad leaves parameters with gradients" if not bad else "no_grad turns gradients on")
    for m in ("set_params", "to_device"):
        g = ctx.prog.method(cls, m)
        E2 = ctx.engine()
        v2, st2 = E2.run(g, selfcls=ctx.prog.find_class(cls))
        u = E2.heapget(st2, (SELF, "a", "use_grad"))
        ctx.ob("R4", f"{cls}.{m}", u is not None and norm(E2.deref(u, st2)) is FALSE, func_loc(g), f"{m} leaves use_grad as it was: {short(u, 60) if u is not None else 'untouched'}")
        got = [b for e, b, val in freezes(E2) if val is False and not e.guards]
        for b in dict.fromkeys(on):
            if b.op != "cell":
                ctx.ob("R3", f"{cls}.{m}({short(b, 50)})", any(covers(x, b) for x in got), func_loc(g), f"{m} does not switch gradients off for {short(b, 50)}")
