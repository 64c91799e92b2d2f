"""C22 the step predictor."""
import ast
import os
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF
from .evo import is_call, name_of
from .env import recv, cargs
from .io import pieces, merged, NotText

CLS = "StepPredictor"
DEPTHS = (1, 2, 3, 4, 5)
X = sym("x")


def check_C22(ctx):
    ctx.rule("R1", "methods use no name that only the script part of the module defines, and every prediction in fitting and evaluating is the predictor's own forward pass, which also is what is trained")
    ctx.rule("R2", "the forward pass applies every layer built, in order, and adds each block to the running grid")
    ctx.rule("R3", "predictions are made in training mode while fitting and in inference mode while validating and evaluating, whatever ran before; dropout follows the mode")
    ctx.rule("R4", "progress and model are saved under two different names, both made from the experiment tag, and the saved model is the predictor's own state")
    ctx.rule("R5", "every layer built is registered under a name of its own, so that it is trained and saved; blocks keep the grid's size and hand the channels on")
    ctx.rule("R6", "every training batch is one optimisation step: gradients cleared, loss propagated, optimizer stepped, in this order, unconditionally; validating and evaluating record no gradients")
    ctx.rule("R7", "validation and evaluation losses are squared errors summed over all batches divided by the samples counted over the same batches")
    ctx.rule("R8", "each validation adds one entry to each of its records, under the name of what it is; progress and model are saved at each validation after that, the last epoch included")
    ctx.rule("R9", "the final report names each loss after the loader it was computed from")
    ctx.rule("R10", "the constructor takes each option from the argument of its name, seeds before building the layers, and derives the experiment tag from tag, seed and size")
    if CLS not in ctx.prog.modules["yuca.step_predictor"].classes:
        raise AnalysisError("StepPredictor not found")
    ctx.guard("R1", "names", lambda: script_names(ctx))
    ctx.guard("R2", "forward", lambda: blocks(ctx))
    ctx.guard("R5", "init_model", lambda: registered(ctx))
    for meth, val in (("fit", "val_dataloader"), ("evaluate", None), ("end_evaluate", None)):
        ctx.guard("R1", meth, lambda: training(ctx, meth))
    ctx.guard("R4", "fit", lambda: saved(ctx))
    ctx.guard("R6", "fit", lambda: optimised(ctx))
    ctx.guard("R7", "losses", lambda: losses(ctx))
    ctx.guard("R8", "fit", lambda: progress(ctx))
    ctx.guard("R9", "end_evaluate", lambda: report(ctx))
    ctx.guard("R10", "__init__", lambda: options(ctx))
    ctx.guard("R10", "fit", lambda: fit_options(ctx))


# ------------------------------------------------------------------ names
def main_guard(n):
    return isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test))


def stores(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x.id
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            yield x.name
        elif isinstance(x, ast.alias):
            yield (x.asname or x.name).split(".")[0]
        elif isinstance(x, ast.ExceptHandler) and x.name:
            yield x.name
        elif isinstance(x, ast.arg):
            yield x.arg


def script_names(ctx):
    m = ctx.prog.modules["yuca.step_predictor"]
    lib, script = set(), set()
    for n in m.tree.body:
        (script if main_guard(n) else lib).update(stores(n) if main_guard(n) or not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else [n.name])
    only = script - lib
    c = ctx.prog.find_class(CLS)
    for f in c.methods.values() if isinstance(c.methods, dict) else c.methods:
        own = set(stores(f.node))
        for g in (x for x in ast.walk(f.node) if isinstance(x, ast.Global)):
            own -= set(g.names)
        bad = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in only and x.id not in own]
        ctx.ob("R1", f"{f.node.name}:names", not bad, f"{m.path}:{bad[0].lineno} ({f.qual})" if bad else func_loc(f),
               f"{f.node.name} reads {bad[0].id if bad else ''}, a variable of the script part of the module")


# ------------------------------------------------------------------ forward
def value(ctx, n):
    E = ctx.engine()
    st = St()
    st.heap[(SELF, "a", "layer_repeats")] = const(n)
    st.heap[(SELF, "a", "conv_layers")] = E.mklist([sym(f"L{i}") for i in range(2 * n)], st)
    f = ctx.prog.method(CLS, "forward")
    v, st = E.run(f, [X], {}, ctx.prog.find_class(CLS), st)
    if n == 1:
        ctx.note_units(E, f)
    if n == 2:
        hit = [e for e in E.events if e.kind in ("mutate", "setitem") and e.data.get("target") is X]
        ctx.ob("R2", "forward:input kept", not hit, hit[0].loc if hit else func_loc(f), "the forward pass writes into the grid it is given")
    t = norm(E.deref(v, st), do_strip=True)
    # distinct calls of a random operation are told apart by their place, not by a number
    t = norm(subst(t, lambda y: mk("call", y.args[0], tuple(unnumber(z) for z in y.args[1]), tuple((k, unnumber(z) if isinstance(z, T) else z) for k, z in y.args[2] if k != "#"))
                   if y.op == "call" and any(k == "#" for k, _ in y.args[2]) else None), do_strip=True)
    return E, t, func_loc(f)


def unnumber(t):
    return norm(subst(t, lambda y: mk("call", y.args[0], tuple(unnumber(z) for z in y.args[1]), tuple((k, unnumber(z) if isinstance(z, T) else z) for k, z in y.args[2] if k != "#"))
                      if y.op == "call" and any(k == "#" for k, _ in y.args[2]) else None), do_strip=True)


def applied(t, i):
    L = sym(f"L{i}")
    return [y for y in dict.fromkeys(walk(t)) if y.op == "call" and (y.args[0] is L or y.args[0] == "L%d" % i or y.args[0] == "<call>" and y.args[1] and y.args[1][0] is L)]


def arg_of(y):
    a = [z for z in y.args[1]]
    return a[-1] if a else None


def unclear(t):
    return contains(t, lambda y: y.op in ("mu", "havoc", "fold", "cell", "ref", "opaque", "brk", "last", "undef", "store"))


def blocks(ctx):
    prev = X
    for n in DEPTHS:
        E, t, loc = value(ctx, n)
        key = f"forward:{n} repeats"
        missing = [i for i in range(2 * n) if not applied(t, i)]
        bad = unclear(t)
        if missing:
            ctx.ob("R2", f"{key}:layers", None if bad else False, loc, f"of {2 * n} layers the forward pass never applies {missing}")
            prev = t
            continue
        twice = [i for i in range(2 * n) if len(applied(t, i)) > 1]
        ctx.ob("R2", f"{key}:layers", not twice or (None if bad else False), loc, f"layers {twice} are applied to more than one value")
        if twice:
            prev = t
            continue
        a, b = applied(t, 2 * n - 2)[0], applied(t, 2 * n - 1)[0]
        ok = contains(arg_of(b), lambda y: y is a)
        ctx.ob("R2", f"{key}:order", ok or (None if bad else False), loc, f"the second layer of block {n - 1} does not read the first")
        xin = arg_of(a)
        same = norm(sub(xin, prev)) is const(0) or None
        if same is None and not bad:
            same = xin is prev
        ctx.ob("R2", f"{key}:input", same, loc, f"block {n - 1} reads {short(xin, 120)}, not the grid after the blocks before it")
        d = norm(sub(t, prev))
        rest = norm(subst(d, lambda y: sym("BLOCK") if y is b else None))
        ok = not contains(rest, lambda y: y is X or y.op == "sym" and str(y.args[0]).startswith("L") and str(y.args[0])[1:].isdigit()) and contains(rest, lambda y: y is sym("BLOCK"))
        ctx.ob("R2", f"{key}:added", ok or (None if bad else False), loc, f"block {n - 1} changes the grid by {short(d, 160)}, which is not a function of its own output alone")
        drops = [y for y in dict.fromkeys(walk(t)) if y.op == "call" and str(y.args[0]).split(".")[-1].startswith(("dropout", "alpha_dropout", "feature_alpha"))]
        if n == 1:
            mods = contains(t, lambda y: y.op == "call" and str(y.args[0]).startswith((".", "<call>")) and y.args[1] and y.args[1][0] is SELF)
            ctx.ob("R3", "forward:dropout", bool(drops) or (None if mods or bad else False), loc, "the forward pass has no dropout")
        for y in drops:
            k = dict(y.args[2])
            tr = k.get("training", y.args[1][2] if len(y.args[1]) > 2 else None)
            ok = True if tr is mk("attr", SELF, "training") else False if tr is None or is_const(tr) else None
            ctx.ob("R3", f"{key}:dropout", ok, loc, f"dropout is applied with training={short(tr, 60) if tr is not None else 'its default, True'}, not the predictor's own mode")
            p = k.get("p", y.args[1][1] if len(y.args[1]) > 1 else None)
            ctx.ob("R3", f"{key}:dropout rate", False if p is not None and is_num(p) and p is const(0) else True if p is not None and contains(p, lambda z: z is mk("attr", SELF, "dropout")) else None, loc,
                   "dropout with rate zero does nothing")
            if p is not None and is_num(p) and p is not const(0):
                ctx.ob("R3", f"{key}:dropout option", False, loc, f"the dropout rate is always {short(p, 20)}, whatever the predictor was made with")
        prev = t


# ------------------------------------------------------------------ registration
def registered(ctx):
    for n in (1, 2, 3):
        E = ctx.engine()
        st = St()
        st.heap[(SELF, "a", "layer_repeats")] = const(n)
        f = ctx.prog.method(CLS, "init_model")
        _, st = E.run(f, [], {}, ctx.prog.find_class(CLS), st)
        if n == 1:
            ctx.note_units(E, f)
        loc = func_loc(f)
        ls = E.heapget(st, (SELF, "a", "conv_layers"))
        content = E.heapget(st, (ls, "c", "")) if ls is not None and ls.op == "ref" else None
        if content is None and ls is not None:
            t = E.cellget(st, ls) if ls.op == "cell" else norm(E.deref(ls, st))
            if t is not None and t.op == "call" and str(t.args[0]).endswith("ModuleList"):
                ctx.ob("R5", f"{n} repeats", True, loc)
                continue
        if content is None or content.op != "seq":
            ctx.ob("R5", f"{n} repeats", None, loc, "list of layers not recognised")
            continue
        shapes(ctx, E, st, n, [E.cellget(st, c) if c.op == "cell" else c for c in content.args], loc)
        ctx.ob("R5", f"{n} repeats:count", len(content.args) == 2 * n, loc, f"{len(content.args)} layers are built for {n} repeats")
        names, cover = [], set()
        for e in E.events:
            if e.kind != "call" or not is_call(e, "register_parameter", "add_module", "register_module"):
                continue
            a = list(e.data["args"]) + list(e.data.get("kw", {}).values())
            if len(a) < 3:
                continue
            nm = norm(E.deref(a[1], st))
            names.append((norm(subst(nm, lambda y: sym("i") if y.op == "idx" else None)), e))
            for c in content.args:
                whole = a[2] is c
                part = contains(a[2], lambda y: y is c) and any(contains(norm(s), lambda y: y is c) for _, _, s in e.loops)
                if (whole or part) and not e.guards:
                    cover.add(c)
        left = [i for i, c in enumerate(content.args) if c not in cover]
        ctx.ob("R5", f"{n} repeats:registered", not left if names else None, loc, f"layers {left} are not registered with the module, so neither trained nor saved")
        dup = [(x, e) for i, (x, e) in enumerate(names) if x in [y for y, _ in names[:i]]]
        ctx.ob("R5", f"{n} repeats:names", not dup, dup[0][1].loc if dup else loc, f"two layers are registered as {short(dup[0][0], 60) if dup else ''}; the later replaces the earlier")


CONV = ("in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "bias", "padding_mode")


def shapes(ctx, E, st, n, layers, loc):
    cur = None
    for i, c in enumerate(layers):
        c = norm(c) if c is not None else None
        if c is None or c.op != "call" or not str(c.args[0]).endswith("nn.Conv2d"):
            ctx.ob("R5", f"{n} repeats:layer {i}:shape", None, loc, "layer not recognised")
            cur = None
            continue
        k = dict(zip(CONV, c.args[1]))
        k.update({a: b for a, b in c.args[2] if a != "#"})
        pad, size = k.get("padding", const(0)), k.get("kernel_size")
        if is_str(pad):
            keep = True if cval(pad) == "same" else False
        elif size is None or pad.op in ("tuple", "ite") or size.op in ("tuple", "ite"):
            keep = None
        else:
            d = norm(sub(mul(k.get("dilation", const(1)), sub(size, const(1))), mul(const(2), pad)))
            keep = True if d is const(0) else None if contains(d, lambda y: y.op not in ("poly", "const", "attr", "sym")) else False
        if k.get("stride", const(1)) is not const(1):
            keep = None if contains(k["stride"], lambda y: y.op not in ("poly", "const", "attr", "sym")) else False
        ctx.ob("R5", f"{n} repeats:layer {i}:grid size", keep, loc, f"layer {i} with kernel {short(size, 40) if size is not None else ''} and padding {short(pad, 40)} does not keep the size of the grid")
        if "out_channels" in k and "in_channels" in k:
            if cur is not None:
                same = norm(sub(k["in_channels"], cur)) is const(0)
                ctx.ob("R5", f"{n} repeats:layer {i}:channels", same or (None if unclear(k["in_channels"]) else False), loc, f"layer {i} reads {short(k['in_channels'], 60)} channels where the one before it makes {short(cur, 60)}")
            cur = k["out_channels"]
        else:
            cur = None


# ------------------------------------------------------------------ training
def lids(e):
    return tuple(l[0] for l in e.loops)


def guards(e):
    return frozenset(norm(g) for g in e.guards)


def optimised(ctx):
    f = ctx.prog.method(CLS, "fit")
    E = ctx.engine({"forward", "query_kwargs"})
    _, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    loc = func_loc(f)
    evs = [e for e in E.events if e.kind == "call" and name_of(e).startswith(".")]
    back = [e for e in evs if is_call(e, "backward")]
    hidden = any(e.kind == "call" and (name_of(e) == "<call>" or e.data.get("fn")) and not name_of(e).endswith(("forward", "query_kwargs")) for e in E.events)
    for b in back:
        want = (lids(b), guards(b))
        z = [e for e in evs if is_call(e, "zero_grad")]
        s = [e for e in evs if is_call(e, "step") and not contains(norm(e.data["value"]), lambda y: y.op == "call" and "lr_scheduler" in str(y.args[0]))]
        for what, xs in (("cleared", z), ("stepped", s)):
            mine = [e for e in xs if (lids(e), guards(e)) == want]
            ctx.ob("R6", f"fit:{what}", True if mine else None if hidden or not xs and any(is_call(e, "closure") for e in evs) else False, (xs or [b])[0].loc,
                   f"gradients are not {'cleared for' if what == 'cleared' else 'applied after'} every batch")
        for zz in z:
            for ss in s:
                if lids(zz) == lids(ss) == lids(b):
                    lost = b.seq < zz.seq < ss.seq or zz.seq < ss.seq < b.seq or ss.seq < b.seq < zz.seq
                    ctx.ob("R6", "fit:order", not lost, zz.loc, "gradients are cleared between being computed and being applied")
    for meth in ("fit", "evaluate"):
        f = ctx.prog.method(CLS, meth)
        E = ctx.engine({"forward", "query_kwargs"})
        _, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
        back = [norm(b.data["value"]) for b in E.events if is_call(b, "backward")]
        depth = 0
        for e in E.events:
            if e.kind in ("with", "endwith"):
                ng = any(contains(x, lambda y: y.op == "call" and str(y.args[0]) in ("torch.no_grad", "torch.inference_mode")) for x in e.data.values() if isinstance(x, T))
                depth += (1 if e.kind == "with" else -1)
            elif e.kind == "call" and name_of(e) == "yuca.step_predictor.StepPredictor.forward":
                v = norm(e.data["value"])
                if any(contains(b, lambda y: y is v) for b in back):
                    continue
                off = any(e2.kind == "call" and name_of(e2) in ("torch.no_grad", "torch.inference_mode", "torch.set_grad_enabled") and e2.seq < e.seq for e2 in E.events)
                deco = any("no_grad" in ast.unparse(d) or "inference_mode" in ast.unparse(d) for c in ctx.prog.find_class(CLS).methods.values() if c.qual in e.chain or c.qual == e.fn for d in c.node.decorator_list)
                ok = depth > 0 and off or deco
                ctx.ob("R6", f"{meth}:no gradients", ok or (None if off else False), e.loc, "predictions are made outside no_grad though nothing is trained on them")


# ------------------------------------------------------------------ losses
def plain_loss(t):
    t = unnumber(norm(t, do_strip=True))

    def f(y):
        if y.op == "call" and str(y.args[0]).endswith("StepPredictor.forward"):
            return mk("call", "NET", (norm(subst(y.args[1][-1], f)),), ())
        if y.op == "call" and y.args[0] in ("item", "float", ".item", "detach", ".cpu", "cpu") and len(y.args[1]) == 1:
            return norm(subst(y.args[1][0], f))
        return None
    t = norm(subst(t, f), do_strip=True)

    def mse(y):
        if y.op == "call" and str(y.args[0]).split(".")[-1] == "mse_loss" and len(y.args[1]) == 2:
            r = dict(y.args[2]).get("reduction", const("mean"))
            if is_str(r) and cval(r) in ("sum", "mean"):
                d = sub(*y.args[1])
                return norm(mk("call", cval(r), (norm(mul(d, d)),), ()))
        return None
    t = norm(subst(t, mse), do_strip=True)

    def n(y):
        # both halves of a batch have the same number of samples
        if y.op == "item" and y.args[1] is const(0) and y.args[0].op in ("attr", "call") and "shape" in str(y.args[0].args):
            src = y.args[0].args[0] if y.args[0].op == "attr" else y.args[0].args[1][0]
        elif y.op == "call" and y.args[0] in ("len", "size", ".size") and y.args[1] and (len(y.args[1]) == 1 or y.args[1][1] is const(0)) and y.args[1][0].op == "item":
            src = y.args[1][0]
        elif y.op == "len":
            src = y.args[0]
        else:
            return None
        if src.op == "item" and is_const(src.args[1]) and cval(src.args[1]) in (0, 1) and src.args[0].op == "item":
            return mk("call", "SAMPLES", (src.args[0],), ())
        return None
    return norm(subst(t, n))


LOSS_OPS = ("NET", "SAMPLES", "sum", "mean", "len", "numel", "max", "min", "sqrt", "abs", "size", "shape", "std", "var", "l1_loss")


def loss_known(t):
    return not contains(t, lambda y: y.op in ("mu", "fold", "havoc", "brk", "atbreak", "closure", "lam", "ref", "cell", "undef") or
                        y.op == "call" and str(y.args[0]).split(".")[-1] not in LOSS_OPS)


def spec_loss(ctx, loader, fn="per_sample"):
    mod = ctx.prog.modules.get("yva_spec_predictor") or ctx.prog.add_module("yva_spec_predictor", os.path.join(HOME, "yva", "spec", "predictor.py"))
    E = ctx.engine()
    E.counters["loop"] = 100000
    v, st = E.run(mod.funcs[fn], args=[SELF, sym(loader) if isinstance(loader, str) else loader, sym("net")], st=St())
    t = norm(E.deref(v, st), do_strip=True)

    def f(y):
        if y.op == "call" and ("<call>" in str(y.args[0]) or y.args[0] is sym("net") or str(y.args[0]) == "net"):
            return mk("call", "NET", (norm(subst(y.args[1][-1], f)),), ())
        return None
    return plain_loss(subst(unnumber(t), f))


def losses(ctx):
    f = ctx.prog.method(CLS, "evaluate")
    E = ctx.engine({"forward", "query_kwargs"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    ps = [a.arg for a in f.node.args.args if a.arg != "self"]
    one_loss(ctx, "evaluate", v, E, st, ps[0] if ps else "", func_loc(f))
    f = ctx.prog.method(CLS, "fit")
    E = ctx.engine({"forward", "query_kwargs"})
    _, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    for b in [e for e in E.events if is_call(e, "backward")]:
        got = plain_loss(E.deref(recv(b), st))
        batch = list(dict.fromkeys(y for y in walk(got) if y.op == "item" and y.args[0] is sym("train_dataloader") and y.args[1].op == "idx"))
        if len(batch) != 1:
            ctx.ob("R7", "fit:trained on", None, b.loc, "training loss not recognised")
            continue
        want = spec_loss(ctx, batch[0], "batch_mean")
        same = got is want or norm(sub(got, want)) is const(0)
        ctx.ob("R7", "fit:trained on", True if same else False if loss_known(got) else None, b.loc, f"the predictor is trained on {short(got, 160)}, not the mean squared error of its predictions")
    t = records(E, st)[0].get("val_loss")
    got = [entries(x) for x in split(norm(t))] if t is not None else []
    if not got or any(g is None or not g[1] for g in got):
        return ctx.ob("R7", "fit:per sample", None, func_loc(f), "validation loss not recognised")
    for _, xs in got:
        one_loss(ctx, "fit", xs[-1], E, st, "val_dataloader", func_loc(f))


def one_loss(ctx, where, v, E, st, loader, loc):
    t = plain_loss(E.deref(v, st))
    want = spec_loss(ctx, loader)
    if t is want or norm(sub(t, want)) is const(0):
        ok = True
    elif loss_known(t):
        ok = False
    else:
        # a running number of an earlier validation goes into this one
        ran = contains(t, lambda y: y.op == "mu" and str(y.args[1]).startswith("loc:"))
        ok = False if ran and loss_known(norm(subst(t, lambda y: const(7) if y.op == "mu" and str(y.args[1]).startswith("loc:") else None))) else None
    ctx.ob("R7", f"{where}:per sample", ok, loc, f"the loss is {short(t, 200)}, not {short(want, 200)}")


# ------------------------------------------------------------------ records
def records(E, st):
    """({key: content when saved}, save events of progress and model)"""
    saves = [e for e in E.events if e.kind == "call" and name_of(e) in ("numpy.save", "numpy.savez", "numpy.savez_compressed", "torch.save")]
    out = {}
    for e in saves:
        if name_of(e) != "numpy.save":
            continue
        a, k = cargs(e)
        for d in list(a) + list(k.values()):
            if d.op == "dict" and d.args[0] is NONE:
                for kv in d.args[1:]:
                    if len(kv.args) == 2 and is_str(kv.args[0]):
                        out[cval(kv.args[0])] = kv.args[1]
    return out, saves


def entries(t):
    """(list it continues, entries appended) or None"""
    t = norm(t)
    if t.op == "seq":
        return None, list(t.args)
    if t.op == "mu" or t.op == "m":
        return t, []
    if t.op == "lcat":
        b = entries(t.args[0])
        if b is None:
            return None
        return b[0], b[1] + (list(t.args[1].args) if t.args[1].op == "seq" else [t.args[1]])
    return None


def split(t):
    """what a list becomes in each case"""
    return [x for z in (t.args[1], t.args[2]) for x in split(z)] if t.op == "ite" else [t]


def progress(ctx):
    f = ctx.prog.method(CLS, "fit")
    E = ctx.engine({"forward"})
    _, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    loc = func_loc(f)
    recs, saves = records(E, st)
    if not recs:
        return ctx.ob("R8", "fit:records", None, loc, "saved progress not recognised")
    fw = forward_calls(E)
    back = [norm(b.data["value"]) for b in E.events if is_call(b, "backward")]
    trainers = [e for e in fw if any(contains(b, lambda y: y is norm(e.data["value"])) for b in back)]
    val = [e for e in fw if e not in trainers]
    if not trainers or not val:
        return ctx.ob("R8", "fit:phases", None, loc, "training and validation not told apart")
    outer = lids(trainers[0])[:-1]
    vg = guards(val[0]) - guards(trainers[0])
    facts = [(g, True) for g in vg]
    off = [(and_(*vg), False)] if vg else None
    carried = E.loopinfo[outer[-1]]["carried"] if outer else {}
    fn = lambda e: norm(e.data["value"])
    for k in ("val_loss", "epochs", "wall_time_v"):
        if k not in recs:
            ctx.ob("R8", f"{k}:record", None, loc, "record not found")
            continue
        t = norm(under(recs[k], facts))
        got = [entries(x) for x in split(t)]
        if any(g is None for g in got):
            ctx.ob("R8", f"{k}:one each", None, loc, f"{k} is made in a way not recognised")
            continue
        ok = all(len(xs) == 1 and base is not None for base, xs in got)
        ctx.ob("R8", f"{k}:one each", ok, loc, f"at a validation {k} gets {sorted(len(xs) for _, xs in got)} entries{'' if all(b is not None for b, _ in got) else ' and loses those before'}")
        base = got[0][0]
        if base is None:
            continue
        bodies = [norm(b) for _, b in carried.values() if any((entries(x) or (None,))[0] is base for x in split(norm(b)))]
        if len(bodies) == 1 and off:
            rest = [entries(x) for x in split(norm(under(bodies[0], off)))]
            ctx.ob("R8", f"{k}:only then", None if any(r is None for r in rest) else all(not r[1] for r in rest), loc, f"{k} also gets entries in epochs that are not validated")
        for _, xs in got:
            for x in xs[:1]:
                x = norm(E.deref(x, st))
                if k == "val_loss":
                    wrong = any(contains(x, lambda y: y is fn(e)) for e in trainers)
                    ok = False if wrong else any(contains(x, lambda y: y is fn(e)) for e in val) or contains(x, lambda y: y.op == "bigsum") or None
                elif k == "epochs":
                    ok = x.op == "idx" or None
                    if not ok and (contains(x, lambda y: y.op == "call" and str(y.args[0]).endswith("StepPredictor.forward")) or not contains(x, lambda y: y.op in ("idx", "call", "havoc", "undef", "opaque"))):
                        ok = False
                else:
                    ok = contains(x, lambda y: y.op == "call" and str(y.args[0]).startswith("time.")) or (False if x.op == "idx" or contains(x, lambda y: y.op == "call" and str(y.args[0]).endswith("StepPredictor.forward")) else None)
                ctx.ob("R8", f"{k}:content", ok, loc, f"{k} records {short(x, 100)}")
    for k in ("train_smooth_loss", "wall_time_t"):
        if k not in recs:
            ctx.ob("R8", f"{k}:record", None, loc, "record not found")
            continue
        t = norm(under(recs[k], facts))
        n = None
        e = entries(t)
        vals = contains(t, lambda y: any(y is fn(e) for e in val)) or contains(t, lambda y: y.op == "sym" and y.args[0] == "val_dataloader")
        if e is not None and len(e[1]) == 1 and e[1][0].op == "over":
            o = e[1][0]
            n = len(o.args[1].args) if o.args[1].op == "seq" else None
        elif t.op == "fold" and t.args[1]:
            body = t.args[1][0][1]
            got = [entries(x) for x in split(norm(body))]
            if all(g is not None for g in got):
                n = 1 if all(len(xs) == 1 and b is not None for b, xs in got) else 0
        elif e is not None:
            n = 0
        ctx.ob("R8", f"{k}:one each", False if vals and k == "train_smooth_loss" else None if n is None else n == 1, loc, f"a training batch does not add exactly one entry to {k}: {short(t, 100)}")
    kinds = {"model": [e for e in saves if name_of(e) == "torch.save"], "progress": [e for e in saves if name_of(e) != "torch.save"]}
    total = [l[2] if len(l) > 2 else None for l in trainers[0].loops][0]
    for what, evs in kinds.items():
        if not evs:
            ctx.ob("R8", f"{what}:saved", None, loc, "")
            continue
        at = [e for e in evs if lids(e) == outer]
        after = [e for e in evs if lids(e) == outer[:-1]]
        if not at:
            ctx.ob("R8", f"{what}:each validation", None if not after else False, evs[0].loc, f"{what} is saved once, not at each validation")
            continue
        exact = [e for e in at if guards(e) - guards(trainers[0]) <= vg]
        ctx.ob("R8", f"{what}:each validation", True if exact else False, at[0].loc, f"{what} is not saved at every validation, but if {short(sorted(guards(at[0]) - vg, key=str)[0], 100) if guards(at[0]) - vg else ''}")
    # the last epoch is validated
    gs = [g for g in map(norm, val[0].guards) if g not in guards(trainers[0])]
    i = [y for g in gs for y in walk(g) if y.op == "idx" and y.args[1] is not None]
    i = list(dict.fromkeys(i))
    if not gs:
        ctx.ob("R8", "fit:last epoch", True, val[0].loc)
    elif len(i) == 1:
        n = i[0].args[0]
        N = sym("epochs asked for")
        last = norm(subst(and_(*gs), lambda y: norm(sub(N, const(1))) if y is i[0] else N if y is n else None))
        def settled(y):
            if y.op == "eq":
                d = norm(sub(*[norm(subst(z, settled)) for z in y.args]))
                return TRUE if d is const(0) else None
            return None
        last = norm(subst(last, settled))
        ok = True if last is TRUE else (False if n.op != "while" and not unclear(last) and not contains(last, lambda y: y.op == "call" and str(y.args[0]) not in ("max_py", "min_py", "int", "max", "min", "yuca.utils.query_kwargs")) else None)
        ctx.ob("R8", "fit:last epoch", ok, val[0].loc, f"the last epoch is validated and saved only if {short(last, 140)}")
    else:
        ctx.ob("R8", "fit:last epoch", None, val[0].loc, "condition for validating not recognised")


def complementary(evs):
    """conditions of the events exclude each other and cover everything"""
    c = or_(*[and_(*[norm(g) for g in e.guards]) if e.guards else TRUE for e in evs])
    return True if norm(c) is TRUE else (None if len(evs) > 1 else False)


# ------------------------------------------------------------------ report
def report(ctx):
    f = ctx.prog.method(CLS, "end_evaluate")
    E = ctx.engine({"evaluate"})
    _, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    loc = func_loc(f)
    seen = 0
    for e in E.events:
        if e.kind != "call" or not is_call(e, "write", "print", "save", "writelines", "write_text"):
            continue
        a, k = cargs(e)
        for x in a:
            x = norm(E.deref(x, st))
            if not contains(x, lambda y: y.op == "call" and str(y.args[0]).endswith("StepPredictor.evaluate")):
                continue
            def losses_named(y):
                if y.op == "call" and str(y.args[0]).endswith("StepPredictor.evaluate"):
                    return sym("LOSS:" + (str(y.args[1][-1].args[0]) if y.args[1][-1].op == "sym" else "?"))
                if y.op == "call" and str(y.args[0]) in ("round", "float") and y.args[1]:
                    return norm(subst(y.args[1][0], losses_named))
                return None
            x = norm(subst(x, losses_named))
            x = norm(subst(x, lambda y: mk("fmt", y.args[0], NONE, -1) if y.op == "fmt" and y.args[0].op == "sym" else None))
            try:
                ps = full(x)
            except (NotText, RecursionError):
                ctx.ob("R9", "end_evaluate:text", None, e.loc, "report text not recognised")
                continue
            label = ""
            for p in ps:
                if isinstance(p, str):
                    label = (label + p)
                    continue
                t = p[0] if isinstance(p, tuple) else p
                if t.op == "sym" and str(t.args[0]).startswith("LOSS:"):
                    seen += 1
                    src = str(t.args[0])[5:]
                    words = [w for w in ("train", "val", "test") if w in label.split("\n")[-1]]
                    ctx.ob("R9", f"end_evaluate:{words[0] if words else 'loss'}", None if len(words) != 1 or src == "?" else src.startswith(words[0]), e.loc, f"the {words[0] if words else ''} loss reported is that of {src}")
                    label = ""
    if not seen:
        ctx.ob("R9", "end_evaluate:losses", None, loc, "no loss is reported")


# ------------------------------------------------------------------ options
OPTIONS = {"layer_repeats": "layer_repeats", "kernel_radius": "kernel_radius", "hidden_channels": "hidden_channels", "out_channels": "out_channels", "dropout": "dropout", "my_device": "device"}


def options(ctx):
    f = ctx.prog.method(CLS, "__init__")
    E = ctx.engine({"init_model", "seed_all"})
    kw = {k: sym("opt_" + k) for k in list(OPTIONS.values()) + ["seed", "tag"]}
    _, st = E.run(f, selfcls=ctx.prog.find_class(CLS), kw=kw)
    ctx.note_units(E, f)
    loc = func_loc(f)
    for attr, opt in OPTIONS.items():
        v = E.heapget(st, (SELF, "a", attr))
        v = norm(E.deref(v, st)) if v is not None else None
        has = v is not None and contains(v, lambda y: y is kw[opt])
        ctx.ob("R10", f"__init__:{attr}", has or (None if v is None else False), loc, f"{attr} is {short(v, 60) if v is not None else 'not set'} whatever {opt} is given")
        if has and attr != "my_device":
            ctx.ob("R10", f"__init__:{attr} value", True if v is kw[opt] else None if contains(v, lambda y: y.op == "call" and y.args[0] not in ("min_py", "max_py") or y.op == "ite") else False, loc, f"{attr} is {short(v, 60)}, not the {opt} given")
    seeds = [e for e in E.events if e.kind == "call" and name_of(e).endswith("seed_all") or e.kind == "call" and name_of(e) == "torch.manual_seed"]
    built = [e for e in E.events if e.kind == "call" and name_of(e).endswith("init_model")]
    early = [e for e in seeds if built and e.seq < built[0].seq and not e.guards and any(contains(norm(x), lambda y: y is kw["seed"]) for x in e.data["args"])]
    ctx.ob("R10", "__init__:seeded", bool(early) if built else None, loc, "layers are built before the seed given is set")
    moved = [e for e in E.events if e.kind == "call" and is_call(e, "to", "cuda") and recv(e) is SELF and built and e.seq > built[0].seq]
    dev = moved and any(contains(norm(E.deref(x, st)), lambda y: y is kw["device"]) for x in moved[0].data["args"][1:] if isinstance(x, T))
    ctx.ob("R10", "__init__:moved", True if dev else (None if moved or any(e.kind == "call" and name_of(e) == "<call>" for e in E.events) else False), loc, "the layers are not moved to the device the batches are moved to")
    tag = E.heapget(st, (SELF, "a", "exp_tag"))
    tag = norm(E.deref(tag, st)) if tag is not None else None
    for k in ("tag", "seed", "layer_repeats", "kernel_radius", "hidden_channels"):
        ctx.ob("R10", f"exp_tag:{k}", None if tag is None else contains(tag, lambda y: y is kw[k]) or (None if unclear(tag) else False), loc, f"the experiment tag does not tell predictors of different {k} apart")


def fit_options(ctx):
    f = ctx.prog.method(CLS, "fit")
    E = ctx.engine({"forward"})
    kw = {k: sym("opt_" + k) for k in ("max_epochs", "disp_every", "lr")}
    _, st = E.run(f, selfcls=ctx.prog.find_class(CLS), kw=kw)
    loc = func_loc(f)
    for e in E.events:
        if e.kind == "call" and name_of(e).startswith("torch.optim.") and "lr_scheduler" not in name_of(e) and (e.data.get("kw") or len(e.data.get("args") or ()) > 1):
            v = norm(e.data["value"])
            ctx.ob("R10", "fit:lr", contains(v, lambda y: y is kw["lr"]) or (None if unclear(v) else False), e.loc, "the learning rate given has no effect")
    fw = [e for e in forward_calls(E) if e.loops]
    for e in fw:
        n = norm(e.loops[0][2]) if isinstance(e.loops[0][2], T) else None
        if n is None:
            ctx.ob("R10", "fit:max_epochs", None, e.loc, "number of epochs not recognised")
            continue
        ok = n is kw["max_epochs"]
        ctx.ob("R10", "fit:max_epochs", True if ok else None if not contains(n, lambda y: y is kw["max_epochs"]) and unclear(n) or contains(n, lambda y: y.op in ("call", "ite", "while")) else False, e.loc, f"{short(n, 60)} epochs are run, not max_epochs")
    val = [e for e in fw if e.guards]
    if val:
        ctx.ob("R10", "fit:disp_every", any(contains(norm(g), lambda y: y is kw["disp_every"]) for e in val for g in e.guards) or None, val[0].loc, "")


# ------------------------------------------------------------------ modes
def forward_calls(E):
    return [e for e in E.events if e.kind == "call" and name_of(e) == "yuca.step_predictor.StepPredictor.forward"]


def is_self(t):
    return t is SELF


def training(ctx, meth):
    f = ctx.prog.method(CLS, meth)
    E = ctx.engine({"forward", "query_kwargs"})
    v, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    ctx.note_units(E, f)
    loc = func_loc(f)
    fw = forward_calls(E)
    foreign = [e for e in fw if not is_self(E.deref(e.data["args"][0], st))]
    ctx.ob("R1", f"{meth}:own network", not foreign, foreign[0].loc if foreign else loc, "a prediction is made by another object")
    if not fw:
        return ctx.ob("R1", f"{meth}:predictions", None if any(e.kind == "call" and name_of(e) == "<call>" for e in E.events) else False, loc, "no prediction is made by the predictor")
    back = [e for e in E.events if is_call(e, "backward")]
    trained = set()
    for b in back:
        t = norm(b.data["value"])
        mine = [e for e in fw if contains(t, lambda y: y is norm(e.data["value"]))]
        trained.update(id(e) for e in mine)
        ctx.ob("R1", f"{meth}:loss", True if mine else None if contains(t, lambda y: y.op in ("havoc", "opaque") or y.op == "call" and str(y.args[0]).startswith("<")) else False, b.loc, "the loss trained on is not made from the predictor's output")
    if meth == "fit":
        ctx.ob("R1", "fit:trains", bool(back) or False, loc, "nothing is trained")
        opts = [e for e in E.events if e.kind == "call" and name_of(e).startswith("torch.optim.") and name_of(e).split(".")[-1][:1].isupper()]
        opts = [e for e in opts if e.data.get("args") or e.data.get("kw")]
        for e in opts:
            t = norm(e.data["value"])
            own = contains(t, lambda y: y.op == "call" and y.args[0] in (".parameters", ".named_parameters") and y.args[1] and y.args[1][0] is SELF)
            if "lr_scheduler" in name_of(e):
                continue
            part = contains(t, lambda y: y.op == "call" and y.args[0] == ".parameters")
            if own:
                ctx.ob("R6", "fit:one optimizer", not e.loops, e.loc, "the optimizer, and with it its running moments, is made anew while fitting")
            ctx.ob("R1", "fit:optimizer", own or (False if part else None), e.loc, "the optimizer does not hold the predictor's own parameters")
        steps = [e for e in E.events if is_call(e, "step") and name_of(e) == ".step"]
        ctx.ob("R1", "fit:step", any(guards(e) <= guards(b) and lids(e) == lids(b) for b in back for e in steps) or None, loc, "")
    else:
        out = norm(E.deref(v, st)) if v is not None else NONE
        if meth == "evaluate":
            vals = [norm(e.data["value"]) for e in fw]
            ok = any(contains(out, lambda y: y is x) for x in vals) or contains(out, lambda y: y.op == "call" and str(y.args[0]).endswith("StepPredictor.forward"))
            ctx.ob("R1", "evaluate:result", ok or (None if unclear(out) else False), loc, f"the result {short(out, 100)} is not made from the predictor's output")
    want = {id(e): (True if id(e) in trained else False) for e in fw}
    got = modes(E)
    for e in fw:
        tr = want[id(e)]
        m = got.get(id(e), {"?"})
        bad = (m - {"train" if tr else "eval", "?"})
        ok = False if bad or "?" in m and len(m) == 1 and not vague(E) else None if "?" in m and vague(E) else ("?" not in m)
        where = "training" if tr else "validating" if meth == "fit" else "evaluating"
        ctx.ob("R3", f"{meth}:{where}", ok, e.loc, f"while {where} the predictor may be in mode {sorted(m)} (? is the mode left by earlier use)")


def vague(E):
    """SELF is handed to code whose effect on the mode is not known"""
    return any(e.kind == "call" and name_of(e) == "<call>" for e in E.events)


def mode_of(e):
    if e.kind == "call" and is_call(e, "eval", "train") and recv(e) is SELF:
        if is_call(e, "eval"):
            return "eval"
        a, k = cargs(e)
        m = k.get("mode", a[1] if len(a) > 1 else None)
        if m is None or m is TRUE:
            return "train"
        return "eval" if m is FALSE else "either"
    if e.kind == "setattr" and e.data.get("target") is SELF and e.data.get("name") == "training":
        m = norm(e.data["value"])
        return "train" if m is TRUE else "eval" if m is FALSE else "either"
    return None


def modes(E):
    """modes that may be in force at each call of the network: the event stream is walked as nested loops, every loop body twice"""
    out = {}
    evs = [e for e in E.events if mode_of(e) or e.kind == "call" and name_of(e) == "yuca.step_predictor.StepPredictor.forward"]

    def tree(evs, d):
        nodes, i = [], 0
        while i < len(evs):
            e = evs[i]
            if len(e.loops) > d:
                L = e.loops[d][0]
                j = i
                while j < len(evs) and len(evs[j].loops) > d and evs[j].loops[d][0] == L:
                    j += 1
                nodes.append((L, tree(evs[i:j], d + 1)))
                i = j
            else:
                nodes.append((None, e))
                i += 1
        return nodes

    def gs(e):
        s = set()
        for g in e.guards:
            s.add(norm(g))
        return s

    def run(nodes, state):
        # state: newest first, (guards or None when they belong to another iteration, mode)
        for L, x in nodes:
            if L is not None:
                before = list(state)
                for _ in range(2):
                    state = run(x, state)
                    state = stale(state, before)
                continue
            m = mode_of(x)
            if m:
                state = [(frozenset(gs(x)), m)] + state
                if not x.guards:
                    state = state[:1]
                continue
            mine = gs(x)
            seen = set()
            for g, mm in state:
                if mm == "either":
                    seen |= {"train", "eval"}
                else:
                    seen.add(mm)
                if g is not None and g <= mine:
                    break
            else:
                pass
            out.setdefault(id(x), set()).update(seen)
        return state

    def stale(state, before):
        """after a body: it may have run or not, and its guards are those of an iteration that is over"""
        new = []
        for g, m in state:
            if (g, m) not in new:
                new.append((None if (g, m) not in before else g, m))
        for p in before:
            if p not in new:
                new.append(p)
        return new

    run(tree(evs, 0), [(frozenset(), "?")])
    return out


# ------------------------------------------------------------------ files
def full(t):
    """pieces of a path, directories joined by /"""
    t = norm(t)
    if t.op == "call" and str(t.args[0]).endswith("path.join"):
        r = []
        for i, a in enumerate(t.args[1]):
            r += (["/"] if i else []) + full(a)
        return merged(r)
    if t.op == "call" and str(t.args[0]) in ("pathlib.Path", "str", "os.fspath") and len(t.args[1]) == 1:
        return full(t.args[1][0])
    if t.op == "div" and len(t.args) == 2:
        return merged(full(t.args[0]) + ["/"] + full(t.args[1]))
    if t.op == "item" and contains(t, lambda y: y.op == "call" and str(y.args[0]).startswith("os.path.")) or t.op == "call" and str(t.args[0]).startswith(("os.path.", "os.getcwd")):
        return [(t, "")]
    return merged(pieces(t))


def saved(ctx):
    f = ctx.prog.method(CLS, "fit")
    E = ctx.engine({"forward", "query_kwargs"})
    _, st = E.run(f, selfcls=ctx.prog.find_class(CLS))
    loc = func_loc(f)
    tag = mk("attr", SELF, "exp_tag")
    ws = {}
    for e in E.events:
        if e.kind == "call" and name_of(e) in ("torch.save", "numpy.save", "numpy.savez", "numpy.savez_compressed"):
            a, k = cargs(e)
            path = k.get("f", k.get("file", a[1] if name_of(e) == "torch.save" and len(a) > 1 else a[0] if a else None))
            ws.setdefault("model" if name_of(e) == "torch.save" else "progress", []).append((e, path, a, k))
    texts = {}
    for what in ("model", "progress"):
        if what not in ws:
            ctx.ob("R4", f"{what}:saved", None if any(is_call(e, "save", "dump", "savez", "write", "tofile", "savez_compressed") and (name_of(e).split(".")[0] == "numpy") != (what == "model") and not any(e is w[0] for x in ws.values() for w in x) or e.kind == "call" and name_of(e) == "<call>" for e in E.events) else False, loc, f"the {what} is never saved")
            continue
        for e, path, a, k in ws[what]:
            has = contains(path, lambda y: y is tag)
            ctx.ob("R4", f"{what}:tag", has or (None if contains(path, lambda y: y.op in ("mu", "cell", "havoc", "fold")) else False), e.loc, f"the {what} is saved as {short(path, 120)}, not under the experiment tag")
            try:
                tx = full(path)
                if what == "progress" and not (isinstance(tx[-1], str) and tx[-1].endswith((".npy", ".npz"))):
                    tx = merged(tx + [".npy" if name_of(e) == "numpy.save" else ".npz"])
                texts.setdefault(what, []).append((tuple(tx), e))
            except (NotText, RecursionError):
                ctx.ob("R4", f"{what}:name", None, e.loc, "name not recognised")
            if what == "model":
                obj = k.get("obj", a[0] if a else None)
                own = obj is not None and contains(obj, lambda y: y.op == "call" and y.args[0] == ".state_dict" and y.args[1] and y.args[1][0] is SELF or y is SELF)
                other = obj is None or contains(obj, lambda y: y.op == "call" and y.args[0] == ".state_dict")
                held = [E.cellget(st, y.args[1][0]) for y in walk(obj) if y.op == "call" and y.args[0] == ".state_dict" and y.args[1] and y.args[1][0].op == "cell"] if obj is not None else []
                if not own and held and all(h is not None and h.op == "call" and str(h.args[0]).startswith("torch.optim.") for h in held):
                    ctx.ob("R4", "model:content", False, e.loc, f"what is saved as the model is the state of {short(held[0], 60)}")
                    continue
                ctx.ob("R4", "model:content", True if own else False if other and obj is not None and not unclear(obj) else None, e.loc, f"what is saved as the model is {short(obj, 80) if obj is not None else 'nothing'}")
    if len(texts) == 2:
        for tm, e in texts["model"]:
            for tp, e2 in texts["progress"]:
                ctx.ob("R4", "two files", tm != tp, e.loc, f"model and progress are both saved as {short(ws['model'][0][1], 100)}")
