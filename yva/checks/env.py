"""C19 environments, C12 seed determinism, C23 evolution log."""
import ast
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF
from .evo import (A, SEARCHES, POP, is_call, name_of, norm, bound, items_of, peel_list, unstar, method_names, search_run, consumers,
                  fitness_arg, same_truth, understood, known_ops, project)

ENVS = ("HaltingWrapper", "SimpleHaltingWrapper", "GliderWrapper", "RandomWrapper")
CA = A("ca")
ENV = A("env")


# ------------------------------------------------------------------ helpers
def recv(ev):
    """receiver term of a method-style call event"""
    v = ev.data.get("value")
    if isinstance(v, T) and v.op == "call" and v.args[1] and name_of(ev).startswith("."):
        return norm(v.args[1][0])
    a = ev.data.get("args") or ()
    return norm(a[0]) if a and isinstance(a[0], T) else None


def cargs(ev):
    v = ev.data.get("value")
    a = [norm(x) for x in v.args[1]] if isinstance(v, T) and v.op == "call" else [norm(x) for x in ev.data.get("args") or ()]
    k = {k: norm(x) for k, x in v.args[2] if k != "#"} if isinstance(v, T) and v.op == "call" else {}
    return a, k


def part_of(ev):
    """('ca'|'final_layer'|...,) component an event acts on: attribute of self, or 'x[*]' for every element in a full loop"""
    r = recv(ev)
    if r is None:
        return None
    if r.op == "attr" and r.args[0] is SELF:
        return r.args[1]
    if r is SELF:
        return "self"
    if r.op == "item" and r.args[0].op == "attr" and r.args[0].args[0] is SELF:
        ix = r.args[1]
        if ix.op == "idx" and norm(ix.args[0]) in (norm(mk("len", r.args[0])), A("num_blocks")):
            return r.args[0].args[1] + "[*]"
        return r.args[0].args[1] + "[?]"
    return None


def facts_of(ev):
    return [norm(g) for g in ev.guards]


def always(ev, loops=0):
    """True when the event happens whatever the data is; None when the condition only asks for the present mode"""
    gs = [g for g in facts_of(ev) if g is not TRUE]
    if gs and all(contains(g, lambda x: x.op == "attr" and x.args[1] in ("training", "my_device")) for g in gs):
        return None
    return not gs


def meth_run(ctx, cls, meth, opaque=(), pre=()):
    E = ctx.engine(set(opaque))
    f = ctx.prog.method(cls, meth)
    st = St()
    for k, v in dict(pre).items():
        st.heap[(SELF, "a", k)] = v
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls), st=st)
    ctx.note_units(E, f)
    return E, v, st, func_loc(f)


def has(ctx, cls, meth):
    """the method object, or None when the class does not define or inherit it"""
    return next((c.methods[meth] for c in ctx.prog.mro(ctx.prog.find_class(cls)) if meth in c.methods), None)


def branches(t):
    t = norm(t)
    return [y for x in t.args[1:] for y in branches(x)] if t.op == "ite" else [t]


def unknown_self_calls(E):
    """calls of something the interpreter could not follow that receives the object itself"""
    return [e for e in E.events if e.kind == "call" and (recv(e) is SELF or any(x is SELF for x in cargs(e)[0])) and
            name_of(e).split(".")[-1] in ("eval", "train", "to", "apply", "<call>", "__getattr__", "getattr", "requires_grad_", "reset", "to_device")]


def parts(ctx, cls):
    """components of an environment that hold network modules: attribute -> 'module'/'list', from everything that assigns them"""
    out = {}
    for m in sorted(method_names(ctx, cls)):
        if m not in ("__init__", "reset", "init_model", "init_displacement_grid"):
            f = ctx.prog.method(cls, m)
            if not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
                continue
            if m in ("step", "meta_step", "to_device"):
                continue
        try:
            E, v, st, loc = meth_run(ctx, cls, m, {"query_kwargs", "yuca.utils.query_kwargs"})
        except AnalysisError:
            continue
        for e in E.events:
            if e.kind == "setattr" and e.data["target"] is SELF and isinstance(e.data.get("content"), T):
                k = content_kind(E, e, st)
                if k:
                    out[e.data["name"]] = k
            if e.kind == "listmut":
                nm = list_attr(E, e, st)
                if nm:
                    out[nm] = "list"
    return out


NETS = ("Conv2d", "Sequential", "Linear", "Dropout", "ModuleList", "BatchNorm2d", "ConvTranspose2d", "Dropout2d")


def expand(E, t, st, depth=5):
    """the term with references, views and library-made objects replaced by their contents"""
    for _ in range(depth):
        def f(x):
            if x.op in ("ref", "view"):
                y = E.deref(x, st)
                return y if y is not x else None
            if x.op == "cell":
                y = E.cellget(st, x)
                return y if y is not None and y is not x else None
            return None
        u = norm(subst(t, f))
        if u is t:
            break
        t = u
    return t


def content_kind(E, e, st):
    t = expand(E, e.data["content"], st)
    for x in branches(t):
        if x.op == "call" and str(x.args[0]).startswith("torch.nn.") and str(x.args[0]).split(".")[-1] in NETS:
            return "module"
        raw = x
        if raw.op == "call" and str(raw.args[0]).startswith("torch.") and str(raw.args[0]).split(".")[1] in ("tensor", "zeros", "ones", "rand"):
            return "tensor"
    if contains(e.data["content"], lambda x: x.op == "call" and str(x.args[0]).split(".")[-1] in ("tensor", "meshgrid") or x.op == "call" and str(x.args[0]) in ("torch.zeros", "torch.ones")):
        return "tensor"
    return None


def list_attr(E, e, st):
    v = e.data.get("value")
    tgt = e.data.get("target")
    if not isinstance(v, T):
        v = e.data.get("content")
    if not isinstance(tgt, T):
        return None
    isnet = isinstance(v, T) and contains(expand(E, v, st), lambda x: x.op == "call" and str(x.args[0]).startswith("torch.nn.") and str(x.args[0]).split(".")[-1] in NETS)
    if not isnet:
        return None
    for (o, k, n), val in st.heap.items():
        if o is SELF and k == "a" and isinstance(val, T) and (val is tgt or norm(val) is norm(tgt)):
            return n
    return None


# ------------------------------------------------------------------ C19
def check_C19(ctx):
    ctx.rule("R1", "every environment offers reset, eval, to_device and step")
    ctx.rule("R2", "step returns on every path a 4-tuple whose last element is a dictionary with an 'active_grid' entry")
    ctx.rule("R3", "eval switches the CA, and every network component of the environment, to inference mode unconditionally")
    ctx.rule("R4", "to_device moves the CA, every network component and every tensor attribute to the given device and records it")
    ctx.rule("R5", "a fitness evaluation calls reset, then to_device with the search's device and eval, before every replicate's steps, unconditionally")
    ctx.rule("R6", "stepping never switches the CA to training, and every component it trains is back in inference mode before the measurement")
    ctx.rule("R7", "no CA changes how eval and train work, and dropout in the code the evaluation runs obeys the mode")
    for cls in ENVS:
        if ctx.prog.find_class(cls) is None:
            ctx.ob("R1", cls, False, "", f"environment {cls} is gone")
            continue
        for m in ("reset", "eval", "to_device", "step"):
            f = has(ctx, cls, m)
            n = len(f.node.args.args) - len(f.node.args.defaults) if f else 0
            want = 2 if m in ("to_device", "step") else 1
            ctx.ob("R1", f"{cls}.{m}", bool(f) and n <= want <= len(f.node.args.args) if f else False, func_loc(f) if f else "",
                   f"{cls} has no {m} taking {want - 1} argument(s)")
        ps = ctx.guard("R3", cls, lambda: parts(ctx, cls)) or {}
        ctx.guard("R2", cls, lambda: c19_step(ctx, cls))
        ctx.guard("R3", cls, lambda: c19_mode(ctx, cls, ps))
        ctx.guard("R4", cls, lambda: c19_device(ctx, cls, ps))
        ctx.guard("R6", cls, lambda: c19_train(ctx, cls, ps))
    for cls in SEARCHES:
        ctx.guard("R5", cls, lambda: c19_fitness(ctx, cls))
    for fam in FAMILIES:
        ctx.guard("R7", fam, lambda: c19_family(ctx, fam))


def info_keys(t):
    """set of constant keys of a dictionary term (None when unknown)"""
    t = norm(t)
    if t.op == "dict":
        return {cval(kv[0]) if isinstance(kv[0], T) else kv[0] for kv in (k.args if isinstance(k, T) else k for k in t.args[1:])
                if not (isinstance(kv[1], T) and any(y is UNDEF for y in branches(norm(kv[1]))))}, t.args[0] is None or t.args[0] is NONE
    if t.op == "ite":
        a, b = info_keys(t.args[1]), info_keys(t.args[2])
        return a and b and (a[0] & b[0], a[1] and b[1])
    return None


def c19_step(ctx, cls):
    E, v, st, loc = meth_run(ctx, cls, "step", {"CA.forward"})
    r = norm(E.deref(v, st))
    ok_all = True
    for x in branches(r):
        if x.op not in ("tuple", "seq"):
            full = norm(E.deref(x, st))
            if full.op not in ("tuple", "seq"):
                ctx.ob("R2", cls, False if x is NONE or x is UNDEF or x.op in ("const", "poly") else None, loc, f"step returns {short(x, 100)}")
                return
            x = full
        if not ctx.ob("R2", f"{cls}:length", len(x.args) == 4, loc, f"step returns {len(x.args)} values"):
            return
        info = norm(E.deref(x.args[3], st))
        ks = info_keys(info)
        if ks is None:
            other = [i for i in range(3) if info_keys(norm(E.deref(x.args[i], st)))]
            ctx.ob("R2", f"{cls}:info", False if other or is_const(info) else None, loc, f"the last returned value is {short(info, 80)}")
            return
        ctx.ob("R2", f"{cls}:active_grid", "active_grid" in ks[0] if ks[1] or "active_grid" in ks[0] else None, loc, f"info has {sorted(map(str, ks[0]))}")
        rew = norm(E.deref(x.args[1], st))
        ctx.ob("R2", f"{cls}:reward", not (is_const(rew) or info_keys(rew) is not None), loc, f"the reward is {short(rew, 60)}")


def mode_events(E):
    """(component, mode True=inference, event) in order"""
    out = []
    for e in E.events:
        if is_call(e, "eval", "train") and name_of(e).startswith((".", "super")) or is_call(e, "eval", "train") and "Module" in name_of(e):
            p = part_of(e)
            if p is None and recv(e) is not None:
                p = "?" + short(recv(e), 40)
            inf = is_call(e, "eval")
            if not inf:
                a, k = cargs(e)
                m = k.get("mode", a[1] if len(a) > 1 else None)
                inf = None if m is not None and not is_const(m) else (m is not None and not cval(m))
                if m is FALSE:
                    inf = True
            out.append((p, inf, e))
    return out


def c19_mode(ctx, cls, ps):
    E, v, st, loc = meth_run(ctx, cls, "eval")
    evs = mode_events(E)
    vague = any(p is None or p == "self" or str(p).startswith("?") for p, i, e in evs) or any(recv(e) is SELF or str(name_of(e)).startswith("<") for e in E.events if e.kind == "call" and not is_call(e, "eval", "train"))
    want = {"ca": "CA"}
    for a, k in ps.items():
        if k == "module":
            want[a] = "network"
        elif k == "list":
            want[a + "[*]"] = "networks"
    for w, what in want.items():
        mine = [(i, e) for p, i, e in evs if p == w]
        if not mine:
            ctx.ob("R3", f"{cls}:{w}", None if vague else False, loc, f"eval does not switch the {what} self.{w} to inference mode")
            continue
        i, e = mine[-1]
        al = [always(e) for i, e in mine]
        ok = False if i is False else (None if i is None else (True if any(x is True and (len(e.loops) == 0 or w.endswith("[*]")) for x, (j, e) in zip(al, mine)) else (None if None in al else False)))
        ctx.ob("R3", f"{cls}:{w}", ok, e.loc, f"eval puts self.{w} into inference mode only when {short(norm(and_(*e.guards)), 100)}" if i else f"eval leaves self.{w} in training mode")


def dev_arg(ev):
    a, k = cargs(ev)
    return k.get("device", a[1] if len(a) > 1 else None)


def same_dev(t, dev):
    t = unstar(norm(t)) if isinstance(t, T) else None
    while t is not None and t.op == "call" and str(t.args[0]) in ("torch.device", "str") and t.args[1]:
        t = norm(t.args[1][0])
    return t is dev


def c19_device(ctx, cls, ps):
    E, v, st, loc = meth_run(ctx, cls, "to_device")
    f = ctx.prog.method(cls, "to_device")
    dev = sym(f.node.args.args[1].arg)
    mv = [(part_of(e), e) for e in E.events if is_call(e, "to_device", "to", "cuda", "cpu")]
    vague = any(p is None or p == "self" for p, e in mv)
    want = {"ca": "to_device"}
    for a, k in ps.items():
        want[a + ("[*]" if k == "list" else "")] = k
    for w, k in want.items():
        names = ("to_device",) if w == "ca" else ("to",)
        mine = [e for p, e in mv if p == w and is_call(e, *names) and same_dev(E.deref(dev_arg(e), st) if dev_arg(e) is not None else None, dev)]
        if not mine:
            other = [e for p, e in mv if p == w]
            ctx.ob("R4", f"{cls}:{w}", None if vague and not other else False, other[0].loc if other else loc,
                   f"to_device does not move self.{w} to the given device")
            continue
        al = always(mine[-1])
        if k == "tensor":
            sets = [e for e in E.events if e.kind == "setattr" and e.data["target"] is SELF and e.data["name"] == w and e.seq > mine[-1].seq]
            cur = norm(sets[-1].data["content"]) if sets else None
            ctx.ob("R4", f"{cls}:{w}", bool(sets) and cur is A(w) and al if sets else False, mine[-1].loc,
                   f"the moved copy of self.{w} is not stored" if not sets else f"self.{w} becomes {short(cur, 80)}")
        else:
            ctx.ob("R4", f"{cls}:{w}", al, mine[-1].loc, f"self.{w} is moved only when {short(norm(and_(*mine[-1].guards)), 100)}")
    sets = [e for e in E.events if e.kind == "setattr" and e.data["target"] is SELF and e.data["name"] == "my_device"]
    ok = bool(sets) and same_dev(sets[-1].data["content"], dev) and always(sets[-1])
    ctx.ob("R4", f"{cls}:my_device", ok if sets else (None if vague else False), sets[-1].loc if sets else loc, "the device is not recorded" if not sets else f"my_device becomes {short(norm(sets[-1].data['content']), 60)}")


def c19_train(ctx, cls, ps):
    E, v, st, loc = meth_run(ctx, cls, "step", {"CA.forward"})
    evs = mode_events(E)
    dropouts(ctx, E, cls, False)
    cas = [(i, e) for p, i, e in evs if p in ("ca", "self") and i is not True]
    ctx.ob("R6", f"{cls}:CA stays in inference mode", not cas if not any(i is None for i, e in cas) else None, cas[0][1].loc if cas else loc,
           "stepping switches the CA to training mode")
    trained = {p for p, i, e in evs if i is False}
    for p in sorted(x for x in trained if x):
        lt = max(e.seq for q, i, e in evs if q == p and i is False)
        back = [e for q, i, e in evs if q == p and i and e.seq > lt and always(e) and (not e.loops or p.endswith("[*]") and len(e.loops) == 1)]
        base = p.split("[")[0]
        uses = [e for e in E.events if e.kind == "call" and e.seq > lt and
                (name_of(e).startswith("." + base) or contains_self_part(e, base)) and not is_call(e, "eval", "train")]
        measured = [e for e in uses if not back or e.seq > back[0].seq]
        hidden = any(q is None or str(q).startswith("?") for q, i, e in evs if i is not False and e.seq > lt)
        ctx.ob("R6", f"{cls}:{p} back in inference mode", (bool(back) and (not uses or bool(measured))) or (None if hidden else False), (back or [evs[-1][2]])[0].loc,
               f"self.{p} is left in training mode for the measurement")


def contains_self_part(e, base):
    v = e.data.get("value")
    return isinstance(v, T) and v.op == "call" and v.args[0] in ("<call>",) and contains(v, lambda x: x is A(base))


def c19_fitness(ctx, cls):
    E, v, st, loc = meth_run(ctx, cls, "get_fitness", {"seed_all", "yuca.utils.seed_all"})
    envs = [e for e in E.events if e.kind == "call" and recv(e) is ENV]
    steps = [e for e in envs if is_call(e, "step")]
    if not steps:
        return ctx.ob("R5", cls, None, loc, "no step of the environment found")
    s = steps[0]
    f = ctx.prog.method(cls, "get_fitness")
    names = [a.arg for a in f.node.args.args]
    rep = sym("replicates")
    per = [lp for lp in s.loops if norm(lp[2]) is rep]
    depth = s.loops.index(per[0]) + 1 if per else (None)
    if depth is None:
        return ctx.ob("R5", cls, None, loc, "the replicate loop was not found")
    found = {}
    for m in ("reset", "to_device", "eval"):
        es = [e for e in envs if is_call(e, m)]
        good = [e for e in es if e.seq < s.seq and len(e.loops) >= depth and [l[1] for l in e.loops[:depth]] == [l[1] for l in s.loops[:depth]]]
        sure = [e for e in good if always(e)]
        ok = bool(sure)
        if not es:
            msg = f"get_fitness never calls self.env.{m}()"
        elif not good:
            msg = f"self.env.{m}() is not called in every replicate before the steps"
        else:
            msg = f"self.env.{m}() is called only when {short(norm(and_(*good[-1].guards)), 100)}"
        ctx.ob("R5", f"{cls}:{m}", ok, es[0].loc if es else loc, msg)
        found[m] = sure
    if all(found.values()):
        last = max(e.seq for e in found["reset"])
        for m in ("to_device", "eval"):
            ctx.ob("R5", f"{cls}:{m} after reset", any(e.seq > last for e in found[m]), found[m][0].loc, f"{m} precedes the reset that rebuilds the environment")
        d = found["to_device"][-1]
        a, k = cargs(d)
        dv = k.get("device", a[1] if len(a) > 1 else None)
        ctx.ob("R5", f"{cls}:device", dv is A("my_device"), d.loc, f"the environment is moved to {short(dv) if dv is not None else 'nothing'}")
    later = [e for e in envs if is_call(e, "reset", "train") and e.seq > max([x.seq for x in found.get("eval") or [s]]) and e.seq <= steps[-1].seq]
    ctx.ob("R5", f"{cls}:nothing undoes eval", not later, later[0].loc if later else loc, "the environment is reset or put in training mode after eval")


def c19_family(ctx, fam):
    c = ctx.prog.find_class(fam)
    if c is None:
        return ctx.ob("R7", fam, None, "", "class not found")
    for m in ("eval", "train"):
        f = has(ctx, fam, m)
        if f is None:
            ctx.ob("R7", f"{fam}.{m}", True, "")
            continue
        E, v, st, loc = meth_run(ctx, fam, m)
        sup = [e for e in E.events if e.kind == "call" and is_call(e, "eval", "train") and recv(e) is SELF]
        ctx.ob("R7", f"{fam}.{m}", None if sup else False, loc, f"{fam} replaces {m} without calling the inherited one")
    E, v, st, loc = meth_run(ctx, fam, "forward")
    dropouts(ctx, E, fam, True)
    ctx.ob("R7", f"{fam}:forward", True, loc)


def dropouts(ctx, E, who, flag):
    """dropout applied directly (not through a registered module); flag: self.training follows eval() in this class"""
    for e in E.events:
        nm = name_of(e).split(".")[-1]
        if e.kind != "call" or not nm.lower().startswith(("dropout", "alpha_dropout", "feature_alpha_dropout")) or name_of(e).startswith("."):
            continue
        if nm[0].isupper():
            ctx.ob("R7", f"{who}:dropout", False, e.loc, "a Dropout module built while stepping is always in training mode")
            continue
        a, k = cargs(e)
        t = k.get("training", a[2] if len(a) > 2 else None)
        ok = False if t is None or is_const(t) and cval(t) else (True if is_const(t) or flag and t is A("training") else None)
        ctx.ob("R7", f"{who}:dropout", ok, e.loc, "functional dropout without training=self.training acts in inference mode")


# ------------------------------------------------------------------ C12
TIME = ("time.", "datetime.", "os.getpid", "os.urandom", "os.getenv", "os.environ", "os.times", "os.getppid", "os.listdir", "os.stat", "os.getloadavg",
        "uuid.", "secrets.", "random.", "platform.", "socket.", "psutil.", "os.cpu_count", "multiprocessing.", "torch.initial_seed", "torch.seed",
        "torch.cuda.", "gc.", "tempfile.", "sys.getrefcount")
TIMEX = ("id", "hash", "time", "perf_counter", "monotonic", "time_ns", "getpid")
# modules whose code produces fitness, parameters, elites or configurations
EVO_MODULES = ("yuca.cmaes", "yuca.utils", "yuca.cppn", "yuca.params_agent", "yuca.code", "yuca.lenia", "yuca.metaca", "yuca.random_step_ca",
               "yuca.kernels", "yuca.activations", "yuca.patterns", "yuca.configs", "yuca.evolve", "yuca.ca.", "yuca.wrappers.")
BASELINE = ("RandomWrapper",)


def tainted(t):
    """names of clock / operating-system sources a value is computed from"""
    out = set()
    if isinstance(t, T):
        for x in walk(t):
            if x.op == "call" and isinstance(x.args[0], str):
                n = x.args[0]
                if n.startswith(TIME) or n in TIMEX:
                    out.add(n)
            elif x.op in ("ext", "global", "fn") and isinstance(x.args[0], str) and x.args[0].startswith(("os.environ", "sys.argv")):
                out.add(x.args[0])
    return out


def seedings(E):
    """generator -> [(event, argument term)] of explicit seed calls"""
    out = {"torch": [], "numpy": [], "both": []}
    for e in E.events:
        if e.kind != "call":
            continue
        n = name_of(e)
        which = "torch" if n in ("torch.manual_seed", "torch.random.manual_seed") else "numpy" if n == "numpy.random.seed" else \
            "both" if n.split(".")[-1] == "seed_all" else None
        if which:
            a, k = cargs(e)
            a = [norm(x) for x in (e.data.get("args") or ())] or a
            k2 = {x: norm(y) for x, y in (e.data.get("kw") or {}).items() if isinstance(y, T)}
            v = a[0] if a else (list(k2.values()) or list(k.values()) or [None])[0]
            out[which].append((e, v))
    return out


def plain_seed(t):
    while t is not None and t.op == "call" and t.args[0] in ("int", "float", "abs") and len(t.args[1]) == 1:
        t = norm(t.args[1][0])
    return t


def check_C12(ctx):
    ctx.rule("R1", "seed_all seeds Torch's and NumPy's global generators, both with exactly the seed it is given, unconditionally")
    ctx.rule("R2", "a fitness evaluation seeds both generators with its seed argument, unconditionally, before the environment, an agent or a generator is used")
    ctx.rule("R3", "each seed of a run seeds both generators with that seed before the population is rebuilt, and rebuilds it, unconditionally")
    ctx.rule("R4", "rebuilding the population depends only on values no earlier seed can have changed; evaluation settings are restored")
    ctx.rule("R5", "the search seeds before it constructs the environment or an agent")
    ctx.rule("R6", "the only random sources are the global NumPy and Torch generators, and nothing reseeds them from the clock or the system")
    ctx.rule("R7", "no clock or system value reaches parameters, fitness values, elites, configurations, messages or control flow of a run")
    ctx.rule("R8", "nothing that produces results iterates over an unordered collection")
    ctx.rule("R9", "stepping an environment resets the CA before its first update")
    ctx.rule("R10", "every value a CA step carries over to the next step is re-initialised by reset")
    ctx.rule("R12", "what a step leaves in the environment and a later step reads is re-initialised by reset")
    ctx.rule("R11", "resetting the predictor environment rebuilds its networks and optimiser")
    ctx.guard("R1", "seed_all", lambda: c12_seed_all(ctx))
    for cls in SEARCHES:
        ctx.guard("R2", cls, lambda: c12_fitness(ctx, cls))
        ctx.guard("R3", cls, lambda: c12_mantle(ctx, cls))
        ctx.guard("R4", cls, lambda: c12_carry(ctx, cls))
        ctx.guard("R5", cls, lambda: c12_init(ctx, cls))
    ctx.guard("R6", "sources", lambda: c12_sources(ctx))
    for cls in ENVS:
        if ctx.prog.find_class(cls) is not None and cls not in BASELINE:
            ctx.guard("R9", cls, lambda: c12_env(ctx, cls))
    for fam in FAMILIES:
        ctx.guard("R10", fam, lambda: c12_family(ctx, fam))
    ctx.guard("R11", "HaltingWrapper", lambda: c12_predictor(ctx))


def c12_seed_all(ctx):
    f = ctx.prog.modules["yuca.utils"].funcs.get("seed_all")
    if f is None:
        raise AnalysisError("anchor vanished: yuca.utils.seed_all")
    E = ctx.engine()
    v, st = E.run(f)
    ctx.note_units(E, f)
    p = sym(f.node.args.args[0].arg)
    s = seedings(E)
    for g in ("torch", "numpy"):
        if not s[g]:
            ctx.ob("R1", g, False, func_loc(f), f"seed_all does not seed {g}")
            continue
        e, t = s[g][-1]
        pt = plain_seed(t)
        ok = pt is p if pt is not None and (pt is p or not contains(pt, lambda x: x is p) or pt.op == "poly") else None
        if t is None:
            ok = False
        ctx.ob("R1", g, (ok and always(e)) if ok else ok, e.loc, f"{g} is seeded with {short(t) if t is not None else 'nothing'}" + ("" if always(e) else f" only when {short(norm(and_(*e.guards)))}"))


def c12_fitness(ctx, cls):
    E, v, st, loc = meth_run(ctx, cls, "get_fitness")
    s = seedings(E)
    sd = sym("seed")
    uses = [e for e in E.events if e.kind == "rng" and not name_of(e).endswith("seed") or e.kind == "call" and (recv(e) is ENV or is_call(e, "get_action"))]
    first = min((e.seq for e in uses), default=None)
    if first is None:
        return ctx.ob("R2", cls, None, loc, "no use of the environment found")
    for g in ("torch", "numpy"):
        mine = s[g]
        if not mine:
            ctx.ob("R2", f"{cls}:{g}", False, loc, f"get_fitness does not seed {g}")
            continue
        e, t = mine[0]
        good = [(e, t) for e, t in mine if always(e) and not e.loops and e.seq < first]
        if not good:
            ctx.ob("R2", f"{cls}:{g}", False, e.loc, "seeding is conditional, inside a loop, or follows the first use of the environment")
            continue
        e, t = good[-1]
        pt = plain_seed(t)
        ctx.ob("R2", f"{cls}:{g}", True if pt is sd else (None if contains(pt, lambda x: x is sd) else False), e.loc, f"seeds with {short(t)}, not with its seed argument")


def c12_mantle(ctx, cls):
    for w in (0, 3):
        E = search_run(ctx, cls, w)
        loc = func_loc(ctx.prog.method(cls, "mantle"))
        s = seedings(E)
        lab = f"{cls}:workers={w}"
        rs = [e for e in E.events if is_call(e, "reset") and (recv(e) is SELF or name_of(e).endswith(f"{cls}.reset") or name_of(e).endswith("CMAES.reset"))]
        seeds = A("my_seed")
        rs = [e for e in rs if e.loops and norm(e.loops[0][2]) is norm(mk("len", seeds))]
        if not rs:
            ctx.ob("R3", lab + ":reset", False if s["both"] or s["torch"] else None, loc, "the population is not rebuilt for each seed")
            continue
        r = rs[0]
        ctx.ob("R3", lab + ":reset", always(r) and len(r.loops) == 1, r.loc, f"the population is rebuilt only when {short(norm(and_(*r.guards)), 80)}")
        item = norm(mk("item", seeds, r.loops[0][1]))
        for g in ("torch", "numpy"):
            mine = [(e, t) for e, t in s["both"] + s[g] if e.loops and e.loops[0][1] is r.loops[0][1] and e.seq < r.seq]
            good = [(e, t) for e, t in mine if always(e) and len(e.loops) == 1]
            if not good:
                ctx.ob("R3", f"{lab}:{g}", False, r.loc, f"{g} is not seeded before the population is rebuilt" if not mine else "seeding is conditional")
                continue
            e, t = good[-1]
            pt = plain_seed(t)
            ok = True if pt is item else (False if pt is None or not contains(pt, lambda x: x is item) or pt.op == "poly" else None)
            ctx.ob("R3", f"{lab}:{g}", ok, e.loc, f"the run of a seed is seeded with {short(t) if t is not None else 'nothing'}")
        c12_taint(ctx, E, lab)
        first = min((e.seq for e in consumers(E)), default=10**9)
        late = [e for e, t in s["both"] + s["torch"] + s["numpy"] if e.seq > r.seq and tainted(t)]
        ctx.ob("R6", f"{lab}:no other seeding", not late, late[0].loc if late else loc, "the generators are reseeded from the clock or the system during a run")


RESULTS = ("elite_params", "elite_configs", "mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness", "distribution")


def c12_taint(ctx, E, lab):
    """R7 on one analysed run"""
    bad = []
    n = 0
    for e in E.events:
        vals = []
        if e.kind == "setattr":
            c = e.data.get("content")
            if isinstance(c, T) and c.op in ("fstr", "const") or is_timing(E, e):
                continue
            vals = [c]
        elif e.kind == "call" and is_call(e, "set_params", "get_fitness", "update_population", "rank_population", "send", "set_rule", "sample_distribution", "step", "agent_fn", "restore_config", "set_dt"):
            v = e.data.get("value")
            vals = list(v.args[1]) + [x for k, x in v.args[2] if k != "#" and isinstance(x, T)] if isinstance(v, T) and v.op == "call" else []
        elif e.kind in ("listmut", "mutate", "augattr"):
            vals = [e.data.get("value"), e.data.get("content")]
            if is_timing(E, e):
                continue
        elif e.kind == "setitem":
            k = e.data.get("key")
            if isinstance(k, T) and is_str(norm(k)) and str(cval(norm(k))) not in RESULTS:
                continue
            vals = [e.data.get("value")]
        else:
            continue
        n += 1
        vals = [norm(E_deref(E, v)) for v in vals if isinstance(v, T)]
        gs = [norm(g) for g in e.guards] + [norm(lp[2]) for lp in e.loops if isinstance(lp[2], T)]
        src = set().union(*[tainted(v) for v in vals + gs]) if vals or gs else set()
        if src:
            bad.append((e, src))
    ctx.ob("R7", lab, not bad, bad[0][0].loc if bad else "", f"{sorted(bad[0][1])} reaches a result or the control flow of the run ({bad[0][0].kind} {name_of(bad[0][0])})" if bad else f"{n} effects")


def E_deref(E, v):
    return v


def is_timing(E, e):
    """a logged duration: the value written is itself only time arithmetic"""
    v = e.data.get("value")
    if not isinstance(v, T):
        return False
    t = norm(v)
    lv = [x for x in walk(t) if x.op == "call"]
    return bool(tainted(t)) and all(str(x.args[0]).startswith("time.") or x.args[0] in ("float", "round") for x in lv) and \
        not any(x.op in ("attr", "sym", "item", "fold", "mu") for x in walk(t))


def c12_carry(ctx, cls):
    # what rebuilding reads
    E, v, st, loc = meth_run(ctx, cls, "reset", {"agent_fn"})
    after = {}
    for (o, k, n), val in st.heap.items():
        if o is SELF and k == "a" and isinstance(val, T):
            after[n] = norm(expand(E, val, st, 3))
    read = set()
    for e in E.events:
        for t in [e.data.get("value"), e.data.get("content")] + list(e.guards):
            if isinstance(t, T):
                read |= {x.args[1] for x in walk(expand(E, t, st, 2)) if x.op == "attr" and x.args[0] is SELF}
    for n, t in after.items():
        read |= {x.args[1] for x in walk(t) if x.op == "attr" and x.args[0] is SELF}
    read -= {m for c in ctx.prog.mro(ctx.prog.find_class(cls)) for m in c.methods}
    for n in sorted({p.args[1] for e in E.events if e.kind in ("listmut", "augattr") and isinstance(e.data.get("target"), T) for p in E.roots(e.data["target"]) if p.op == "attr" and p.args[0] is SELF}):
        left = norm(expand(E, A(n), st, 3))
        ctx.ob("R4", f"{cls}:{n} emptied", False if left.op == "lcat" and left is not A(n) and contains(left, lambda x: x is A(n)) else None, loc, f"reset adds to the self.{n} of earlier seeds")
    uses, runw = set(), {}
    # what the rest of a run writes: started from the state reset leaves, so that aliases of what reset reads are seen
    writers = {}
    for m in ("update_population", "rank_population", "get_fitness", "get_elite_configs", "set_rule", "sample_distribution", "save_gif"):
        if has(ctx, cls, m) is None:
            continue
        for mode in (0, 1, 2) if m == "update_population" else (0,):
            def go(m=m, mode=mode):
                E2 = ctx.engine({"agent_fn", "seed_all", "save_fig_sequence"})
                st2 = St()
                f0 = ctx.prog.method(cls, "reset")
                x, st2 = E2.run(f0, selfcls=ctx.prog.find_class(cls), st=st2)
                st2.heap[(SELF, "a", "selection_mode")] = const(mode)
                k = len(E2.events)
                f = ctx.prog.method(cls, m)
                x, st2 = E2.run(f, selfcls=ctx.prog.find_class(cls), st=st2)
                ctx.note_units(E2, f)
                for e in E2.events[k:]:
                    if e.kind in ("setattr", "augattr") and e.data["target"] is SELF:
                        writers.setdefault(e.data["name"], e)
                    if e.kind in ("mutate", "listmut", "setitem", "setattr") and isinstance(e.data.get("target"), T) and e.data["target"] is not SELF:
                        for p in E2.roots(e.data["target"]):
                            if p.op == "attr" and p.args[0] is SELF:
                                writers.setdefault(p.args[1], e)
                terms = [x] if isinstance(x, T) else []
                for e in E2.events[k:]:
                    terms += [t for t in [e.data.get("value"), e.data.get("content"), e.data.get("key")] + list(e.guards) + list(e.data.get("args") or ()) if isinstance(t, T)]
                uses.update(entry_reads([norm(expand(E2, t, st2, 1)) for t in terms]))
                # settings of the environment are put back
                end = [e for e in E2.events[k:] if e.kind == "setattr" and e.data["target"] is ENV]
                for nm in sorted({e.data["name"] for e in end}):
                    cur = E2.heapget(st2, (ENV, "a", nm))
                    cur = norm(expand(E2, cur, st2)) if isinstance(cur, T) else None
                    ok = cur is mk("attr", ENV, nm) if cur is not None else None
                    ctx.ob("R4", f"{cls}.{m}:env.{nm} restored", ok if ok is not False or known_ops(cur) else None, end[-1].loc, f"the environment's {nm} is left at {short(cur, 60) if cur is not None else '?'}")
            ctx.guard("R4", f"{cls}.{m}", go)
    E3 = search_run(ctx, cls, 0)
    mantle = {}
    for e in E3.events:
        if e.kind in ("setattr", "augattr") and e.data["target"] is SELF and e.loops:
            mantle.setdefault(e.data["name"], e)
        if e.kind in ("mutate", "listmut", "setitem") and isinstance(e.data.get("target"), T):
            for p in E3.roots(e.data["target"]):
                if p.op == "attr" and p.args[0] is SELF:
                    mantle.setdefault(p.args[1], e)
    fresh = {e.data["name"] for e in E3.events if e.kind == "setattr" and e.data["target"] is SELF and len(e.loops) == 1 and always(e)
             and not contains(norm(e.data["content"]) if isinstance(e.data.get("content"), T) else NONE, lambda x: x is A(e.data["name"]))}
    for n in sorted((uses & set(writers)) - read):
        if n in after or n in fresh or n.startswith("env"):
            continue
        ctx.ob("R4", f"{cls}:{n} between seeds", False, writers[n].loc, f"self.{n} is changed and used during a run and nothing re-initialises it for the next seed")
    for n in sorted(read):
        e = writers.get(n) or mantle.get(n)
        ctx.ob("R4", f"{cls}:{n}", e is None, e.loc if e else loc, f"the next seed starts from self.{n}, which {e.fn if e else ''} changes during a run" if e else "")


def c12_init(ctx, cls):
    E = ctx.engine({"seed_all", "query_kwargs"})
    f = ctx.prog.method(cls, "__init__")
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(f)
    def makes(e):
        if e.kind == "rng" and not name_of(e).endswith("seed"):
            return True
        if e.kind != "call":
            return False
        v = e.data.get("value")
        if is_call(e, "<call>") and isinstance(e.data.get("fn"), T):
            v = norm(E.deref(e.data["fn"], st))
        return isinstance(v, T) and is_call(e, "<call>", "env_fn", "agent_fn") and contains(v, lambda x: x.op == "const" and x.args[0] in ("env_fn", "agent_fn") or x.op == "call" and x.args[0] == "yuca.utils.query_kwargs" and x.args[1] and x.args[1][0] in (const("env_fn"), const("agent_fn"))) \
            or is_call(e, "env_fn", "agent_fn")
    uses = [e for e in E.events if makes(e)]
    if not uses:
        return ctx.ob("R5", cls, None, loc, "construction of environment and agent not found")
    first = min(e.seq for e in uses)
    s = seedings(E)
    for g in ("torch", "numpy"):
        good = [(e, t) for e, t in s["both"] + s[g] if always(e) and e.seq < first and not e.loops]
        if not good:
            ctx.ob("R5", f"{cls}:{g}", False, uses[0].loc, f"the environment or agent is constructed before {g} is seeded")
            continue
        e, t = good[-1]
        frm = contains(t, lambda x: x.op == "call" and x.args[0] == "yuca.utils.query_kwargs" and x.args[1] and x.args[1][0] is const("seed"))
        ctx.ob("R5", f"{cls}:{g}", True if frm and not tainted(t) else False if tainted(t) or is_const(t) else None, e.loc, f"seeded with {short(t, 80)}, not with the run's seed")


def evo_modules(ctx):
    return [m for n, m in sorted(ctx.prog.modules.items()) if n in EVO_MODULES or any(x.endswith(".") and n.startswith(x) for x in EVO_MODULES)]


def dotted(node, imports):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    parts.append(imports.get(node.id, node.id))
    return ".".join(reversed(parts))


def import_map(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


GENERATORS = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.SeedSequence", "torch.Generator",
              "os.urandom", "torch.seed", "torch.random.seed")


def c12_sources(ctx):
    n = 0
    for m in evo_modules(ctx):
        imp = import_map(m.tree)
        local = {k.name for k in ast.walk(m.tree) if isinstance(k, (ast.FunctionDef, ast.ClassDef))}
        for owner, fn in functions(m.tree):
            params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
            for c in ast.walk(fn):
                if not isinstance(c, ast.Call):
                    continue
                d = dotted(c.func, imp)
                if d is None or d.split(".")[0] in params:
                    continue
                d0 = d
                where = f"{m.name}.{owner}"
                loc = f"{m.path}:{c.lineno}"
                if d0.startswith("numpy.random.") or d0.startswith("torch.rand") or d0 in ("torch.normal", "torch.bernoulli", "torch.multinomial"):
                    n += 1
                if owner.split(".")[0] in BASELINE:
                    continue
                if d0.startswith(("random.", "secrets.")) and d0 != "random.seed":
                    ctx.ob("R6", f"{where}:{d0}", False, loc, f"{d0} draws from a generator the seed does not control")
                elif d0 in GENERATORS:
                    ctx.ob("R6", f"{where}:{d0}", False if not c.args or d0 in ("os.urandom", "torch.seed", "torch.random.seed") else None, loc, f"{d0} is not controlled by the seed")
                elif d0 in ("numpy.random.seed", "torch.manual_seed") and not c.args and not c.keywords:
                    ctx.ob("R6", f"{where}:{d0}", False, loc, f"{d0}() without a value seeds from the operating system")
                for k in c.keywords:
                    if k.arg == "generator" and d0.startswith("torch."):
                        ctx.ob("R6", f"{where}:generator", None, loc, "a separate torch generator is used")
            c12_unordered(ctx, m, owner, fn, imp)
        # seed calls made by anything but the baseline use no clock
    ctx.ob("R6", "draws from the global generators", n >= 10, "", f"only {n} draws from the global generators were found")
    ctx.ob("R8", "modules scanned", len(evo_modules(ctx)) >= 10 or None, "", f"{len(evo_modules(ctx))} modules")


def functions(tree):
    """(qualified name, FunctionDef) of every function, nested ones belong to their outermost function"""
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for k in n.body:
                if isinstance(k, ast.FunctionDef):
                    yield f"{n.name}.{k.name}", k


def is_unordered(x, names, imp):
    if isinstance(x, (ast.Set, ast.SetComp)):
        return "a set"
    if isinstance(x, ast.Name):
        return names.get(x.id)
    if isinstance(x, ast.Call):
        d = dotted(x.func, imp)
        if d in ("set", "frozenset"):
            return "a set"
        if d in ("os.listdir", "glob.glob", "os.scandir", "glob.iglob"):
            return d
        if d in ("list", "tuple", "enumerate", "iter", "numpy.array", "reversed") and x.args:
            return is_unordered(x.args[0], names, imp)
    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_unordered(x.left, names, imp) and "a set"
    return None


def c12_unordered(ctx, m, owner, fn, imp):
    names = {}
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            u = is_unordered(s.value, names, imp)
            if u:
                names[s.targets[0].id] = u
    for s in ast.walk(fn):
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "sort" and isinstance(s.func.value, ast.Name):
            names.pop(s.func.value.id, None)
    for s in ast.walk(fn):
        its = []
        if isinstance(s, ast.For):
            its = [(s.iter, s.body)]
        elif isinstance(s, (ast.ListComp, ast.GeneratorExp)):
            its = [(g.iter, [ast.Expr(s.elt)]) for g in s.generators]
        for it, body in its:
            u = is_unordered(it, names, imp)
            if not u:
                continue
            order = any(isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and (c.func.attr in ("append", "extend", "insert", "set_params", "get_params", "concatenate", "cat", "step", "get_fitness")
                                                     or (dotted(c.func, imp) or "").startswith(("numpy.random", "torch.rand")))) for b in body for c in ast.walk(b)) or isinstance(s, ast.ListComp)
            ctx.ob("R8", f"{m.name}.{owner}", False if order else None, f"{m.path}:{s.lineno}", f"iterates over {u}, whose order the seed does not determine")


def c12_env(ctx, cls):
    E, v, st, loc = meth_run(ctx, cls, "step", {"CA.forward"})
    runs = [e for e in E.events if e.kind == "call" and (name_of(e) == ".ca" and recv(e) is SELF or recv(e) is CA and is_call(e, "forward", "__call__", "get_frame", "update_universe"))]
    rs = [e for e in E.events if e.kind == "call" and recv(e) is CA and is_call(e, "reset")]
    if not runs:
        return ctx.ob("R9", cls, None, loc, "no CA update found")
    r = runs[0]
    good = [e for e in rs if e.seq < r.seq and always(e) and [l[1] for l in e.loops] == [l[1] for l in r.loops[:len(e.loops)]]]
    ctx.ob("R9", cls, bool(good), r.loc, "the CA is updated before it was reset" if not rs else "the CA is reset too late or only sometimes")
    E2, v2, st2, l2 = meth_run(ctx, cls, "step", {"CA.forward"})
    c12_taint(ctx, E2, f"{cls}.step")
    c12_env_state(ctx, cls, E2, v2, st2, l2)
    r = norm(expand(E2, v2, st2, 3))
    src = set().union(*[tainted(x) for x in branches(r)])
    ctx.ob("R7", f"{cls}.step:result", not src, l2, f"the result depends on {sorted(src)}")


def c12_env_state(ctx, cls, E, v, st, loc):
    """R12: what a step keeps in the environment and a later step reads is re-initialised by reset"""
    written = {}
    for e in E.events:
        if e.kind in ("setattr", "augattr") and e.data["target"] is SELF:
            written.setdefault(e.data["name"], e)
        if e.kind in ("listmut", "setitem") and isinstance(e.data.get("target"), T):
            for p in E.roots(e.data["target"]):
                if p.op == "attr" and p.args[0] is SELF:
                    written.setdefault(p.args[1], e)
    terms = [norm(expand(E, v, st, 1))] if isinstance(v, T) else []
    for e in E.events:
        ts = [e.data.get("value"), e.data.get("key")] + list(e.guards) + list(e.data.get("args") or ())
        if e.kind not in ("setattr", "augattr"):
            ts.append(e.data.get("content"))
        terms += [norm(expand(E, t, st, 1)) for t in ts if isinstance(t, T)]
    reads = entry_reads(terms)
    R, rv, rst, _ = meth_run(ctx, cls, "reset")
    again = {e.data["name"] for e in R.events if e.kind == "setattr" and e.data["target"] is SELF and always(e)
             and not contains(norm(expand(R, e.data["content"], rst, 2)) if isinstance(e.data.get("content"), T) else NONE, lambda x: x is A(e.data["name"]))}
    for n in sorted(written):
        e = written[n]
        if n in again or n not in reads:
            ctx.ob("R12", f"{cls}:{n}", True, e.loc)
            continue
        left = E.heapget(st, (SELF, "a", n))
        left = norm(expand(E, left if isinstance(left, T) else A(n), st, 3))
        own = any(x.op in ("poly", "lcat") and contains(x, lambda y: y is A(n)) and x is not A(n) for x in branches(left))
        run = contains(left, lambda y: y is sym("action") or y.op == "call" and (str(y.args[0]) in (".ca",) or str(y.args[0]).startswith(("torch.rand", "numpy.random", "rng"))))
        folds = contains(left, lambda y: y.op == "fold" and any(contains(b, lambda z: z.op == "m") for _, b in y.args[1])) and contains(left, lambda y: y is A(n))
        ctx.ob("R12", f"{cls}:{n}", True if left is A(n) else False if own or run or folds else None, e.loc, f"self.{n} is left at {short(left, 80)} by an evaluation, the next one reads it and reset does not restore it")


def entry_reads(terms):
    """attributes of self whose value at entry some term uses (initial values of loop variables that every pass overwrites do not count)"""
    memo = {}

    def plain(t):
        return isinstance(t, T) and (t.op == "attr" and t.args[0] is SELF or t.op in ("m", "mu"))

    def go(x):
        if isinstance(x, tuple):
            return frozenset().union(*[go(y) for y in x])
        if not isinstance(x, T):
            return frozenset()
        if x not in memo:
            memo[x] = frozenset()
            memo[x] = step(x)
        return memo[x]

    def step(x):
        if x.op == "attr" and x.args[0] is SELF:
            return frozenset([x.args[1]])
        if x.op == "m":
            return frozenset([x.args[1]])
        if x.op == "last":
            return go(x.args[1]) | (frozenset() if plain(x.args[2]) else go(x.args[2]))
        if x.op == "ite" and x.args[0].op in ("lt", "lt0") and plain(x.args[2]):
            return go(x.args[0]) | go(x.args[1])
        if x.op == "fold":
            bodies = [go(b) for a, b in x.args[1]]
            used = frozenset().union(*bodies)
            out = go(x.args[0]) | used
            for i, (a, b) in enumerate(x.args[1]):
                if i in used or not plain(a):
                    out |= go(a)
            return out
        return frozenset().union(*[go(y) for y in x.args])
    return {n for t in terms for n in go(t) if isinstance(n, str)}


def c12_family(ctx, fam):
    from .steps import HEAVY
    E, v, st, loc = meth_run(ctx, fam, "forward")
    written = {}
    for e in E.events:
        if e.kind in ("setattr", "augattr") and e.data["target"] is SELF:
            written.setdefault(e.data["name"], e)
        if e.kind in ("mutate", "listmut", "setitem") and isinstance(e.data.get("target"), T):
            for p in E.roots(e.data["target"]):
                if p.op == "attr" and p.args[0] is SELF:
                    written.setdefault(p.args[1], e)
    terms = [v] if isinstance(v, T) else []
    for e in E.events:
        terms += [t for t in [e.data.get("value"), e.data.get("content")] + list(e.guards) + list(e.data.get("args") or ()) if isinstance(t, T)]
    terms += [val for (o, k, n), val in st.heap.items() if isinstance(val, T) and not (o is SELF and k == "a" and val is A(n))]
    reads = entry_reads(terms)
    carried = sorted(set(written) & reads)
    R, rv, rst, rloc = meth_run(ctx, fam, "reset")
    ctx.ob("R10", fam, True, loc, f"carried: {carried}")
    for n in carried:
        cur = R.heapget(rst, (SELF, "a", n))
        cur = norm(expand(R, cur, rst, 3)) if isinstance(cur, T) else None
        if cur is None or cur is A(n):
            zero = [e for e in R.events if e.kind in ("mutate", "call") and any(p is A(n) for p in (R.roots(e.data["target"]) if isinstance(e.data.get("target"), T) else ()))]
            ctx.ob("R10", f"{fam}:{n}", None if zero else False, written[n].loc, f"a step carries self.{n} over to the next one and reset does not re-initialise it")
        else:
            ctx.ob("R10", f"{fam}:{n}", not contains(cur, lambda x: x is A(n)), rloc, f"reset leaves self.{n} at {short(cur, 80)}")


def c12_predictor(ctx):
    E, v, st, loc = meth_run(ctx, "HaltingWrapper", "reset")
    for n in ("layers", "final_layer", "optimizer"):
        cur = E.heapget(st, (SELF, "a", n))
        cur = norm(expand(E, cur, st, 4)) if isinstance(cur, T) else None
        ok = cur is not None and not contains(cur, lambda x: x is A(n))
        ctx.ob("R11", n, ok, loc, f"reset keeps self.{n} of the previous evaluation")


# ------------------------------------------------------------------ C23
SERIES = {"mean_fitness": "mean", "max_fitness": "max", "min_fitness": "min", "std_dev_fitness": "std"}
ALIASES = {"mean": ("mean", "average"), "max": ("max", "amax"), "min": ("min", "amin"), "std": ("std",)}
STATS = {"mean", "average", "max", "amax", "min", "amin", "std", "var", "median", "sum", "nanmean", "nanmax", "nanmin", "nanstd", "ptp", "percentile", "argmax", "argmin"}
READERS = (("func", "yuca.plot", "plot_exp"), ("meth", "CMAES", "__init__"), ("meth", "GliderWrapper", "__init__"), ("meth", "CCA", "__init__"))


def check_C23(ctx):
    ctx.rule("R1", "the record of a seed starts empty and is not shared with other seeds")
    ctx.rule("R2", "each generation appends exactly one entry to the elite-configuration, mean, maximum, minimum and deviation records, unconditionally")
    ctx.rule("R3", "each entry is the named statistic of the complete fitness list that selection used in that generation; configurations are those of that generation's elites")
    ctx.rule("R4", "the log is saved in every generation after all entries of that generation, under a name that contains the seed")
    ctx.rule("R5", "every record that plotting, resuming and replaying read is written by the search; the last entry is read as the latest generation")
    ctx.rule("R6", "the elite configurations are one per elite, each made after the CA was given that elite's parameters")
    ctx.rule("R7", "the plot draws mean, maximum and minimum and the band mean plus and minus the deviation")
    keys = {}
    for cls in SEARCHES:
        for w in (0, 3):
            ctx.guard("R2", f"{cls}:workers={w}", lambda: c23_log(ctx, cls, w, keys))
        ctx.guard("R6", cls, lambda: c23_elites(ctx, cls))
    for r in READERS:
        ctx.guard("R5", r[2] if r[0] == "func" else f"{r[1]}.{r[2]}", lambda: c23_reader(ctx, r, keys))


def dict_items(t):
    """constant key -> value of a dictionary term built from nothing, else None"""
    t = norm(t)
    if t.op != "dict" or t.args[0] not in (NONE, None):
        return None
    out = {}
    for k in t.args[1:]:
        k = k.args if isinstance(k, T) else k
        if not is_str(k[0]):
            return None
        out[str(cval(k[0]))] = norm(k[1])
    return out


def c23_log(ctx, cls, w, keys):
    E = search_run(ctx, cls, w)
    loc = func_loc(ctx.prog.method(cls, "mantle"))
    lab = f"{cls}:workers={w}"
    G = A("generations")
    saves = [e for e in E.events if e.kind == "call" and name_of(e) in ("numpy.save", "numpy.savez", "pickle.dump", "torch.save", ".save") and any(norm(l[2]) is norm(mk("len", A("my_seed"))) for l in e.loops)]
    logs = []
    for e in saves:
        v = e.data["value"]
        for k, x in enumerate(v.args[1]):
            d = dict_items(x)
            if d and "mean_fitness" in d or d and "elite_configs" in d:
                logs.append((e, d, v.args[1][1 - k] if len(v.args[1]) > 1 else NONE))
    if not logs:
        return ctx.ob("R4", lab, False if not saves else None, saves[0].loc if saves else loc, "the log is never saved" if not saves else "the saved value is not a recognisable record")
    e, d, path = logs[-1]
    keys.update({k: True for k in d})
    depth = [i for i, l in enumerate(e.loops) if norm(l[2]) is G]
    if not depth:
        return ctx.ob("R4", lab + ":every generation", False, e.loc, "the log is not saved in the generation loop")
    L, gidx = e.loops[depth[0]][0], e.loops[depth[0]][1]
    ctx.ob("R4", lab + ":every generation", always(e) and len(e.loops) == depth[0] + 1, e.loc, f"the log is saved only when {short(norm(and_(*e.guards)), 100)}")
    seed_ix = e.loops[0][1]
    seedterm = norm(mk("item", A("my_seed"), seed_ix))
    pt = norm(path)
    ctx.ob("R4", lab + ":named after the seed", True if contains(pt, lambda x: x is seedterm) else False if not contains(pt, lambda x: x.op == "mu") else None, e.loc,
           f"seeds share the file {short(pt, 100)}")
    cons = [c for c in consumers(E)]
    fits = [norm(fitness_arg(ctx, cls, c)) for c in cons]
    fits = [f for f in fits if f is not None]
    if not fits:
        return ctx.ob("R3", lab, None, loc, "selection not found")
    def unmu(t):
        """list content = what it held before this generation + what this generation added; None when not of that form"""
        t = peel_list(t)
        if t.op == "mu" and t.args[0] == L:
            return []
        if t.op == "lcat":
            out = []
            for k, x in enumerate(t.args):
                if x.op == "mu" and x.args[0] == L:
                    if k:
                        return None
                    continue
                y = items_of(x)
                if y is None:
                    return None
                out += y
            return out if t.args and t.args[0].op == "mu" else None
        return None
    carried = set()
    L0 = e.loops[0][0]
    for k in E.loopinfo.get(L0, {}).get("carried", ()):
        carried.add(str(k))
    for key in list(SERIES) + ["elite_configs"]:
        c = f"{lab}:{key}"
        if key not in d:
            ctx.ob("R2", c, False, e.loc, f"the saved record has no {key}")
            continue
        t = d[key]
        xs = unmu(t)
        if xs is None:
            fixed = items_of(t)
            whole = peel_list(t)
            if key == "elite_configs" and whole.op == "lcat" and len(whole.args) == 2 and whole.args[0].op == "mu" and str(whole.args[1].args[0] if whole.args[1].op == "call" else "").endswith("get_elite_configs"):
                ctx.ob("R2", c, False, e.loc, "a generation adds one entry per elite to elite_configs, not one entry")
                continue
            ctx.ob("R2", c, False if fixed is not None or t.op == "ite" and not contains(t, lambda x: x.op == "call" and str(x.args[0]).startswith("mut.")) else None, e.loc,
                   f"{key} does not grow by one entry per generation: it holds {short(t, 120)} when saved")
            continue
        if not ctx.ob("R2", c, len(xs) == 1, e.loc, f"{len(xs)} entries are added to {key} in a generation before the log is saved"):
            continue
        x = norm(xs[0])
        if key in SERIES:
            ok, why = statistic(x, SERIES[key], fits)
            ctx.ob("R3", c, ok, e.loc, f"{key} records {why}")
        else:
            late = [ev for ev in E.events if is_call(ev, "get_elite_configs") and any(l[0] == L for l in ev.loops)]
            ok = x.op == "call" and str(x.args[0]).endswith("get_elite_configs")
            ctx.ob("R3", c, True if ok and late and all(ev.seq > max(q.seq for q in cons) for ev in late) else False if ok else None, e.loc,
                   "the recorded configurations are those of the previous generation's elites" if ok else f"records {short(x, 100)}")
    for key in list(SERIES) + ["elite_configs"]:
        if key in d:
            mus = [x for x in walk(d[key]) if x.op == "mu"]
            outer = [x for x in mus if x.args[0] == L0]
            names = {str(x.args[1]) for x in mus if x.args[0] == L}
            shared = bool(outer) or any(hits(E, L0, nm) for nm in names)
            ctx.ob("R1", f"{lab}:{key}", not shared, e.loc, f"{key} still holds the generations of the seeds before")


def hits(E, L0, nm):
    """the loop-carried list of the inner loop is also carried by the outer one"""
    for k in E.loopinfo.get(L0, {}).get("mus", {}).values():
        if isinstance(k, T) and k.op == "mu" and str(k.args[1]) == nm:
            return True
    return False


def statistic(x, want, fits):
    x = unstar(x)
    if x.op == "call" and isinstance(x.args[0], str):
        n = x.args[0].split(".")[-1]
        if n in STATS and x.args[1]:
            arg = peel_list(x.args[1][0])
            full = any(arg is peel_list(f) for f in fits)
            kw = [k for k, v in x.args[2] if k != "#" and not (k == "axis" and v is NONE)]
            extra = len(x.args[1]) > 1 or kw
            if n in ALIASES[want] and full:
                return (True if not extra else None), short(x, 80)
            if full:
                return False, f"the {n} of the fitness values, not the {want}"
            part = any(contains(arg, lambda y: y is peel_list(f)) for f in fits)
            if n in ALIASES[want]:
                return (None if contains(arg, lambda y: y.op in ("mu", "m")) and not part else False), f"the {n} of {short(arg, 80)}, not of the generation's fitness list"
            return False, short(x, 80)
    bare_mu = norm(subst(x, lambda y: sym("earlier") if y.op == "mu" else mk("call", "max", y.args[1], ()) if y.op == "call" and y.args[0] in ("min_py", "max_py") else None))
    if bare_mu is not x and contains(bare_mu, lambda y: y is sym("earlier")) and known_ops(bare_mu) and any(contains(x, lambda y: y is peel_list(f)) for f in fits):
        return False, f"{short(x, 80)}: depends on the entries of earlier generations"
    if known_ops(x) and x.op == "item" and any(x.args[0] is f for f in fits):
        return False, f"one fitness value {short(x, 60)}"
    return None, short(x, 80)


def c23_elites(ctx, cls):
    E, v, st, loc = meth_run(ctx, cls, "get_elite_configs", {"agent_fn"})
    r = norm(expand(E, v, st, 3))
    t = peel_list(r)
    n = norm(mk("item", mk("attr", A("elite_params"), "shape"), const(0)))
    n2 = norm(mk("len", A("elite_params")))
    mks = [e for e in E.events if is_call(e, "make_config")]
    fn = ctx.prog.method(cls, "get_elite_configs")
    shared = [a.arg for a, d in zip(reversed(fn.node.args.args), reversed(fn.node.args.defaults)) if isinstance(d, (ast.List, ast.Dict)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict")]
    if any(t is sym(a) for a in shared):
        return ctx.ob("R6", cls + ":one per elite", False, loc, f"the returned list is the default of {short(t, 30)}, one object for all calls: it keeps the configurations of earlier generations")
    if t.op != "over" or not mks:
        return ctx.ob("R6", cls, False if items_of(t) is not None and not mks else None, loc, f"returns {short(t, 100)}")
    ctx.ob("R6", cls + ":one per elite", True if norm(t.args[0]) in (n, n2, A("elite_keep")) else (False if understood(t.args[0]) else None), mks[0].loc, f"{short(t.args[0], 60)} configurations are made")
    body = items_of(t.args[1])
    ctx.ob("R6", cls + ":one configuration each", len(body) == 1 if body is not None else None, mks[0].loc, "")
    ix = t.args[2]
    m = mks[0]
    gives = [e for e in E.events if e.kind == "call" and is_call(e, "set_params", "step") and recv(e) in (mk("attr", ENV, "ca"), ENV) and e.seq < m.seq and len(e.loops) == len(m.loops)]
    if not gives:
        return ctx.ob("R6", cls + ":of that elite", False, m.loc, "the configuration is made without giving the CA the elite's parameters")
    g = gives[-1]
    a, k = cargs(g)
    val = norm(expand(E, a[1], st, 3)) if len(a) > 1 else NONE
    loopix = m.loops[-1][1]
    uses = contains(val, lambda x: x.op == "item" and x.args[0] is A("elite_params") and x.args[1] is loopix)
    agents = any(contains(val, lambda x: x.op == "item" and x.args[0] is A("elite_params")) for _ in (0,))
    if val.op == "item" and is_num(val.args[1]) and is_call_term(val.args[0], "get_action"):
        ctx.ob("R6", cls + ":rule part", cval(val.args[1]) == 0, g.loc, "the CA is given the pattern part of the agent's action, not the rule part")
    ctx.ob("R6", cls + ":of that elite", True if uses and always(g) else (False if not always(g) or agents or not contains(val, lambda x: x is loopix) else None), g.loc,
           f"the CA is given {short(val, 120)}, not the elite the configuration is recorded for")


def is_call_term(t, *names):
    return t.op == "call" and str(t.args[0]).split(".")[-1] in names


def loaded(t):
    return contains(t, lambda x: x.op == "call" and str(x.args[0]) in ("numpy.load", "pickle.load", "torch.load"))


def record_of(t):
    """The whole logged record: a loaded object, reshaped or indexed by position."""
    while True:
        if t.op == "call" and str(t.args[0]) in ("numpy.load", "pickle.load", "torch.load"):
            return True
        if t.op == "item" and not is_str(t.args[1]) or t.op in ("attr", "view"):
            t = t.args[1] if t.op == "view" else t.args[0]
        elif t.op == "call" and t.args[1] and isinstance(t.args[1][0], T) and str(t.args[0]).split(".")[-1] in ("reshape", "item", "tolist", "view", "squeeze", "ravel", "flatten"):
            t = t.args[1][0]
        else:
            return False


def c23_reader(ctx, r, keys):
    ops = {"query_kwargs", "yuca.utils.query_kwargs", "load_config", "CCA.load_config", "set_params", "CCA.set_params", "seed_all"}
    if r[0] == "func":
        f = ctx.prog.modules[r[1]].funcs.get(r[2])
        if f is None:
            raise AnalysisError(f"anchor vanished: {r[1]}.{r[2]}")
        E = ctx.engine(ops | {"CCA"})
        v, st = E.run(f)
    else:
        E = ctx.engine(ops)
        f = ctx.prog.method(r[1], r[2])
        v, st = E.run(f, selfcls=ctx.prog.find_class(r[1]))
    ctx.note_units(E, f)
    who = r[2] if r[0] == "func" else f"{r[1]}.{r[2]}"
    found, firsts = {}, {}
    for e in E.events:
        vals = [e.data.get("value"), e.data.get("content")] + list(e.data.get("args") or ()) + list(e.guards) + [l[2] for l in e.loops if isinstance(l[2], T)]
        for t in vals:
            if not isinstance(t, T):
                continue
            for x in walk(norm(expand(E, t, st, 2))):
                if x.op == "item" and is_str(x.args[1]) and record_of(x.args[0]):
                    found.setdefault(str(cval(x.args[1])), e)
                if x.op == "item" and is_num(x.args[1]) and x.args[0].op == "item" and is_str(x.args[0].args[1]) and loaded(x.args[0].args[0]):
                    firsts.setdefault(str(cval(x.args[0].args[1])), []).append((int(cval(x.args[1])), e))
    if not found:
        return ctx.ob("R5", who, None, func_loc(f), "no record is read from a loaded log")
    for k, e in sorted(found.items()):
        ctx.ob("R5", f"{who}:{k}", (k in keys) if keys else None, e.loc, f"reads the record {k!r}, which the search does not write (it writes {sorted(keys)})")
    for k, uses in sorted(firsts.items()):
        if k in ("elite_params", "elite_configs"):
            bad = [(i, e) for i, e in uses if i != -1]
            ctx.ob("R5", f"{who}:{k} latest", not bad, (bad or uses)[0][1].loc, f"reads generation {bad[0][0] if bad else ''} instead of the latest one")
    if who == "plot_exp":
        c23_plot(ctx, E, st, f)


def c23_plot(ctx, E, st, f):
    def key(t):
        t = unstar(norm(t))
        return str(cval(t.args[1])) if t.op == "item" and is_str(t.args[1]) and loaded(t.args[0]) else None
    drawn = set()
    for e in E.events:
        if is_call(e, "plot") and not e.loops:
            a = [norm(expand(E, x, st, 2)) for x in e.data.get("args") or () if isinstance(x, T)]
            got = {key(x) for x in a} - {None}
            drawn |= got
            label = (e.data.get("kw") or {}).get("label")
            if is_str(label) and len(got) == 1:
                named = [k for k in ("mean_fitness", "max_fitness", "min_fitness") if k[:3] in cval(label)]
                if len(named) == 1:
                    ctx.ob("R7", f"line {named[0]}", named[0] in got, e.loc, f"the line labelled {cval(label)!r} draws {min(got)}")
        if is_call(e, "fill_between"):
            a = [norm(expand(E, x, st, 2)) for x in e.data.get("args") or () if isinstance(x, T)]
            if len(a) < 3:
                continue
            ks = {}
            for x in walk(mk("tuple", a[1], a[2])):
                if x.op == "item" and key(x):
                    ks[key(x)] = x
            if "mean_fitness" not in ks or "std_dev_fitness" not in ks:
                ctx.ob("R7", "band", False if ks else None, e.loc, f"the band is drawn from {sorted(ks)}")
                continue
            m, s = ks["mean_fitness"], ks["std_dev_fitness"]
            want = {drop_arrays(norm(sub(m, s))), drop_arrays(norm(add(m, s)))}
            got = {drop_arrays(a[1]), drop_arrays(a[2])}
            ctx.ob("R7", "band", True if got == want else (False if all((known_ops(x) or x.op == "poly") and not contains(x, lambda y: y.op == "over") for x in got) else None), e.loc, f"the band is {', '.join(short(x, 80) for x in got)}")
    for k in ("mean_fitness", "max_fitness", "min_fitness"):
        ctx.ob("R7", k, k in drawn or None, func_loc(f), f"{k} is not drawn as read")


def drop_arrays(t):
    return norm(subst(t, lambda x: drop_arrays(x.args[1][0]) if x.op == "call" and str(x.args[0]).split(".")[-1] in ("array", "asarray") and len(x.args[1]) == 1 else None))
