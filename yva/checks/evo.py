"""C12 seed determinism, C13 selection, C14 distributed evaluation, C19 environments, C23 evolution log."""
import ast
from fractions import Fraction
from ..lib import *
from ..terms import *
from ..engine import St, Func
from .steps import SELF

SEARCHES = ("CMAES", "CMACES")
OPAQUE = {"CMAES.get_fitness", "CMACES.get_fitness", "CMAES.update_population", "CMAES.rank_population", "CMAES.save_gif",
          "CMACES.save_gif", "CMAES.get_elite_configs", "CMACES.get_elite_configs", "CMAES.reset", "CMAES.initialize_population",
          "yuca.utils.seed_all", "seed_all", "CA.no_grad", "CA.to_device", "save_fig_sequence"}
A = lambda n: mk("attr", SELF, n)
POP, PSIZE = A("population"), A("population_size")


# ------------------------------------------------------------------ helpers
def name_of(ev):
    return str(ev.data.get("name", ""))


def is_call(ev, *names):
    """a call event of one of the named functions or methods (last component)"""
    return ev.kind == "call" and name_of(ev).split(".")[-1] in names


def bound(ctx, ev, cls, meth):
    """argument values of a call of a program method by parameter name, defaults included"""
    f = ctx.prog.method(cls, meth)
    ps = [a.arg for a in f.node.args.args]
    v = ev.data["value"]
    out = {}
    ds = f.node.args.defaults
    for p, d in zip(ps[len(ps) - len(ds):], ds):
        try:
            out[p] = const(ast.literal_eval(d))
        except Exception:
            pass
    if v.op == "call":
        for p, x in zip(ps, v.args[1]):
            out[p] = norm(x)
        for k, x in v.args[2]:
            if k != "#":
                out[k] = norm(x)
    return out


def drop_uid(t):
    """the term without the identity of library calls"""
    return norm(subst(t, lambda x: mk("call", x.args[0], x.args[1], tuple(kv for kv in x.args[2] if kv[0] != "#"))
                      if x.op == "call" and len(x.args) > 2 and any(kv[0] == "#" for kv in x.args[2]) else None))


def items_of(t):
    """Python list of the element terms of a list/tuple term, or None when its length is not constant"""
    t = peel_list(t)
    if t.op in ("seq", "tuple"):
        return list(t.args)
    if t.op == "lcat":
        out = []
        for x in t.args:
            y = items_of(x)
            if y is None:
                return None
            out += y
        return out
    if t.op == "over" and pass_count(t.args[0]) is not None:
        body, ix = t.args[1], t.args[2]
        out = []
        for k in range(pass_count(t.args[0])):
            y = items_of(norm(subst(body, lambda x: const(k) if x is ix else None)))
            if y is None:
                return None
            out += y
        return out
    return None


def pass_count(c):
    c = norm(c)
    if is_num(c):
        return int(cval(c))
    if c.op == "steps" and all(is_num(x) for x in c.args):
        return len(range(*[int(cval(x)) for x in c.args]))
    return None


def peel_list(t):
    t = norm(t)
    while t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in ("array", "asarray", "list", "tuple", "tolist", "copy") \
            and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def parts_of(t):
    """concatenated pieces of a list term"""
    t = peel_list(t)
    return [y for x in t.args for y in parts_of(x)] if t.op == "lcat" else [t]


def len_pop(t):
    """the length of the population is population_size"""
    return norm(subst(t, lambda x: PSIZE if x.op == "len" and x.args[0] is POP else None))


def over_all(t, count):
    """element term and index of a list made by one full pass over range(count), else None"""
    t = peel_list(len_pop(t))
    if t.op == "over" and norm(t.args[0]) is norm(count):
        body = peel_list(t.args[1])
        if body.op == "seq" and len(body.args) == 1:
            return body.args[0], t.args[2]
    return None


def full_index(ix, count):
    return ix.op == "idx" and norm(len_pop(ix.args[0])) is norm(count)


def unstar(t):
    while t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in ("float", "array", "asarray", "detach", "cpu", "numpy", "copy", "squeeze", "item") \
            and t.args[1]:
        t = t.args[1][0]
    return t


def get_fit(t):
    """(call term of get_fitness, which result) for a term made from one result of one evaluation"""
    t = unstar(t)
    if t.op == "item" and is_num(t.args[1]) and t.args[0].op == "call" and str(t.args[0].args[0]).endswith(".get_fitness"):
        return t.args[0], int(cval(t.args[1]))
    return None


def search_run(ctx, cls, workers, pop=None, rank=0, entry="search", opaque=()):
    E = ctx.engine(OPAQUE | set(opaque))
    st = St()
    E.extern = {".Get_size": const(max(workers, 1)), ".Get_rank": const(rank), "os.getenv": const("1")}
    E.track_globals = True
    st.heap[(SELF, "a", "workers")] = const(workers)
    if pop:
        st.heap[(SELF, "a", "population_size")] = const(pop)
    f = ctx.prog.method(cls, entry)
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls), st=st)
    ctx.note_units(E, f)
    return E


def fit_bind(ctx, cls, call):
    f = ctx.prog.method(cls, "get_fitness")
    class Ev:
        data = {"value": call}
    return bound(ctx, Ev, cls, "get_fitness")


def consumers(E):
    return [e for e in E.events if is_call(e, "update_population", "rank_population")]


def fitness_arg(ctx, cls, ev):
    b = bound(ctx, ev, cls, name_of(ev).split(".")[-1])
    return b.get("fitness")


# ------------------------------------------------------------------ C14
def check_C14(ctx):
    ctx.rule("R1", "serial mode (0 or 1 workers) starts no processes and sends nothing; the fitness list is one get_fitness result per individual 0..population-1 in order")
    ctx.rule("R2", "with workers, the index ranges sent to workers 1..n-1, concatenated in the order their results are appended, are exactly 0..population-1")
    ctx.rule("R3", "each work item carries the current parameters of every individual in order, and each worker is sent one work item per generation")
    ctx.rule("R4", "the worker evaluates every index it received once, in order, with the serial loop's step and replicate counts and the serial seed carried by the message")
    ctx.rule("R5", "message shapes agree: what one side sends is what the other unpacks, position by position")
    ctx.rule("R6", "a worker gives every individual the received parameters before evaluating any")
    ctx.rule("R7", "after the last seed every worker receives one message that ends its loop, and no work item ends it")
    for cls in SEARCHES:
        ctx.guard("R1", cls, lambda: c14_class(ctx, cls))


def c14_class(ctx, cls):
    serial = {}
    for w in (0, 1):
        E = search_run(ctx, cls, w)
        loc = func_loc(ctx.prog.method(cls, "mantle"))
        msgs = [e for e in E.events if is_call(e, "send", "recv", "isend", "irecv", "check_call", "Popen", "system", "call")]
        ctx.ob("R1", f"{cls}:workers={w}:no messages", not msgs, msgs[0].loc if msgs else loc,
               f"{name_of(msgs[0])} is reached with {w} workers" if msgs else "")
        cons = consumers(E)
        if not cons:
            ctx.ob("R1", f"{cls}:workers={w}:consumers", None, loc, "selection calls not found")
            continue
        for ev in cons:
            fa = fitness_arg(ctx, cls, ev)
            r = serial_list(ctx, cls, fa)
            lab = f"{cls}:workers={w}:{name_of(ev).split('.')[-1]}"
            if isinstance(r, tuple):
                ctx.ob("R1", lab, True, ev.loc)
                serial[w] = r
            else:
                ctx.ob("R1", lab, r, ev.loc, f"the fitness list {short(fa, 160)} is not one evaluation of each individual in order")
    if 0 not in serial or 1 not in serial:
        return
    want = serial[0]
    same = {k: norm(v) for k, v in want[0].items() if k not in ("self", "agent_index")}
    s1 = {k: norm(v) for k, v in serial[1][0].items() if k not in ("self", "agent_index")}
    ctx.ob("R1", f"{cls}:one worker equals none", drop_all(same) == drop_all(s1), "", "arguments of get_fitness differ between 0 and 1 workers")
    # worker
    E = search_run(ctx, cls, 3, rank=1)
    arm = ctx.guard("R4", f"{cls}.arm", lambda: c14_arm(ctx, cls, E, same))
    if not arm:
        return
    grid = [(w, p) for w in (2, 3, 4, 5) for p in ((1, 2, 3, 4, 5, 7, 8, 16) if cls == "CMAES" or w == 3 else (7,))]
    if ctx.tier == "thorough" and cls == "CMAES":
        grid = [(w, p) for w in range(2, 10) for p in range(1, 25)]
    for w, p in grid:
        ctx.guard("R2", f"{cls}:workers={w},population={p}", lambda: c14_master(ctx, cls, w, p, arm, same))


def drop_all(d):
    return {k: drop_uid(v) for k, v in d.items()}


def serial_list(ctx, cls, fa):
    """(bound arguments, which) when fa is [get_fitness(i)[k] for i in range(population)]; False/None otherwise"""
    if fa is None:
        return None
    r = over_all(fa, PSIZE)
    if r is None:
        t = peel_list(fa)
        if t.op in ("over", "seq", "lcat"):
            if t.op == "seq":
                return False
            calls = [x for x in walk(t) if x.op == "call" and str(x.args[0]).endswith(".get_fitness")]
            return False if calls and simple_list(t) else None
        return None
    body, ix = r
    g = get_fit(body)
    if g is None:
        return None
    b = fit_bind(ctx, cls, g[0])
    i = norm(b.get("agent_index", NONE))
    if i is not norm(ix):
        return False if understood(i) else None
    return (b, g[1])


def simple_list(t):
    """a pass over a range whose bound is arithmetic of known attributes"""
    return t.op == "over" and understood(t.args[0])


def understood(t):
    return not contains(t, lambda x: x.op in ("call", "mu", "cell", "havoc", "brk", "atbreak", "fold") and
                        not (x.op == "call" and x.args[0] in ("min_py", "max_py", "int", "floordiv")))


def c14_arm(ctx, cls, E, same):
    recvs = [e for e in E.events if is_call(e, "recv")]
    fits = [e for e in E.events if is_call(e, "get_fitness")]
    sends = [e for e in E.events if is_call(e, "send")]
    loc = func_loc(ctx.prog.method(cls, "arm"))
    if len(recvs) != 1 or not fits or not sends:
        ctx.ob("R4", f"{cls}.arm", None if len(recvs) > 1 else False, loc,
               f"worker: {len(recvs)} receives, {len(fits)} evaluations, {len(sends)} sends per message")
        return None
    rv = recvs[0].data["value"]
    src = dict(rv.args[2]).get("source")
    ctx.ob("R5", f"{cls}.arm:source", src is None or src is const(0), recvs[0].loc, f"the worker listens to {short(src) if src else ''}")
    n = None
    for e in E.events:
        if e.kind == "unpack" and e.seq > recvs[0].seq and e.loc == recvs[0].loc:
            n = e.data["n"]
    send = sends[-1]
    ctx.ob("R4", f"{cls}.arm:one reply per work item", len(sends) == 1 and len(send.loops) == len(recvs[0].loops), send.loc,
           f"{len(sends)} send sites, {len(send.loops) - len(recvs[0].loops)} loops deeper than the receive")
    msg = norm(send.data["value"].args[1][1]) if len(send.data["value"].args[1]) > 1 else None
    if msg is not None and msg.op != "tuple" and len(send.data["value"].args[1]) == 1:
        msg = norm(send.data["value"].args[1][0])
    args = [norm(x) for x in send.data["value"].args[1] if norm(x).op in ("tuple", "seq")]
    msg = args[0] if args else None
    dest = dict(send.data["value"].args[2]).get("dest")
    ctx.ob("R5", f"{cls}.arm:reply to master", dest is None or norm(dest) is const(0), send.loc, f"replies to {short(dest) if dest else ''}")
    if msg is None:
        ctx.ob("R5", f"{cls}.arm:reply", None, send.loc, "reply is not a tuple")
        return None
    # which position of the reply holds the fitness of the received indices in order
    pos = {}
    uses = {}
    for k, part in enumerate(msg.args):
        t = peel_list(part)
        if t.op != "over":
            continue
        cnt = norm(t.args[0])
        body = peel_list(t.args[1])
        if not (body.op == "seq" and len(body.args) == 1):
            continue
        g = get_fit(body.args[0])
        if g is None:
            continue
        b = fit_bind(ctx, cls, g[0])
        i = norm(b.get("agent_index", NONE))
        if i.op == "item" and i.args[1] is t.args[2] and cnt is norm(mk("len", i.args[0])) and i.args[0].op == "item" and i.args[0].args[0] is rv:
            pos[g[1]] = k
            uses["idx"] = i.args[0].args[1]
            uses["b"] = b
    if 0 not in pos or 1 not in pos:
        bad = [x for x in walk(msg) if x.op == "call" and str(x.args[0]).endswith(".get_fitness")]
        vague = any(x.op == "call" and x.args[0] in ("sorted", "set", "mut.sort") for x in walk(msg))
        ctx.ob("R4", f"{cls}.arm:indices", None if not bad or vague else False, send.loc,
               f"reply {short(msg, 200)} is not (fitness, proportion) of each received index in order")
        return None
    ctx.ob("R4", f"{cls}.arm:indices", True, send.loc)
    b = uses["b"]
    for k, v in same.items():
        if k == "seed":
            continue
        equal_ob(ctx, "R4", f"{cls}.arm:{k}", b.get(k, NONE), v, fits[0].loc, f"worker evaluates with {k}")
    sd = norm(b.get("seed", NONE))
    ok = sd.op == "item" and sd.args[0] is rv
    ctx.ob("R4", f"{cls}.arm:seed from message", ok, fits[0].loc, f"the worker's seed is {short(sd)}, not a part of the message")
    # parameters
    sps = [e for e in E.events if is_call(e, "set_params") and contains(e.data["value"], lambda x: x is POP) and e.seq < fits[0].seq]
    pk = None
    good = None
    for e in sps:
        a = [norm(x) for x in e.data["value"].args[1]]
        if len(a) == 2 and a[0].op == "item" and a[0].args[0] is POP:
            v = a[1]
            if v.op == "item" and v.args[0].op == "item" and v.args[0].args[0] is rv:
                ix = a[0].args[1]
                good = v.args[1] is ix and ix.op == "idx" and covers(ix.args[0], mk("len", v.args[0]))
                pk = v.args[0].args[1]
            elif good is None and understood(v):
                good = False
    ctx.ob("R6", f"{cls}.arm", good if sps else False, sps[0].loc if sps else loc, "individual i is not given the i-th received parameters before evaluation")
    if sps:
        inner = [e for e in E.events if e.seq > sps[-1].seq and e.seq < fits[0].seq and is_call(e, "reset", "initialize_population")
                 and norm(e.data["value"].args[1][0]) is SELF]
        ctx.ob("R6", f"{cls}.arm:reset before", not inner, inner[0].loc if inner else "", "the population is rebuilt after its parameters were set")
    return dict(rv=rv, n=n, pos=pos, idx=uses["idx"], params=pk, seed=sd.args[1] if ok else None, guards=send.guards + fits[0].guards, msglen=len(msg.args), loc=loc,
                fitguards=fits[0].guards, nsend=len(sends))


def covers(n, want):
    """the pass count is the population's length, population_size or the wanted count (a worker makes these equal)"""
    n = norm(subst(len_pop(n), lambda x: norm(want) if x is PSIZE else None))
    if n.op == "zlen":
        return all(norm(y) is norm(want) for y in n.args)
    return n is norm(want) or n.op == "call" and n.args[0] in ("min_py", "min") and all(y is norm(want) for y in n.args[1])


def c14_master(ctx, cls, w, p, arm, same):
    E = search_run(ctx, cls, w, pop=p)
    lab = f"{cls}:workers={w},population={p}"
    loc = func_loc(ctx.prog.method(cls, "mantle"))
    cons = consumers(E)
    sends = [e for e in E.events if is_call(e, "send")]
    fits = [e for e in E.events if is_call(e, "get_fitness")]
    depth = min([len(e.loops) for e in cons] or [2])
    work = [e for e in sends if len(e.loops) >= depth]
    stops = [e for e in sends if len(e.loops) < depth]
    if fits:
        ctx.ob("R2", lab, None, fits[0].loc, "the master also evaluates")
        return
    msgs = {}
    for e in work:
        v = e.data["value"]
        d = dict(v.args[2]).get("dest")
        m = [norm(x) for x in v.args[1] if norm(x).op in ("tuple", "seq")]
        if d is None or not is_num(norm(d)) or len(m) != 1 or len(e.loops) != depth:
            ctx.ob("R3", lab, None, e.loc, f"destination {short(d) if d else '?'} or message not determined")
            return
        msgs.setdefault(int(cval(norm(d))), []).append((e, m[0]))
        g = [x for x in e.guards]
        if g:
            ctx.ob("R3", lab, None if not all(understood(x) for x in g) else False, e.loc, f"the work item is only sent when {short(g[0])}")
            return
    ok = sorted(msgs) == list(range(1, w)) and all(len(x) == 1 for x in msgs.values())
    if not ctx.ob("R3", lab + ":one work item per worker", ok, work[0].loc if work else loc, f"work items go to workers {sorted(msgs)} with {w - 1} workers"):
        return
    ranges = {}
    for d, [(e, m)] in msgs.items():
        ctx.ob("R5", lab + f":work item to {d}", arm["n"] is None or arm["n"] == len(m.args), e.loc,
               f"message has {len(m.args)} parts, the worker unpacks {arm['n']}")
        k = int(cval(arm["idx"]))
        xs = items_of(m.args[k]) if k < len(m.args) else None
        if xs is None or not all(is_num(x) for x in xs):
            ctx.ob("R2", lab, None, e.loc, f"index list {short(m.args[k], 120) if k < len(m.args) else '?'} not determined")
            return
        ranges[d] = [int(cval(x)) for x in xs]
        if arm["params"] is not None:
            pp = len_pop(m.args[int(cval(arm["params"]))])
            pp = norm(subst(pp, lambda x: const(p) if x is PSIZE else None))
            ctx.ob("R3", lab + f":parameters to {d}", params_list(pp, p), e.loc, f"parameters sent are {short(pp, 160)}")
        if arm["seed"] is not None:
            equal_ob(ctx, "R4", lab + f":seed to {d}", m.args[int(cval(arm["seed"]))], same["seed"], e.loc, "seed sent to the worker")
        # this work item is not taken for a shutdown
        for g in arm["fitguards"]:
            gg = norm(subst(g, lambda x: m if x is arm["rv"] else None))
            ok = truth(gg)
            if ok is None and truth(norm(subst(project(gg), lambda x: const(0) if x.op == "idx" and any(x is lp[1] for lp in e.loops) else None))) is False:
                ok = False
            ctx.ob("R7", lab + f":work item to {d} is work", ok, e.loc, f"the worker ignores the work item: {short(gg)}")
    for ev in cons:
        fa = fitness_arg(ctx, cls, ev)
        order = []
        bad = None
        for part in parts_of(fa):
            if part.op == "item" and part.args[0].op == "call" and str(part.args[0].args[0]).endswith("recv") and is_num(part.args[1]):
                s = dict(part.args[0].args[2]).get("source")
                if s is None or not is_num(norm(s)):
                    bad = part
                    break
                order.append((int(cval(norm(s))), int(cval(part.args[1])), part.args[0]))
            else:
                bad = part
                break
        if bad is not None:
            ctx.ob("R2", lab, None, ev.loc, f"fitness list piece {short(bad, 120)} is not a received list")
            return
        ctx.ob("R5", lab + ":results", all(k == arm["pos"][0] for _, k, _ in order), ev.loc, "the master reads another part of the reply than the fitness list")
        got = [i for s, k, c in order for i in ranges.get(s, [-1])]
        ctx.ob("R2", lab + ":" + name_of(ev).split(".")[-1], got == list(range(p)), ev.loc,
               f"fitness values arrive for individuals {got}, expected 0..{p - 1} in order")
    for e in E.events:
        if e.kind == "unpack" and norm(E.cellget(E.base, e.data["value"]) or e.data["value"]).op == "call":
            pass
    for e in [e for e in E.events if is_call(e, "recv")]:
        un = [x for x in E.events if x.kind == "unpack" and x.loc == e.loc and x.seq > e.seq]
        if un:
            ctx.ob("R5", lab + ":reply shape", un[0].data["n"] == arm["msglen"], e.loc,
                   f"the master unpacks {un[0].data['n']} parts, workers send {arm['msglen']}")
            break
    # shutdown
    got = []
    for e in stops:
        v = e.data["value"]
        d = dict(v.args[2]).get("dest")
        m = [norm(x) for x in v.args[1][-1:]]
        if e.loops or e.guards or d is None or not is_num(norm(d)):
            ctx.ob("R7", lab + ":shutdown", False if e.loops and len(e.loops) < depth or e.guards and all(understood(g) for g in e.guards) else None, e.loc,
                   "the shutdown message is conditional or sent before the last seed")
            return
        ends = [truth(norm(subst(g, lambda x: m[0] if x is arm["rv"] else None))) for g in arm["fitguards"]]
        n_ok = m[0].op not in ("tuple", "seq") and False or (arm["n"] is None or len(m[0].args) == arm["n"])
        if not (False in ends and n_ok):
            ctx.ob("R7", lab + ":shutdown", None if None in ends and n_ok else False, e.loc, f"the message {short(m[0])} does not end the worker's loop")
            return
        got.append(int(cval(norm(d))))
    last = max([e.seq for e in cons])
    ctx.ob("R7", lab + ":shutdown", sorted(got) == list(range(1, w)) and all(e.seq > last for e in stops), stops[0].loc if stops else loc,
           f"shutdown goes to workers {sorted(got)}, expected 1..{w - 1} after the last seed")


def params_list(t, p):
    t = peel_list(t)
    if t.op == "over" and t.args[0] is const(p):
        b = peel_list(t.args[1])
        if b.op == "seq" and len(b.args) == 1:
            return is_get(b.args[0], t.args[2])
        return None
    if t.op == "over" and understood(t.args[0]):
        return False
    xs = items_of(t)
    if xs is None:
        return None
    return len(xs) == p and all(is_get(x, const(i)) for i, x in enumerate(xs))


def is_get(x, ix):
    x = unstar(x)
    return x.op == "call" and x.args[0] == ".get_params" and norm(x.args[1][0]) is mk("item", POP, ix)


def project(t):
    return subst(t, lambda x: x.args[0].args[int(cval(x.args[1]))] if x.op == "item" and x.args[0].op in ("tuple", "seq")
                 and is_num(x.args[1]) and -len(x.args[0].args) <= int(cval(x.args[1])) < len(x.args[0].args) else None)


def truth(t):
    t = norm(project(t))
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    # a list or array compared with a number
    if t.op == "not":
        r = truth(t.args[0])
        return None if r is None else not r
    if t.op == "eq":
        a, b = t.args
        for x, y in ((a, b), (b, a)):
            if is_const(x) and peel_list(y).op in ("seq", "over", "lcat"):
                return False
        if is_const(a) and is_const(b):
            return cval(a) == cval(b)
    return None


# ------------------------------------------------------------------ C13
FIT, EPS = sym("fitness"), sym("elites")
SIZES = ((16, 3), (24, 4), (8, 2), (5, 1))
KNOWN_ARR = {"append", "array", "stack", "vstack", "concatenate", "mean", "sum", "matmul", "T", "transpose", "dot", "cov", "average", "median",
             ".get_params", "min", "max", "std", "cumsum", "abs", "argsort", "argmax", "argmin", "listrev", "list", "sorted", "reversed", "flip",
             "numpy.stack", "numpy.vstack", "numpy.concatenate", "numpy.cov", "numpy.median", "numpy.average", "numpy.random.multivariate_normal"}


def known_ops(t):
    """made only of array operations whose meaning is known"""
    return not contains(t, lambda x: x.op in ("mu", "fold", "havoc", "brk", "atbreak", "ite", "closure", "lam") or
                        x.op == "call" and x.args[0] not in KNOWN_ARR and not str(x.args[0]).startswith("numpy.random."))


def facts_gone(t):
    """results of calls are not None"""
    t = norm(subst(t, lambda x: FALSE if x.op == "eq" and (x.args[0] is NONE or x.args[1] is NONE) and
                   any(y.op in ("call", "item") for y in x.args) and not any(y.op == "sym" for y in x.args) else None))
    return norm(project(t))


def newaxis(t):
    return t is NONE or t.op == "ext" and str(t.args[0]).endswith("newaxis")


def rows(t, lead=True):
    """row terms of a matrix built by appending or stacking vectors, or None"""
    t = norm(t)
    if t.op == "call" and isinstance(t.args[0], str):
        nm = t.args[0].split(".")[-1]
        a, k = t.args[1], dict(t.args[2])
        ax = k.get("axis", k.get("dim"))
        if nm == "append" and len(a) >= 2 and (ax is const(0) or len(a) == 3 and a[2] is const(0)):
            x, y = rows(a[0]), rows(a[1])
            return x + y if x is not None and y is not None else None
        if nm in ("stack", "array", "asarray") and (ax is None or ax is const(0)):
            xs = items_of(a[0])
            return xs if xs is not None else rows(a[0]) if nm != "stack" else None
        if nm in ("vstack", "concatenate") and (ax is None or ax is const(0)):
            xs = items_of(a[0])
            if xs is None:
                return None
            out = []
            for x in xs:
                y = rows(x)
                if y is None and nm == "vstack":
                    y = [x]
                if y is None:
                    return None
                out += y
            return out
        if nm == "unsqueeze" and len(a) == 2 and a[1] is const(0):
            return [a[0]]
        if nm == "reshape" and len(a) == 2 and a[1].op == "tuple" and len(a[1].args) == 2 and a[1].args[0] is const(1):
            return [a[0]]
        if nm == "expand_dims" and len(a) == 2 and a[1] is const(0):
            return [a[0]]
    if t.op == "item" and t.args[1].op == "tuple" and newaxis(t.args[1].args[0]) and all(is_full(x) for x in t.args[1].args[1:]):
        return [t.args[0]]
    if t.op == "item" and newaxis(t.args[1]):
        return [t.args[0]]
    if t.op in ("seq", "over", "lcat"):
        return items_of(t)
    return None


def is_full(x):
    return x.op == "slice" and all(y is NONE for y in x.args)


def ranks(t, n):
    """the list of fitness ranks (0 = best) a sequence of individuals' indices has, or None"""
    t = norm(t)
    if t.op == "call" and isinstance(t.args[0], str):
        nm = t.args[0].split(".")[-1]
        a = t.args[1]
        if nm == "argsort" and a:
            d = direction(a[0])
            return list(range(n - 1, -1, -1)) if d == 1 else list(range(n)) if d == -1 else None
        if nm in ("list", "array", "asarray", "tuple", "copy", "tolist") and len(a) == 1:
            return ranks(a[0], n)
        if nm in ("listrev", "reversed", "flip", "flipud") and a:
            r = ranks(a[0], n)
            return r[::-1] if r is not None else None
        if nm == "sorted":
            d = sort_key(t)
            k = dict(t.args[2])
            if d is not None:
                r = list(range(n - 1, -1, -1)) if d == 1 else list(range(n))
                return r[::-1] if k.get("reverse") is TRUE else r
    if t.op == "item" and t.args[1].op == "slice":
        r = ranks(t.args[0], n)
        ks = [None if x is NONE else int(cval(x)) if is_num(x) else "?" for x in t.args[1].args]
        if r is None or "?" in ks:
            return None
        return r[slice(*ks)]
    xs = items_of(t) if t.op in ("seq", "lcat", "over") else None
    if xs is not None:
        out = [rank(x, n) for x in xs]
        return None if None in out else out
    return None


def sort_key(t):
    """+1 / -1 when t sorts all individuals' indices by (negated) fitness"""
    k = dict(t.args[2]).get("key")
    src = t.args[1][0] if t.args[1] else NONE
    if k is None or k.op != "lam" or not (src.op == "call" and src.args[0] == "range" or src.op in ("over", "seq", "range", "iter", "steps")):
        return None
    x, v = k.args
    f = mk("item", FIT, x)
    return 1 if norm(v) is f else -1 if norm(neg(v)) is f else None


def direction(t):
    """+1 when t is the fitness list, -1 when its negative"""
    t = norm(t)
    t = peel_list(t)
    if t is FIT:
        return 1
    if norm(neg(t)) is FIT:
        return -1
    return None


def rank(t, n):
    """fitness rank of the individual with index t, or None"""
    t = norm(t)
    while t.op == "call" and t.args[0] in ("int", "item") and t.args[1]:
        t = t.args[1][0]
    if t.op == "item" and is_num(t.args[1]):
        r = ranks(t.args[0], n)
        j = int(cval(t.args[1]))
        return r[j] if r is not None and -len(r) <= j < len(r) else None
    if t.op == "call" and t.args[0] in ("argmax", "argmin") and len(t.args[1]) == 1:
        d = direction(t.args[1][0])
        if d is not None:
            return 0 if (d == 1) == (t.args[0] == "argmax") else n - 1
    return None


def champion(t, n):
    """(verdict, bracket term): is t the fittest member of a random bracket"""
    if t.op == "call" and t.args[0] in ("argmax", "argmin") and t.args[1]:
        v = peel_list(t.args[1][0])
        if v.op == "item" and contains(v.args[1], lambda x: x.op == "call" and str(x.args[0]).startswith("numpy.random.")):
            return False, None
    if t.op != "item":
        return None, None
    B, w = t.args
    B = peel_list(B)
    if not (B.op == "call" and str(B.args[0]).startswith(("numpy.random.", "random."))):
        return None, None
    w = unstar(w)
    if w.op == "call" and w.args[0] in ("argmax", "argmin") and w.args[1]:
        v = peel_list(w.args[1][0])
        sgn = 1
        if norm(neg(v)).op == "item":
            v, sgn = norm(neg(v)), -1
        if v.op == "item" and direction(v.args[0]) is not None and peel_list(v.args[1]) is B:
            good = (w.args[0] == "argmax") == (sgn * direction(v.args[0]) == 1)
            return good, B
        if v.op == "item" and peel_list(v.args[0]) is FIT or v is FIT:
            return False, B
    if is_num(w):
        return False, B
    if w.op == "item" and is_num(w.args[1]):
        r = w.args[0]
        k = [x for x in walk(r) if x.op == "call" and x.args[0] == "argsort"]
        if len(k) == 1:
            v = peel_list(k[0].args[1][0])
            if v.op == "item" and direction(v.args[0]) is not None and peel_list(v.args[1]) is B:
                rr = ranks(subst(r, lambda x: FIT if x is v else None), 7)
                j = int(cval(w.args[1]))
                return (rr[j] == 0 if rr and -len(rr) <= j < len(rr) else None), B
    return None, B


def number(t, n):
    """numeric value of an arithmetic term, or None"""
    t = norm(t)
    if is_num(t):
        return float(cval(t))
    if t.op == "poly":
        total = 0.0
        for c, m in t.args:
            p = float(c)
            for base, e in m:
                x = number(base, n)
                e = e if isinstance(e, (int, float, Fraction)) else number(e, n)
                if x is None or e is None or x == 0 and e < 0 or x < 0 and e != int(e):
                    return None
                p *= x ** float(e)
            total += p
        return total
    if t.op == "call" and t.args[0] == "exp" and len(t.args[1]) == 1:
        a = number(t.args[1][0], n)
        import math
        return None if a is None else math.exp(a)
    if t.op == "call" and t.args[0] == "sum" and len(t.args[1]) == 1:
        v = numbers(t.args[1][0], n)
        return None if v is None else sum(v)
    return None


def numbers(t, n):
    """numeric list of a weight vector of length n, or None"""
    t = norm(subst(t, lambda x: const(n) if x.op == "len" and contains(x, lambda y: y is FIT) else None))
    t = peel_list(t)
    xs = items_of(t)
    if xs is not None:
        v = [number(x, n) for x in xs]
        return None if None in v else v
    if t.op == "poly":
        total = None
        for c, m in t.args:
            v = [float(c)]
            for base, e in m:
                if not isinstance(e, (int, float, Fraction)):
                    return None
                x = number(base, n)
                w = [x] if x is not None else numbers(base, n)
                if w is None or any(y == 0 and e < 0 or y < 0 and e != int(e) for y in w):
                    return None
                w = [y ** float(e) for y in w]
                if len(v) > 1 and len(w) > 1 and len(v) != len(w):
                    return None
                v = [a * b for a, b in zip(v * (len(w) if len(v) == 1 else 1), w * (len(v) if len(w) == 1 else 1))]
            if total is None:
                total = v
            elif len(total) == len(v) or len(v) == 1 or len(total) == 1:
                k = max(len(total), len(v))
                total = [a + b for a, b in zip(total * (k if len(total) == 1 else 1), v * (k if len(v) == 1 else 1))]
            else:
                return None
        return total if total is not None and len(total) > 1 else None
    if t.op == "call" and isinstance(t.args[0], str):
        nm = t.args[0].split(".")[-1]
        if nm in ("ones", "full", "ones_like", "full_like"):
            return [1.0] * n
        if nm in ("arange", "range") and 1 <= len(t.args[1]) <= 2:
            v = [number(x, n) for x in t.args[1]]
            if None in v:
                return None
            return [float(x) for x in range(*[int(y) for y in v])]
        if nm in ("listrev", "flip", "reversed"):
            v = numbers(t.args[1][0], n)
            return None if v is None else v[::-1]
        if nm == "exp":
            v = numbers(t.args[1][0], n)
            import math
            return None if v is None else [math.exp(x) for x in v]
    if t.op == "item" and t.args[1].op == "slice":
        v = numbers(t.args[0], n)
        ks = [None if x is NONE else int(cval(x)) if is_num(x) else "?" for x in t.args[1].args]
        return None if v is None or "?" in ks else v[slice(*ks)]
    return None


def lottery(t, n):
    """(verdict, why) for an index drawn by weights decreasing in rank"""
    if t.op == "item" and t.args[1].op == "item" and t.args[1].args[0].op == "call" and str(t.args[1].args[0].args[0]).endswith("random.choice"):
        # a rank is drawn, then the individual of that rank is looked up
        c = t.args[1].args[0]
        sized = lambda x: const(n) if x.op == "len" and contains(x, lambda y: y is FIT or y is POP) or x is PSIZE else None
        if all_indices(norm(subst(c.args[1][0], sized)), n):
            c = mk("call", c.args[0], (t.args[0],) + tuple(c.args[1][1:]), c.args[2])
            t = mk("item", c, t.args[1].args[1])
    if not (t.op == "item" and t.args[0].op == "call" and str(t.args[0].args[0]).endswith("random.choice")):
        return None, "not a weighted draw"
    c = t.args[0]
    k = dict(c.args[2])
    p = k.get("p") or (c.args[1][3] if len(c.args[1]) > 3 else None)
    if p is None or p is NONE:
        return False, "the lottery has no weights"
    src = c.args[1][0]
    sized = lambda x: const(n) if x.op == "len" and contains(x, lambda y: y is FIT or y is POP) or x is PSIZE else None
    w = numbers(p, n)
    if w is not None and all_indices(norm(subst(src, sized)), n):
        return False, "the weights go by the individual's index, not by its fitness"
    r = ranks(src, n)
    if r is None or w is None:
        return None, f"order or weights not determined"
    if len(w) != len(r):
        return False, f"{len(w)} weights for {len(r)} individuals"
    by = [x for _, x in sorted(zip(r, w))]
    ok = all(a > b for a, b in zip(by, by[1:]))
    return ok, "weights by rank are " + ", ".join(f"{x:.3g}" for x in by[:4]) + ", ..."


def all_indices(t, n):
    """is t the individuals' indices in population order (or their number)"""
    t = peel_list(t)
    if is_num(t):
        return int(cval(t)) == n
    if t.op == "call" and str(t.args[0]).split(".")[-1] in ("arange", "range") and 1 <= len(t.args[1]) <= 2:
        return norm(t.args[1][-1]) is const(n) and (len(t.args[1]) == 1 or t.args[1][0] is const(0))
    xs = items_of(t)
    return xs is not None and len(xs) == n and all(x is const(i) for i, x in enumerate(xs))


def selection_run(ctx, cls, meth, mode, P, K):
    E = ctx.engine({"save_config", "print"})
    st = St()
    for k, v in (("elite_keep", K), ("elitism", 1), ("population_size", P)) + ((("selection_mode", mode),) if mode is not None else ()):
        st.heap[(SELF, "a", k)] = const(v)
    f = ctx.prog.method(cls, meth)
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls), st=st)
    ctx.note_units(E, f)
    return E, st


def spec_term(ctx, fname, *args):
    mod = ctx.prog.modules.get("yva_spec_evo") or ctx.prog.add_module("yva_spec_evo", os.path.join(HOME, "yva", "spec", "evo.py"))
    E = ctx.engine()
    E.counters["loop"] = 100000
    f = mod.funcs[fname]
    names = [a.arg for a in f.node.args.args]
    st = St()
    v, st = E.run(f, args=[a for a in args], st=st)
    return norm(E.deref(v, st))


def final_attr(E, name):
    evs = [e for e in E.events if e.kind == "setattr" and e.data["name"] == name and e.data["target"] is SELF]
    return evs[-1] if evs else None


def check_C13(ctx):
    ctx.rule("R1", "elite k's stored parameters are those of the individual selected k-th: rank k (truncation and final ranking), champion of its own bracket (tournament), drawn by weights decreasing in rank (proportional)")
    ctx.rule("R2", "k = population_size // 8 + 1")
    ctx.rule("R3", "new means = mean of the elites; new covariance = (1/k) sum of outer products about the previous means")
    ctx.rule("R4", "after selection every individual is either given exactly one stored elite's parameters or a draw from the new distribution, and no individual's parameters are read after the first is overwritten")
    ctx.rule("R5", "agents replace their parameter vector on set_params; they never write into a vector get_params handed out")
    ctx.rule("R6", "the final ranking saves the configuration after giving the CA the best individual's rule (unless only patterns evolve)")
    ctx.rule("R7", "each generation ends with exactly one of final ranking and update; the final ranking runs exactly in the last generation or when the run stops early")
    ctx.rule("R9", "a resumed search starts from the first k elites of the last recorded generation, in order, and from their mean")
    ctx.rule("R10", "an individual's fitness is the mean reward over all its steps and replicates; the active proportion is averaged the same way")
    ctx.rule("R8", "a resumed or restarted population starts with the given elites' own parameters and fills up to population_size with draws")
    for cls in SEARCHES:
        for P, K in SIZES:
            for mode, nm in ((0, "truncation"), (1, "tournament"), (2, "proportional")):
                ctx.guard("R1", f"{cls}:{nm}:{P}", lambda: c13_select(ctx, cls, "update_population", mode, nm, P, K))
            ctx.guard("R1", f"{cls}:final:{P}", lambda: c13_select(ctx, cls, "rank_population", None, "final", P, K))
        ctx.guard("R7", cls, lambda: c13_loop(ctx, cls))
        ctx.guard("R2", cls, lambda: c13_keep(ctx, cls))
        ctx.guard("R8", cls, lambda: c13_start(ctx, cls))
        ctx.guard("R9", cls, lambda: c13_resume(ctx, cls))
        ctx.guard("R10", cls, lambda: c13_fitness(ctx, cls))
    for cls in ("ParamsAgent", "CPPN", "CPPNPlus"):
        ctx.guard("R5", cls, lambda: c13_alias(ctx, cls))


def c13_select(ctx, cls, meth, mode, nm, P, K):
    E, st = selection_run(ctx, cls, meth, mode, P, K)
    lab = f"{cls}:{nm}:{P}"
    loc = func_loc(ctx.prog.method(cls, meth))
    ev = final_attr(E, "elite_params")
    if ev is None:
        return ctx.ob("R1", lab, None, loc, "elite_params is not assigned")
    if ev.guards:
        return ctx.ob("R1", lab, None, ev.loc, "elite_params assigned conditionally")
    sizes = lambda x: const(P) if x.op == "len" and x.args[0] in (POP, FIT) else None
    ep = facts_gone(subst(norm(ev.data["content"]), sizes))
    rs = rows(ep)
    if rs is None:
        return ctx.ob("R1", lab, None, ev.loc, f"stored elites {short(ep, 160)} not a stack of vectors")
    if not ctx.ob("R1", lab + ":count", len(rs) == K, ev.loc, f"{len(rs)} elites stored, k is {K}"):
        return
    seen = {}
    for k, r in enumerate(rs):
        c = f"{lab}:elite {k}"
        r = norm(project(r))
        r = unstar(r)
        if not (r.op == "call" and r.args[0] == ".get_params"):
            ctx.ob("R1", c, False if known_ops(r) else None, ev.loc, f"stored elite is {short(r, 160)}, not an individual's parameters")
            continue
        a = index_of(r.args[1][0])
        if a is None:
            ctx.ob("R1", c, None, ev.loc, f"individual {short(r.args[1][0], 160)} not determined")
            continue
        if not contains(a, lambda x: x is FIT) and known_ops(a):
            ctx.ob("R1", c, False, ev.loc, f"individual {short(a, 100)} is chosen without looking at the fitness")
            continue
        if nm in ("truncation", "final"):
            q = rank(a, P)
            ctx.ob("R1", c, (False if coarse(a) else None) if q is None else q == k, ev.loc, f"elite {k} is the individual of fitness rank {q}" if q is not None else f"rank of {short(a, 120)} not determined")
        elif nm == "tournament":
            ok, B = champion(a, P)
            if ok is None and rank(a, P) is not None:
                ok = False
            ctx.ob("R1", c, ok, ev.loc, f"individual {short(a, 160)} is not the fittest of a random bracket")
            if ok:
                same = seen.setdefault(B, k)
                ctx.ob("R1", c + ":own bracket", same == k, ev.loc, f"shares its bracket with elite {same}")
                lo_hi(ctx, c, B, P, ev.loc)
        else:
            ok, why = lottery(a, P)
            if ok is None and (rank(a, P) is not None or champion(a, P)[0]):
                ok = False
            ctx.ob("R1", c, ok, ev.loc, why)
    # distribution
    for attr, want in (("means", lambda e: spec_term(ctx, "means", EPS)), ("covar", lambda e: spec_term(ctx, "covar", EPS, A("means"), const(K)))):
        e = final_attr(E, attr)
        if e is None:
            ctx.ob("R3", f"{lab}:{attr}", False, loc, f"{attr} is not updated")
            continue
        got = facts_gone(subst(norm(e.data["content"]), sizes))
        got = norm(subst(got, lambda x: EPS if x is ep else None))
        got = norm(subst(got, lambda x: mk("call", "matmul", x.args[1], ()) if x.op == "call" and x.args[0] == "dot" else None))
        w = want(None)
        d = None
        try:
            d = differ(got, w)
        except Budget:
            ctx.ob("R3", f"{lab}:{attr}", None, e.loc, "budget")
            continue
        ok = True if d is None else (False if known_ops(got) else None)
        ctx.ob("R3", f"{lab}:{attr}", ok, e.loc, f"{attr} becomes {short(got, 200)}, expected {short(w, 120)}")
    if meth == "update_population":
        c13_carry(ctx, E, lab, ep, rs, P, sizes)
    else:
        c13_saved(ctx, cls, E, lab, rs, P, loc)


def index_of(t):
    """index into the population of an individual's term"""
    t = norm(project(t))
    if t.op == "item" and t.args[0].op == "over":
        o = t.args[0]
        body = peel_list(o.args[1])
        if body.op == "seq" and len(body.args) == 1:
            t = norm(subst(body.args[0], lambda x: t.args[1] if x is o.args[2] else None))
    if t.op == "item" and t.args[0] is POP:
        return norm(t.args[1])
    return None


def lo_hi(ctx, c, B, P, loc):
    nm = B.args[0].split(".")[-1]
    a = B.args[1]
    k = dict(B.args[2])
    if nm == "randint":
        lo, hi = (const(0), a[0]) if len(a) == 1 and "high" not in k else (k.get("low", a[0] if a else const(0)), k.get("high", a[1] if len(a) > 1 else NONE))
        lo, hi = norm(lo), norm(hi)
        ok = lo is const(0) and hi is const(P)
        ctx.ob("R1", c + ":bracket range", ok if is_num(lo) and is_num(hi) else None, loc, f"bracket members are drawn from [{short(lo)}, {short(hi)})")
    elif nm == "choice" and a:
        ctx.ob("R1", c + ":bracket range", True if norm(a[0]) is const(P) else None, loc, "bracket source")


def coarse(t):
    """ordered by something that does not tell all fitness values apart, or not by their size"""
    return contains(norm(t), lambda x: x.op == "call" and str(x.args[0]).split(".")[-1] in ("argsort", "sorted", "argmax", "argmin") and x.args[1] and
                    contains(x.args[1][0], lambda y: y.op == "call" and str(y.args[0]).split(".")[-1] in ("round", "around", "abs", "floor", "ceil", "int", "trunc", "sign", "rint", "clamp")))


def c13_carry(ctx, E, lab, ep, rs, P, sizes):
    sets = []
    for e in E.events:
        if is_call(e, "set_params") and len(e.data["value"].args[1]) == 2:
            r, v = [facts_gone(subst(norm(x), sizes)) for x in e.data["value"].args[1]]
            j = index_of(r)
            if j is not None:
                sets.append((e, j, v))
    loc = func_loc(ctx.prog.method(lab.split(":")[0], "update_population"))
    if not sets:
        return ctx.ob("R4", lab, None, loc, "no set_params on the population found")
    if not all(is_num(j) for _, j, _ in sets):
        return ctx.ob("R4", lab, None, sets[0][0].loc, "individual index not constant after unrolling")
    first = sets[0][0].seq
    late = [e for e in E.events if is_call(e, "get_params") and e.seq > first and contains(e.data["value"], lambda x: x is POP)]
    ctx.ob("R4", lab + ":no read after write", not late, late[0].loc if late else loc, "an individual's parameters are read after the population was overwritten")
    got = {}
    draws = {}
    for e, j, v in sets:
        if e.guards:
            return ctx.ob("R4", lab, None, e.loc, "conditional resampling")
        got.setdefault(int(cval(j)), []).append((e, v))
    miss = sorted(set(range(P)) - set(got))
    ctx.ob("R4", lab + ":all individuals", not miss and not set(got) - set(range(P)), loc, f"individuals {miss[:6]} keep their old parameters")
    used = {}
    for j, ss in sorted(got.items()):
        e, v = ss[-1]
        c = f"{lab}:individual {j}"
        v = norm(project(v))
        k = elite_row(v, ep, rs)
        if k is not None:
            same = used.setdefault(k, j)
            ctx.ob("R4", c, same == j, e.loc, f"given the parameters of stored elite {k} like individual {same}: not resampled")
            continue
        u = v
        if u.op == "call" and str(u.args[0]).endswith("multivariate_normal"):
            m, cv = u.args[1][:2] if len(u.args[1]) >= 2 else (NONE, NONE)
            mm, cc = final_attr(E, "means"), final_attr(E, "covar")
            wm, wc = [facts_gone(subst(norm(x.data["content"]), sizes)) for x in (mm, cc)]
            okm, okc = norm(m) is wm, norm(cv) is wc
            ctx.ob("R4", c, True if okm and okc else (False if known_ops(m) and known_ops(cv) else None), e.loc, "the draw is not from the new means and covariance")
            d = draws.setdefault(u, j)
            ctx.ob("R4", c + ":own draw", d == j, e.loc, f"shares its draw with individual {d}")
        else:
            ctx.ob("R4", c, False if known_ops(v) or arith_of_elite(v, ep, rs) else None, e.loc, f"given {short(v, 160)}: neither a stored elite nor a draw from the new distribution")
    if ":truncation" in lab and used:
        ks = sorted(k % len(rs) for k in used)
        ctx.ob("R4", lab + ":best carried", ks == list(range(len(ks))), loc, f"the elites carried to the next generation are those of rank {ks}, not the best")


def arith_of_elite(v, ep, rs):
    return v.op == "poly" and not contains(v, lambda x: x.op in ("mu", "fold", "havoc"))


def elite_row(v, ep, rs):
    v = unstar(v)
    if v.op == "item" and is_num(v.args[1]) and norm(v.args[0]) is ep:
        k = int(cval(v.args[1]))
        return k if -len(rs) <= k < len(rs) else None
    for k, r in enumerate(rs):
        if norm(r) is v:
            return k
    return None


def c13_saved(ctx, cls, E, lab, rs, P, loc):
    saves = [e for e in E.events if is_call(e, "save_config")]
    if not saves:
        return ctx.ob("R6", lab, False, loc, "the final ranking saves no configuration")
    sv = saves[-1]
    ctx.ob("R6", lab + ":saved always", not sv.guards, sv.loc, "the configuration is only saved under a condition")
    env_ca = mk("attr", A("env"), "ca")
    recv = norm(sv.data["value"].args[1][0])
    sets = [e for e in E.events if is_call(e, "set_params") and norm(e.data["value"].args[1][0]) is recv and e.seq < sv.seq]
    if not sets:
        late = [e for e in E.events if is_call(e, "set_params") and norm(e.data["value"].args[1][0]) is recv]
        return ctx.ob("R6", lab, False if late or recv is env_ca else None, sv.loc, "the configuration is saved before the CA is given the best individual's rule")
    e = sets[-1]
    v = facts_gone(norm(e.data["value"].args[1][1]))
    src = None
    if cls == "CMACES":
        if v.op == "item" and v.args[1] is const(0) and v.args[0].op == "call" and v.args[0].args[0] == ".get_action":
            src = v.args[0].args[1][0]
    else:
        if v.op == "call" and v.args[0] in (".get_params", ".get_action"):
            src = v.args[1][0]
    q = None
    if src is not None:
        a = index_of(src)
        q = rank(a, P) if a is not None else None
        if a is not None and q is None and not contains(a, lambda x: x is FIT) and known_ops(a):
            ctx.ob("R6", lab, False, e.loc, f"the saved rule is that of individual {short(a, 60)}, chosen without looking at the fitness")
            return
    else:
        k = elite_row(v, NONE, rs)
        q = k if k is not None and cls != "CMACES" else None
        if cls == "CMACES" and (k is not None or v.op == "call" and v.args[0] in (".get_params", ".get_action") or
                                v.op == "item" and v.args[0].op == "call" and v.args[0].args[0] == ".get_action"):
            ctx.ob("R6", lab, False, e.loc, f"the CA is given {short(v, 120)}, which is not the rule part of the individual's action")
            return
    ctx.ob("R6", lab, None if q is None else q == 0, e.loc, f"the saved rule is that of the individual of rank {q}" if q is not None else f"rule {short(v, 160)} not determined")
    gs = [norm(g) for g in e.guards]
    pat = [norm(not_(mk("in", const("pattern"), A(x)))) for x in ("tag", "exp_id")]
    okg = not gs or all(g in pat for g in gs)
    ctx.ob("R6", lab + ":whenever rules evolve", okg or (False if all(understood(g) for g in gs) else None), e.loc, f"the CA is given the best rule only when {short(gs[0], 120) if gs else ''}")


def c13_loop(ctx, cls):
    for w in (0, 3):
        E = search_run(ctx, cls, w)
        cons = consumers(E)
        lab = f"{cls}:workers={w}"
        loc = func_loc(ctx.prog.method(cls, "mantle"))
        up = [e for e in cons if is_call(e, "update_population")]
        rk = [e for e in cons if is_call(e, "rank_population")]
        if not up or not rk:
            ctx.ob("R7", lab, False if not rk else None, loc, f"{len(rk)} final rankings, {len(up)} updates per generation")
            continue
        gr = norm(or_(*[and_(*e.guards) for e in rk]))
        gu = norm(or_(*[and_(*e.guards) for e in up]))
        both = norm(and_(gr, gu))
        none = norm(and_(not_(gr), not_(gu)))
        ok = same_truth(both, FALSE) and same_truth(none, FALSE)
        ctx.ob("R7", lab + ":exactly one", ok, rk[0].loc, "a generation can both rank and update, or do neither")
        if len(rk) > 1 or len(up) > 1:
            ctx.ob("R7", lab + ":once", None, rk[0].loc, "several call sites")
        G = A("generations")
        gen = [lp[1] for lp in rk[0].loops if norm(lp[2]) is G]
        if not gen:
            ctx.ob("R7", lab + ":when", None, rk[0].loc, "generation loop not found")
            continue
        brks = {norm(x.args[1]) for e in E.events for t in [e.data.get("content"), e.data.get("value")] if isinstance(t, T)
                for x in walk(t) if x.op == "brk" and norm(x.args[0]) is G}
        lastg = mk("eq", gen[-1], norm(sub(G, const(1))))
        lastg = norm(subst(gr, lambda x: None)) if False else None
        want_last = [x for x in walk(gr) if x.op == "eq" and gen[-1] in x.args]
        exact = [x for x in want_last if norm(sub(x.args[0], x.args[1])) in (norm(sub(gen[-1], sub(G, const(1)))), norm(sub(sub(G, const(1)), gen[-1])))]
        lt = [x for x in walk(gr) if x.op == "lt0"]
        # in the last generation the guard must hold whatever the early-stop condition says
        at_last = norm(subst(gr, lambda x: TRUE if x in exact else None))
        alt = norm(subst(gr, lambda x: norm(sub(G, const(1))) if x is gen[-1] else None))
        okl = same_truth(at_last, TRUE) if exact else (same_truth(alt, TRUE) or (False if want_last else None))
        ctx.ob("R7", lab + ":last generation is ranked", okl, rk[0].loc, f"ranking runs when {short(gr, 200)}")
        if len(brks) == 1:
            b = next(iter(brks))
            rest = norm(subst(gr, lambda x: FALSE if x in exact else None))
            ctx.ob("R7", lab + ":early stop is ranked", same_truth(rest, b) if exact else None, rk[0].loc,
                   f"outside the last generation ranking runs when {short(rest, 160)} but the run stops when {short(b, 160)}")


def same_truth(a, b):
    try:
        return differ(ite(norm(a), const(1), const(0)), ite(norm(b), const(1), const(0))) is None
    except Budget:
        return None


LAST = sym("last")


def c13_resume(ctx, cls):
    f = ctx.prog.method(cls, "__init__")
    loc = func_loc(f)
    for P, K in ((16, 3), (5, 1)):
        for tag in ("pattern", "rule"):
            E = ctx.engine({"seed_all"})
            path = sym("path")
            kw = dict(population_size=const(P), env_fn=sym("env_fn"), agent_fn=sym("agent_fn"), input_filepath=path, tag=const(tag), seed=const(3))
            v, st = E.run(f, selfcls=ctx.prog.find_class(cls), kw=kw)
            ctx.note_units(E, f)
            lab = f"{cls}:{tag}:{P}"
            got = {}
            for n in ("starting_means", "starting_elite_params"):
                t = st.heap.get((SELF, "a", n))
                if t is None:
                    return ctx.ob("R9", f"{lab}:{n}", None, loc, f"{n} is not assigned")
                t = norm(expand_all(E, t, st))
                t = norm(subst(t, lambda x: LAST if x.op == "item" and x.args[1] is const(-1) and x.args[0].op == "item" and x.args[0].args[1] is const("elite_params") and contains(x.args[0], lambda y: y is path) else None))
                def given(x):
                    if x.op != "eq":
                        return None
                    if path in x.args or any(a.op in ("item", "call") and contains(a, lambda y: y is LAST) for a in x.args):
                        if NONE in x.args:
                            return FALSE
                        if all(contains(a, lambda y: y.op == "attr" and y.args[1] == "shape" or y.op == "len") for a in x.args):
                            return TRUE
                    return None
                got[n] = norm(subst(t, given))
            ep = got["starting_elite_params"]
            if not contains(ep, lambda y: y is LAST):
                ok = False if ep is NONE or not contains(ep, lambda y: y is path) and known_ops(ep) else None
                other = {norm(y.args[1]) for y in walk(ep) if y.op == "item" and y.args[0].op == "item" and y.args[0].args[1] is const("elite_params") and contains(y.args[0], lambda z: z is path)}
                if other and all(is_num(y) for y in other):
                    ok = False
                ctx.ob("R9", lab, ok, loc, f"the search starts with the elites {short(ep, 100)}, not with the logged ones")
                continue
            rs = last_rows(ep)
            if rs is None:
                ctx.ob("R9", lab, None, loc, f"starting elites {short(ep, 160)} not determined")
                continue
            ctx.ob("R9", lab, rs == list(range(K)), loc, f"the search starts with the logged elites {rs}, k is {K}")
            m = norm(subst(got["starting_means"], lambda x: EPS if x is ep else None))
            want = spec_term(ctx, "means", EPS)
            try:
                d = differ(m, want)
            except Budget:
                d = "budget"
            ctx.ob("R9", lab + ":means", True if d is None else False if d != "budget" and known_ops(m) and contains(m, lambda y: y is EPS) else None, loc,
                   f"the search starts from {short(m, 120)}, not from the mean of the elites")


def expand_all(E, t, st):
    return E_full(E, t, st)


def last_rows(t):
    """numbers of the rows of the last logged generation a matrix is stacked from, or None"""
    t = norm(t)
    if t.op == "item" and t.args[0] is LAST:
        s = t.args[1]
        if is_num(s):
            return None
        if s.op == "tuple" and s.args and all(is_full(x) for x in s.args[1:]):
            s = s.args[0]
        if s.op == "slice" and s.args[2] in (NONE, const(1)) and is_num(s.args[1]) and (s.args[0] is NONE or is_num(s.args[0])):
            a, b = 0 if s.args[0] is NONE else int(cval(s.args[0])), int(cval(s.args[1]))
            return list(range(a, b)) if a >= 0 and b >= 0 else None
        xs = items_of(s)
        return [int(cval(x)) for x in xs] if xs is not None and all(is_num(x) for x in xs) else None
    if t.op == "call" and isinstance(t.args[0], str):
        nm = t.args[0].split(".")[-1]
        a, k = t.args[1], dict(t.args[2])
        ax = k.get("axis", k.get("dim"))
        if nm == "append" and len(a) >= 2 and (ax is const(0) or len(a) == 3 and a[2] is const(0)):
            x, y = last_rows(a[0]), last_rows(a[1])
            return x + y if x is not None and y is not None else None
        if nm in ("array", "asarray", "stack", "vstack", "concatenate", "copy") and a:
            xs = items_of(a[0])
            if xs is None:
                return last_rows(a[0]) if nm in ("array", "asarray", "copy") else None
            out = []
            for x in xs:
                x = norm(x)
                y = [int(cval(x.args[1]))] if x.op == "item" and x.args[0] is LAST and is_num(x.args[1]) and nm != "concatenate" else last_rows(x) if nm in ("vstack", "concatenate") else None
                if y is None:
                    return None
                out += y
            return out
    return None


def c13_fitness(ctx, cls):
    E = ctx.engine()
    f = ctx.prog.method(cls, "get_fitness")
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    loc = func_loc(f)
    t = norm(E_full(E, v, st))
    if t.op != "tuple" or len(t.args) != 2:
        return ctx.ob("R10", cls, None, loc, f"get_fitness returns {short(t, 80)}")
    n = sym("replicates")
    steps = {x for x in walk(t) if x.op == "call" and x.args[0] == ".step"}
    if len(steps) != 1:
        return ctx.ob("R10", cls, None, loc, f"{len(steps)} different steps per evaluation")
    s = next(iter(steps))
    REW, ACT = sym("reward of a step"), sym("active cells of a step")
    def name(x):
        if x.op == "item" and x.args[0] is s and x.args[1] is const(1):
            return REW
        if x.op == "item" and x.args[1] is const("active_grid") and x.args[0].op == "item" and x.args[0].args[0] is s and x.args[0].args[1] is const(3):
            return ACT
        return None
    AGG = {"mean": lambda c, b: b, "average": lambda c, b: b, "sum": lambda c, b: mul(c, b)}
    def agg(x):
        if x.op == "call" and str(x.args[0]).split(".")[-1] in AGG and len(x.args[1]) == 1 and not [k for k, _ in x.args[2] if k != "#"]:
            o = peel_list(x.args[1][0])
            if o.op == "over":
                b = peel_list(o.args[1])
                if b.op == "seq" and len(b.args) == 1 and not contains(b, lambda y: y is o.args[2]):
                    return AGG[str(x.args[0]).split(".")[-1]](o.args[0], b.args[0])
        return None
    for k, (x, want) in enumerate(((t.args[0], REW), (t.args[1], ACT))):
        x = norm(unstar(norm(subst(norm(subst(x, name)), agg))))
        what = ("fitness", "active proportion")[k]
        ok = True if x is want else None
        if ok is None:
            plain = not contains(x, lambda y: y.op in ("mu", "fold", "havoc", "brk", "atbreak", "ite", "closure", "lam", "ref", "cell") or y.op == "call" and
                                 str(y.args[0]).split(".")[-1] not in ("max", "min", "sum", "mean", "median", "std", "prod", "max_py", "min_py", "average"))
            ok = False if plain else None
        ctx.ob("R10", f"{cls}:{what}", ok, loc, f"the {what} of an individual is {short(x, 120)}, not the mean over its replicates and steps")


def c13_keep(ctx, cls):
    E = ctx.engine({"seed_all", "query_kwargs"})
    f = ctx.prog.method(cls, "__init__")
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    ks = [e for e in E.events if e.kind == "setattr" and e.data["name"] == "elite_keep" and e.data["target"] is SELF]
    ps = [e for e in E.events if e.kind == "setattr" and e.data["name"] == "population_size" and e.data["target"] is SELF]
    if not ks or not ps:
        return ctx.ob("R2", cls, None, func_loc(f), "elite_keep or population_size not assigned")
    p = norm(ps[-1].data["content"])
    want = norm(add(mk("floordiv", p, const(8)), const(1)))
    got = norm(ks[-1].data["content"])
    alt = norm(subst(got, lambda x: mk("floordiv", *_fd(x)) if _fd(x) else None))
    ctx.ob("R2", cls, True if want in (got, alt) else (False if understood(norm(subst(got, lambda x: sym("P") if x is p else None))) else None), ks[-1].loc,
           f"elite_keep = {short(got, 120)}")
    others = [m for m in method_names(ctx, cls) if m != "__init__" and assigns(ctx, cls, m, "elite_keep")]
    ctx.ob("R2", cls + ":not reassigned", not others or None, func_loc(f), f"elite_keep also assigned in {others}")


def _fd(x):
    """int(p * (1/8)) is p // 8 for the non-negative population size"""
    if x.op == "call" and x.args[0] in ("int", "floor") and len(x.args[1]) == 1:
        y = norm(mul(x.args[1][0], const(8)))
        return (y, const(8)) if y.op != "const" else None
    return None


def method_names(ctx, cls):
    return {m for c in ctx.prog.mro(ctx.prog.find_class(cls)) for m in c.methods}


def assigns(ctx, cls, meth, attr):
    f = ctx.prog.method(cls, meth)
    return any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"
               for n in ast.walk(f.node))


def c13_start(ctx, cls):
    for P, K in ((8, 2), (5, 1), (16, 3)):
        for have in (True, False):
            E = ctx.engine({"agent_fn"})
            st = St()
            st.heap[(SELF, "a", "population_size")] = const(P)
            st.heap[(SELF, "a", "elitism")] = const(1)
            ep = A("starting_elite_params")
            st.heap[(SELF, "a", "starting_elite_params")] = sym("EP0") if have else NONE
            f = ctx.prog.method(cls, "reset")
            v, st = E.run(f, selfcls=ctx.prog.find_class(cls), st=st)
            ctx.note_units(E, f)
            lab = f"{cls}:{'with' if have else 'without'} elites:{P}"
            # lengths are constants
            pop = norm(E.deref(st.heap.get((SELF, "a", "population")) or POP, st))
            def size(x):
                if x.op == "item" and x.args[0] is mk("attr", sym("EP0"), "shape") and x.args[1] is const(0):
                    return const(K)
                if x.op == "len" and x.args[0] is sym("EP0"):
                    return const(K)
                if x.op == "eq" and sym("EP0") in x.args and NONE in x.args:
                    return FALSE
                return None
            pop = norm(subst(E_full(E, pop, st), size))
            xs = items_of(pop)
            if xs is None:
                head = pop
                while head.op == "lcat" and head.args:
                    head = peel_list(head.args[0])
                ctx.ob("R8", lab, False if head is POP and pop is not POP else None, func_loc(f), f"population {short(pop, 160)} not determined")
                continue
            if not ctx.ob("R8", lab + ":size", len(xs) == P, func_loc(f), f"{len(xs)} individuals for a population of {P}"):
                continue
            for i, x in enumerate(xs):
                p = agent_params(E, st, x)
                c = f"{lab}:individual {i}"
                if p is None:
                    ctx.ob("R8", c, None, func_loc(f), f"parameters of {short(x, 120)} not determined")
                    continue
                p = unstar(norm(p))
                if have and i < K:
                    ok = p is mk("item", sym("EP0"), const(i))
                    ctx.ob("R8", c, ok or (False if not contains(p, lambda y: y.op in ("mu", "fold")) else None), func_loc(f), f"starts from {short(p, 120)}, not from elite {i}")
                else:
                    ok = p.op == "call" and str(p.args[0]).endswith("multivariate_normal")
                    ctx.ob("R8", c, ok or None, func_loc(f), f"starts from {short(p, 120)}")


def E_full(E, t, st):
    for _ in range(4):
        u = norm(subst(t, lambda x: E.deref(x, st) if x.op in ("cell", "ref", "view") and E.deref(x, st) is not x else None))
        if u is t:
            return t
        t = u
    return t


def agent_params(E, st, x):
    if x.op == "cell":
        x = E.cellget(st, x) or x
    for y in walk(x):
        if y.op == "call":
            for k, v in y.args[2]:
                if k == "params":
                    return v
    return None


def c13_alias(ctx, cls):
    from .state import mutated_attrs
    E = ctx.engine()
    f = ctx.prog.method(cls, "set_params")
    v, st = E.run(f, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(E, f)
    mut = mutated_attrs(E)
    G = ctx.engine()
    g = ctx.prog.method(cls, "get_params")
    gv, gst = G.run(g, selfcls=ctx.prog.find_class(cls))
    ctx.note_units(G, g)
    handed = {p.args[1] for p in G.roots(gv) if p.op == "attr" and p.args[0] is SELF}
    bad = sorted(handed & set(mut))
    ctx.ob("R5", cls, not bad, mut[bad[0]].loc if bad else func_loc(f), f"set_params writes into {bad}, which get_params hands out")
    par = [e for e in E.events if e.kind in ("mutate", "setitem") and any(p is sym("params") for p in E.roots(e.data.get("target")))] if True else []
    ctx.ob("R5", cls + ":argument", not par, par[0].loc if par else func_loc(f), "set_params writes into the vector it was given (a stored elite)")
