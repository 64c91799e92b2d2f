"""C15 pattern library, C16 verbosity, C17 rendering and file removal"""
import ast
from ..lib import *
from ..terms import *
from ..engine import St
from .steps import SELF
from .evo import A, is_call, name_of, norm, items_of, known_ops, understood, project
from .env import meth_run, has, expand, branches, cargs, recv, dict_items, is_call_term, functions, import_map, dotted

TESTS = ("os.path.exists", "os.path.isfile", "os.path.lexists", ".exists", ".is_file")
K = sym("<pass>")


def writes(E):
    """[(event, path term, stored value or None, 'array'|'open')] files the interpreted code creates or replaces"""
    out = []
    for e in E.events:
        if e.kind != "call":
            continue
        n = name_of(e)
        a, k = cargs(e)
        if n in ("numpy.save", "numpy.savez", "numpy.savetxt") and len(a) > 1:
            out.append((e, a[0], a[1], "array"))
        elif n in ("torch.save", "pickle.dump") and len(a) > 1:
            out.append((e, a[1], a[0], "array"))
        elif n in ("open", "io.open"):
            ea = [norm(x) for x in e.data.get("args") or ()]
            kw = e.data.get("kw") or {}
            mode = ea[1] if len(ea) > 1 else kw.get("mode", const("r"))
            if not is_str(mode) or any(c in cval(mode) for c in "wax+"):
                out.append((e, ea[0] if ea else NONE, None, "open"))
        elif n in ("os.rename", "os.replace", "shutil.move", "shutil.copy", "shutil.copyfile") and len(a) > 1:
            out.append((e, a[1], None, "move"))
    return out


def both_ends(t):
    """the term when its loops made no pass, and after one more pass"""
    def at(k):
        def f(x):
            if x.op == "last":
                return subst(x.args[2 - k], f)
            if x.op == "idx":
                return K
            return None
        return norm(subst(t, f))
    return at(0), at(1)


def tested_paths(E):
    """[(loop, condition, path with no pass, path after a pass)] of the loops that run while a file exists"""
    out = []
    for L, info in E.loopinfo.items():
        spec = info["spec"]
        if not (isinstance(spec, T) and spec.op == "while"):
            continue
        for e in E.events:
            if e.kind == "call" and name_of(e) in TESTS and e.loops and e.loops[-1][0] == L and contains(spec, is_exists):
                a = cargs(e)[0]
                if not a:
                    continue
                ends = []
                for k in (0, 1):
                    table = {m: info["carried"][key][k] for key, m in info["mus"].items() if key in info["carried"]}
                    def f(x):
                        if x in table:
                            return subst(table[x], lambda y: K if y.op == "idx" else None)
                        if x.op == "idx":
                            return add(K, const(1)) if k else const(0)
                        return None
                    ends.append(norm(subst(a[0], f)))
                out.append((L, spec, ends[0], ends[1], e))
    return out


# ------------------------------------------------------------------ C15
FIELDS = ("ca_config", "commit_hash", "notes", "entry_point")


def check_C15(ctx):
    ctx.rule("R1", "every file that storing writes has a name found free by a loop that tests the existence of exactly that name and leaves only when it does not exist")
    ctx.rule("R2", "array and metadata get the same numbered name, differing in the extension only, in the library's directory; loading reads those names")
    ctx.rule("R3", "the stored array is the given pattern, and loading returns the loaded array as it is")
    ctx.rule("R4", "each metadata field loaded under a name is read from the entry that storing writes under that name from the argument of that name")
    ctx.rule("R5", "metadata values are written and read whole: no separator splits or alters them")
    ctx.rule("R6", "the configuration name is the given one, whichever of its two arguments supplied it")
    ctx.rule("R7", "storing writes both files on every path")
    shared = {}
    ctx.guard("R1", "store", lambda: c15_store(ctx, shared))
    ctx.guard("R2", "load", lambda: c15_load(ctx, shared))


class NotText(Exception):
    pass


def pieces(t):
    """the text of a path as a sequence of constant strings and (value, width) insertions; NotText when built in another way"""
    t = norm(t)
    if is_str(t):
        return [str(cval(t))]
    if t.op in ("fstr", "add"):
        return [q for x in t.args for q in pieces(x)]
    if t.op == "fmt":
        spec = t.args[1]
        if isinstance(spec, T) and spec.op == "fstr":
            q = [cval(x[0]) if isinstance(x, tuple) and not x[1] and is_const(x[0]) else x for x in pieces(spec)]
            if not all(isinstance(x, (str, int)) for x in q):
                raise NotText
            spec = "".join(map(str, q))
        spec = "" if spec in (NONE, None) else str(cval(spec)) if isinstance(spec, T) and is_const(spec) else str(spec)
        inner = pieces(t.args[0])
        w = spec.rstrip("d").lstrip("0>") if spec.rstrip("d").startswith("0") else spec
        if spec and not (spec.rstrip("d").startswith("0") and w.isdigit() and len(inner) == 1 and not isinstance(inner[0], str)):
            raise NotText
        return [(inner[0][0], w)] if spec else inner
    if t.op == "mod" and is_str(t.args[0]):
        import re
        vals = list(t.args[1].args) if t.args[1].op in ("tuple", "seq") else [t.args[1]]
        out = []
        for part in re.split(r"(%0?\d*[sd])", cval(t.args[0])):
            if part.startswith("%") and len(part) > 1:
                if not vals:
                    raise NotText
                x, w = pieces(vals.pop(0)), part[1:-1].lstrip("0")
                if w and (len(x) != 1 or isinstance(x[0], str) or not part[1:].startswith("0")):
                    raise NotText
                out += [(x[0][0], w)] if w else x
            elif "%" in part:
                raise NotText
            elif part:
                out.append(part)
        return out
    if t.op == "call":
        n, a = str(t.args[0]).split(".")[-1], t.args[1]
        if str(t.args[0]) == ".format" and a and is_str(a[0]) and not [k for k, _ in t.args[2] if k != "#"]:
            import string
            out, k = [], 0
            for lit, field, spec, conv in string.Formatter().parse(cval(a[0])):
                out += [lit] if lit else []
                if field is not None:
                    if field or conv or k + 1 >= len(a):
                        raise NotText
                    k += 1
                    out += pieces(mk("fmt", a[k], const(spec) if spec else NONE, -1))
            return out
        if n == "join" and str(t.args[0]).endswith("path.join"):
            out = []
            for k, x in enumerate(a):
                out += (["/"] if k else []) + pieces(x)
            return out
        if n in ("str", "fspath", "normpath") and len(a) == 1:
            return pieces(a[0])
        if n == "zfill" and len(a) == 2 and is_num(a[1]):
            x = pieces(a[0])
            if len(x) == 1 and not isinstance(x[0], str):
                return [(x[0][0], str(int(cval(a[1]))))]
        if n == "replace" and len(a) == 3 and is_str(a[1]) and is_str(a[2]):
            x = merged(pieces(a[0]))
            if isinstance(x[-1], str) and x[-1].endswith(cval(a[1])) and cval(a[1]).startswith("."):
                return x[:-1] + [x[-1][:-len(cval(a[1]))] + cval(a[2])]
        raise NotText
    if t.op == "item" and is_call_term(t.args[0], "splitext") and t.args[1] is const(0):
        x = merged(pieces(t.args[0].args[1][0]))
        if isinstance(x[-1], str) and "." in x[-1]:
            return x[:-1] + [x[-1][:x[-1].rindex(".")]]
        raise NotText
    if t.op == "item" and t.args[1].op == "slice" and is_num(t.args[1].args[1]) and cval(t.args[1].args[1]) < 0 and t.args[1].args[0] in (NONE, const(0)):
        x = merged(pieces(t.args[0]))
        n = -int(cval(t.args[1].args[1]))
        if isinstance(x[-1], str) and len(x[-1]) >= n:
            return x[:-1] + [x[-1][:-n]]
        raise NotText
    if t.op == "poly" and contains(t, lambda x: x.op in ("fstr", "fmt", "call") or is_str(x)):
        raise NotText
    if t.op in ("sym", "attr", "poly", "const", "idx", "floordiv", "mod"):
        return [(t, "")]
    raise NotText


def merged(ps):
    out = []
    for q in ps:
        if isinstance(q, str) and out and isinstance(out[-1], str):
            out[-1] += q
        elif q != "":
            out.append(q)
    return out


def text(t):
    try:
        return tuple(merged(pieces(t)))
    except NotText:
        return None


def ext_split(t):
    """(stem, extension) of a path, None when it is not a recognisable text or has no constant extension"""
    x = text(t)
    if x and isinstance(x[-1], str) and "." in x[-1]:
        k = x[-1].rindex(".")
        return tuple(merged(list(x[:-1]) + [x[-1][:k]])), x[-1][k:]
    return None


KEEPING = ("array", "asarray", "copy", "ascontiguousarray", "numpy", "cpu", "detach", "astype", "to", "type", "asanyarray", "tensor", "clone")
NARROW = ("float", "half", "round", "int", "long", "byte", "bool", "around", "rint", "float16", "float32")
NARROW_TYPES = ("float32", "float16", "half", "int", "uint", "bool", "<f4", "<f2", "f4", "f2", "single")


def unconverted(t):
    """the value under copies and conversions, and whether one of them loses digits"""
    lossy = False
    while t.op == "call" and str(t.args[0]).split(".")[-1] in KEEPING + NARROW and t.args[1]:
        kind = str(t.args[0]).split(".")[-1]
        opts = list(t.args[1][1:]) + [x for _, x in (t.args[2] if len(t.args) > 2 else ()) if isinstance(x, T)]
        lossy |= kind in NARROW or any(contains(o, lambda x: x.op in ("ext", "attr", "const") and str(x.args[-1]).strip("'").split(".")[-1].startswith(NARROW_TYPES)) for o in opts)
        t = t.args[1][0]
    return t, lossy


def c15_store(ctx, shared):
    E, v, st, loc = meth_run(ctx, "Librarian", "store", {"query_kwargs"})
    ws = [w for w in writes(E)]
    if not ws:
        return ctx.ob("R7", "store", False, loc, "nothing is written")
    tests = tested_paths(E)
    anytest = any(e.kind == "call" and (name_of(e) in TESTS or name_of(e).split(".")[-1] in ("listdir", "glob", "scandir", "walk", "iterdir")) for e in E.events)
    paths = {}
    for e, p, val, how in ws:
        p = norm(expand(E, p, st))
        kind = "array" if how == "array" else "metadata"
        paths.setdefault(kind, (e, p, val))
        facts = [(norm(g), True) for g in e.guards]
        p0, p1 = both_ends(p)
        p0, p1 = under(p0, facts), under(p1, facts)
        same = [t for t in tests if t[2] is p0 and t[3] is p1 or text(p0) and text(p1) and text(t[2]) == text(p0) and text(t[3]) == text(p1)]
        stem = ext_split(p0), ext_split(p1)
        comp = [t for t in tests if all(stem) and ext_split(t[2]) and ext_split(t[3]) and ext_split(t[2])[0] == stem[0][0] and ext_split(t[3])[0] == stem[1][0]]
        if how == "open" and (is_str(norm((e.data.get("args") or (NONE, NONE))[1]) if len(e.data.get("args") or ()) > 1 else NONE)) and cval(norm(e.data["args"][1])).startswith("x"):
            ctx.ob("R1", f"store:{kind}", True, e.loc, "")
            continue
        cut = [L for L, info in E.loopinfo.items() if info["breaks"] and contains(p, lambda x: x.op in ("brk", "atbreak") and x.args[0] is info["spec"])]
        if cut and not stops_free(E, cut):
            ctx.ob("R1", f"store:{kind}", False, e.loc, "the search for a free name can end (break) at a name that exists")
            continue
        use = same or (comp if kind == "metadata" else [])
        if not use:
            plain = all(known_path(x) for x in (p0, p1))
            if not anytest:
                ok = False if plain else None
                why = "no existing file is looked for"
            elif tests:
                ok = False if plain and all(known_path(x) for t in tests for x in t[2:4]) and not (kind == "array" and comp) else None
                why = f"the name tested is not the name written: after a pass the written path is {short(p1, 120)}, the tested one {short(tests[0][3], 120)}"
            else:
                once = [x for x in E.events if x.kind == "call" and name_of(x) in TESTS]
                ok = None
                if once and not any(x.loops for x in once) and not E.loopinfo:
                    taken = [(norm(x.data["value"]), True) for x in once if isinstance(x.data.get("value"), T)]
                    g, q = norm(holds(norm(and_(*e.guards)), taken)), norm(under(p, taken))
                    ok = True if g is FALSE else False if known_path(q) and not contains(g, lambda x: x.op in ('mu', 'm', 'fold', 'havoc')) else None
                why = "the existence of a file is tested once, not until a free name is found"
            ctx.ob("R1", f"store:{kind}", ok, e.loc, why)
        else:
            L, spec, _, _, te = use[0]
            free = any(is_exists(c) and not b for c, b in consequences(norm(spec.args[0]), False))
            brk = E.loopinfo[L]["breaks"]
            ctx.ob("R1", f"store:{kind}", free and not brk, te.loc, "the search for a free name ends although the name exists" + (" (break)" if brk else f" ({short(spec, 80)})"))
        ctx.ob("R7", f"store:{kind}", not [g for g in e.guards if norm(g) is not TRUE], e.loc, f"{kind} is written only when {short(norm(and_(*e.guards)), 100)}")
        bad_attr = [x for y in (p0, p1) for x in walk(y) if x.op == "attr" and x.args[0] is SELF and x.args[1] != "directory"]
        ctx.ob("R2", f"store:{kind}:directory", contains(p, lambda x: x is A("directory")) if not bad_attr else None, e.loc, f"{short(p, 80)} is not in the library's directory")
    for kind in ("array", "metadata"):
        if kind not in paths:
            ctx.ob("R7", f"store:{kind}", False if not any(h in ("move",) for *_, h in ws) and not unknown_io(E) else None, loc, f"no {kind} file is written")
    if len(paths) == 2:
        a, m = both_ends(paths["array"][1]), both_ends(paths["metadata"][1])
        sa, sm = [ext_split(x) for x in a], [ext_split(x) for x in m]
        ok = all(x and y and x[0] == y[0] and x[1] != y[1] for x, y in zip(sa, sm))
        ctx.ob("R2", "store:same name", True if ok else (False if all(sa + sm) else None), paths["metadata"][0].loc, f"array {short(a[1], 100)}, metadata {short(m[1], 100)}")
        shared["ext"] = {"array": sa[0] and sa[0][1], "metadata": sm[0] and sm[0][1]}
    if "array" in paths:
        e, p, val = paths["array"]
        val = norm(expand(E, val, st))
        v0 = e.data.get("value")
        i = 0 if name_of(e) in ("torch.save", "pickle.dump") else 1
        raw = v0.args[1][i] if isinstance(v0, T) and v0.op == "call" and len(v0.args[1]) > i else paths["array"][2]
        p1, lossy = unconverted(E.deref(raw, st))
        lossy = lossy and p1 is sym("pattern")
        val = p1 if p1 is sym("pattern") or lossy else val
        ctx.ob("R3", "store", False if lossy else True if val is sym("pattern") else False if understood(val) or reshaped(val, lambda x: x is sym("pattern")) else None, e.loc, f"the stored array is {short(raw, 100)}")
        shared["format"] = name_of(e)
    rows, raw = written_fields(E, st)
    shared["rows"], shared["raw"] = rows, raw
    for k, (val, e) in sorted(rows.items()):
        if k == "ca_config":
            continue
        par = sym(k)
        f = ctx.prog.method("Librarian", "store")
        if k not in [a.arg for a in f.node.args.args]:
            continue
        w = whole(val)
        ctx.ob("R4", f"store:{k}", True if w is par else False if w.op == "sym" else None, e.loc, f"the entry {k} holds {short(val, 80)}")
        ctx.ob("R5", f"store:{k}", True if w is par else None if not alters(val) else False, e.loc, f"{k} is altered on the way to the file: {short(val, 100)}")
        ctx.ob("R7", f"store:{k}", not [g for g in e.guards if norm(g) is not TRUE], e.loc, f"{k} is recorded only when {short(norm(and_(*e.guards)), 80)}")
    if "ca_config" in rows:
        val, e = rows["ca_config"]
        c1, c2, un = sym("config_name"), sym("ca_config"), const("unspecified")
        n1, n2 = mk("eq", c1, un), mk("eq", c2, un)
        val = norm(val)
        for what, facts, want in (("config_name", [(mk_eq(c1, un), False), (mk_eq(c2, un), True)], c1), ("ca_config", [(mk_eq(c1, un), True), (mk_eq(c2, un), False)], c2)):
            got = whole(norm(under(val, facts)))
            ctx.ob("R6", f"store:{what} given", True if got is want else False if got.op in ("sym", "const") or got.op == "ite" and all(whole(b).op in ("sym", "const") for b in branches(got)) else None, e.loc,
                   f"when only {what} is given the recorded configuration is {short(got, 80)}")
    elif rows:
        ctx.ob("R4", "store:ca_config", False, loc, f"no entry ca_config is written (entries {sorted(rows)})")
    else:
        ctx.ob("R4", "store", None, loc, "the written entries were not recognised")


def mk_eq(a, b):
    return norm(mk("eq", a, b))


def is_exists(c):
    return c.op == "call" and str(c.args[0]) in TESTS or c.op == "exists"


def known_path(t):
    return text(t) is not None


def unknown_io(E):
    return [e for e in E.events if e.kind == "call" and name_of(e).split(".")[-1] in ("<call>", "write_text", "to_csv", "dump", "tofile", "write_bytes")]


def stops_free(E, loops):
    """True unless a break of these loops is taken while the tested file exists"""
    for L in loops:
        info = E.loopinfo[L]
        for b in info["breaks"]:
            gs = [g for g in (b if isinstance(b, (tuple, list)) else [b]) if isinstance(g, T)]
            facts = [f for g in gs for f in consequences(norm(g), True)]
            if not any(is_exists(c) and not v for c, v in facts):
                return False
    return True


SHAPES = ("squeeze", "reshape", "round", "around", "clip", "flatten", "ravel", "abs", "transpose", "flip", "clamp", "minimum", "maximum", "sign", "trunc", "floor", "ceil", "sort", "roll")


def reshaped(t, base):
    """a change of shape or values of the given array"""
    t = norm(t)
    if base(t):
        return False
    seen = False
    while not base(t):
        if t.op == "call" and str(t.args[0]).split(".")[-1] in SHAPES and t.args[1]:
            t, seen = norm(t.args[1][0]), True
        elif t.op == "call" and str(t.args[0]).split(".")[-1] == "astype" and len(t.args[1]) == 2 and any(s in repr(t.args[1][1]) for s in ("int", "bool", "float16")):
            t, seen = norm(t.args[1][0]), True
        elif t.op in ("item", "poly") and understood(t.args[0] if t.op == "item" else t):
            if t.op == "poly":
                return contains(t, base)
            t, seen = norm(t.args[0]), True
        else:
            return False
    return seen


def whole(t):
    """the value inside a string conversion"""
    t = norm(t)
    while True:
        if t.op == "fstr" and len(t.args) == 1:
            t = norm(t.args[0])
        elif t.op == "fmt" and t.args[1] in (NONE, None, const("")) :
            t = norm(t.args[0])
        elif t.op == "call" and t.args[0] in ("str", "yuca.str") and len(t.args[1]) == 1:
            t = norm(t.args[1][0])
        else:
            return t


ALTER = ("split", "replace", "strip", "lstrip", "rstrip", "lower", "upper", "partition", "rsplit", "title", "encode", "translate")


def alters(t):
    return contains(t, lambda x: x.op == "call" and str(x.args[0]).split(".")[-1] in ALTER or x.op == "item" and x.args[1].op == "slice")


def written_fields(E, st):
    """entry name -> (value, event) of the metadata written, and whether the writing leaves separators unprotected"""
    rows, raw = {}, False
    for e in E.events:
        if e.kind != "call":
            continue
        n = name_of(e).split(".")[-1]
        if n in ("writerow", "writerows"):
            a = cargs(e)[0]
            x = norm(expand(E, a[-1], st))
            items = items_of(x)
            if items is None:
                d = dict_items(x)
                for k, v in (d or {}).items():
                    rows[k] = (v, e)
                continue
            groups = [items] if n == "writerow" else [items_of(norm(expand(E, y, st))) or [] for y in items]
            for g in groups:
                if len(g) >= 2 and is_str(g[0]):
                    rows[str(cval(g[0]))] = (g[1], e)
        elif n == "write":
            a = cargs(e)[0]
            x = norm(expand(E, a[-1], st))
            parts = list(x.args) if x.op == "fstr" else [x]
            key = None
            for p in parts:
                if is_str(p):
                    key = cval(p).strip().strip(",:=\n ").split("\n")[-1].strip(",:= ") or key
                elif key:
                    rows[key] = (p, e)
                    raw = True
                    key = None
        elif n == "dump":
            a = cargs(e)[0]
            d = dict_items(norm(expand(E, a[0], st))) if a else None
            for k, v in (d or {}).items():
                rows[k] = (v, e)
    return rows, raw


def c15_load(ctx, shared):
    E, v, st, loc = meth_run(ctx, "Librarian", "load", {"query_kwargs"})
    r = norm(E.deref(v, st))
    parts = items_of(r) if r.op != "tuple" else list(r.args)
    if not parts or len(parts) != 2:
        return ctx.ob("R3", "load", None, loc, f"returns {short(r, 80)}")
    arr = norm(expand(E, parts[0], st))
    ok = arr.op == "call" and str(arr.args[0]) in ("numpy.load", "torch.load")
    raw = E.deref(v, st)
    raw = raw.args[0] if raw.op == "tuple" and raw.args else None
    inner, lossy = unconverted(E.deref(raw, st)) if isinstance(raw, T) else (NONE, False)
    lossy = lossy and is_call_term(inner, "load")
    if not lossy and is_call_term(inner, "load"):
        arr, ok = inner, str(inner.args[0]) in ("numpy.load", "torch.load")
    ctx.ob("R3", "load", False if lossy else True if ok else False if understood(arr) or reshaped(arr, lambda x: is_call_term(x, "load")) else None, loc, f"the returned array is {short(arr, 100)}")
    ctx.ob("R3", "load:format", ({"numpy.save": "numpy.load", "torch.save": "torch.load"}.get(shared.get("format")) == arr.args[0] or None) if ok else None, loc, "")
    want = {"array": ("numpy.load", "torch.load"), "metadata": ("open", "io.open")}
    for kind, names in want.items():
        evs = [e for e in E.events if e.kind == "call" and name_of(e) in names]
        for e in evs[:1]:
            p = norm(expand(E, (e.data.get("args") or (NONE,))[0], st))
            s = ext_split(p)
            ext = (shared.get("ext") or {}).get(kind)
            good = s and contains(p, lambda x: x is A("directory")) and s[1] == ext and s[0] == ((A("directory"), ""), "/", (sym("pattern_name"), ""))
            ctx.ob("R2", f"load:{kind}", True if good else False if s and ext and s[1] != ext or s and known_path(p) and not contains(p, lambda x: x is A("directory")) or alters(p) and p.op != "ite" and contains(p, lambda x: x is sym("pattern_name")) else None, e.loc,
                   f"{kind} is read from {short(p, 100)}")
        if not evs:
            ctx.ob("R2", f"load:{kind}", None, loc, f"reading of the {kind} not found")
    d = dict_items(norm(expand(E, parts[1], st)))
    if d is None:
        return ctx.ob("R4", "load", None, loc, f"the returned metadata is {short(parts[1], 80)}")
    rows = shared.get("rows") or {}
    for k in FIELDS:
        if k not in d:
            ctx.ob("R4", f"load:{k}", False, loc, f"the loaded metadata has no {k}")
            continue
        keys = lookups(d[k])
        if keys:
            ok = keys == {k} and (not rows or k in rows)
            ctx.ob("R4", f"load:{k}", ok, loc, f"{k} is read from the entries {sorted(keys)}; storing writes {sorted(rows)}")
        else:
            pos = positions(d[k])
            order = list(rows)
            ok = None
            if pos is not None and order:
                ok = 0 <= pos < len(order) and order[pos] == k
            ctx.ob("R4", f"load:{k}", ok, loc, f"{k} is read from line {pos}; storing writes {order}")
    terms = [norm(expand(E, x, st)) for e in E.events for x in (e.data.get("value"), e.data.get("content"), e.data.get("key")) if isinstance(x, T)] + list(d.values())
    cuts = []
    for t in terms:
        cuts += [x for x in walk(t) if x.op == "item" and is_call_term(x.args[0], "split", "rsplit") and is_num(x.args[1]) and cval(x.args[1]) not in (0,)
                 and len(x.args[0].args[1]) == 2 and norm(x.args[0].args[1][1]) is const(",") and not [1 for k, _ in x.args[0].args[2] if k == "maxsplit"]]
        cuts += [x for x in walk(t) if x.op == "item" and is_num(x.args[1]) and is_call_term(x.args[0], "split", "partition", "rsplit") and contains(x.args[0], lambda y: y.op == "item" and y.args[1] is const(1))]
        if shared.get("raw"):
            cuts += [x for x in walk(t) if x.op == "item" and is_num(x.args[1]) and cval(x.args[1]) == 1 and x.args[0].op == "item" and is_call_term(x.args[0].args[0], "reader")]
    ctx.ob("R5", "load", not cuts, loc, f"the value is cut at its first comma: {short(cuts[0], 100) if cuts else ''}")
    quoted = [t for t in terms if contains(t, lambda x: is_call_term(x, "reader", "DictReader", "load"))]
    if rows and not shared.get("raw"):
        plain = [x for t in terms for x in walk(t) if is_call_term(x, "split", "partition", "rpartition")]
        wcsv = any(is_call(e[1], "writerow", "writerows") for e in rows.values())
        ctx.ob("R5", "load:quoting", True if quoted else (False if plain and wcsv else None), loc, "storing quotes values that contain separators, loading does not remove the quotes")


def lookups(t):
    out = set()
    for x in walk(norm(t)):
        if x.op == "item" and is_str(x.args[1]) and contains(x.args[0], lambda y: is_call_term(y, "open", "reader", "DictReader", "load", "readlines", "read")):
            out.add(str(cval(x.args[1])))
    return out


def positions(t):
    for x in walk(norm(t)):
        if x.op == "item" and is_num(x.args[1]) and is_call_term(x.args[0], "readlines", "list", "splitlines"):
            return int(cval(x.args[1]))
    return None


# ------------------------------------------------------------------ C16
FLAGS = ("verbose", "quiet", "silent", "verbosity")
EFFECTS = ("save", "savez", "savetxt", "savefig", "write", "writerow", "writerows", "dump", "makedirs", "mkdir", "remove", "unlink", "rmtree", "rename", "replace_file",
           "system", "step", "backward", "zero_grad", "set_params", "load_config", "load_state_dict", "restore_config", "set_kernel_config", "seed_all", "seed", "manual_seed",
           "to_device", "to", "train", "eval", "no_grad", "yes_grad", "update_index", "reset", "update_universe", "forward", "sort", "reverse", "shuffle", "send", "recv")
PURE = ("join", "exists", "isfile", "isdir", "abspath", "realpath", "split", "splitext", "basename", "dirname", "listdir", "time", "ctime", "strftime", "len", "str", "repr", "format", "get", "keys", "values",
        "items", "startswith", "endswith", "item", "mean", "std", "min", "max", "sum", "abs", "round", "detach", "cpu", "numpy", "tolist", "norm", "float", "int", "get_cmap", "print", "flush",
        "getattr", "hasattr", "isinstance", "type", "sorted", "list", "dict", "tuple", "range", "zip", "enumerate", "append_msg", "strip", "upper", "lower", "ljust", "rjust", "count_params", "make_config", "get_params")


def check_C16(ctx):
    ctx.rule("R1", "interpreted with the flag set and with the flag clear, the operation performs the same effects other than printing, in the same order and with the same operands")
    ctx.rule("R2", "the value returned is the same whatever the flag")
    ctx.rule("R3", "every name that code running only under one value of the flag reads is defined")
    n = 0
    for owner, m, f in flagged(ctx):
        n += 1
        lab = f"{owner}.{m}" if owner else m
        ctx.guard("R1", lab, lambda: c16_one(ctx, owner, m, f, lab))
        c16_names(ctx, f, lab)
    ctx.ob("R1", "operations that consult a flag found", n > 0 or None, "", "no operation consults a verbosity flag")


def flagged(ctx):
    """functions and methods that take a verbosity flag, store one, or read one"""
    seen = []
    for mn, mod in sorted(ctx.prog.modules.items()):
        if ".test" in mn or mn.split(".")[0] != "yuca":
            continue
        for n, f in sorted(mod.funcs.items()):
            if mentions_flag(f.node):
                seen.append((None, n, f))
        for cn, c in sorted(mod.classes.items()):
            for n, f in sorted(c.methods.items()):
                if mentions_flag(f.node):
                    seen.append((cn, n, f))
    return seen


def mentions_flag(fn):
    a = fn.args
    if any(x.arg in FLAGS for x in a.args + a.kwonlyargs + a.posonlyargs):
        return True
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and x.attr in FLAGS and isinstance(x.ctx, ast.Load):
            return True
        if isinstance(x, ast.Constant) and x.value in FLAGS:
            return True
    return False


def is_flag(t):
    if t.op == "sym":
        return t.args[0] in FLAGS
    if t.op == "attr":
        return t.args[1] in FLAGS
    if t.op == "item":
        return is_str(t.args[1]) and cval(t.args[1]) in FLAGS
    if t.op == "call" and str(t.args[0]).split(".")[-1] in ("query_kwargs", "get", "getattr", "pop"):
        return any(isinstance(x, T) and is_str(x) and cval(x) in FLAGS for x in t.args[1][:2])
    return False


def reads_flag(fn):
    return any(isinstance(x, ast.Name) and x.id in FLAGS and isinstance(x.ctx, ast.Load) or isinstance(x, ast.Attribute) and x.attr in FLAGS and isinstance(x.ctx, ast.Load)
               or isinstance(x, ast.Constant) and x.value in FLAGS or isinstance(x, ast.Name) and x.id in ("locals", "vars") for x in ast.walk(fn))


def c16_one(ctx, owner, m, f, lab):
    if not reads_flag(f.node):
        return ctx.ob("R1", lab, True, func_loc(f), "")
    ops = {"query_kwargs", "yuca.utils.query_kwargs", "seed_all", "load_config", "restore_config", "make_config", "__init__", "update_helper", "update_universe", "forward",
           "set_kernel_config", "get_params", "set_params", "to_device", "yes_grad", "no_grad", "update_index"} - {m, lab}
    E = ctx.engine(ops)
    st = St()
    if owner:
        v, st = E.run(f, selfcls=ctx.prog.find_class(owner), st=st)
    else:
        v, st = E.run(f, st=st)
    ctx.note_units(E, f)
    atoms = {}
    terms = [v] + [g for e in E.events for g in e.guards] + [x for e in E.events for x in data_terms(e)]
    for t in terms:
        if isinstance(t, T):
            for x in walk(t):
                if is_flag(x):
                    atoms[x] = True
    loc = func_loc(f)
    if not atoms:
        return ctx.ob("R1", lab, True, loc, "the flag is not consulted")
    seqs = {}
    for val in (True, False):
        facts = []
        for a in atoms:
            facts.append((a, val))
            facts.append((norm(mk("eq", a, const(True))), val))
            facts.append((norm(mk("eq", a, const(False))), not val))
        cache = {}

        def res(t):
            if t not in cache:
                cache[t] = norm(under(norm(t), facts)) if contains(t, is_flag) else t
            return cache[t]
        out = []
        for e in E.events:
            if e.kind in ("print", "with", "endwith", "assert"):
                continue
            g = norm(holds(norm(and_(*e.guards)), facts)) if e.guards else TRUE
            if g is FALSE:
                continue
            if e.kind == "call" and harmless(e) or e.kind in ("listmut", "setitem", "mutate", "new") and local_only(e, st):
                continue
            out.append((e.kind, name_of(e) if e.kind in ("call", "rng", "new") else str(e.data.get("name", "")), g, tuple(l[1] if isinstance(l[1], T) else l[0] for l in e.loops),
                        tuple(res(x) for x in data_terms(e) if not passes(e, x)), e))
        seqs[val] = (out, res(v))
    a, b = seqs[True][0], seqs[False][0]
    bad = None
    ka, kb = [x[:5] for x in a], [x[:5] for x in b]
    from collections import Counter
    ca, cb = Counter(ka), Counter(kb)
    only = [(x, True) for x in a if cb[x[:5]] < ca[x[:5]]] + [(x, False) for x in b if ca[x[:5]] < cb[x[:5]]]
    if not only and ka != kb:
        i = next(i for i in range(len(ka)) if ka[i] != kb[i])
        only = [(a[i], True)]
    verdict = True
    msg, where = "", loc
    if only:
        sure = [(x, val) for x, val in only if real_effect(x[5])]
        (x, val) = (sure or only)[0]
        e = x[5]
        verdict = False if sure else None
        what = f"{e.kind} {x[1]}".strip()
        msg, where = f"{what} is performed (or performed this way) only with the flag {'set' if val else 'clear'}", e.loc
    ctx.ob("R1", lab, verdict, where, msg)
    ra, rb = seqs[True][1], seqs[False][1]
    if isinstance(ra, T) and isinstance(rb, T):
        same = ra is rb or norm(expand(E, ra, st)) is norm(expand(E, rb, st))
        known = not contains(mk("tuple", ra, rb), lambda x: x.op in ("mu", "m", "havoc"))
        ctx.ob("R2", lab, True if same else False if known else None, loc, f"returns {short(ra, 60)} with the flag set and {short(rb, 60)} with it clear")


def local_only(e, st):
    """a change of an object made here that nothing lasting refers to (what is made of it is compared where it is used)"""
    t = e.data.get("target")
    if e.kind == "new":
        return True
    if not isinstance(t, T) or t.op != "ref":
        return False
    return not any(o is SELF and isinstance(x, T) and contains(x, lambda y: y is t) for (o, k, n), x in st.heap.items())


def data_terms(e):
    out = []
    for k in ("target", "value", "content", "index", "key", "args"):
        x = e.data.get(k)
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            out += [y for y in x if isinstance(y, T)]
    return out


def passes(e, t):
    """the flag itself, kept or handed on under its own name"""
    return is_flag(norm(t)) and (e.kind != "setattr" or e.data.get("name") in FLAGS) and e.kind not in ("setitem",)


def harmless(e):
    n = name_of(e).split(".")[-1]
    full = name_of(e)
    if full.startswith(("sys.stdout", "sys.stderr", "logging.", "warnings.", "pprint.")):
        return True
    if full.startswith(("numpy.random", "torch.rand", "torch.manual_seed", "torch.save", "numpy.save")):
        return False
    if full == "open":
        a = [norm(x) for x in e.data.get("args") or ()]
        kw = e.data.get("kw") or {}
        mode = a[1] if len(a) > 1 else kw.get("mode", const("r"))
        return is_str(mode) and not any(c in cval(mode) for c in "wax+")
    return n in PURE or full.startswith(("numpy.", "math.", "os.path.")) and n not in EFFECTS


def real_effect(e):
    if e.kind in ("setattr", "augattr", "setitem", "listmut", "mutate", "rng", "raise", "setglobal"):
        return True
    if e.kind == "call":
        return name_of(e).split(".")[-1] in EFFECTS or name_of(e) == "open"
    return False


def c16_names(ctx, f, lab):
    """reads of undefined names below a test of the flag"""
    import builtins
    fn = f.node
    bound = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    bound |= {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            bound.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            bound.add(x.name)
        elif isinstance(x, ast.arg):
            bound.add(x.arg)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            bound |= {(n.asname or n.name).split(".")[0] for n in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            bound.add(x.name)
    top, star = set(), False
    for x in ast.walk(f.module.tree):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for n in x.names:
                star |= n.name == "*"
                top.add((n.asname or n.name).split(".")[0])
    for x in ast.walk(f.module.tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            top.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            top.add(x.name)
    known = bound | top | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__"}
    flagvars = {t.id for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(isinstance(c, ast.Constant) and c.value in FLAGS or isinstance(c, ast.Attribute) and c.attr in FLAGS or isinstance(c, ast.Name) and c.id in FLAGS for c in ast.walk(x.value)) for t in x.targets if isinstance(t, ast.Name)} | set(FLAGS)
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, (ast.If, ast.IfExp)) and any(isinstance(y, ast.Name) and y.id in flagvars or isinstance(y, ast.Attribute) and y.attr in FLAGS for y in ast.walk(x.test)):
            n += 1
            body = (x.body + x.orelse) if isinstance(x, ast.If) else [x.body, x.orelse]
            free = sorted({y.id for b in body for y in ast.walk(b) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in known})
            ctx.ob("R3", f"{lab}:{n}", not free or (None if star else False), f"{f.module.path.split('/repo/')[-1] if '/repo/' in f.module.path else f.module.path}:{x.lineno}", f"reads {free}, defined nowhere")


# ------------------------------------------------------------------ C17
REMOVERS = ("os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree", "shutil.move", ".unlink", ".rmdir", "os.rename", "os.replace", "os.truncate")
SHELLS = ("os.system", "os.popen", "os.spawnl", "os.spawnv", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput", "pty.spawn")
RUNNERS = ("subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen")
IMSAVES = ("imsave", "imwrite", "savefig")


def check_C17(ctx):
    ctx.rule("R1", "no function of the library runs a shell: no os.system/popen, no subprocess call with shell=True or a command string")
    ctx.rule("R2", "the only files removed are frame images found in the given frame directory, one by one, and the only directory removed is that directory")
    ctx.rule("R3", "frames are saved under zero-padded numbers that grow with the step, in the frame directory, once in every rendered step")
    ctx.rule("R4", "the frame saved in a step shows the grid before the step is taken; the first one shows the given grid")
    ctx.rule("R5", "the animation is made of all frames in the order of their sorted names, before any of them is removed")
    ctx.rule("R6", "no caller or default puts the animation inside the frame directory that is removed")
    ctx.guard("R1", "library", lambda: c17_shell(ctx))
    ctx.guard("R2", "library", lambda: c17_removers(ctx))
    ctx.guard("R5", "make_gif", lambda: c17_gif(ctx))
    ctx.guard("R3", "save_fig_sequence", lambda: c17_sequence(ctx))
    ctx.guard("R6", "callers", lambda: c17_callers(ctx))


def lib_modules(ctx):
    return [(n, m) for n, m in sorted(ctx.prog.modules.items()) if n.split(".")[0] == "yuca" and ".test" not in n]


def rel(m):
    p = m.path
    return p[p.index("yuca/"):] if "yuca/" in p else p


def is_argv(node, scope):
    """True when the command is a list of arguments, False when it is a string, None when unknown"""
    if isinstance(node, (ast.List, ast.Tuple)):
        return True
    if isinstance(node, (ast.JoinedStr,)) or isinstance(node, ast.Constant) and isinstance(node.value, str):
        return False
    if isinstance(node, ast.BinOp):
        a, b = is_argv(node.left, scope), is_argv(node.right, scope)
        return False if False in (a, b) else True if True in (a, b) else None
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
        if node.func.attr in ("format", "join", "strip", "replace"):
            return False
        if node.func.attr == "split":
            return True
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "str"):
        return node.func.id == "list"
    if isinstance(node, ast.Name):
        vals = [x.value for x in ast.walk(scope) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in x.targets)]
        got = {is_argv(v, ast.Module(body=[], type_ignores=[])) for v in vals}
        return got.pop() if len(got) == 1 else (False if False in got else None)
    return None


def c17_shell(ctx):
    n = 0
    for mn, m in lib_modules(ctx):
        imp = import_map(m.tree)
        for owner, scope in scopes(m.tree):
            for x in own_nodes(scope):
                if not isinstance(x, ast.Call):
                    continue
                nm = dotted(x.func, imp) or ""
                lab = f"{mn}.{owner}" if owner else mn
                loc = f"{rel(m)}:{x.lineno}"
                shell = next((k.value for k in x.keywords if k.arg == "shell"), None)
                if nm in SHELLS:
                    n += 1
                    ctx.ob("R1", f"{lab}:{nm}", False, loc, f"{nm} gives its argument to a shell")
                elif nm in RUNNERS:
                    n += 1
                    off = shell is None or isinstance(shell, ast.Constant) and not shell.value
                    cmd = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == "args"), None)
                    arg = is_argv(cmd, scope) if cmd is not None else None
                    ok = (False if isinstance(shell, ast.Constant) else None) if not off else arg
                    ctx.ob("R1", f"{lab}:{nm}", ok, loc, "the command is run by a shell" if not off else "the command is one string, not a list of arguments")
    tiny = ast.parse("import os\nos.system(f'rm {p}')")
    hit = [x for x in ast.walk(tiny) if isinstance(x, ast.Call) and dotted(x.func, import_map(tiny)) in SHELLS]
    ctx.ob("R1", "self-test: a shell call is recognised", bool(hit), "", "")
    ctx.ob("R1", f"calls that start programs", n > 0 or None, "", "none found")


def scopes(tree):
    out = [("", tree)]
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            out.append((x.name, x))
        elif isinstance(x, ast.ClassDef):
            out += [(f"{x.name}.{y.name}", y) for y in x.body if isinstance(y, ast.FunctionDef)]
    return out


def own_nodes(scope):
    """nodes of a function, or of a module outside its functions and classes"""
    if not isinstance(scope, ast.Module):
        yield from ast.walk(scope)
        return
    for s in scope.body:
        if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            yield from ast.walk(s)


def c17_removers(ctx):
    """everything in the library that removes files"""
    n = 0
    for mn, m in lib_modules(ctx):
        imp = import_map(m.tree)
        for owner, scope in scopes(m.tree):
            calls = [x for x in own_nodes(scope) if isinstance(x, ast.Call) and (dotted(x.func, imp) or "") in REMOVERS]
            if not calls:
                continue
            n += 1
            lab = f"{mn}.{owner}" if owner else mn
            if not owner or "." in owner:
                for x in calls:
                    ctx.ob("R2", f"{lab}:{dotted(x.func, imp)}", None, f"{rel(m)}:{x.lineno}", "removes files outside the rendering functions")
                continue
            ctx.guard("R2", lab, lambda: c17_remover(ctx, mn, owner, lab))
    ctx.ob("R2", "functions that remove files found", n > 0 or None, "", "")


def listing_of(t):
    """(directory, sorted?) when the term is an entry list of a directory, possibly sorted or filtered; else None"""
    t = norm(t)
    srt = UNDEF
    while True:
        if t.op == "call" and str(t.args[0]) in ("mut.sort", "sorted", "builtins.sorted") and t.args[1]:
            kw = {k: norm(v) for k, v in t.args[2] if k != "#" and norm(v) not in (NONE, FALSE)}
            if srt is UNDEF and set(kw) == {"key"} and (kw["key"] in (mk("ext", "len"), mk("ext", "builtins.len"), mk("ext", "hash")) or short(kw["key"], 20) in ("len", "hash")):
                srt = False       # an order that does not tell the frames apart
            if srt is UNDEF:
                srt = True if not kw else None if set(kw) != {"reverse"} else False if kw["reverse"] is TRUE else None
            t = norm(t.args[1][0])
        elif t.op == "call" and str(t.args[0]) in ("mut.reverse", "listrev", "reversed") and t.args[1]:
            if not listing_of(t.args[1][0]) or listing_of(t.args[1][0])[1] is not True:
                return None
            t, srt = norm(t.args[1][0]), False
        elif t.op == "call" and str(t.args[0]) in ("list", "tuple", "builtins.list") and t.args[1]:
            t = norm(t.args[1][0])
        elif frames_of(t) is not None:
            t = frames_of(t)
        else:
            break
    if t.op == "call" and str(t.args[0]) in ("os.listdir", "os.scandir") and t.args[1]:
        return norm(t.args[1][0]), False if srt is UNDEF else srt
    return None


def frames_of(t):
    """the list that a fold filters by a test for 'png' in the name, else None"""
    if t.op != "fold" or len(t.args[1]) != 1 or norm(t.args[0]).op != "len":
        return None
    base = norm(norm(t.args[0]).args[0])
    init, body = t.args[1][0]
    body = norm(body)
    if norm(init).op != "seq" or norm(init).args or body.op != "ite":
        return None
    items = {x for x in walk(body) if x.op == "item" and norm(x.args[0]) is base and x.args[1].op == "idx"}
    if len(items) != 1:
        return None
    it = items.pop()
    c, a, b = body.args
    if not is_png_test(norm(c), it) and is_png_test(norm(not_(c)), it):
        a, b = b, a
    elif not is_png_test(norm(c), it):
        return None
    if norm(b).op != "m" or norm(a).op not in ("lcat", "cat") or norm(a).args[0] is not norm(b):
        return None
    tail = norm(a.args[1])
    return base if tail.op == "seq" and len(tail.args) == 1 and norm(tail.args[0]) is it else None


def is_png_test(c, it):
    if c.op == "in":
        return is_str(c.args[0]) and "png" in cval(c.args[0]) and norm(c.args[1]) is it
    return c.op == "call" and str(c.args[0]) == ".endswith" and norm(c.args[1][0]) is it and is_str(c.args[1][1]) and "png" in cval(c.args[1][1])


def joined(t):
    t = norm(t)
    if t.op == "call" and str(t.args[0]) == "os.path.join" and len(t.args[1]) == 2:
        return norm(t.args[1][0]), norm(t.args[1][1])
    return None


def known_dir(t):
    return not contains(norm(t), lambda x: x.op in ("mu", "cell", "havoc", "fold", "brk", "atbreak") or x.op == "call" and str(x.args[0]).split(".")[-1] not in ("join", "dirname", "abspath", "realpath", "normpath", "getcwd", "split"))


def names_png(g, name):
    return contains(g, lambda x: x is name) and contains(g, lambda x: is_str(x) and "png" in cval(x))


def c17_remover(ctx, mn, fn, lab):
    f = ctx.prog.modules[mn].funcs[fn]
    E = ctx.engine({"make_gif", "get_frame"} - {fn})
    v, st = E.run(f)
    ctx.note_units(E, f)
    params = [a.arg for a in f.node.args.args]
    given = [sym(p) for p in params if "frame" in p]
    for e in E.events:
        if e.kind != "call" or name_of(e) not in REMOVERS:
            continue
        n = name_of(e)
        p = cargs(e)[0]
        p = norm(expand(E, p[0], st)) if p else NONE
        if n in ("shutil.rmtree", "os.rmdir", "os.removedirs"):
            ok = True if p in given else None
            if ok is None and all(text(b) is not None or known_dir(b) for b in branches(p)):
                ok = False
            ctx.ob("R2", f"{lab}:{n}", ok, e.loc, f"removes the directory {short(p, 80)}, not the frame directory given")
            continue
        j = joined(p)
        if j and j[1].op == "item":
            src = listing_of(j[1].args[0])
            pngs = any(names_png(norm(g), j[1]) for g in e.guards) or contains(j[1].args[0], lambda x: is_str(x) and "png" in cval(x))
            if src:
                ok = src[0] in given and j[0] in given and src[0] is j[0]
                ctx.ob("R2", f"{lab}:{n}:directory", ok, e.loc, f"removes files of {short(j[0], 60)} named after the entries of {short(src[0], 60)}")
                ctx.ob("R2", f"{lab}:{n}:frames only", pngs or (None if any(contains(norm(g), lambda x: x is j[1]) for g in e.guards) else False), e.loc, "removes every file of the directory, not only the frame images")
                continue
        globs = [x for x in walk(p) if x.op == "call" and str(x.args[0]) in ("glob.glob", "glob.iglob")]
        if globs:
            pat = norm(globs[0].args[1][0])
            safe = contains(pat, lambda x: is_call_term(x, "escape"))
            ctx.ob("R2", f"{lab}:{n}:directory", True if safe else False, e.loc, f"the pattern {short(pat, 80)} takes special characters of the given path for wildcards")
            continue
        made = [w for w in E.events if w.kind == "call" and name_of(w).split(".")[-1] in IMSAVES and cargs(w)[0] and norm(expand(E, cargs(w)[0][0], st)) is p]
        ctx.ob("R2", f"{lab}:{n}:directory", True if made else (False if text(p) is not None and not any(contains(p, lambda x, q=q: x is q) for q in given) else None), e.loc, f"removes {short(p, 100)}")


def c17_gif(ctx):
    f = ctx.prog.modules["yuca.utils"].funcs.get("make_gif")
    if f is None:
        raise AnalysisError("anchor vanished: yuca.utils.make_gif")
    E = ctx.engine()
    v, st = E.run(f)
    ctx.note_units(E, f)
    loc = func_loc(f)
    saves = [e for e in E.events if is_call(e, "save", "mimsave", "mimwrite") and ("append_images" in (e.data.get("kw") or {}) or name_of(e).split(".")[-1].startswith("mim"))]
    if not saves:
        return ctx.ob("R5", "make_gif", None, loc, "the call that writes the animation was not found")
    s = saves[0]
    opens = [e for e in E.events if e.kind == "call" and name_of(e).split(".")[-1] in ("open", "imread") and e.loops and e.seq < s.seq]
    if not opens:
        return ctx.ob("R5", "make_gif", None, loc, "the reading of the frames was not found")
    o = opens[-1]
    j = joined(norm(expand(E, cargs(o)[0][0], st)))
    src = listing_of(j[1].args[0]) if j and j[1].op == "item" else None
    if src is None:
        bad = j and contains(j[1], lambda x: is_call_term(x, "listdir")) and contains(j[1], lambda x: x.op == "call" and str(x.args[0]).split(".")[-1] in ("sort", "sorted", "reverse"))
        ctx.ob("R5", "make_gif:order", False if bad else None, o.loc, f"the frames are read in the order of {short(j[1] if j else sym('?'), 100)}")
    else:
        ctx.ob("R5", "make_gif:order", src[1], o.loc, "the frames are read in the order the directory lists them in, which is arbitrary")
        ctx.ob("R5", "make_gif:directory", src[0] is j[0], o.loc, f"frames of {short(j[0], 60)} named after the entries of {short(src[0], 60)}")
        L = o.loops[-1]
        whole_list = norm(L[2]) is norm(mk("len", j[1].args[0])) and j[1].args[1] is norm(L[1])
        ctx.ob("R5", "make_gif:all names", True if whole_list else None, o.loc, f"the loop reads {short(norm(L[2]), 80)} entries")
        gs = [y for g in o.guards for y in (norm(g).args if norm(g).op == "and" else (norm(g),)) if y is not TRUE]
        plain = [g for g in gs if not (g.op == "in" and is_str(g.args[0]) or g.op == "call" and str(g.args[0]).split(".")[-1] in ("endswith", "startswith"))]
        ctx.ob("R5", "make_gif:all frames", True if not plain else (False if any(contains(g, lambda x: x.op in ("idx", "mu")) and not contains(g, lambda x: x is j[1]) for g in plain) else None), o.loc, f"a frame is read only when {short(and_(*gs), 80)}")
    app = (s.data.get("kw") or {}).get("append_images")
    if app is not None:
        a = norm(app)
        if a.op == "cell" and E.cellget(st, a) is not None:
            a = norm(E.cellget(st, a))
        lists = [e for e in E.events if e.kind == "listmut" and e.data.get("how") == "append" and e.seq < s.seq and contains(norm(expand(E, e.data["value"], st)) if isinstance(e.data.get("value"), T) else NONE, lambda x: is_call_term(x, "open", "imread"))]
        held = lists and norm(lists[0].data["target"])
        tail = a.op == "item" and a.args[1].op == "slice" and a.args[1].args[0] in (const(1), const(0), NONE) and a.args[1].args[1] is NONE and (len(a.args[1].args) < 3 or a.args[1].args[2] in (NONE, const(1)))
        base = norm(a.args[0]) if tail else a
        ok = None
        if held is not None and held:
            if base is held or norm(E.deref(base, st)) is norm(E.deref(held, st)):
                ok = True
            elif a.op == "item" and contains(a, lambda x: x is held):
                ok = False
        if ok is None and a.op == "item" and a.args[1].op == "slice" and contains(a, lambda x: is_call_term(x, "open", "imread")) and not tail:
            ok = False
        if ok is None and contains(a, lambda x: is_call_term(x, "open", "imread")) and (base.op in ("fold", "over") or a.op in ("fold", "over")):
            ok = True
        ctx.ob("R5", "make_gif:all appended", ok, s.loc, f"the animation holds {short(a, 100)}")
        later = [e for e in E.events if e.kind == "listmut" and held is not None and e.data.get("how") != "append" and norm(e.data["target"]) is held and e.seq < s.seq]
        for e in later:
            ctx.ob("R5", "make_gif:changed", False if e.data.get("how") in ("reverse", "pop", "remove", "sort", "clear", "shuffle") else None, e.loc, f"the list of frames is changed ({e.data.get('how')}) before the animation is written")
    ctx.ob("R5", "make_gif:always", True if not [g for g in s.guards if norm(g) is not TRUE] else None, s.loc, "")
    rem = [e for e in E.events if e.kind == "call" and name_of(e) in REMOVERS]
    ctx.ob("R5", "make_gif:removed last", all(e.seq > s.seq for e in rem), (rem or [s])[0].loc, "frames are removed before the animation is written")


def c17_sequence(ctx):
    f = ctx.prog.modules["yuca.utils"].funcs.get("save_fig_sequence")
    if f is None:
        raise AnalysisError("anchor vanished: yuca.utils.save_fig_sequence")
    E = ctx.engine({"make_gif", "get_frame"})
    v, st = E.run(f)
    ctx.note_units(E, f)
    loc = func_loc(f)
    ims = [e for e in E.events if is_call(e, *IMSAVES)]
    FP, N = sym("frames_path"), sym("num_steps")
    if not ims:
        return ctx.ob("R3", "save_fig_sequence", None, loc, "no frame is saved")
    for k, e in enumerate(ims):
        lab = f"save_fig_sequence:{k}" if len(ims) > 1 else "save_fig_sequence"
        if len(e.loops) != 1:
            ctx.ob("R3", lab + ":once", False if len(e.loops) > 1 and norm(e.loops[0][2]) is N else None, e.loc, "several frames are saved in one step" if e.loops else "the frame is not saved in the step loop")
            if not e.loops:
                continue
        L, idx, cnt = e.loops[0][0], norm(e.loops[0][1]), norm(e.loops[0][2])
        wh = cnt.op == "while"
        ctx.ob("R3", lab + ":every step", None if wh else True if cnt is N else (False if understood(cnt) else None), e.loc, f"{short(cnt, 60)} steps are rendered, not num_steps")
        gs = [norm(g) for g in e.guards]
        odd = [g for g in gs if contains(g, lambda x: x is idx)]
        ctx.ob("R3", lab + ":no step left out", None if odd and wh else not odd if not odd or all(understood(g) or g.op in ("not", "eq", "lt0") for g in odd) else None, e.loc, f"a frame is saved only when {short(and_(*odd) if odd else TRUE, 80)}")
        a = cargs(e)[0]
        p = norm(expand(E, a[0], st))
        for b in spread(p):
            x = text(norm(subst(b, loose)))
            if x is None:
                bad = disordered(p, idx, N)
                ctx.ob("R3", lab + ":name", False if bad else None, e.loc, f"frame {bad[0]} and frame {bad[1]} of {bad[2]} are saved as {bad[3]} and {bad[4]}" if bad else f"the frame is saved as {short(b, 100)}")
                continue
            ctx.ob("R3", lab + ":directory", x[0] == (FP, "") or (None if is_call_term(b, "abspath") else False), e.loc, f"the frame is saved as {short(b, 80)}, outside the frame directory")
            nums = [q for q in x if not isinstance(q, str) and contains(q[0], lambda y: y is idx)]
            if len(nums) != 1:
                ctx.ob("R3", lab + ":numbered", False if not nums and not contains(b, lambda y: y.op in ("mu", "m")) else None, e.loc, f"the name {short(b, 80)} does not depend on the step")
                continue
            val, w = nums[0]
            c = norm(sub(val, idx))
            inc = is_num(c) or not contains(c, lambda y: y is idx or y.op in ("mu", "m"))
            lin = norm(mul(idx, const(1)))
            down = not inc and contains(val, lambda y: y is idx) and not contains(norm(add(val, idx)), lambda y: y is idx)
            ctx.ob("R3", lab + ":growing", True if inc else False if down or val.op == "mod" or contains(val, lambda y: y.op in ("mod", "floordiv")) else None, e.loc, f"the number {short(val, 60)} in the name does not grow with the step")
            ctx.ob("R3", lab + ":padded", bool(w) and int(w) >= 3 and (w.isdigit()), e.loc, f"the number in {short(b, 80)} is not padded with zeros: frame 10 sorts before frame 2")
            before = [q for q in x[:x.index(nums[0])] if not isinstance(q, str) and q != (FP, "")]
            ctx.ob("R3", lab + ":number first", True if not before or not any(contains(q[0], lambda y: y.op in ("mu", "m", "last") or is_call_term(y, "time", "rand", "random")) for q in before) else False, e.loc, f"a changing text comes before the step number in {short(b, 80)}")
        lead = [b for b in branches(p)]
        if len(lead) > 1:
            cond = [x for x in walk(p) if x.op == "ite"]
            dep = any(contains(x.args[0], lambda y: y is idx) for x in cond)
            ctx.ob("R3", lab + ":one width", not dep, e.loc, "the width of the number changes from step to step")
        img = norm(expand(E, a[1], st, 8)) if len(a) > 1 else NONE
        after = contains(img, lambda x: is_call_term(x, "get_frame", "forward", "step") or x.op == "call" and str(x.args[0]) == "<call>" or x.op == "call" and x.args[0] == "ca")
        mus = [x for x in walk(img) if x.op == "mu" and x.args[0] == L]
        picks = {norm(x.args[1].args[0]) for x in walk(img) if x.op == "item" and norm(x.args[0]) in mus and x.args[1].op == "tuple" and x.args[1].args}
        if picks and all(is_num(x) for x in picks):
            ctx.ob("R4", lab + ":one sample", len(picks) == 1, e.loc, f"the sample shown is {' or '.join(sorted(short(x, 10) for x in picks))}, depending on the number of channels")
        inits = set()
        for key, m in E.loopinfo[L]["mus"].items():
            if m in mus and key in E.loopinfo[L]["carried"]:
                inits.add(norm(E.deref(E.loopinfo[L]["carried"][key][0], st)))
        shown = [peeled(x) for x in inits if not contains(x, lambda y: y.op == "undef")]
        g0 = sym("grid")
        fromgrid = [x for x in shown if contains(x, lambda y: y is g0)]
        ctx.ob("R4", lab + ":before the step", False if after else (True if mus else (None if contains(img, lambda x: x.op in ("m", "fold", "last")) or not contains(img, lambda x: x is g0) else False)), e.loc,
               "the frame shows the grid after the step, so the initial grid is missing" if after else "every frame shows the same grid")
        if mus:
            ctx.ob("R4", lab + ":first frame", True if fromgrid and all(x is g0 for x in fromgrid) else (False if fromgrid and any(contains(x, lambda y: is_call_term(y, "get_frame", "<call>") or y.op == "call" and y.args[0] == "ca") for x in fromgrid) else None), e.loc,
                   f"the first frame shows {', '.join(short(x, 60) for x in fromgrid)}, not the given grid")
    ran = {e.loops[0][0] for e in ims if e.loops and norm(e.loops[0][2]).op != "while"}
    for L in sorted(ran, key=str):
        conds = {norm(x) for b in E.loopinfo[L]["breaks"] for x in (b if isinstance(b, (tuple, list)) else [b]) if isinstance(x, T)}
        for c in conds:
            if c.op == "and":
                c = norm(and_(*[x for x in c.args if norm(not_(x)) not in conds]))
            sees = contains(c, lambda x: x.op in ("mu", "m", "havoc") or x is sym("grid") or is_call_term(x, "get_frame", "<call>"))
            free = not sees and all(y.op != "call" for y in walk(c)) and not is_const(c)
            ctx.ob("R3", f"save_fig_sequence:stops:{short(c, 50)}" if free else "save_fig_sequence:stops", True if sees else False if free or c is TRUE else None, loc, f"the rendering stops early when {short(c, 100)}, whatever the grid is")
    gifs = [e for e in E.events if is_call(e, "make_gif")]
    rem = [e for e in E.events if e.kind == "call" and name_of(e) in REMOVERS]
    for e in gifs:
        kw = {k: norm(x) for k, x in (e.data.get("kw") or {}).items() if isinstance(x, T)}
        args = [norm(x) for x in e.data.get("args") or ()]
        fp = kw.get("frames_path", args[0] if args else None)
        ctx.ob("R5", "save_fig_sequence:same directory", True if fp is FP else (False if fp is not None and (understood(fp) or text(fp)) or fp is None else None), e.loc, f"the animation is assembled from {short(fp if fp is not None else sym('the default directory'), 60)}, not from the frame directory")
        ctx.ob("R5", "save_fig_sequence:after the last frame", all(e.seq > x.seq for x in ims) and not e.loops, e.loc, "the animation is assembled before all frames are saved")
    dirs = [e for e in rem if gifs]
    for e in dirs:
        ctx.ob("R5", "save_fig_sequence:removed last", e.seq > max(g.seq for g in gifs), e.loc, "the frames are removed before the animation is made")
    if not gifs:
        ctx.ob("R5", "save_fig_sequence", None, loc, "make_gif is not called")


def written_name(t):
    """the text of a name in which every number is known; None when it is not such a text"""
    t = norm(t)
    if is_str(t):
        return str(cval(t))
    if is_num(t):
        return str(int(cval(t)))
    if t.op == "fstr":
        ps = [written_name(x) for x in t.args]
        return None if None in ps else "".join(ps)
    if t.op == "fmt":
        v = norm(t.args[0])
        sp = t.args[1]
        sp = "" if sp in (None, NONE) else sp if isinstance(sp, str) else written_name(sp)
        if is_num(v) and sp is not None:
            try:
                return format(int(cval(v)), sp)
            except ValueError:
                return None
        return None if sp else written_name(v)
    if t.op == "call" and str(t.args[0]) == "os.path.join":
        return written_name(t.args[1][-1])
    return None


def disordered(p, idx, N):
    """two frames of a rendering whose names sort the other way round, for some number of steps"""
    def fold_len(x):
        if x.op == "call" and str(x.args[0]).split(".")[-1] == "len" and len(x.args[1]) == 1 or x.op == "len":
            w = written_name(x.args[1][0] if x.op == "call" else x.args[0])
            return None if w is None else const(len(w))
        return None

    def at(step, n):
        t = subst(p, lambda x: const(step) if x is idx else const(n) if x is N else None)
        t = norm(subst(norm(subst(norm(t), fold_len)), fold_len))
        return written_name(t)
    for n in (9, 10, 11, 12, 40, 60, 100, 101, 120, 1000, 1001, 2000, 10001):
        for a in (0, 1, 2, 9, 10, 99, 100, 999, 1000, 9999):
            for b in (a + 1,):
                if b < n:
                    x, y = at(a, n), at(b, n)
                    if x is not None and y is not None and not x < y:
                        return a, b, n, x, y
    return None


def spread(t, depth=4):
    """the values of a term under every combination of its conditions"""
    c = next((x for x in walk(t) if x.op == "ite"), None)
    if c is None or depth == 0:
        return [t]
    c = c.args[0]
    return [y for v in (TRUE, FALSE) for y in spread(norm(subst(t, lambda x: v if x is c else None)), depth - 1)]


def loose(x):
    """number formats that do not pad with zeros read as no format at all"""
    if x.op == "fmt" and x.args[1] not in (NONE, None):
        sp = x.args[1]
        sp = str(cval(sp)) if isinstance(sp, T) and is_const(sp) else sp
        if isinstance(sp, str) and not sp.lstrip("><^=").startswith("0") and sp.rstrip("d").lstrip("><^=").isdigit():
            return mk("fmt", x.args[0], NONE, *x.args[2:])
    return None


def peeled(t):
    t = norm(t)
    while t.op == "call" and t.args[1] and isinstance(t.args[1][0], T) and str(t.args[0]).split(".")[-1] in ("to", "cpu", "clone", "detach", "float"):
        t = norm(t.args[1][0])
    return t


def c17_callers(ctx):
    f = ctx.prog.modules["yuca.utils"].funcs.get("save_fig_sequence")
    if f is None:
        raise AnalysisError("anchor vanished: yuca.utils.save_fig_sequence")
    names = [a.arg for a in f.node.args.args]
    dflt = {}
    for a, d in zip(reversed(f.node.args.args), reversed(f.node.args.defaults)):
        if isinstance(d, ast.Constant) and isinstance(d.value, str):
            dflt[a.arg] = const(d.value)
    n = 0
    for mn, m in lib_modules(ctx):
        imp = import_map(m.tree)
        for owner, scope in scopes(m.tree):
            calls = [x for x in own_nodes(scope) if isinstance(x, ast.Call) and (dotted(x.func, imp) or "").split(".")[-1] == "save_fig_sequence"]
            for k, x in enumerate(calls):
                n += 1
                got = dict(dflt)
                env = {t.id: s.value for s in ast.walk(scope) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
                for nm, v in list(zip(names, x.args)) + [(q.arg, q.value) for q in x.keywords if q.arg]:
                    if nm in ("frames_path", "gif_path", "tag"):
                        if isinstance(v, ast.Name) and v.id in env:
                            v = env[v.id]
                        got[nm] = ast_text(v)
                below(ctx, f"{mn}.{owner}:{k}", got, f"{rel(m)}:{x.lineno}")
    below(ctx, "defaults of save_fig_sequence", dflt, func_loc(f))
    ctx.ob("R6", "callers found", n > 0 or None, func_loc(f), "")


def ast_text(v):
    if isinstance(v, ast.Constant):
        return const(v.value)
    if isinstance(v, ast.JoinedStr):
        return mk("fstr", *[const(q.value) if isinstance(q, ast.Constant) else sym("{" + ast.unparse(q.value) + "}") for q in v.values])
    if isinstance(v, ast.List) and v.elts:
        return ast_text(v.elts[0])
    return sym("{" + ast.unparse(v) + "}")


def below(ctx, lab, got, loc):
    fp, gp = text(got.get("frames_path", sym("?"))), text(got.get("gif_path", sym("?")))
    if fp is None or gp is None:
        return ctx.ob("R6", lab, None, loc, "paths not recognised")
    tag = text(got.get("tag", sym("?"))) or ((sym("?"), ""),)
    full = tuple(merged(list(gp) + ["/"] + list(tag)))
    strip = lambda ps: tuple(merged([q.replace("./", "") if isinstance(q, str) and k == 0 else q for k, q in enumerate(ps)]))
    a, b = strip(fp), strip(full)
    if a and isinstance(a[-1], str):
        a = a[:-1] + ((a[-1].rstrip("/"),) if a[-1].rstrip("/") else ())
    # is a followed by '/' (or the end) in b?
    sa = "".join(q if isinstance(q, str) else f"\0{short(q[0], 200)}\0" for q in a)
    sb = "".join(q if isinstance(q, str) else f"\0{short(q[0], 200)}\0" for q in b)
    inside = sb == sa or sb.startswith(sa + "/") or sa == ""
    ctx.ob("R6", lab, not inside, loc, f"the animation goes to {sb!r}, inside the frame directory {sa!r} that is removed afterwards".replace("\0", ""))
