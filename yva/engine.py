"""Abstract interpreter: builds a gated value graph and an effect trace for a
function of the analysed repository, from its source, without executing it.

 * every conditional is a join (``ite`` gate), never a fork of the analysis;
 * loops over statically known small literals are unrolled, every other loop is
   summarised by one abstract iteration with loop-carried ``mu`` values
   (``fold`` terms);
 * repository functions and methods are inlined through the class hierarchy of
   the concrete class analysed, so helpers, renamings and reorderings of
   independent statements do not matter;
 * aliasing: tensors, lists, dicts and objects have identities (``cell``,
   ``ref`` and access paths), in-place writes are recorded with their target.
"""
import ast
import os
from fractions import Fraction
from .terms import *
from . import terms as _t

REPO = os.environ.get("YVA_REPO", "/repo")


class AnalysisError(Exception):
    """an anchor vanished or the source cannot be parsed"""


# =====================================================================  program
class Func:
    def __init__(self, qual, node, module, cls=None, env=None):
        self.qual, self.node, self.module, self.cls, self.env = qual, node, module, cls, env
        self.kind = "inst" if cls else "plain"
        for d in getattr(node, "decorator_list", []):
            n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "")
            if n == "staticmethod":
                self.kind = "static"
            elif n == "classmethod":
                self.kind = "class"
            elif n in ("property", "cached_property"):
                self.kind = "property"

    @property
    def path(self):
        return self.module.path

    def __repr__(self):
        return f"<{self.qual}>"


class Cls:
    def __init__(self, qual, node, module, outer=None):
        self.qual, self.node, self.module, self.outer = qual, node, module, outer
        self.methods, self.attrs, self.inner = {}, {}, {}
        self.fill(node.body)

    def fill(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # a later definition wins, as at run time
                self.methods[s.name] = Func(f"{self.qual}.{s.name}", s, self.module, self)
                self.attrs.pop(s.name, None)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
                        self.methods.pop(t.id, None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self.inner[s.name] = Cls(f"{self.qual}.{s.name}", s, self.module, self)
            elif isinstance(s, (ast.If, ast.Try)):
                self.fill(s.body)
                self.fill(getattr(s, "orelse", []))

    @property
    def name(self):
        return self.qual.split(".")[-1]


class Module:
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.funcs, self.classes, self.globals, self.imports = {}, {}, {}, {}
        self.multi = set()
        self.main = None
        self.collect(tree.body)

    def collect(self, body, top=True):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(f"{self.name}.{s.name}", s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(f"{self.name}.{s.name}", s, self)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name) and s.value is not None:
                        if t.id in self.globals:
                            self.multi.add(t.id)
                        self.globals[t.id] = s.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.globals[e.id] = ast.copy_location(ast.Subscript(
                                    value=s.value, slice=ast.Constant(value=i), ctx=ast.Load()), s)
                                ast.fix_missing_locations(self.globals[e.id])
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = (a.name, None)
                    else:
                        self.imports[a.name.split(".")[0]] = (a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pkg = self.name.split(".")
                    pkg = pkg[:len(pkg) - s.level + (1 if self.path.endswith("__init__.py") else 0)]
                    base = ".".join(pkg + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(s, ast.If):
                if is_main_guard(s.test):
                    self.main = s
                    continue
                self.collect(s.body, False)
                self.collect(s.orelse, False)
            elif isinstance(s, ast.Try):
                self.collect(s.body, False)
                for h in s.handlers:
                    self.collect(h.body, False)


def is_main_guard(test):
    return (isinstance(test, ast.Compare) and isinstance(test.left, ast.Name)
            and test.left.id == "__name__")


class Program:
    def __init__(self, root=None, package="yuca"):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"package {package} not found under {self.root}")
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                src = open(p, encoding="utf8").read()
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {rel}: {e}")
                self.modules[name] = Module(name, rel, tree, src)
        self._mro = {}
        self.funcs, self.classes = {}, {}
        for m in self.modules.values():
            for f in m.funcs.values():
                self.funcs[f.qual] = f
            for c in m.classes.values():
                self._reg(c)

    def add_module(self, name, path):
        """parse a checker-side reference file into the program (never executed)"""
        if name in self.modules:
            return self.modules[name]
        src = open(path, encoding="utf8").read()
        m = Module(name, os.path.basename(path), ast.parse(src, path), src)
        self.modules[name] = m
        for f in m.funcs.values():
            self.funcs[f.qual] = f
        return m

    def _reg(self, c):
        self.classes[c.qual] = c
        for f in c.methods.values():
            self.funcs[f.qual] = f
        for i in c.inner.values():
            self._reg(i)

    # ---- resolution
    def find_class(self, name):
        """the repo class with this public (last) name"""
        hits = [c for c in self.classes.values() if c.name == name and c.outer is None]
        if not hits:
            raise AnalysisError(f"anchor vanished: class {name}")
        return hits[0]

    def has_class(self, name):
        return any(c.name == name and c.outer is None for c in self.classes.values())

    def find_func(self, name):
        hits = [f for m in self.modules.values() for f in m.funcs.values() if f.qual.split(".")[-1] == name]
        if not hits:
            raise AnalysisError(f"anchor vanished: function {name}")
        return hits[0]

    def module_member(self, mod, name, seen=()):
        """resolve name in module: Func | Cls | ('mod', n) | ('ext', dotted) | ('global', Module, name) | None"""
        m = self.modules.get(mod)
        if m is None:
            return ("ext", f"{mod}.{name}")
        if name in m.funcs and name not in m.globals:
            return m.funcs[name]
        if name in m.classes and name not in m.globals:
            return m.classes[name]
        if name in m.globals:
            return ("global", m, name)
        if name in m.imports:
            base, orig = m.imports[name]
            if orig is None:
                return ("mod", base) if base in self.modules or base.split(".")[0] in self.modules else ("ext", base)
            if base in self.modules:
                if (base, orig) in seen:
                    return None
                r = self.module_member(base, orig, seen + ((base, orig),))
                if r is not None:
                    return r
                if f"{base}.{orig}" in self.modules:
                    return ("mod", f"{base}.{orig}")
                return None
            if f"{base}.{orig}" in self.modules:
                return ("mod", f"{base}.{orig}")
            if base.split(".")[0] in self.modules:
                return None          # import of a name the package does not have
            return ("ext", f"{base}.{orig}")
        if f"{mod}.{name}" in self.modules:
            return ("mod", f"{mod}.{name}")
        return None

    def base_classes(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            out.append(r if isinstance(r, Cls) else None)
        return out

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.module_member(module.name, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(module, e.value)
            if isinstance(r, tuple) and r[0] == "mod":
                return self.module_member(r[1], e.attr)
            if isinstance(r, tuple) and r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
        return None

    def mro(self, c):
        if c.qual in self._mro:
            return self._mro[c.qual]
        self._mro[c.qual] = [c]
        seqs = [[c]]
        bases = [b for b in self.base_classes(c) if b is not None]
        seqs += [list(self.mro(b)) for b in bases] + [list(bases)]
        out = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[c.qual] = out
        return out

    def lookup(self, c, name, after=None):
        """method/class attribute through the MRO (optionally after a class)"""
        chain = self.mro(c)
        if after is not None:
            chain = chain[chain.index(after) + 1:] if after in chain else []
        for k in chain:
            if name in k.methods:
                return k.methods[name]
            if name in k.attrs:
                return ("cattr", k, name)
            if name in k.inner:
                return k.inner[name]
        return None

    def method(self, clsname, name):
        c = self.find_class(clsname)
        f = self.lookup(c, name)
        if not isinstance(f, Func):
            raise AnalysisError(f"anchor vanished: method {clsname}.{name}")
        return f

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]


# =====================================================================  state
class St:
    __slots__ = ("loc", "cells", "heap")

    def __init__(self, loc=None, cells=None, heap=None):
        self.loc = {} if loc is None else loc
        self.cells = {} if cells is None else cells
        self.heap = {} if heap is None else heap

    def fork(self):
        return St(dict(self.loc), dict(self.cells), dict(self.heap))

    def become(self, o):
        self.loc, self.cells, self.heap = o.loc, o.cells, o.heap


class Event:
    __slots__ = ("kind", "data", "guards", "loops", "loc", "fn", "seq", "chain")

    def __init__(self, kind, data, guards, loops, loc, fn, seq, chain=()):
        self.kind, self.data, self.guards, self.loops = kind, data, guards, loops
        self.loc, self.fn, self.seq, self.chain = loc, fn, seq, chain

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        d = ", ".join(f"{k}={v}" for k, v in self.data.items())
        g = " if " + " & ".join(map(str, self.guards)) if self.guards else ""
        l = f" for {self.loops}" if self.loops else ""
        return f"[{self.loc}] {self.kind} {d}{g}{l}"


def written_only(t):
    """the tensor that t is after a number of item assignments"""
    while True:
        if t.op in ("store", "upd"):
            t = t.args[0]
        elif t.op == "fold" and t.args[1]:
            a, b = t.args[1][0]
            b = written_only(b)
            if b.op != "m" or b.args[1] != 0:
                return t
            t = a
        else:
            return t


class Undecided(Exception):
    pass


class Frame:
    def __init__(self, func, module, cls, selfp, gbase):
        self.func, self.module, self.cls, self.selfp, self.gbase = func, module, cls, selfp, gbase
        self.globals_decl = set()
        self.env = None


class Exit:
    __slots__ = ("kind", "cond", "st", "val", "guards")

    def __init__(self, kind, cond, st, val=NONE, guards=()):
        self.kind, self.cond, self.st, self.val, self.guards = kind, cond, st, val, guards


PTR_OPS = {"cell", "sym", "attr", "item", "ref", "view", "fn", "cls", "mod", "ext", "bound",
           "closure", "tuple", "const", "idx"}

BUILTINS = {"len", "int", "float", "str", "abs", "min", "max", "sum", "range", "enumerate", "zip", "list",
            "tuple", "dict", "set", "sorted", "reversed", "type", "isinstance", "print", "getattr", "setattr",
            "hasattr", "super", "map", "filter", "any", "all", "round", "open", "id", "object", "bool", "iter",
            "next", "repr", "hash", "vars", "callable", "input", "slice", "frozenset", "bytes", "divmod", "pow",
            "Exception", "ValueError", "KeyError", "TypeError", "RuntimeError", "IndexError", "AssertionError",
            "NotImplementedError", "FileNotFoundError", "OSError", "IOError", "AttributeError", "StopIteration",
            "ZeroDivisionError", "NameError", "UserWarning", "DeprecationWarning", "staticmethod", "classmethod",
            "property", "globals", "locals", "exit", "quit", "ord", "chr", "format", "delattr", "issubclass",
            "ImportError", "FileExistsError", "NotADirectoryError", "IsADirectoryError", "PermissionError",
            "LookupError", "ArithmeticError", "OverflowError", "SystemExit", "KeyboardInterrupt", "BaseException",
            "memoryview", "bytearray", "complex", "dir", "eval", "exec", "compile", "__import__", "help",
            "NotImplemented", "Ellipsis", "Warning", "RuntimeWarning", "StopAsyncIteration", "UnicodeDecodeError"}

# functions whose function form (torch.f / np.f / F.f / math.f) and method form are the same operation
METHODY = {"abs", "exp", "log", "log2", "sqrt", "cos", "sin", "sum", "mean", "max", "min", "reshape",
           "transpose", "permute", "ravel", "flatten", "squeeze", "unsqueeze", "round", "sigmoid", "relu", "tanh",
           "argsort", "argmax", "argmin", "std", "var", "cumsum", "prod", "repeat", "floor", "ceil", "sort",
           "numel", "sign", "nonzero", "any", "all", "where", "maximum", "minimum", "isnan", "fft2", "conj",
           "swapaxes", "amax", "amin", "view", "expand", "gather", "roll", "clamp_min", "clamp_max", "detach",
           "clone", "copy", "item", "tolist", "dot", "matmul", "norm", "softmax"}
RENAME = {"clip": "clamp", "absolute": "abs", "concatenate": "npcat", "concat": "tcat_", "cat": "tcat_", "hardtanh": "hardtanh",
          "multiply": "mul", "true_divide": "div", "divide": "div", "subtract": "sub", "power": "pow",
          "negative": "neg", "amax": "max", "amin": "min", "fabs": "abs"}
VIEW_METHODS = {"reshape", "view", "transpose", "permute", "squeeze", "unsqueeze", "detach", "to", "cpu", "cuda", "float",
                "double", "half", "contiguous", "ravel", "swapaxes", "numpy", "expand", "type", "narrow", "select",
                "flatten", "T", "data", "view_as", "expand_as", "type_as", "astype_nocopy", "requires_grad_", "squeeze_", "unsqueeze_"}
RANDOM = ("torch.rand", "torch.randn", "torch.randint", "torch.randperm", "torch.rand_like", "torch.randn_like",
          "torch.normal", "torch.bernoulli", "torch.multinomial", "torch.randint_like", "torch.poisson",
          "torch.nn.functional.dropout")
UNIQUE_PREFIX = ("numpy.random.", "random.", "time.", "uuid.", "secrets.", "subprocess.", "os.urandom", "os.getpid",
                 "os.system", "os.listdir", "mpi4py.", "datetime.")
OBJ_PREFIX = ("torch.nn.", "torch.optim.", "torch.utils.", "argparse.")


class Engine:
    def __init__(self, prog=None, opaque=()):
        self.prog = prog or Program()
        self.opaque = set(opaque)        # qualnames (or last components 'Class.method') never inlined
        self.max_depth = 40
        self.extern = {}         # library function or '.method' name -> term it is assumed to return
        self.track_globals = False   # follow unconditional assignments to module globals
        self.reset()

    def reset(self):
        self.events = []
        self.guards = []
        self.loops = []          # active symbolic loops [(L, idx)]
        self.stack = []          # inlined function chain
        self.counters = {}
        self.types = {}          # term -> Cls
        self.scalars = set()     # terms known to be Python numbers/strings
        self.alias = {}          # cell -> set(pointers)
        self.loopinfo = {}
        self.base = St()
        self.gcache = {}
        self.defaults = {}
        self.closures = {}
        self.inlined = {}        # qual -> times
        self.unknown = []
        self.reads = {}          # (kind, ...) name reads for misc checks
        self.nameerrors = []
        self.isolated = {}       # cell -> marker
        self.entries = {}        # container -> pointers stored in it under symbolic keys
        self.shallow = {}        # cell -> pointer whose entries a shallow copy shares

    # ------------------------------------------------------------ helpers
    def fresh(self, kind):
        n = self.counters.get(kind, 0)
        self.counters[kind] = n + 1
        return n

    def newcell(self, st, content, tag=""):
        c = mk("cell", self.fresh("cell"))
        st.cells[c] = content
        return c

    def newref(self, kind):
        return mk("ref", kind, self.fresh("ref"))

    def event(self, kind, node, **data):
        fr = self.stack[-1] if self.stack else None
        path = fr.module.path if fr else "?"
        loc = f"{path}:{getattr(node, 'lineno', 0)}"
        e = Event(kind, data, tuple(self.guards), tuple(self.loops), loc,
                  fr.func.qual if fr and fr.func else (fr.module.name if fr else "?"), len(self.events),
                  tuple(f.func.qual for f in self.stack if f.func))
        self.events.append(e)
        return e

    def pathcond(self, fr):
        return and_(*self.guards[fr.gbase:])

    # ------------------------------------------------------------ deref
    def heapget(self, st, key):
        v = st.heap.get(key)
        if v is None:
            v = self.base.heap.get(key)
        return v

    def cellget(self, st, c):
        v = st.cells.get(c)
        if v is None:
            v = self.base.cells.get(c)
        return v

    def is_obj(self, content):
        return content is not None and content.op == "call" and isinstance(content.args[0], str) and \
            content.args[0].startswith(OBJ_PREFIX) and content.args[0].split(".")[-1][:1].isupper() \
            and content.args[0] not in ("torch.nn.Parameter",)

    def deref(self, t, st):
        o = t.op
        if o == "cell":
            c = self.cellget(st, t)
            if c is None:
                return t
            if self.is_obj(c):
                return t
            return self.overlay(t, c, st)
        if o in ("const", "fn", "cls", "mod", "ext", "closure", "bound", "idx"):
            return t
        if o == "sym":
            c = self.cellget(st, t)
            if c is not None:
                return c
            return self.overlay(t, t, st)
        if o == "attr":
            c = self.cellget(st, t)
            if c is not None:
                return c
            b = self.deref(t.args[0], st)
            r = mk("attr", b, t.args[1])
            return self.overlay(t, r, st)
        if o == "item":
            c = self.cellget(st, t)
            if c is not None:
                return c
            r = self.item_of(self.deref(t.args[0], st), t.args[1])
            return self.overlay(t, r, st)
        if o == "view":
            c = self.cellget(st, t)
            if c is not None:
                return c
            return mk("call", t.args[0], (self.deref(t.args[1], st),) + t.args[2], t.args[3])
        if o == "ite":
            return ite(t.args[0], self.deref(t.args[1], st), self.deref(t.args[2], st))
        if o == "tuple":
            return mk("tuple", *[self.deref(x, st) for x in t.args])
        if o == "ref":
            return self.freeze(t, st)
        return t

    def overlay(self, ptr, val, st):
        """fold dict-style writes on a symbolic container into its value"""
        ents = [(k[2], v) for h in (self.base.heap, st.heap) for k, v in h.items() if k[0] is ptr and k[1] == "i"]
        if not ents:
            return val
        d = {}
        for k, v in ents:
            d[k] = v
        return mk("upd", val, *[mk("tuple", k, self.deref(v, st)) for k, v in sorted(d.items(), key=lambda kv: str(kv[0]))])

    def freeze(self, r, st, depth=0):
        kind = r.args[0]
        if kind == "list":
            c = self.heapget(st, (r, "c", ""))
            if c is None:
                return r
            if c.op == "seq":
                return mk("seq", *[self.deref(x, st) for x in c.args])
            return subst(c, lambda x: self.deref(x, st) if x.op in ("cell", "ref", "view") else None) \
                if contains(c, lambda x: x.op in ("cell", "ref", "view")) else c
        if kind == "dict":
            if depth > 6:
                return r
            base = self.heapget(st, (r, "base", ""))
            ents = {}
            for h in (self.base.heap, st.heap):
                for k, v in h.items():
                    if k[0] is r and k[1] == "i":
                        ents[k[2]] = v
            items = [mk("tuple", k, self.deref(v, st)) for k, v in sorted(ents.items(), key=lambda kv: str(kv[0]))
                     if v is not UNDEF]
            return mk("dict", self.deref(base, st) if base is not None else NONE, *items)
        return r

    def item_of(self, b, key):
        """value of b[key] for value terms"""
        if b.op == "ite":
            return ite(b.args[0], self.item_of(b.args[1], key), self.item_of(b.args[2], key))
        if key.op == "ite" and b.op in ("seq", "tuple", "dict"):
            return ite(key.args[0], self.item_of(b, key.args[1]), self.item_of(b, key.args[2]))
        if b.op in ("seq", "tuple") and is_num(key) and cval(key).denominator == 1:
            n = int(cval(key))
            if -len(b.args) <= n < len(b.args):
                return b.args[n]
        if b.op in ("seq", "tuple") and key.op == "slice" and all(x is NONE or is_num(x) for x in key.args):
            s = slice(*[None if x is NONE else int(cval(x)) for x in key.args])
            return mk(b.op, *b.args[s])
        if b.op in ("call", "view") and (is_num(key) or key.op == "slice"):
            v = vec(b)
            if v is not None and v.op == "seq":
                r = self.item_of(v, key)
                if r.op != "item":
                    return r
        if b.op == "attr" and b.args[1] == "shape" and key is const(0) and vec(b.args[0]) is not None:
            return const(len(vec(b.args[0]).args))
        if b.op == "dict":
            for e in b.args[1:]:
                if e.args[0] is key:
                    return e.args[1]
            if b.args[0] is not NONE and is_const(key) and all(is_const(e.args[0]) for e in b.args[1:]):
                return self.item_of(b.args[0], key)
        if b.op == "upd":
            for e in b.args[1:]:
                if e.args[0] is key:
                    return e.args[1]
            if is_const(key) and all(is_const(e.args[0]) for e in b.args[1:]):
                return self.item_of(b.args[0], key)
        if b.op == "store":
            if b.args[1] is key:
                return b.args[2]
            if disjoint(b.args[1], key):
                return self.item_of(b.args[0], key)
        if b.op == "call" and b.args[0] in ("deepcopy", "copy") and b.args[1]:
            return self.item_of(b.args[1][0], key)
        if b.op == "call" and b.args[0] == "items" and False:
            pass
        if is_str(b) and is_num(key):
            try:
                return const(cval(b)[int(cval(key))])
            except IndexError:
                pass
        return mk("item", b, key)

    # ------------------------------------------------------------ scalars
    def is_scalar(self, t, depth=0):
        if t in self.scalars:
            return True
        if depth > 30:
            return False
        o = t.op
        if o == "const":
            return True
        if o in ("add", "mul", "pow", "mod", "floordiv"):
            return self.is_scalar(t.args[0], depth + 1) and self.is_scalar(t.args[1], depth + 1)
        if o in ("idx", "cmp", "in", "not", "fstr", "numel", "len", "isnone", "eq", "lt", "le"):
            return True
        if o == "call" and t.args[0] in ("len", "int", "float", "item", "str", "numel", "round_py", "ndim", "time.time"):
            return True
        if o == "call" and t.args[0] in ("min_py", "max_py", "abs"):
            return all(self.is_scalar(x, depth + 1) for x in t.args[1])
        if o == "call" and isinstance(t.args[0], str) and t.args[0].startswith("os.path."):
            return True
        if o == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
            return True
        if o == "ite":
            return self.is_scalar(t.args[1], depth + 1) and self.is_scalar(t.args[2], depth + 1)
        if o in ("mu", "m", "fold"):
            return len(t.args) > 2 and t.args[-1] == "s"
        return False

    # ------------------------------------------------------------ join
    def join(self, c, a, b):
        """state after 'if c: a else: b' (a, b: St)"""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        loc = {}
        for k in list(a.loc) + [k for k in b.loc if k not in a.loc]:
            va, vb = a.loc.get(k, UNDEF), b.loc.get(k, UNDEF)
            loc[k] = va if va is vb else self.joinval(c, va, vb, a, b)
        cells = {}
        for k in list(a.cells) + [k for k in b.cells if k not in a.cells]:
            va, vb = a.cells.get(k), b.cells.get(k)
            if va is None:
                va = vb if k.op == "cell" else self.default_content(k, a)
            if vb is None:
                vb = va if k.op == "cell" and k not in b.cells and k in a.cells else self.default_content(k, b)
            cells[k] = va if va is vb else ite(c, va, vb)
        heap = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is None:
                va = self.default_heap(k, a)
            if vb is None:
                vb = self.default_heap(k, b)
            heap[k] = va if va is vb else self.joinval(c, va, vb, a, b)
        r = St(loc, cells, heap)
        return r

    def joinval(self, c, va, vb, a, b):
        if va is UNDEF or vb is UNDEF:
            return ite(c, va, vb)
        return ite(c, va, vb)

    def default_content(self, k, st):
        if k.op == "sym":
            return k
        if k.op == "attr":
            return mk("attr", self.deref(k.args[0], st), k.args[1])
        if k.op == "item":
            return self.item_of(self.deref(k.args[0], st), k.args[1])
        if k.op == "view":
            return mk("call", k.args[0], (self.deref(k.args[1], st),) + k.args[2], k.args[3])
        return UNDEF

    def default_heap(self, key, st):
        base, kind, name = key
        g = self.base.heap.get(key)
        if g is not None:
            return g
        if kind == "a":
            if base.op == "ref":
                return UNDEF
            return mk("attr", base, name)
        if kind == "i":
            if base.op == "ref":
                bb = self.heapget(st, (base, "base", ""))
                if bb is not None:
                    return mk("item", bb, name)
                return UNDEF
            return mk("item", base, name)
        return UNDEF

    # ------------------------------------------------------------ binding
    def bindable(self, v, st):
        """give computed (non-pointer) values an identity"""
        if v.op == "view" and v.args[1].op not in PTR_OPS and v.args[1].op != "ite" and not is_const(v.args[1]):
            return mk("view", v.args[0], self.newcell(st, v.args[1]), *v.args[2:])
        if v.op == "view" and v.args[1].op == "view":
            b = self.bindable(v.args[1], st)
            return v if b is v.args[1] else mk("view", v.args[0], b, *v.args[2:])
        if v.op in PTR_OPS:
            return v
        if v.op == "ite":
            a, b = v.args[1], v.args[2]
            if all(x.op in PTR_OPS or x.op in ("undef",) for _, x in leaves(v)):
                return v
        if self.is_scalar(v):
            return v
        if v.op in ("undef", "slice"):
            return v
        return self.newcell(st, v)

    # ------------------------------------------------------------ aliasing
    def roots(self, p, seen=None):
        """all objects that p may share storage with (pointers)"""
        seen = set() if seen is None else seen
        if p in seen:
            return set()
        seen.add(p)
        out = {p}
        if p.op in ("attr", "item"):
            out |= self.roots(p.args[0], seen)
            if p.op == "item":
                for q in self.entries.get(p.args[0], ()):
                    out |= self.roots(q, seen)       # an entry stored under a key not known here
        elif p.op == "view":
            out |= self.roots(p.args[1], seen)
        elif p.op == "ite":
            out |= self.roots(p.args[1], seen) | self.roots(p.args[2], seen)
        elif p.op == "cell":
            for q in self.alias.get(p, ()):
                out |= self.roots(q, seen)
        elif p.op == "call" and p.args[0] in VIEW_METHODS and p.args[1]:
            out |= self.roots(p.args[1][0], seen)
        return out

    # ------------------------------------------------------------ mutation
    def mutate(self, p, newval, st, node, how):
        """in-place content change of the tensor/array p"""
        self.event("mutate", node, target=p, how=how, value=newval)
        self.set_content(p, newval, st, TRUE)

    def set_content(self, p, newval, st, cond):
        o = p.op
        if o == "ite":
            c, a, b = p.args
            self.set_content(a, ite(c, newval, self.deref(a, st)), st, cond)
            self.set_content(b, ite(c, self.deref(b, st), newval), st, cond)
            return
        if o == "item":
            base = p.args[0]
            if base.op in ("cell", "item", "view", "sym", "attr", "ite") and not self.is_container(base, st):
                old = self.deref(base, st)
                self.set_content(base, mk("store", old, p.args[1], newval), st, cond)
                if base.op != "cell":
                    st.cells[p] = newval
                return
            st.cells[p] = newval
            return
        if o == "view":
            base = p.args[1]
            if p.args[0] in ("detach", "to", "cpu", "contiguous", "float", "data", "requires_grad_", "numpy", "cuda", "type", "double", "half"):
                self.set_content(base, newval, st, cond)
            else:
                old = self.deref(base, st)
                self.set_content(base, mk("store", old, mk("viewkey", p.args[0], p.args[2]), newval), st, cond)
            return
        if o in ("cell", "sym", "attr"):
            st.cells[p] = newval
            return
        if o == "ref" and p.args[0] == "list":
            st.heap[(p, "c", "")] = newval
            return
        # pure temporary: nothing to update

    def is_container(self, p, st):
        return p.op == "ref" or (p.op == "item" and False)

    # ------------------------------------------------------------ attributes
    def class_of(self, p):
        if p in self.types:
            return self.types[p]
        if p.op == "ref" and p.args[0].startswith("inst:"):
            return self.prog.classes.get(p.args[0][5:])
        return None

    def get_attr(self, b, name, st, node=None):
        if b.op == "ite":
            c = b.args[0]
            x = self.get_attr(b.args[1], name, st, node)
            y = self.get_attr(b.args[2], name, st, node)
            return ite(c, x, y)
        if b.op == "mod":
            r = self.prog.module_member(b.args[0], name)
            if r is None:
                self.nameerrors.append((self.where(node), f"module {b.args[0]} has no attribute {name}"))
                return mk("ext", f"{b.args[0]}.{name}")
            return self.member_term(r)
        if b.op == "ext":
            return mk("ext", f"{b.args[0]}.{name}")
        v = self.heapget(st, (b, "a", name))
        if v is not None:
            return v
        if b.op == "cls":
            c = self.prog.classes[b.args[0]]
            r = self.prog.lookup(c, name)
            if isinstance(r, Func):
                return mk("fn", r.qual) if r.kind != "class" else mk("bound", b, r.qual)
            if isinstance(r, Cls):
                return mk("cls", r.qual)
            if isinstance(r, tuple):
                return self.class_attr(r[1], name)
            if name == "__name__":
                return const(c.name)
            return mk("attr", b, name)
        c = self.class_of(b)
        if c is not None:
            r = self.prog.lookup(c, name)
            if isinstance(r, Func):
                if r.kind == "static":
                    return mk("fn", r.qual)
                if r.kind == "property":
                    return self.inline(r, [b], {}, None, st, node, selfp=b)
                return mk("bound", b, r.qual)
            if isinstance(r, Cls):
                return mk("cls", r.qual)
            if isinstance(r, tuple):
                return self.class_attr(r[1], name)
            if name == "__class__":
                return mk("cls", c.qual)
        if b.op == "tuple" or is_const(b):
            return mk("attr", b, name)
        if name in ("data", "T"):
            return mk("view", name, b, (), ())
        return mk("attr", b, name)

    def class_attr(self, k, name):
        key = ("cattr", k.qual, name)
        if key not in self.gcache:
            self.gcache[key] = NONE
            fr = Frame(Func(k.qual, k.node, k.module, k), k.module, k, None, len(self.guards))
            self.stack.append(fr)
            g, self.guards = self.guards, []
            v = self.ev(k.attrs[name], fr, self.base)
            self.guards = g
            self.stack.pop()
            self.gcache[key] = self.bindable(v, self.base)
        return self.gcache[key]

    def member_term(self, r):
        if isinstance(r, Func):
            return mk("fn", r.qual)
        if isinstance(r, Cls):
            return mk("cls", r.qual)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "global":
            return self.global_value(r[1], r[2])
        raise AssertionError(r)

    def global_value(self, m, name):
        key = (m.name, name)
        if key in self.gcache:
            return self.gcache[key]
        self.gcache[key] = mk("sym", f"{m.name}.{name}")
        if name in m.multi or self.assigned_globally(m, name):
            return self.gcache[key]
        fr = Frame(None, m, None, None, len(self.guards))
        self.stack.append(fr)
        ev, g = len(self.events), self.guards
        self.guards = []
        v = self.ev(m.globals[name], fr, self.base)
        del self.events[ev:]
        self.guards = g
        self.stack.pop()
        v = self.bindable(v, self.base)
        self.gcache[key] = v
        return v

    def assigned_globally(self, m, name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global) and name in n.names:
                return True
        return False

    def where(self, node):
        fr = self.stack[-1] if self.stack else None
        return f"{fr.module.path if fr else '?'}:{getattr(node, 'lineno', 0)}"

    # ------------------------------------------------------------ names
    def lookup_name(self, name, fr, st, node):
        if name in st.loc and name not in fr.globals_decl:
            return st.loc[name]
        env = fr.env
        if env is not None and name in env:
            return env[name]
        r = self.prog.module_member(fr.module.name, name)
        if r is not None:
            return self.member_term(r)
        if name in BUILTINS:
            return mk("ext", f"builtins.{name}")
        if name in ("__file__", "__name__"):
            return mk("sym", f"{fr.module.name}.{name}")
        g = self.gcache.get((fr.module.name, name))
        if g is not None:
            return g
        self.nameerrors.append((self.where(node), f"name '{name}' is not defined"))
        return mk("sym", f"?{name}")

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((self.where(e), type(e).__name__))
            return mk("call", f"?{type(e).__name__}", (), (("#", const(self.fresh("unk"))),))
        return m(e, fr, st)

    def val(self, e, fr, st):
        return self.deref(self.ev(e, fr, st), st)

    def ev_Constant(self, e, fr, st):
        return const(e.value)

    def ev_Name(self, e, fr, st):
        return self.lookup_name(e.id, fr, st, e)

    def ev_NamedExpr(self, e, fr, st):
        v = self.bindable(self.ev(e.value, fr, st), st)
        st.loc[e.target.id] = v
        return v

    def ev_Tuple(self, e, fr, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.deref(self.ev(x.value, fr, st), st)
                    if v.op in ("seq", "tuple"):
                        out.extend(v.args)
                    else:
                        out.append(mk("star", v))
                else:
                    out.append(self.ev(x, fr, st))
            return mk("tuple", *out)
        return mk("tuple", *[self.bindable(self.ev(x, fr, st), st) for x in e.elts])

    def mklist(self, items, st):
        r = self.newref("list")
        st.heap[(r, "c", "")] = mk("seq", *items)
        return r

    def ev_List(self, e, fr, st):
        out, sym_ = [], None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.deref(self.ev(x.value, fr, st), st)
                if v.op in ("seq", "tuple"):
                    out.extend(v.args)
                    continue
                out.append(mk("star", v))
            else:
                out.append(self.bindable(self.ev(x, fr, st), st))
        return self.mklist(out, st)

    def ev_Set(self, e, fr, st):
        return mk("set", *[self.val(x, fr, st) for x in e.elts])

    def ev_Dict(self, e, fr, st):
        r = self.newref("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_merge(r, self.ev(v, fr, st), st)
                continue
            kk = self.val(k, fr, st)
            st.heap[(r, "i", kk)] = self.bindable(self.ev(v, fr, st), st)
        return r

    def dict_merge(self, r, other, st):
        """r.update(other)"""
        if other.op == "ite":
            # approximate: unknown base made of both
            pass
        if other.op == "ref" and other.args[0] == "dict":
            b = self.heapget(st, (other, "base", ""))
            if b is not None:
                self.set_base(r, b, st)
            for h in (self.base.heap, st.heap):
                for k, v in list(h.items()):
                    if k[0] is other and k[1] == "i":
                        st.heap[(r, "i", k[2])] = v
            return
        v = other
        if v.op == "cell":
            c = self.deref(v, st)
            if c.op == "dict":
                if c.args[0] is not NONE:
                    self.set_base(r, c.args[0], st)
                for x in c.args[1:]:
                    st.heap[(r, "i", x.args[0])] = x.args[1]
                return
        self.set_base(r, v, st)

    def set_base(self, r, b, st):
        old = self.heapget(st, (r, "base", ""))
        st.heap[(r, "base", "")] = b if old is None or old is UNDEF else mk("call", "dictmerge", (old, b), ())

    def ev_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.val(v.value, fr, st)
                spec = self.val(v.format_spec, fr, st) if v.format_spec is not None else NONE
                conv = v.conversion
                if is_str(x) and spec is NONE and conv == -1:
                    parts.append(x)
                elif is_num(x) and cval(x).denominator == 1 and spec is NONE and conv == -1:
                    parts.append(const(str(int(cval(x)))))
                else:
                    parts.append(mk("fmt", x, spec, const(conv)))
        return self.fstring(parts)

    def formatted(self, text, args, kw):
        """the f-string that text.format(*args, **kw) is, None when unclear"""
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(text):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if spec and "{" in spec:
                    return None
                if field == "":
                    field, auto = str(auto), auto + 1
                x = args[int(field)] if field.isdigit() else kw.get(field)
                if x is None:
                    return None
                if is_str(x) and not spec and not conv:
                    parts.append(x)
                elif is_num(x) and cval(x).denominator == 1 and not spec and not conv:
                    parts.append(const(str(int(cval(x)))))
                else:
                    parts.append(mk("fmt", x, const(spec) if spec else NONE, const(ord(conv) if conv else -1)))
        except (ValueError, IndexError):
            return None
        return self.fstring(parts)

    def percent(self, text, args):
        import re
        parts, k = [], 0
        for lit in re.split(r"(%(?:0\d+)?[sd])", text):
            if re.fullmatch(r"%(?:0\d+)?[sd]", lit):
                if k >= len(args):
                    return None
                x, w = args[k], lit[1:-1]
                k += 1
                if is_str(x) and not w:
                    parts.append(x)
                elif is_num(x) and cval(x).denominator == 1 and not w:
                    parts.append(const(str(int(cval(x)))))
                else:
                    parts.append(mk("fmt", x, const(w) if w else NONE, const(-1)))
            elif "%" in lit:
                return None
            elif lit:
                parts.append(const(lit))
        return self.fstring(parts) if k == len(args) else None

    def fstring(self, parts):
        out = []
        for p in parts:
            if out and is_str(p) and is_str(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(p))
            else:
                out.append(p)
        if not out:
            return const("")
        if len(out) == 1 and is_str(out[0]):
            return out[0]
        return mk("fstr", *out)

    def ev_FormattedValue(self, e, fr, st):
        return mk("fmt", self.val(e.value, fr, st), NONE, const(-1))

    def ev_Attribute(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        return self.get_attr(b, e.attr, st, e)

    def ev_Slice(self, e, fr, st):
        f = lambda x: NONE if x is None else self.val(x, fr, st)
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def ev_Index(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ev_Subscript(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        k = self.val(e.slice, fr, st)
        return self.get_item(b, k, st, e)

    def get_item(self, b, k, st, node=None):
        if b.op == "ite":
            return ite(b.args[0], self.get_item(b.args[1], k, st, node), self.get_item(b.args[2], k, st, node))
        if k.op == "ite" and all(is_const(x) for _, x in leaves(k)):
            return ite(k.args[0], self.get_item(b, k.args[1], st, node), self.get_item(b, k.args[2], st, node))
        v = self.heapget(st, (b, "i", k))
        if v is not None and v is not UNDEF:
            return v
        if b.op == "cell" and is_str(k) and b in self.shallow:
            return self.get_item(self.shallow[b], k, st, node)     # entries of a shallow copy are the original's
        if b.op == "ref" and b.args[0] == "dict":
            base = self.heapget(st, (b, "base", ""))
            if base is not None and is_const(k):
                return self.get_item(base, k, st, node)
            return mk("item", b, k)
        if b.op == "ref" and b.args[0] == "list":
            c = self.heapget(st, (b, "c", ""))
            if c is not None:
                if k.op == "slice":
                    r = self.item_of(c, k)
                    if r.op == "seq":
                        return self.mklist(list(r.args), st)
                    return self.newcell(st, self.item_of(self.deref(b, st), k))
                return self.item_of(c, k)
            return mk("item", b, k)
        if b.op == "tuple":
            return self.item_of(b, k)
        if b.op in ("const", "seq", "dict", "fold"):
            return self.item_of(b, k)
        if b.op == "call":
            return self.item_of(b, k)
        if b.op == "cell":
            c = self.cellget(st, b)
            if c is not None and c.op in ("tuple", "seq", "dict", "upd") and is_const(k):
                r = self.item_of(c, k)
                if r.op != "item":
                    return r
            if c is not None and c.op in ("call", "view") and vec(c) is not None:
                r = self.item_of(c, k)
                if r.op == "seq":
                    return self.newcell(st, mk("call", "tensor", (r,), ()))
                if r.op != "item":
                    return r
            if c is not None and c.op == "call" and c.args[0] in ("deepcopy",):
                # a field of a deep copy: its own storage
                return mk("item", b, k)
        return mk("item", b, k)

    def ev_BinOp(self, e, fr, st):
        l, r = self.ev(e.left, fr, st), self.ev(e.right, fr, st)
        return self.binop(type(e.op).__name__, l, r, st, e)

    def binop(self, op, l, r, st, node):
        if op == "Mult" and r.op == "ref" and r.args[0] == "list" and not (l.op == "ref" and l.args[0] == "list"):
            l, r = r, l
        if l.op == "ref" and l.args[0] == "list":
            cl = self.heapget(st, (l, "c", "")) or l
            if op == "Add":
                if r.op == "ref" and r.args[0] == "list":
                    cr = self.heapget(st, (r, "c", "")) or r
                    ref = self.newref("list")
                    st.heap[(ref, "c", "")] = lcat(cl, cr)
                    return ref
            if op == "Mult":
                rv = self.deref(r, st)
                if is_num(rv) and cl.op == "seq" and 0 <= cval(rv) <= 16:
                    return self.mklist(list(cl.args) * int(cval(rv)), st)
                return mk("call", "list_repeat", (self.deref(l, st), rv), ())
        a, b = self.deref(l, st), self.deref(r, st)
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if op == "Add":
            if a.op in ("fstr", "fmt") or b.op in ("fstr",) or (is_str(a) and not is_num(b)) or (is_str(b)):
                return strcat(a, b)
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.args + b.args))
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op == "tuple" and is_num(y) and 0 <= cval(y) <= 16:
                    return mk("tuple", *(x.args * int(cval(y))))
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Pow":
            return power(a, b)
        if op == "FloorDiv":
            if is_num(a) and is_num(b) and cval(b) != 0:
                return const(Fraction(cval(a) // cval(b)))
            return mk("floordiv", a, b)
        if op == "Mod":
            if is_num(a) and is_num(b) and cval(b) != 0:
                return const(cval(a) % cval(b))
            if is_str(a):
                t = self.percent(cval(a), list(b.args) if b.op == "tuple" else [b])
                if t is not None:
                    return t
            return mk("mod", a, b)
        if op == "MatMult":
            return mk("call", "matmul", (a, b), ())
        return mk("call", "op" + op, (a, b), ())

    def ev_UnaryOp(self, e, fr, st):
        v = self.val(e.operand, fr, st)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return not_(self.truthy(v))
        return mk("call", "invert", (v,), ())

    def truthy(self, v):
        if is_const(v):
            return const(bool(cval(v)))
        if v.op == "seq":
            return const(bool(v.args)) if not any(x.op == "star" for x in v.args) else v
        if v.op == "ite":
            return or_(and_(v.args[0], self.truthy(v.args[1])), and_(not_(v.args[0]), self.truthy(v.args[2]))) \
                if any(is_const(x) for x in v.args[1:]) else v
        return v

    def ev_BoolOp(self, e, fr, st):
        out = []
        isand = isinstance(e.op, ast.And)
        acc = None
        n = len(self.guards)
        for x in e.values:
            if acc is None:
                v = self.ev(x, fr, st)
            else:
                c = self.truthy(self.deref(acc, st))
                g = c if isand else not_(c)
                if g is FALSE:
                    break
                s2 = st.fork()
                self.guards.append(g)
                v = self.ev(x, fr, s2)
                self.guards.pop()
                st.become(self.join(g, s2, st))
            if acc is None:
                acc = v
            else:
                a, b = self.deref(acc, st), self.deref(v, st)
                if self.boolish(a) and self.boolish(b):
                    acc = and_(self.truthy(a), self.truthy(b)) if isand else or_(self.truthy(a), self.truthy(b))
                else:
                    ta = self.truthy(a)
                    acc = ite(ta, v, acc) if isand else ite(ta, acc, v)
        del self.guards[n:]
        return acc

    def boolish(self, t):
        if t.op in ("cmp", "in", "not", "and", "or", "eq", "lt", "le", "isnone", "is"):
            return True
        if t.op == "const" and isinstance(cval(t), bool):
            return True
        if t.op == "call" and t.args[0] in ("os.path.exists", "isinstance", "any", "all", "hasattr", "callable"):
            return True
        return False

    def ev_Compare(self, e, fr, st):
        left = self.ev(e.left, fr, st)
        res = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, fr, st)
            res.append(self.compare(type(op).__name__, left, rv, st))
            left = rv
        return and_(*res)

    def compare(self, op, l, r, st):
        if op in ("In", "NotIn"):
            c = self.contains(l, r, st)
            return c if op == "In" else not_(c)
        a, b = self.deref(l, st), self.deref(r, st)
        if op in ("Is", "Eq", "IsNot", "NotEq"):
            c = self.eq(a, b)
            return c if op in ("Is", "Eq") else not_(c)
        if is_num(a) and is_num(b):
            x, y = cval(a), cval(b)
            return const({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
        if op == "Lt":
            return mk("lt", a, b)
        if op == "Gt":
            return mk("lt", b, a)
        if op == "LtE":
            return mk("le", a, b)
        if op == "GtE":
            return mk("le", b, a)
        raise AssertionError(op)

    def eq(self, a, b):
        if a is b and a.op in ("const", "sym", "attr", "fn", "cls", "ext", "ref"):
            return TRUE
        if is_const(a) and is_const(b):
            return const(cval(a) == cval(b))
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if y.op == "ite":
                    return ite(y.args[0], self.eq(y.args[1], NONE), self.eq(y.args[2], NONE))
                if y.op in ("seq", "dict", "tuple", "fn", "cls", "ref", "add", "mul", "poly", "fstr", "cell", "store", "bound", "ext"):
                    return FALSE
                if y.op == "call" and y.args[0] not in ("?",) and isinstance(y.args[0], str) and \
                        (y.args[0] in METHODY or y.args[0] in ("tensor", "tcat", "clamp", "npcat", "append", "array")
                         or y.args[0].startswith(("torch.", "numpy."))):
                    return FALSE
            if x.op == "ite" and is_const(y) and any(is_const(l) for _, l in leaves(x)):
                return ite(x.args[0], self.eq(x.args[1], y), self.eq(x.args[2], y))
        if a.op in ("fn", "cls", "ext") and b.op in ("fn", "cls", "ext"):
            return const(a is b)
        if a.op in ("fn", "cls", "ext") and is_const(b) or b.op in ("fn", "cls", "ext") and is_const(a):
            return FALSE
        if a.uid > b.uid:
            a, b = b, a
        return mk("eq", a, b)

    def contains(self, l, r, st):
        k = self.deref(l, st)
        if r.op == "ite":
            return ite(r.args[0], self.contains(l, r.args[1], st), self.contains(l, r.args[2], st))
        if r.op == "call" and r.args[0] == "keys":
            r = r.args[1][0]
        if r.op == "cell":
            c = self.deref(r, st)
            if c.op == "call" and c.args[0] == "keys":
                return self.contains(l, c.args[1][0], st)
        if r.op == "ref" and r.args[0] == "dict":
            v = self.heapget(st, (r, "i", k))
            if v is not None:
                if v is UNDEF:
                    return FALSE
                if v.op == "ite" and contains(v, lambda x: x is UNDEF):
                    return self.defined_cond(v)
                return TRUE
            base = self.heapget(st, (r, "base", ""))
            if base is not None and base is not UNDEF:
                return self.contains(l, base, st)
            if is_const(k):
                ents = [kk[2] for h in (self.base.heap, st.heap) for kk in h if kk[0] is r and kk[1] == "i"]
                if all(is_const(x) for x in ents):
                    return FALSE
            return mk("in", k, self.deref(r, st))
        rv = self.deref(r, st)
        if rv.op == "call" and rv.args[0] == "keys":
            rv = rv.args[1][0]
        if rv.op in ("seq", "tuple", "set"):
            if is_const(k) and all(is_const(x) for x in rv.args):
                return const(any(x is k for x in rv.args))
            if all(is_const(x) for x in rv.args):
                return or_(*[self.eq(k, x) for x in rv.args]) if len(rv.args) <= 12 else mk("in", k, rv)
        if is_str(k) and is_str(rv):
            return const(cval(k) in cval(rv))
        if rv.op == "dict":
            for x in rv.args[1:]:
                if x.args[0] is k:
                    return TRUE
            if is_const(k) and all(is_const(x.args[0]) for x in rv.args[1:]):
                if rv.args[0] is NONE:
                    return FALSE
                return self.contains(l, rv.args[0], st)
        if rv.op == "upd":
            for x in rv.args[1:]:
                if x.args[0] is k:
                    return TRUE
            return mk("in", k, rv.args[0])
        if rv.op == "call" and rv.args[0] in ("deepcopy", "copy"):
            return mk("in", k, rv.args[1][0])
        if rv.op == "ite":
            return ite(rv.args[0], self.contains(k, rv.args[1], st), self.contains(k, rv.args[2], st))
        v = self.heapget(st, (r, "i", k))
        if v is not None and is_const(k):
            if v.op == "ite" and contains(v, lambda x: x.op == "item" and x.args[0] is r and x.args[1] is k):
                pass
            else:
                return TRUE
        return mk("in", k, rv)

    def defined_cond(self, v):
        if v is UNDEF:
            return FALSE
        if v.op == "ite":
            return ite(v.args[0], self.defined_cond(v.args[1]), self.defined_cond(v.args[2]))
        return TRUE

    def asked(self, c, k, b, dv, st, node):
        """d.get(k, default) on the keyword arguments of the function is what query_kwargs(k, default, **d)
        gives; where query_kwargs is kept opaque the two are the same term"""
        if c.op != "in" or c.args[0] is not k or c.args[1].op != "sym" or not is_str(k) or \
                not (b.op == "ref" and b.args[0] == "dict"):
            return None
        q = "yuca.utils.query_kwargs"
        try:
            f = self.prog.modules["yuca.utils"].funcs["query_kwargs"]
        except KeyError:
            return None
        if f.qual != q or not self.is_opaque(f):
            return None
        return self.call(mk("fn", q), [k, dv], {}, [b], st, node)

    def ev_IfExp(self, e, fr, st):
        c = self.truthy(self.val(e.test, fr, st))
        if c is TRUE:
            return self.ev(e.body, fr, st)
        if c is FALSE:
            return self.ev(e.orelse, fr, st)
        if c.op == "in" and c.args[1].op == "sym" and isinstance(e.body, ast.Subscript) and isinstance(e.body.value, ast.Name) \
                and isinstance(e.orelse, (ast.Constant, ast.Name, ast.Attribute)):
            b = self.val(e.body.value, fr, st)
            if self.deref(self.val(e.body.slice, fr, st), st) is c.args[0]:
                asked = self.asked(c, c.args[0], b, self.val(e.orelse, fr, st), st, e)
                if asked is not None:
                    return asked
        a, b = st.fork(), st.fork()
        self.guards.append(c)
        va = self.ev(e.body, fr, a)
        self.guards[-1] = not_(c)
        vb = self.ev(e.orelse, fr, b)
        self.guards.pop()
        if va.op not in PTR_OPS and not self.is_scalar(va):
            va_ = self.deref(va, a)
        st.become(self.join(c, a, b))
        return ite(c, va, vb)

    def ev_Lambda(self, e, fr, st):
        n = self.fresh("closure")
        f = Func((fr.func.qual if fr.func else fr.module.name) + ".<lambda>", e, fr.module, None)
        env = dict(fr.env or {})
        env.update(st.loc)
        t = mk("closure", n)
        self.closures[t] = (f, env, fr)
        return t

    def ev_Starred(self, e, fr, st):
        return mk("star", self.val(e.value, fr, st))

    def ev_Await(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ev_ListComp(self, e, fr, st):
        return self.comp(e, e.generators, [e.elt], fr, st, "list")

    def ev_GeneratorExp(self, e, fr, st):
        return self.comp(e, e.generators, [e.elt], fr, st, "list")

    def ev_SetComp(self, e, fr, st):
        return self.comp(e, e.generators, [e.elt], fr, st, "set")

    def ev_DictComp(self, e, fr, st):
        src = copied(e)
        if src is not None:
            c = ast.Call(func=ast.Name(id="dict", ctx=ast.Load()), args=[src], keywords=[])
            ast.copy_location(c, e)
            fix_locations(c, e)
            return self.ev(c, fr, st)
        return self.comp(e, e.generators, [e.key, e.value], fr, st, "dict")

    def comp(self, e, gens, elts, fr, st, kind):
        """comprehension = loop appending to a fresh list/dict"""
        saved = dict(st.loc)
        tmp = f"<comp{self.fresh('comp')}>"
        if kind == "dict":
            r = self.newref("dict")
        else:
            r = self.mklist([], st)
        st.loc[tmp] = r
        if kind == "dict":
            body = [ast.Assign(targets=[ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()), slice=elts[0], ctx=ast.Store())],
                               value=elts[1])]
        else:
            body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=tmp, ctx=ast.Load()), attr="append", ctx=ast.Load()),
                                            args=[elts[0]], keywords=[]))]
        for g in reversed(gens):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            ast.copy_location(b, e)
            fix_locations(b, e)
        s2, exits = self.exec_block(body, st, fr)
        st.become(s2)
        for k in list(st.loc):
            if k not in saved:
                del st.loc[k]
        for k, v in saved.items():
            st.loc[k] = v
        if kind == "set":
            return mk("call", "set", (self.deref(r, st),), ())
        return r

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, fr, st):
        # super()
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and fr.selfp is not None:
            after = fr.cls
            if f.value.args:
                r = self.prog.resolve_expr(fr.module, f.value.args[0])
                if isinstance(r, Cls):
                    after = r
            c = self.class_of(fr.selfp)
            if fr.selfp.op == "cls":
                c = self.prog.classes[fr.selfp.args[0]]
            args, kw, stars = self.evargs(e, fr, st)
            target = self.prog.lookup(c, f.attr, after) if c is not None and after is not None else None
            if isinstance(target, Func):
                return self.invoke(target, [fr.selfp] + args, kw, stars, st, e, selfp=fr.selfp)
            self.event("call", e, name=f"super.{f.attr}", args=tuple([fr.selfp] + args), kw=kw, value=NONE, ptr=fr.selfp)
            return mk("call", f"super.{f.attr}", (self.deref(fr.selfp, st),) + tuple(self.deref(a, st) for a in args),
                      tuple(sorted((k, self.deref(v, st)) for k, v in kw.items())))
        fn = self.ev(f, fr, st)
        args, kw, stars = self.evargs(e, fr, st)
        return self.call(fn, args, kw, stars, st, e)

    def evargs(self, e, fr, st):
        args, kw, stars = [], {}, []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.ev(a.value, fr, st), st)
                if v.op in ("seq", "tuple"):
                    args.extend(v.args)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, fr, st))
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                stars.append(v)
            else:
                kw[k.arg] = v
        # f(**known dict)
        out = []
        for s in stars:
            if s.op == "ref" and s.args[0] == "dict" and self.heapget(st, (s, "base", "")) is None:
                for h in (self.base.heap, st.heap):
                    for k, v in h.items():
                        if k[0] is s and k[1] == "i" and is_str(k[2]) and v is not UNDEF and \
                                not (v.op == "ite" and contains(v, lambda x: x is UNDEF)):
                            kw[cval(k[2])] = v
                if any(k[0] is s and k[1] == "i" and (v.op == "ite" and contains(v, lambda x: x is UNDEF))
                       for k, v in st.heap.items()):
                    out.append(s)
            else:
                out.append(s)
        return args, kw, out

    def call(self, fn, args, kw, stars, st, node):
        if fn.op == "ite":
            c = fn.args[0]
            if c.op == "in" and c.args[1].op == "sym" and is_str(c.args[0]) and fn.args[1].op == "item" and \
                    fn.args[1].args[1] is c.args[0] and fn.args[2].op in ("cls", "fn", "ext"):
                f = self.prog.funcs.get("yuca.utils.query_kwargs")
                if f is not None and self.is_opaque(f):
                    got = self.call(mk("fn", f.qual), [c.args[0], fn.args[2]], {}, [mk("dict", c.args[1])], st, node)
                    return self.call(got, args, kw, stars, st, node)
            a, b = st.fork(), st.fork()
            self.guards.append(c)
            va = self.call(fn.args[1], args, kw, stars, a, node)
            va = self.settle(va, a)
            self.guards[-1] = not_(c)
            vb = self.call(fn.args[2], args, kw, stars, b, node)
            vb = self.settle(vb, b)
            self.guards.pop()
            st.become(self.join(c, a, b))
            return ite(c, va, vb)
        if fn.op == "fn":
            return self.invoke(self.prog.funcs[fn.args[0]], args, kw, stars, st, node)
        if fn.op == "bound":
            f = self.prog.funcs[fn.args[1]]
            return self.invoke(f, [fn.args[0]] + args, kw, stars, st, node, selfp=fn.args[0])
        if fn.op == "cls":
            return self.instantiate(self.prog.classes[fn.args[0]], args, kw, stars, st, node)
        if fn.op == "closure":
            f, env, fr0 = self.closures[fn]
            return self.inline(f, args, kw, stars, st, node, env=env, selfp=fr0.selfp, cls=fr0.cls)
        if fn.op == "ext":
            return self.extcall(fn.args[0], args, kw, stars, st, node)
        c = self.class_of(fn)
        if c is not None:
            for nm in ("__call__", "forward"):
                r = self.prog.lookup(c, nm)
                if isinstance(r, Func):
                    return self.invoke(r, [fn] + args, kw, stars, st, node, selfp=fn)
        if fn.op == "attr":
            return self.method_call(fn.args[0], fn.args[1], args, kw, stars, st, node)
        if fn.op == "cell":
            c = self.cellget(st, fn)
            if c is not None and c.op in ("fn", "cls", "ext", "bound", "closure"):
                return self.call(c, args, kw, stars, st, node)
        # call of an unknown object: uninterpreted function of its arguments
        fv = self.deref(fn, st)
        self.event("call", node, name="<call>", fn=fn, args=tuple(args), kw=kw, stars=tuple(stars), value=NONE, ptr=fn)
        return mk("call", fv, tuple(self.deref(a, st) for a in args), self.kwt(kw, stars, st))

    def settle(self, v, st):
        return v

    def kwt(self, kw, stars, st):
        out = [(k, self.deref(v, st)) for k, v in kw.items()]
        out += [("**%d" % i, self.deref(s, st)) for i, s in enumerate(stars)]
        return tuple(sorted(out, key=lambda x: x[0]))

    def is_opaque(self, f):
        return f.qual in self.opaque or f.qual.split(".")[-1] in self.opaque or \
            ".".join(f.qual.split(".")[-2:]) in self.opaque

    def invoke(self, f, args, kw, stars, st, node, selfp=None):
        if self.is_opaque(f) or len(self.stack) > self.max_depth or \
                sum(1 for x in self.stack if x.func is f) >= 2:
            a = tuple(self.deref(x, st) for x in args)
            ev = self.event("call", node, name=f.qual, fn=mk("fn", f.qual), args=tuple(args), kw=kw, stars=tuple(stars or ()),
                            value=NONE, ptr=selfp)
            n = self.fresh("opq:" + f.qual)
            r = mk("call", f.qual, a, self.kwt(kw, stars or (), st) + (("#", const(n)),))
            ev.data["value"] = r
            if f.node.name == "__init__" and args and args[0].op != "ref":
                self.havoc_self(args[0], st, r)
            return r
        if selfp is None and f.cls is not None and f.kind == "inst" and args:
            selfp = args[0]
        return self.inline(f, args, kw, stars, st, node, selfp=selfp)

    def havoc_self(self, selfp, st, r):
        """opaque constructor re-run on a symbolic object: every attribute becomes unknown"""
        for k in [k for k in st.heap if k[0] is selfp and k[1] == "a"]:
            del st.heap[k]
        for k in [k for k in st.cells if k.op in ("attr", "item") and _root(k) is selfp]:
            del st.cells[k]
        # attributes read from now on denote the re-initialised object
        self.event("havoc", None, target=selfp, by=r)

    def inline(self, f, args, kw, stars, st, node, selfp=None, env=None, cls=None):
        self.inlined[f.qual] = self.inlined.get(f.qual, 0) + 1
        fr = Frame(f, f.module, f.cls or cls, selfp, len(self.guards))
        fr.env = env if env is not None else f.env
        caller_loc = st.loc
        callee = {}
        self.stack.append(fr)
        self.bind_params(f, args, dict(kw), list(stars or ()), st, fr, callee)
        st.loc = callee
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body, fr, st)
            self.stack.pop()
            st.loc = caller_loc
            return v
        ng = len(self.guards)
        work = St(st.loc, st.cells, st.heap)
        end, exits = self.exec_block(f.node.body, work, fr)
        del self.guards[ng:]
        outs = [x for x in exits if x.kind == "return"]
        if end is not None:
            outs.append(Exit("return", TRUE, end, NONE))
        if not outs:
            self.stack.pop()
            st.loc = caller_loc
            raises = [x for x in exits if x.kind == "raise"]
            if raises:
                st.cells, st.heap = raises[-1].st.cells, raises[-1].st.heap
            return UNDEF
        # merge returns (gated)
        val, state = outs[-1].val, outs[-1].st
        prior = [x.cond for x in outs[:-1]]
        for i in range(len(outs) - 2, -1, -1):
            x = outs[i]
            c = self.relative(x.cond, [o.cond for o in outs[:i]])
            val = self.merge_value(c, x.val, val, x.st, state)
            state = self.join(c, St({}, x.st.cells, x.st.heap), St({}, state.cells, state.heap))
        self.stack.pop()
        st.loc, st.cells, st.heap = caller_loc, state.cells, state.heap
        return val

    def merge_value(self, c, a, b, sa, sb):
        return ite(c, a, b)

    def relative(self, c, earlier):
        parts = list(c.args) if c.op == "and" else [c]
        neg_ = {not_(e) for e in earlier}
        parts = [p for p in parts if p not in neg_]
        return and_(*parts)

    def bind_params(self, f, args, kw, stars, st, fr, out):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        i = 0
        for n in names:
            if i < len(args):
                out[n] = self.bindable(args[i], st)
                i += 1
            elif n in kw:
                out[n] = self.bindable(kw.pop(n), st)
            else:
                d = self.default_value(f, n, defaults.get(n))
                out[n] = self.from_stars(n, d, stars, st)
        if a.vararg:
            out[a.vararg.arg] = mk("tuple", *[self.bindable(x, st) for x in args[i:]])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                out[x.arg] = self.bindable(kw.pop(x.arg), st)
            else:
                out[x.arg] = self.from_stars(x.arg, self.default_value(f, x.arg, d), stars, st)
        if a.kwarg:
            if not kw and len(stars) == 1:
                # a symbolic mapping passed through: same contents (a fresh dict in Python)
                s = stars[0]
                r = self.newref("dict")
                self.dict_merge(r, s, st)
                out[a.kwarg.arg] = r
            else:
                r = self.newref("dict")
                for s in stars:
                    self.dict_merge(r, s, st)
                for k, v in kw.items():
                    st.heap[(r, "i", const(k))] = self.bindable(v, st)
                out[a.kwarg.arg] = r

    def from_stars(self, n, default, stars, st):
        v = default
        for s in stars:
            c = self.contains(const(n), s, st)
            if c is FALSE:
                continue
            v = ite(c, self.get_item(s, const(n), st), v)
        return v

    def default_value(self, f, n, d):
        if d is None:
            return mk("sym", f"{f.qual}:{n}") if not isinstance(f.node, ast.Lambda) else mk("sym", n)
        key = (f.qual, n)
        if key not in self.defaults:
            fr = Frame(f, f.module, f.cls, None, len(self.guards))
            self.stack.append(fr)
            self.defaults[key] = self.bindable(self.ev(d, fr, self.base), self.base)
            self.stack.pop()
        return self.defaults[key]

    def instantiate(self, c, args, kw, stars, st, node):
        r = mk("ref", "inst:" + c.qual, self.fresh("inst"))
        self.event("new", node, cls=c, ptr=r, args=tuple(args), kw=kw, stars=tuple(stars))
        init = self.prog.lookup(c, "__init__")
        if isinstance(init, Func):
            self.invoke(init, [r] + args, kw, stars, st, node, selfp=r)
            if self.is_opaque(init):
                st.heap[(r, "a", "<ctor>")] = mk("call", c.qual, tuple(self.deref(x, st) for x in args), self.kwt(kw, stars, st))
        return r

    # ------------------------------------------------------------ external calls
    def extcall(self, name, args, kw, stars, st, node):
        base = name.split(".")[-1]
        if name in self.extern or "." + base in self.extern:
            return self.extern.get(name, self.extern.get("." + base))
        if name.startswith("builtins."):
            r = self.builtin(base, args, kw, stars, st, node)
            if r is not None:
                return r
            name = base
        if name in ("copy.deepcopy", "copy.copy"):
            v = self.deref(args[0], st)
            e = self.event("call", node, name=name, args=tuple(args), kw=kw, value=v, ptr=args[0])
            k = "deepcopy" if base == "deepcopy" else "copy"
            if is_const(v) or v.op in ("fn", "cls"):
                return v
            r = self.newcell(st, mk("call", k, (v,), ()))
            e.data["res"] = r
            if k == "copy":
                # shallow: fields still shared
                self.alias_fields(r, args[0], st)
            return r
        if name in ("functools.reduce",):
            r = self.reduce(args, kw, st, node)
            if r is not None:
                return r
        if base == "partial" and name.startswith("functools"):
            n = self.fresh("closure")
        mod = name.rsplit(".", 1)[0]
        top = name.split(".")[0]
        if mod in ("torch", "numpy", "torch.nn.functional", "math", "torch.special", "numpy.linalg", "numpy.fft", "torch.fft") \
                and (base in METHODY or base in RENAME or base in ("clamp", "add", "sub", "mul", "div", "pow", "neg", "square", "matmul")):
            out = kw.pop("out", None) if "out" in kw else None
            r = self.tensor_op(base, args, kw, st, node, mod)
            if out is not None:
                self.mutate(out, self.deref(r, st), st, node, f"{name}(out=)")
                return out
            return r
        if (name == "numpy.nan_to_num" and kw.get("copy") is FALSE) or \
                (kw.get("inplace") is TRUE and mod in ("torch", "torch.nn.functional", "torch.nn.init")) or \
                (name.startswith("torch.nn.init.") and args):
            kw2 = {k: v for k, v in kw.items() if k not in ("copy", "inplace")}
            r = self.generic(name, args, kw2, stars, st, node)
            self.mutate(args[0], r, st, node, name)
            return args[0]
        if mod in ("numpy.random", "random") and base == "shuffle":
            pass
        if "out" in kw and mod in ("torch", "numpy"):
            out = kw.pop("out")
            r = self.generic(name, args, kw, stars, st, node)
            self.mutate(out, r, st, node, f"{name}(out=)")
            return out
        if name in ("numpy.copyto", "numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.putmask"):
            self.mutate(args[0], mk("call", name, tuple(self.deref(x, st) for x in args), self.kwt(kw, stars, st)), st, node, name)
            return NONE
        if name in ("random.shuffle", "numpy.random.shuffle"):
            self.event("rng", node, name=name)
            self.mutate(args[0], mk("call", name, tuple(self.deref(x, st) for x in args), (("#", const(self.fresh(name))),)), st, node, name)
            return NONE
        return self.generic(name, args, kw, stars, st, node)

    def alias_fields(self, r, src, st):
        self.alias.setdefault(r, set())
        self.shallow[r] = src

    def generic(self, name, args, kw, stars, st, node):
        base = name.split(".")[-1]
        a = tuple(self.deref(x, st) for x in args)
        k = self.kwt(kw, stars, st)
        canon = name
        if name in ("torch.tensor", "torch.as_tensor"):
            canon = "tensor" if base == "tensor" else "astensor"
        elif name in ("numpy.array",):
            canon = "array"
        elif name in ("numpy.asarray", "torch.from_numpy"):
            canon = "asarray" if base == "asarray" else "from_numpy"
        elif name in ("torch.nn.Parameter", "torch.nn.parameter.Parameter"):
            canon = "Parameter"
        elif name in ("numpy.append",):
            canon = "append"
        elif name in ("functools.reduce",):
            canon = "reduce"
        elif name in ("numpy.prod", "math.prod", "torch.prod"):
            if a and a[0].op == "attr" and a[0].args[1] == "shape":
                return mk("numel", a[0].args[0])
            canon = "prod"
        uniq = name in RANDOM or name.startswith(UNIQUE_PREFIX) or name in ("open", "input", "next")
        isobj = name.startswith(OBJ_PREFIX) and base[:1].isupper() and base not in ("Parameter",)
        if name in RANDOM or name.startswith(("numpy.random.", "random.")) or (isobj and name.startswith("torch.nn.")):
            self.event("rng", node, name=name)
        if uniq:
            k = k + (("#", const(self.fresh("u:" + name))),)
        r = mk("call", canon, a, k)
        self.event("call", node, name=name, args=tuple(args), kw=dict(kw), stars=tuple(stars), value=r, ptr=None)
        if isobj:
            return self.newcell(st, r)
        if canon in ("astensor", "asarray", "from_numpy") and args:
            return mk("view", canon, args[0], a[1:], k)
        if name == "torch.nn.Parameter" and args:
            return r
        return r

    KWPOS = {"clamp": ["min", "max"], "sum": ["dim", "keepdim"], "mean": ["dim", "keepdim"], "max": ["dim", "keepdim"],
             "min": ["dim", "keepdim"], "reshape": None, "squeeze": ["dim"], "unsqueeze": ["dim"], "transpose": ["dim0", "dim1"]}

    def tensor_op(self, base, args, kw, st, node, mod=""):
        base0 = base
        base = RENAME.get(base, base)
        kw = dict(kw)
        d = lambda x: self.deref(x, st)
        if mod == "numpy" and base == "tcat_":
            base = "npcat"
        if base in ("add", "mul", "sub", "div", "pow", "neg", "square", "matmul"):
            if base in ("neg",):
                return neg(d(args[0]))
            if base == "square":
                return power(d(args[0]), const(2))
            if len(args) < 2 and "other" in kw:
                args = list(args) + [kw.pop("other")]
            if len(args) < 2 and "exponent" in kw:
                args = list(args) + [kw.pop("exponent")]
            if len(args) >= 2:
                b = d(args[1])
                if "alpha" in kw:
                    b = mul(d(kw["alpha"]), b)
                if base == "matmul":
                    return mk("call", "matmul", (d(args[0]), b), ())
                return self.arith({"add": "Add", "mul": "Mult", "sub": "Sub", "div": "Div", "pow": "Pow"}[base], d(args[0]), b)
        if base == "sqrt":
            return power(d(args[0]), const(Fraction(1, 2))) if False else mk("call", "sqrt", (d(args[0]),), ())
        if base in ("tcat_", "npcat", "stack"):
            x = args[0] if args else kw.pop("tensors", kw.pop("arrays", NONE))
            dim = args[1] if len(args) > 1 else kw.get("dim", kw.get("axis", const(0)))
            seq = d(x)
            if seq.op == "tuple":
                seq = mk("seq", *seq.args)
            if base == "npcat":
                return mk("call", "npcat", (d(dim), seq), ())
            return self.tcat(d(dim), seq)
        if base in VIEW_METHODS and base not in ("data",):
            extra = tuple(d(x) for x in args[1:])
            k = self.kwt(kw, (), st)
            if args:
                self.event("call", node, name="." + base, args=tuple(args), kw=kw, value=NONE, ptr=args[0])
                if base in ("flatten",):
                    return mk("call", "ravel", (d(args[0]),) + extra, k)
                return mk("view", base, args[0], extra, k)
        a = [d(x) for x in args]
        if "axis" in kw and "dim" not in kw:
            kw["dim"] = kw.pop("axis")
        if "keepdims" in kw:
            kw["keepdim"] = kw.pop("keepdims")
        if base in ("min", "max") and mod in ("",) and False:
            pass
        pos = self.KWPOS.get(base)
        if pos:
            for p in pos:
                alts = {"min": ("min", "a_min"), "max": ("max", "a_max")}.get(p, (p,))
                for q in alts:
                    if q in kw:
                        i = pos.index(p) + 1
                        while len(a) < i:
                            a.append(NONE)
                        if len(a) == i:
                            a.append(d(kw.pop(q)))
                        else:
                            a[i] = d(kw.pop(q))
        if base == "clamp_min":
            base, a = "clamp", [a[0], a[1] if len(a) > 1 else d(kw.pop("min")), NONE]
        elif base == "clamp_max":
            base, a = "clamp", [a[0], NONE, a[1] if len(a) > 1 else d(kw.pop("max"))]
        elif base == "hardtanh":
            lo = a[1] if len(a) > 1 else d(kw.pop("min_val", const(-1)))
            hi = a[2] if len(a) > 2 else d(kw.pop("max_val", const(1)))
            base, a = "clamp", [a[0], lo, hi]
        if base == "clamp":
            while len(a) < 3:
                a.append(NONE)
        if base in ("numel",) and a:
            return mk("numel", a[0])
        if base == "prod" and len(a) == 1 and a[0].op == "attr" and a[0].args[1] == "shape":
            return mk("numel", a[0].args[0])
        r = mk("call", base, tuple(a), self.kwt(kw, (), st))
        self.event("call", node, name="." + base, args=tuple(args), kw=kw, value=r, ptr=args[0] if args else None)
        if base == "copy" and mod == "" and args and args[0].op in ("sym", "attr", "item"):
            r = self.newcell(st, r)
            self.shallow[r] = args[0]
        return r

    def tcat(self, dim, seq):
        if seq.op == "seq" and dim is const(0) and seq.args and all(vec(x) is not None for x in seq.args):
            return mk("call", "tensor", (mk("seq", *[y for x in seq.args for y in vec(x).args]),), ())
        if seq.op == "seq":
            r = flatten_tcat(mk("call", "tcat", (dim, seq), ()))
            return r
        return mk("call", "tcat", (dim, seq), ())

    def keyfn(self, kw, st, node):
        """a sort key function as the value it gives for an element"""
        f = kw.get("key")
        if f is None or f.op not in ("closure", "fn", "bound"):
            return kw
        x = mk("sym", "<key.x>")
        kw = dict(kw)
        kw["key"] = mk("lam", x, self.deref(self.call(f, [x], {}, [], st, node), st))
        return kw

    def reduce(self, args, kw, st, node):
        f, seq = args[0], args[1]
        if f.op == "closure" or f.op == "fn" or f.op == "ext":
            x, y = mk("sym", "<red.x>"), mk("sym", "<red.y>")
            self.scalars |= {x, y}
            v = self.deref(self.call(f, [x, y], {}, [], st, node), st)
            s = self.deref(seq, st)
            if v in (mk("mul", x, y), mk("mul", y, x)) or (f.op == "ext" and f.args[0] in ("operator.mul",)):
                if s.op == "attr" and s.args[1] == "shape":
                    return mk("numel", s.args[0])
                return mk("call", "prod", (s,), ())
            if v in (mk("add", x, y), mk("add", y, x)):
                return mk("call", "sum", (s,), ())
        return None

    def builtin(self, name, args, kw, stars, st, node):
        d = lambda x: self.deref(x, st)
        if name == "len":
            return self.length(args[0], st)
        if name in ("int", "float", "str", "bool"):
            if not args:
                return const({"int": 0, "float": 0.0, "str": "", "bool": False}[name])
            v = d(args[0])
            if is_const(v):
                try:
                    c = cval(v)
                    if name == "int":
                        return const(int(c))
                    if name == "float":
                        return const(float(c)) if isinstance(c, str) else v
                    if name == "str":
                        return const(str(int(c)) if isinstance(c, Fraction) and c.denominator == 1 else
                                     (str(float(c)) if isinstance(c, Fraction) else str(c)))
                    return const(bool(c))
                except Exception:
                    pass
            if name == "str":
                return mk("fstr", mk("fmt", v, NONE, const(-1)))
            if name == "bool":
                return self.truthy(v)
            return mk("call", name, (v,), ())
        if name in ("list", "tuple"):
            if not args:
                return self.mklist([], st) if name == "list" else mk("tuple")
            v = args[0]
            c = d(v)
            if c.op in ("seq", "tuple"):
                src = self.heapget(st, (v, "c", "")) if v.op == "ref" else c
                items = (src or c).args if (src or c).op in ("seq", "tuple") else c.args
                return self.mklist(list(items), st) if name == "list" else mk("tuple", *items)
            if name == "list":
                r = self.newref("list")
                st.heap[(r, "c", "")] = mk("call", "list", (c,), ()) if c.op not in ("fold", "lcat", "over") else c
                return r
            return mk("call", "list", (c,), ())
        if name == "dict":
            r = self.newref("dict")
            for a in args:
                self.dict_merge(r, a, st)
            for s in stars:
                self.dict_merge(r, s, st)
            for k, v in kw.items():
                st.heap[(r, "i", const(k))] = self.bindable(v, st)
            return r
        if name == "range":
            a = [d(x) for x in args]
            if len(a) == 1:
                a = [const(0), a[0], const(1)]
            elif len(a) == 2:
                a = a + [const(1)]
            if all(is_num(x) and cval(x).denominator == 1 for x in a):
                rg = range(*[int(cval(x)) for x in a])
                if len(rg) <= 32:
                    return mk("seq", *[const(i) for i in rg])
            return mk("range", *a)
        if name == "enumerate":
            return mk("enumerate", args[0], d(args[1]) if len(args) > 1 else (d(kw["start"]) if "start" in kw else const(0)))
        if name == "zip":
            return mk("zip", *args)
        if name == "reversed":
            c = d(args[0])
            if c.op == "seq":
                return mk("seq", *reversed(c.args))
            return mk("reversed", args[0])
        if name in ("iter",):
            return args[0]
        if name == "print":
            self.event("print", node, args=tuple(d(x) for x in args))
            return NONE
        if name in ("min", "max"):
            if len(args) == 1:
                c = d(args[0])
                items = c.args if c.op in ("seq", "tuple") else None
            else:
                items = tuple(d(x) for x in args)
            if items is not None:
                if all(is_num(x) for x in items):
                    return const((min if name == "min" else max)(cval(x) for x in items))
                return mk("call", name + "_py", tuple(sorted(items, key=lambda t: t.uid)), ())
            return mk("call", name, (d(args[0]),), self.kwt(kw, stars, st))
        if name == "abs":
            return mk("call", "abs", (d(args[0]),), ())
        if name == "round":
            return mk("call", "round_py", tuple(d(x) for x in args), ())
        if name == "sum":
            c = d(args[0])
            if c.op in ("seq", "tuple"):
                r = d(args[1]) if len(args) > 1 else const(0)
                for x in c.args:
                    r = add(r, x)
                return r
            if c.op == "over":
                r = mk("bigsum", c.args[0], c.args[1].args[0]) if c.args[1].op == "seq" and len(c.args[1].args) == 1 else mk("call", "sum", (c,), ())
                return r
            return mk("call", "sum", (c,), ())
        if name == "type":
            v = args[0]
            c = self.class_of(v)
            if c is not None:
                return mk("cls", c.qual)
            x = d(v)
            if is_const(x):
                cv = cval(x)
                if isinstance(cv, str):
                    return mk("ext", "builtins.str")
                if isinstance(cv, bool):
                    return mk("ext", "builtins.bool")
            if x.op == "seq":
                return mk("ext", "builtins.list")
            if x.op == "call" and x.args[0] in ("tensor", "tcat", "clamp", "Parameter") or \
                    (x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("torch.") and not x.args[0].split(".")[-1][0].isupper()):
                return mk("ext", "torch.Tensor")
            return mk("typeof", x)
        if name == "isinstance":
            ty = self.builtin("type", [args[0]], {}, [], st, node)
            k = args[1]
            kk = d(k)
            if ty.op != "typeof":
                opts = kk.args if kk.op == "tuple" else (kk,)
                if ty.op == "cls" and all(o.op in ("cls", "ext") for o in opts):
                    c = self.prog.classes[ty.args[0]]
                    return const(any(o.op == "cls" and self.prog.classes[o.args[0]] in self.prog.mro(c) for o in opts))
                if ty.op == "ext" and all(o.op in ("ext", "cls") for o in opts):
                    return const(any(o is ty for o in opts))
            opts = kk.args if kk.op == "tuple" else (kk,)
            return or_(*[self.eq(ty, o) for o in opts])
        if name == "getattr" and len(args) >= 2 and is_str(d(args[1])):
            return self.get_attr(args[0], cval(d(args[1])), st, node)
        if name == "setattr" and len(args) == 3 and is_str(d(args[1])):
            self.set_attr(args[0], cval(d(args[1])), args[2], st, node)
            return NONE
        if name == "hasattr" and len(args) == 2 and is_str(d(args[1])):
            nm = cval(d(args[1]))
            if self.heapget(st, (args[0], "a", nm)) is not None:
                return TRUE
            c = self.class_of(args[0])
            if c is not None and self.prog.lookup(c, nm) is not None:
                return TRUE
            return mk("call", "hasattr", (d(args[0]), d(args[1])), ())
        if name == "sorted":
            self.event("call", node, name="sorted", args=tuple(args), kw=kw, value=NONE, ptr=None)
            kw = self.keyfn(kw, st, node)
            return mk("call", "sorted", tuple(d(x) for x in args), self.kwt(kw, stars, st))
        if name == "map":
            # map(f, xs) -> comprehension
            f, xs = args[0], args[1]
            tmpf, tmpx = f"<mapf{self.fresh('comp')}>", f"<mapx{self.fresh('comp')}>"
            fr = self.stack[-1]
            st.loc[tmpf], st.loc[tmpx] = f, xs
            e = ast.parse("[F(a) for a in X]", mode="eval").body
            e.elt.func.id, e.generators[0].iter.id = tmpf, tmpx
            fix_locations(e, node)
            return self.ev(e, fr, st)
        if name in ("any", "all"):
            c = d(args[0])
            if c.op in ("seq", "tuple"):
                return (or_ if name == "any" else and_)(*[self.truthy(x) for x in c.args])
            return mk("call", name, (c,), ())
        if name == "open":
            self.event("call", node, name="open", args=tuple(args), kw=kw, value=NONE, ptr=None)
            return self.newcell(st, mk("call", "open", tuple(d(x) for x in args), self.kwt(kw, stars, st) + (("#", const(self.fresh("open"))),)))
        if name == "set":
            return mk("call", "set", tuple(d(x) for x in args), ())
        if name == "pow":
            return power(d(args[0]), d(args[1]))
        if name == "slice":
            a = [d(x) for x in args]
            if len(a) == 1:
                a = [NONE, a[0], NONE]
            while len(a) < 3:
                a.append(NONE)
            return mk("slice", *a)
        if name == "exit" or name == "quit":
            self.event("call", node, name="exit", args=tuple(args), kw=kw, value=NONE, ptr=None)
            return NONE
        return None

    def length(self, p, st):
        if p.op == "ite":
            return ite(p.args[0], self.length(p.args[1], st), self.length(p.args[2], st))
        c = self.deref(p, st)
        return length_of(c)

    # ------------------------------------------------------------ method calls on unknown objects
    LISTMUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard"}

    def method_call(self, b, name, args, kw, stars, st, node):
        d = lambda x: self.deref(x, st)
        if b.op == "ite":
            return self.call(ite(b.args[0], self.get_attr(b.args[1], name, st, node), self.get_attr(b.args[2], name, st, node)),
                             args, kw, stars, st, node)
        # ---- list/dict objects
        if b.op == "ref" and b.args[0] == "list":
            r = self.list_method(b, name, args, kw, st, node)
            if r is not None:
                return r
        if b.op == "ref" and b.args[0] == "dict":
            r = self.dict_method(b, name, args, kw, stars, st, node)
            if r is not None:
                return r
        if name in ("keys", "items", "values") and not args:
            if b.op == "cell" and self.deref(b, st).op == "dict":
                dd = self.deref(b, st)
                if dd.args[0] is NONE:
                    items = dd.args[1:]
                    if name == "keys":
                        return mk("seq", *[x.args[0] for x in items])
                    if name == "values":
                        return mk("seq", *[x.args[1] for x in items])
                    return mk("seq", *items)
            return mk("call", name, (b,), ())
        if name == "get" and args and is_str(d(args[0])):
            k = d(args[0])
            c = self.contains(k, b, st)
            dv = args[1] if len(args) > 1 else kw.get("default", NONE)
            asked = self.asked(c, k, b, dv, st, node)
            if asked is not None:
                return asked
            return ite(c, self.get_item(b, k, st, node), dv)
        v = d(b)
        # ---- strings
        if is_str(v) or v.op in ("fstr",) or name in ("replace", "split", "strip", "startswith", "endswith", "lower", "upper",
                                                      "join", "format", "splitlines", "readlines", "rstrip", "lstrip", "encode", "decode", "partition", "rpartition"):
            r = self.str_method(v, name, [d(x) for x in args], kw, st)
            if r is not None:
                return r
        if name in ("copy_", "fill_", "set_") or (name.endswith("_") and not name.endswith("__") and name not in
                                                   ("requires_grad_", "squeeze_", "unsqueeze_", "t_", "no_grad_", "eval_", "share_memory_", "retain_grad_")):
            a = tuple(d(x) for x in args)
            if name == "copy_":
                nv = a[0] if a else v
            elif name == "fill_":
                nv = a[0]
            elif name == "zero_":
                nv = const(0)
            else:
                op = name[:-1]
                if op in METHODY or op in RENAME or op in ("add", "sub", "mul", "div", "pow", "neg", "square", "clamp"):
                    nv = self.deref(self.tensor_op(op, [b] + list(args), dict(kw), st, node), st)
                else:
                    nv = mk("call", op, (v,) + a, self.kwt(kw, stars, st) + ((("#", const(self.fresh("u:" + op))),) if op in ("normal", "uniform", "random", "bernoulli", "exponential") else ()))
                if op in ("normal", "uniform", "random", "bernoulli", "exponential"):
                    self.event("rng", node, name="." + name)
            self.mutate(b, nv, st, node, "." + name)
            return b
        if name in ("fill",) and len(args) == 1:
            self.mutate(b, d(args[0]), st, node, ".fill")
            return NONE
        if name in self.LISTMUT and not (name in ("sort", "add") and args and name == "add") and name not in ("add", "sort", "pop", "update") \
                or (name in ("pop", "update", "sort") and not self.known_tensor(v)):
            if name != "sort" or True:
                # unknown container mutated
                r = self.unknown_container(b, v, name, args, kw, st, node)
                if r is not None:
                    return r
        if "out" in kw and kw["out"] is not NONE:
            out = kw.pop("out")
            a = tuple(self.deref(x, st) for x in [b] + list(args))
            self.mutate(out, mk("call", "." + name, a, self.kwt(kw, stars, st)), st, node, f".{name}(out=)")
            return out
        if name in VIEW_METHODS or name in METHODY or name in RENAME or name in ("clamp", "add", "sub", "mul", "div", "pow", "neg", "square", "matmul"):
            if not self.is_module_like(b, v, name):
                return self.tensor_op(name, [b] + list(args), kw, st, node)
        if name == "size" and self.looks_tensor(b):
            sh = mk("attr", v, "shape")
            return self.item_of(sh, d(args[0])) if args else sh
        if name == "dim" and not args:
            return mk("len", mk("attr", v, "shape"))
        if name == "parameters" or name == "named_parameters":
            pass
        # ---- anything else: uninterpreted method
        a = (v if v.op != "sym" or True else b,) + tuple(d(x) for x in args)
        k = self.kwt(kw, stars, st)
        full = None
        if b.op == "ext":
            full = b.args[0] + "." + name
        opname = "." + name
        if opname in self.extern:
            return self.extern[opname]
        extra = ()
        if name in ("recv", "send", "read", "readline", "readlines", "write", "step", "backward", "sample", "seed", "manual_seed",
                    "bcast", "gather", "scatter", "parse_args"):
            extra = (("#", const(self.fresh("u:" + opname))),)
        r = mk("call", opname, a, k + extra)
        self.event("call", node, name=opname, args=tuple([b] + list(args)), kw=dict(kw), stars=tuple(stars), value=r, ptr=b)
        return r

    def known_tensor(self, v):
        return v.op in ("add", "mul", "pow", "poly", "store") or (v.op == "call" and v.args[0] in METHODY)

    def looks_tensor(self, b):
        return True

    def is_module_like(self, b, v, name):
        """x.to(device) on a network/CA moves it in place rather than giving a view"""
        if name not in ("to", "cpu", "cuda", "double", "float", "half", "type"):
            return False
        if b.op == "cell" and v is b:
            return True
        if self.class_of(b) is not None:
            return True
        if b in self.modules_like:
            return True
        return False

    modules_like = frozenset()

    def unknown_container(self, b, v, name, args, kw, st, node):
        a = tuple(self.deref(x, st) for x in args)
        self.event("mutate", node, target=b, how="." + name, value=NONE, cargs=tuple(args))
        if name == "append" and args:
            nv = lcat(v, mk("seq", self.bindable(args[0], st)))
        elif name == "extend" and args:
            nv = lcat(v, a[0])
        elif name == "sort":
            nv = mk("call", "sorted", (v,) + a, self.kwt(self.keyfn(kw, st, node), (), st))
        else:
            nv = mk("call", "mut." + name, (v,) + a, self.kwt(kw, (), st))
        if b.op in ("cell", "sym", "attr", "item"):
            st.cells[b] = nv
        if name in ("append", "extend", "insert", "remove", "clear", "sort", "reverse", "update"):
            return NONE
        return mk("call", "." + name, (v,) + a, ())

    def list_method(self, b, name, args, kw, st, node):
        c = self.heapget(st, (b, "c", ""))
        if c is None:
            return None
        key = (b, "c", "")
        if name == "append":
            self.event("listmut", node, target=b, how=name, value=args[0])
            st.heap[key] = lcat(c, mk("seq", self.bindable(args[0], st)))
            return NONE
        if name == "extend":
            self.event("listmut", node, target=b, how=name, value=args[0])
            x = args[0]
            cx = self.heapget(st, (x, "c", "")) if x.op == "ref" else None
            st.heap[key] = lcat(c, cx if cx is not None else self.deref(x, st))
            return NONE
        if name == "insert":
            self.event("listmut", node, target=b, how=name, value=args[1])
            if self.deref(args[0], st) is const(0):
                st.heap[key] = lcat(mk("seq", self.bindable(args[1], st)), c)
            else:
                st.heap[key] = mk("call", "mut.insert", (c, self.deref(args[0], st), self.deref(args[1], st)), ())
            return NONE
        if name == "reverse":
            self.event("listmut", node, target=b, how=name, value=NONE)
            st.heap[key] = mk("seq", *reversed(c.args)) if c.op == "seq" else mk("call", "listrev", (self.deref(b, st),), ())
            return NONE
        if name == "sort":
            self.event("listmut", node, target=b, how=name, value=NONE)
            kw = self.keyfn(kw, st, node)
            st.heap[key] = mk("call", "sorted", (self.deref(b, st),), self.kwt(kw, (), st))
            return NONE
        if name == "copy":
            r = self.newref("list")
            st.heap[(r, "c", "")] = c
            return r
        if name in ("remove", "pop", "clear"):
            self.event("listmut", node, target=b, how=name, value=args[0] if args else NONE)
            if name == "clear":
                st.heap[key] = mk("seq")
                return NONE
            if name == "pop" and c.op == "seq" and c.args and (not args or is_num(self.deref(args[0], st))):
                i = int(cval(self.deref(args[0], st))) if args else -1
                items = list(c.args)
                v = items.pop(i)
                st.heap[key] = mk("seq", *items)
                return v
            st.heap[key] = mk("call", "mut." + name, (self.deref(b, st),) + tuple(self.deref(x, st) for x in args), ())
            return NONE if name == "remove" else mk("call", "popped", (self.deref(b, st),), ())
        if name in ("index", "count"):
            return mk("call", name, (self.deref(b, st),) + tuple(self.deref(x, st) for x in args), ())
        return None

    def dict_method(self, b, name, args, kw, stars, st, node):
        base = self.heapget(st, (b, "base", ""))
        if name in ("keys", "items", "values") and base is None:
            ents = {}
            for h in (self.base.heap, st.heap):
                for k, v in h.items():
                    if k[0] is b and k[1] == "i":
                        ents[k[2]] = v
            if all(is_const(k) for k in ents) and not any(v is UNDEF or v.op == "ite" and contains(v, lambda x: x is UNDEF) for v in ents.values()):
                if name == "keys":
                    return mk("seq", *ents.keys())
                if name == "values":
                    return mk("seq", *ents.values())
                return mk("seq", *[mk("tuple", k, v) for k, v in ents.items()])
            return mk("call", name, (b,), ())
        if name in ("keys", "items", "values"):
            return mk("call", name, (b,), ())
        if name == "update":
            self.event("setitem", node, target=b, key=NONE, value=args[0] if args else NONE)
            for a in args:
                self.dict_merge(b, a, st)
            for k, v in kw.items():
                st.heap[(b, "i", const(k))] = self.bindable(v, st)
            return NONE
        if name == "copy":
            r = self.newref("dict")
            self.dict_merge(r, b, st)
            return r
        if name == "setdefault":
            k = self.deref(args[0], st)
            c = self.contains(k, b, st)
            v = ite(c, self.get_item(b, k, st, node), self.bindable(args[1], st) if len(args) > 1 else NONE)
            st.heap[(b, "i", k)] = v
            return v
        if name == "pop":
            k = self.deref(args[0], st)
            c = self.contains(k, b, st)
            v = ite(c, self.get_item(b, k, st, node), args[1]) if len(args) > 1 else self.get_item(b, k, st, node)
            self.event("setitem", node, target=b, key=k, value=UNDEF)
            st.heap[(b, "i", k)] = UNDEF
            return v
        return None

    def str_method(self, v, name, args, kw, st):
        if is_str(v) and all(is_const(a) for a in args) and not kw:
            s = cval(v)
            a = [int(cval(x)) if is_num(x) else cval(x) for x in args]
            try:
                if name in ("replace", "strip", "lower", "upper", "rstrip", "lstrip", "startswith", "endswith"):
                    return const(getattr(s, name)(*a))
                if name == "split":
                    return self.mklist([const(x) for x in s.split(*a)], st)
            except Exception:
                return None
        if name == "join" and is_str(v) and args:
            if args[0].op in ("seq", "tuple"):
                out = None
                for x in args[0].args:
                    out = x if out is None else strcat(strcat(out, v), x)
                return out if out is not None else const("")
            return mk("call", ".join", (v, args[0]), ())
        if name == "format" and is_str(v):
            t = self.formatted(cval(v), list(args), dict(kw))
            if t is not None:
                return t
            return mk("call", ".format", (v,) + tuple(args), self.kwt(kw, (), st))
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        """returns (state or None, exits); pushes path guards for the remainder of the block"""
        exits = []
        n = len(self.guards)
        for s in stmts:
            st, ex = self.exec(s, st, fr)
            exits.extend(ex)
            if st is None:
                break
        del self.guards[n:]
        return st, exits

    def exec(self, s, st, fr):
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((self.where(s), type(s).__name__))
            return st, []
        return m(s, st, fr)

    def ex_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st, []
        self.ev(s.value, fr, st)
        return st, []

    def ex_Pass(self, s, st, fr):
        return st, []

    def ex_Global(self, s, st, fr):
        fr.globals_decl |= set(s.names)
        return st, []

    ex_Nonlocal = ex_Pass

    def ex_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            st.loc[nm] = mk("mod", full) if full in self.prog.modules else mk("ext", full)
        return st, []

    def ex_ImportFrom(self, s, st, fr):
        for a in s.names:
            base = s.module or ""
            if s.level:
                pkg = fr.module.name.split(".")
                pkg = pkg[:len(pkg) - s.level + (1 if fr.module.path.endswith("__init__.py") else 0)]
                base = ".".join(pkg + ([s.module] if s.module else []))
            if base in self.prog.modules:
                r = self.prog.module_member(base, a.name)
                st.loc[a.asname or a.name] = self.member_term(r) if r is not None else mk("sym", f"?{a.name}")
            else:
                st.loc[a.asname or a.name] = mk("ext", f"{base}.{a.name}")
        return st, []

    def ex_FunctionDef(self, s, st, fr):
        n = self.fresh("closure")
        f = Func((fr.func.qual if fr.func else fr.module.name) + "." + s.name, s, fr.module, None)
        env = dict(fr.env or {})
        env.update(st.loc)
        t = mk("closure", n)
        env[s.name] = t
        self.closures[t] = (f, env, fr)
        st.loc[s.name] = t
        return st, []

    def ex_ClassDef(self, s, st, fr):
        st.loc[s.name] = mk("sym", f"localclass:{s.name}")
        return st, []

    def ex_Return(self, s, st, fr):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        return None, [Exit("return", self.pathcond(fr), st, v, tuple(self.guards))]

    def ex_Raise(self, s, st, fr):
        v = self.ev(s.exc, fr, st) if s.exc is not None else NONE
        self.event("raise", s, value=v)
        return None, [Exit("raise", self.pathcond(fr), st, v)]

    def ex_Assert(self, s, st, fr):
        c = self.truthy(self.val(s.test, fr, st))
        if c is FALSE:
            self.event("raise", s, value=mk("sym", "AssertionError"))
            return None, [Exit("raise", self.pathcond(fr), st)]
        self.event("assert", s, cond=c)
        return st, []

    def ex_Break(self, s, st, fr):
        return None, [Exit("break", and_(*self.guards[self.loopbase[-1]:]), st)]

    def ex_Continue(self, s, st, fr):
        return None, [Exit("continue", and_(*self.guards[self.loopbase[-1]:]), st)]

    loopbase = []

    def ex_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr, st)
                k = self.val(t.slice, fr, st)
                self.event("setitem", s, target=b, key=k, value=UNDEF)
                if b.op == "ref" and b.args[0] == "dict":
                    st.heap[(b, "i", k)] = UNDEF
                elif b.op != "ref":
                    self.event("mutate", s, target=b, how="del", value=UNDEF)
                    if is_str(k):
                        st.heap[(b, "i", k)] = UNDEF
        return st, []

    def ex_Assign(self, s, st, fr):
        v = self.ev(s.value, fr, st)
        v = self.bindable(v, st)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st, []

    def ex_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.bindable(self.ev(s.value, fr, st), st), st, fr, s)
        return st, []

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                self.event("setglobal", node, name=t.id, value=v)
                self.gcache[(fr.module.name, t.id)] = v if False else mk("sym", f"{fr.module.name}.{t.id}")
                if self.track_globals and not self.guards and not self.loops:
                    self.gcache[(fr.module.name, t.id)] = v
            st.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.event("unpack", node, value=v, n=len(t.elts))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.get_item(v, mk("slice", const(i), NONE, NONE), st, node), st, fr, node)
                else:
                    self.assign(x, self.bindable(self.destructure(v, i, st, node), st), st, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, st)
            self.set_attr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, st)
            k = self.val(t.slice, fr, st)
            self.set_item(b, k, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)

    def destructure(self, v, i, st, node):
        return self.get_item(v, const(i), st, node)

    def set_attr(self, b, name, v, st, node):
        v = self.bindable(v, st)
        if b.op == "ite":
            c = b.args[0]
            for x, cc in ((b.args[1], c), (b.args[2], not_(c))):
                old = self.get_attr(x, name, st, node)
                self.guards.append(cc)
                self.set_attr(x, name, ite(cc, v, old), st, node)
                self.guards.pop()
            return
        if name == "data" and b.op in ("cell", "item", "attr", "sym"):
            self.mutate(b, self.deref(v, st), st, node, ".data=")
            return
        old = self.heapget(st, (b, "a", name))
        self.event("setattr", node, target=b, name=name, value=v, content=self.deref(v, st), old=old)
        p = mk("attr", b, name)
        if p in st.cells:
            del st.cells[p]
        for k in [k for k in st.cells if k.op in ("item", "attr") and k.args[0] is p]:
            del st.cells[k]
        st.heap[(b, "a", name)] = v
        # keep the network's type for later method resolution
        c = self.prog_setter(b, name)

    def prog_setter(self, b, name):
        return None

    def set_item(self, b, k, v, st, node):
        if b.op == "ite":
            for x, cc in ((b.args[1], b.args[0]), (b.args[2], not_(b.args[0]))):
                self.guards.append(cc)
                self.set_item(x, k, ite(cc, v, self.get_item(x, k, st, node)), st, node)
                self.guards.pop()
            return
        if b.op == "ref" and b.args[0] == "dict":
            self.event("setitem", node, target=b, key=k, value=v)
            if not is_const(k) and isinstance(v, T) and v.op in ("item", "ref", "view", "attr", "sym", "ite", "cell"):
                self.entries.setdefault(b, set()).add(v)
            st.heap[(b, "i", k)] = v
            return
        if b.op == "ref" and b.args[0] == "list":
            c = self.heapget(st, (b, "c", ""))
            self.event("listmut", node, target=b, how="setitem", value=v, key=k)
            if c is not None and c.op == "seq" and is_num(k) and -len(c.args) <= cval(k) < len(c.args):
                items = list(c.args)
                items[int(cval(k))] = v
                st.heap[(b, "c", "")] = mk("seq", *items)
            else:
                st.heap[(b, "c", "")] = mk("store", c if c is not None else b, k, self.deref(v, st))
            return
        if is_str(k):
            # named entry of an unknown mapping
            self.event("mutate", node, target=b, how=f"[{cval(k)!r}]=", value=self.deref(v, st), key=k, ptrval=v)
            slot = mk("item", b, k)
            if v is slot:
                return
            if self.heapget(st, (b, "i", k)) is None and self.cellget(st, slot) is None:
                st.cells[slot] = self.deref(slot, st)   # whoever already read the entry keeps the old value
            st.heap[(b, "i", k)] = v
            return
        nv = self.deref(v, st)
        if self.full_slice(k):
            self.mutate(b, nv, st, node, "[:]=")
            return
        self.event("mutate", node, target=b, how="[]=", value=nv, key=k)
        old = self.deref(b, st)
        self.set_content(b, mk("store", old, k, nv), st, TRUE)

    def full_slice(self, k):
        def full(x):
            return (x.op == "slice" and all(a is NONE for a in x.args)) or (is_const(x) and cval(x) is Ellipsis)
        return full(k) or (k.op == "tuple" and k.args and all(full(x) for x in k.args))

    def ex_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        t = s.target
        rhs = self.ev(s.value, fr, st)
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, fr, st, t)
            r = self.aug(cur, op, rhs, st, s)
            if r is not None:
                st.loc[t.id] = self.bindable(r, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, st)
            cur = self.get_attr(b, t.attr, st, s)
            if cur is mk("attr", b, t.attr):
                nv = self.arith(op, self.deref(cur, st), self.deref(rhs, st))
                self.event("augattr", s, target=b, name=t.attr)
                self.set_attr(b, t.attr, nv, st, s)
            else:
                r = self.aug(cur, op, rhs, st, s)
                if r is not None:
                    self.set_attr(b, t.attr, r, st, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, st)
            k = self.val(t.slice, fr, st)
            cur = self.get_item(b, k, st, s)
            if b.op == "ref" and cur.op == "ref":
                r = self.aug(cur, op, rhs, st, s)
                if r is not None:
                    self.set_item(b, k, r, st, s)
                return st, []
            nv = self.arith(op, self.deref(cur, st), self.deref(rhs, st))
            self.set_item(b, k, self.bindable(nv, st) if b.op == "ref" else nv, st, s)
        return st, []

    def aug(self, cur, op, rhs, st, node):
        """new value to rebind, or None if done in place"""
        if cur.op == "ref" and cur.args[0] == "list":
            c = self.heapget(st, (cur, "c", "")) or cur
            cr = self.heapget(st, (rhs, "c", "")) if rhs.op == "ref" else None
            self.event("listmut", node, target=cur, how="+=", value=rhs)
            if op == "Add":
                st.heap[(cur, "c", "")] = lcat(c, cr if cr is not None else self.deref(rhs, st))
            else:
                st.heap[(cur, "c", "")] = mk("call", "list_repeat", (self.deref(cur, st), self.deref(rhs, st)), ())
            return None
        a, b = self.deref(cur, st), self.deref(rhs, st)
        nv = self.arith(op, a, b)
        if self.is_scalar(a) or cur.op in ("const", "tuple", "fn", "idx") or a.op in ("fstr",) or is_str(a):
            return nv
        if cur.op in PTR_OPS or cur.op == "ite":
            self.mutate(cur, nv, st, node, f"{op}=")
            return None
        return nv

    def ex_If(self, s, st, fr):
        c = self.truthy(self.val(s.test, fr, st))
        # constant folding through the path guards
        c = self.under_guards(c)
        if c is TRUE:
            return self.block_in(s.body, st, fr)
        if c is FALSE:
            return self.block_in(s.orelse, st, fr)
        a, b = st.fork(), st.fork()
        self.guards.append(c)
        a, ea = self.exec_block(s.body, a, fr)
        self.guards[-1] = not_(c)
        b, eb = self.exec_block(s.orelse, b, fr)
        self.guards.pop()
        if a is not None and b is not None:
            # both continue; conditional exits inside become guards of the remainder
            r = self.join(c, a, b)
            left = [x for x in ea + eb]
            for x in left:
                n = not_(self.relcond(x, fr))
                if n is not FALSE and n is not TRUE:
                    self.guards.append(n)
            return r, ea + eb
        if a is not None:
            self.guards.append(c)
            return a, ea + eb
        if b is not None:
            self.guards.append(not_(c))
            return b, ea + eb
        return None, ea + eb

    def relcond(self, x, fr):
        cur = set(self.guards)
        parts = list(x.cond.args) if x.cond.op == "and" else [x.cond]
        return and_(*[p for p in parts if p not in cur])

    def block_in(self, stmts, st, fr):
        exits = []
        for s in stmts:
            st, ex = self.exec(s, st, fr)
            exits.extend(ex)
            if st is None:
                break
        return st, exits

    def under_guards(self, c):
        for g in self.guards:
            if g is c:
                return TRUE
            if not_(g) is c:
                return FALSE
        return c

    def ex_With(self, s, st, fr):
        n = 0
        for i in s.items:
            v = self.ev(i.context_expr, fr, st)
            self.event("with", s, ctx=self.deref(v, st))
            if i.optional_vars is not None:
                self.assign(i.optional_vars, self.bindable(v, st), st, fr, s)
        r = self.block_in(s.body, st, fr)
        self.event("endwith", s)
        return r

    ex_AsyncWith = ex_With

    def ex_Try(self, s, st, fr):
        pre = st.fork()
        end, exits = self.exec_block(s.body, st, fr)
        if end is not None and s.orelse:
            end, e2 = self.exec_block(s.orelse, end, fr)
            exits += e2
        for h in s.handlers:
            c = mk("exc", self.fresh("exc"))
            hs = pre.fork()
            if h.name:
                hs.loc[h.name] = mk("sym", f"exc:{h.name}")
            self.guards.append(c)
            he, e3 = self.exec_block(h.body, hs, fr)
            self.guards.pop()
            exits = [x for x in exits if x.kind != "raise"] + e3
            if he is not None and end is not None:
                end = self.join(c, he, end)
            elif he is not None:
                end = he
        if s.finalbody:
            if end is not None:
                end, e4 = self.exec_block(s.finalbody, end, fr)
                exits += e4
            elif exits:
                self.exec_block(s.finalbody, exits[-1].st.fork(), fr)
        return end, exits

    ex_TryStar = ex_Try

    # ------------------------------------------------------------ loops
    def iter_items(self, it, st):
        """literal items if statically known, else None"""
        c = it
        if c.op == "ref" and c.args[0] == "list":
            c = self.heapget(st, (it, "c", "")) or it
        if c.op == "cell":
            c = self.deref(c, st)
        if c.op in ("seq", "tuple") and len(c.args) <= 32 and not any(x.op == "star" for x in c.args):
            return list(c.args)
        if c.op in ("call", "view"):
            v = vec(c)
            if v is not None and len(v.args) <= 32:
                return list(v.args)
        if c.op == "enumerate":
            xs = self.iter_items(c.args[0], st)
            if xs is not None and is_num(c.args[1]):
                return [mk("tuple", const(i + cval(c.args[1])), x) for i, x in enumerate(xs)]
        if c.op == "zip":
            xs = [self.iter_items(a, st) for a in c.args]
            if all(x is not None for x in xs):
                return [mk("tuple", *t) for t in zip(*xs)]
        if c.op == "reversed":
            xs = self.iter_items(c.args[0], st)
            if xs is not None:
                return xs[::-1]
        if is_str(c) and len(cval(c)) <= 16:
            return [const(x) for x in cval(c)]
        if c.op == "dict" and c.args[0] is NONE:
            return [x.args[0] for x in c.args[1:]]
        if it.op == "ref" and it.args[0] == "dict" and self.heapget(st, (it, "base", "")) is None:
            ks = self.dict_method(it, "keys", [], {}, [], st, None)
            if ks.op == "seq":
                return list(ks.args)
        return None

    def iter_spec(self, it, st, depth):
        """(spec, element) of a symbolic iterable; spec = its length"""
        if it.op == "range":
            a, b, s = it.args
            if a is const(0) and s is const(1):
                spec = b
                return spec, mk("idx", spec, depth)
            if s is const(1):
                spec = sub(b, a)
                return spec, add(mk("idx", norm(spec), depth), a)
            spec = mk("steps", a, b, s)
            return spec, add(a, mul(s, mk("idx", spec, depth)))
        if it.op == "enumerate":
            spec, el = self.iter_spec(it.args[0], st, depth)
            return spec, mk("tuple", add(mk("idx", spec, depth), it.args[1]), el)
        if it.op == "zip":
            parts = [self.iter_spec(x, st, depth) for x in it.args]
            specs = []
            for s, _ in parts:
                if s not in specs:
                    specs.append(s)
            spec = specs[0] if len(specs) == 1 else mk("zlen", *sorted(specs, key=lambda t: t.uid))
            els = []
            for (s, e) in parts:
                els.append(subst(e, lambda x: mk("idx", spec, depth) if x is mk("idx", s, depth) else None))
            return spec, mk("tuple", *els)
        if it.op == "reversed":
            spec, el = self.iter_spec(it.args[0], st, depth)
            return mk("rev", spec), subst(el, lambda x: sub(sub(spec, mk("idx", mk("rev", spec), depth)), const(1)) if x is mk("idx", spec, depth) else None)
        if it.op == "ite":
            specs = self.length(it, st)
            return specs, self.get_item(it, mk("idx", specs, depth), st)
        if it.op == "call" and it.args[0] == "items":
            src = it.args[1][0]
            spec = mk("len", mk("call", "keys", (self.deref(src, st),), ()))
            k = mk("item", mk("call", "keys", (self.deref(src, st),), ()), mk("idx", spec, depth))
            return spec, mk("tuple", k, self.get_item(src, k, st))
        if it.op == "call" and it.args[0] == "values":
            src = it.args[1][0]
            spec = mk("len", mk("call", "keys", (self.deref(src, st),), ()))
            k = mk("item", mk("call", "keys", (self.deref(src, st),), ()), mk("idx", spec, depth))
            return spec, self.get_item(src, k, st)
        if it.op == "call" and it.args[0] == "keys":
            spec = mk("len", mk("call", "keys", (self.deref(it.args[1][0], st),), ()))
            return spec, mk("item", mk("call", "keys", (self.deref(it.args[1][0], st),), ()), mk("idx", spec, depth))
        v = self.deref(it, st)
        src = it if it.op in ("sym", "attr", "item", "cell", "ref") else v
        if v.op == "call" and v.args[0] == "list" and v.args[1]:
            v = v.args[1][0]
            src = v
        if v.op == "range":
            return self.iter_spec(v, st, depth)
        if v.op in ("enumerate", "zip"):
            return self.iter_spec(v, st, depth)
        if v.op == "call" and v.args[0] == ".named_parameters":
            pv = mk("call", ".parameters", v.args[1], v.args[2])
            spec = mk("len", pv)
            ix = mk("idx", spec, depth)
            return spec, mk("tuple", mk("call", "pname", (mk("item", pv, ix),), ()), mk("item", pv, ix))
        if v.op == "call" and v.args[0] == ".parameters":
            spec = mk("len", v)
            return spec, mk("item", v, mk("idx", spec, depth))
        spec = length_of(v)
        ix = mk("idx", spec, depth)
        if src.op == "call" or src.op in ("fold", "over", "lcat", "store", "upd"):
            return spec, self.elem_of(src, ix)
        if src.op == "cell" or (src.op == "ref" and src.args[0] == "list"):
            c = self.cellget(st, src) if src.op == "cell" else self.heapget(st, (src, "c", ""))
            if c is not None and c.op in ("over",):
                return spec, self.elem_of(c, ix)
        return spec, mk("item", src, ix)

    def elem_of(self, c, ix):
        if c.op == "over" and c.args[1].op == "seq" and len(c.args[1].args) == 1:
            old = c.args[2]
            return subst(c.args[1].args[0], lambda x: ix if x is old else None)
        return mk("item", c, ix)

    def ex_For(self, s, st, fr):
        it = self.ev(s.iter, fr, st)
        items = self.iter_items(it, st)
        if items is not None:
            return self.unrolled(s, items, st, fr)
        if it.op == "ite":
            # iterate over alternatives: distribute when cheap
            xs = [self.iter_items(x, st) for _, x in leaves(it)]
            if all(x is not None for x in xs) and len(xs) <= 4:
                c = it.args[0]
                return self.distribute_for(s, it, st, fr)
        depth = len(self.loops)
        spec, el = self.iter_spec(it, st, depth)
        return self.symbolic_loop(s, st, fr, depth, spec, el, None)

    ex_AsyncFor = ex_For

    def distribute_for(self, s, it, st, fr):
        if it.op != "ite":
            return self.unrolled(s, self.iter_items(it, st), st, fr)
        c = it.args[0]
        a, b = st.fork(), st.fork()
        self.guards.append(c)
        a, ea = self.distribute_for(s, it.args[1], a, fr)
        self.guards[-1] = not_(c)
        b, eb = self.distribute_for(s, it.args[2], b, fr)
        self.guards.pop()
        if a is None:
            return b, ea + eb
        if b is None:
            return a, ea + eb
        return self.join(c, a, b), ea + eb

    def unrolled(self, s, items, st, fr):
        exits = []
        breaks = []
        n = len(self.guards)
        self.loopbase = self.loopbase + [n]
        self.round_state = st
        for x in items:
            if isinstance(s, (ast.For, ast.AsyncFor)):
                self.assign(s.target, self.bindable(x, st), st, fr, s)
            base = len(self.guards)
            end, ex = self.block_in(s.body, st, fr)
            conts = [e for e in ex if e.kind == "continue"]
            breaks += [e for e in ex if e.kind == "break"]
            exits += [e for e in ex if e.kind not in ("continue", "break")]
            cst = end
            for e in conts:
                parts = list(e.cond.args) if e.cond.op == "and" else [e.cond]
                rel = and_(*[p for p in parts if p not in self.guards[:base]])
                cst = e.st if cst is None else self.join(rel, e.st, cst)
            if conts:
                del self.guards[base:]
            if cst is None:
                st = None
                break
            st = self.round_state = cst
            # remaining iterations happen only if no break so far
            for e in ex:
                if e.kind == "break" and end is not None:
                    pass
        del self.guards[n:]
        self.loopbase = self.loopbase[:-1]
        if st is not None and s.orelse:
            st, e2 = self.block_in(s.orelse, st, fr)
            exits += e2
        for e in reversed(breaks):
            st = e.st if st is None else self.join(e.cond, e.st, st)
        return st, exits

    def snapshot(self, st):
        return dict(st.loc), dict(st.cells), dict(st.heap)

    def ex_While(self, s, st, fr):
        depth = len(self.loops)
        c0 = self.truthy(self.val(s.test, fr, st.fork()))
        if c0 is FALSE:
            return st, []
        if c0 is TRUE and not isinstance(s.test, ast.Constant):
            # a counted loop with known bounds: as many rounds as its test says
            keep = (len(self.events), len(self.guards), list(self.guards), set(self.loopinfo), self.loopbase, list(self.loops))
            try:
                return self.unrolled(s, self.rounds(s, fr), st.fork(), fr)
            except Undecided:
                del self.events[keep[0]:]
                self.guards[:] = keep[2]
                self.loopbase, self.loops[:] = keep[4], keep[5]
                for L in set(self.loopinfo) - keep[3]:
                    del self.loopinfo[L]
        return self.symbolic_loop(s, st, fr, depth, None, None, s.test)

    def rounds(self, s, fr):
        for k in range(65):
            c = self.truthy(self.val(s.test, fr, self.round_state))
            if c is FALSE:
                return
            if c is not TRUE or k == 64:
                raise Undecided()
            yield None

    def symbolic_loop(self, s, st, fr, depth, spec, el, test):
        L = self.fresh("loop")
        pre = st
        carried = set()
        nev, ng = len(self.events), len(self.guards)
        saved_counters = None
        nextptr = {}
        for attempt in range(6):
            del self.events[nev:]
            body = pre.fork()
            inits = {}
            for key in sorted(carried, key=str):
                kind, k = key
                if kind == "loc":
                    v0 = pre.loc.get(k, UNDEF)
                    i = self.deref(v0, pre) if v0 is not UNDEF else UNDEF
                    inits[key] = i
                    if v0.op == "ref" and v0.args[0].startswith("inst:"):
                        body.loc[k] = mk("mu", L, k, "p")
                        continue
                    sc = v0 is not UNDEF and self.is_scalar(i)
                    m = mk("mu", L, "loc:" + k, "s" if sc else "t")
                    if sc:
                        body.loc[k] = m
                    else:
                        cell = self.newcell(body, m)
                        al = set()
                        if v0 is not UNDEF and v0.op != "const":
                            al.add(v0)
                        for p in nextptr.get(key, ()):
                            if p.op != "const":
                                al.add(p)
                        self.alias[cell] = al
                        body.loc[k] = cell
                elif kind == "cell":
                    i = self.cellget(pre, k)
                    if i is None:
                        i = self.default_content(k, pre)
                    inits[key] = i
                    body.cells[k] = mk("mu", L, "cell:%d" % k.uid, "s" if self.is_scalar(i) else "t")
                else:
                    v0 = self.heapget(pre, k)
                    if v0 is None:
                        v0 = self.default_heap(k, pre)
                    i = self.deref(v0, pre) if v0.op != "undef" else v0
                    inits[key] = i
                    sc = self.is_scalar(i)
                    m = mk("mu", L, "heap:%d:%s:%s" % (k[0].uid, k[1], k[2]), "s" if sc else "t")
                    if k[1] == "c" or sc:
                        body.heap[k] = m
                    else:
                        cell = self.newcell(body, m)
                        self.alias[cell] = {v0} if v0.op not in ("const", "undef") else set()
                        body.heap[k] = cell
            start = self.snapshot(body)
            idx = mk("idx", spec if spec is not None else mk("wl", L), depth)
            self.loops.append((L, idx, spec))
            self.loopbase = self.loopbase + [len(self.guards)]
            cond = TRUE
            exits_all = []
            if test is not None:
                cond = self.truthy(self.val(test, fr, body))
                start = self.snapshot(body)
                if cond is not TRUE:
                    self.guards.append(cond)
            else:
                self.assign(s.target, self.bindable(el, body), body, fr, s)
            gb = len(self.guards)
            end, ex = self.block_in(s.body, body, fr)
            del self.guards[gb:]
            for e in ex:
                if e.kind == "continue":
                    end = e.st if end is None else self.join(self.reldrop(e.cond, cond), e.st, end)
            breaks = [e for e in ex if e.kind == "break"]
            rets = [e for e in ex if e.kind in ("return", "raise")]
            del self.guards[ng:]
            self.loops.pop()
            self.loopbase = self.loopbase[:-1]
            after = end if end is not None else (breaks[0].st if breaks else None)
            new = set()
            targets = set()
            if test is None:
                targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            for stx in [x for x in [end] + [b.st for b in breaks] if x is not None]:
                for k, v in stx.loc.items():
                    if v is not start[0].get(k) and k in pre.loc and k not in targets:
                        new.add(("loc", k))
                for k, v in stx.cells.items():
                    if v is not start[1].get(k) and (k in pre.cells or k.op != "cell"):
                        new.add(("cell", k))
                for k, v in stx.heap.items():
                    if v is not start[2].get(k) and (k[0].op != "ref" or self.ref_existed(k[0], pre)) and \
                            (k[0].op != "cell" or k[0] in pre.cells or k[0] in self.base.cells) and \
                            (k[0].op in ("cell", "ref", "sym") or not contains(k[0], lambda x: x.op == "cell" and x not in pre.cells and x not in self.base.cells)):
                        new.add(("heap", k))
            np = {}
            for key in new | carried:
                if key[0] == "loc" and end is not None:
                    np.setdefault(key, set()).add(end.loc.get(key[1], UNDEF))
            stable = new <= carried and all(np.get(k, set()) <= self.unmu(nextptr.get(k, set()), np.get(k, set())) for k in np)
            if new <= carried and attempt >= 1 and (stable or attempt >= 2):
                break
            carried |= new
            nextptr = {k: {p for p in v if not (p.op == "cell" and p not in pre.cells and p not in self.persistent(pre))} |
                       {p for p in v if p.op in ("ite", "view", "item", "attr")} for k, v in np.items()}
        carried = {k for k in carried if k in inits}
        # ---- results
        nexts = {}
        if end is not None:
            for key in carried:
                kind, k = key
                if kind == "loc":
                    nexts[key] = self.deref(end.loc.get(k, UNDEF), end)
                elif kind == "cell":
                    c = end.cells.get(k)
                    nexts[key] = c if c is not None else inits[key]
                else:
                    v = end.heap.get(k)
                    nexts[key] = inits[key] if v is None else (v if k[1] == "c" else self.deref(v, end))
        mus = {key: self.mu_of(L, key) for key in carried}
        # induction variables
        ind = {}
        for key in carried:
            nx = nexts.get(key)
            if nx is None or inits[key] is UNDEF:
                continue
            delta = norm(sub(nx, mus_any(L, mus[key], nx)), False) if not contains(nx, lambda x: x.op == "ite") else None
            if delta is not None and self.is_scalar(inits[key]) and \
                    (is_num(delta) or not contains(delta, lambda x: x.op == "mu" and x.args[0] == L) and not contains(delta, lambda x: x.op == "idx" and x.args[1] == depth)) and \
                    not (is_num(delta) and cval(delta) == 0):
                ind[key] = delta
        repl = {}
        if test is not None:
            # while i < n: ... i += 1   ==> for i in range(n)
            for key, dlt in ind.items():
                if not (is_num(dlt) and cval(dlt) == 1):
                    continue
                m = self.mu_in(L, key)
                parts = list(cond.args) if cond.op == "and" else [cond]
                same = self.same_shape(L, parts[0], inits, nexts)
                if same:
                    repl[parts[0]] = TRUE
                    parts = [subst(parts[0], lambda x: same.get(x))]
                if len(parts) == 1 and parts[0].op == "lt" and parts[0].args[0] is m and \
                        not contains(parts[0].args[1], lambda x: x.op == "mu" and x.args[0] == L):
                    n_ = parts[0].args[1]
                    spec = n_ if inits[key] is const(0) else norm(sub(n_, inits[key]))
                    idx2 = mk("idx", spec, depth)
                    repl[mk("idx", mk("wl", L), depth)] = idx2
                    idx = idx2
                    repl[parts[0]] = TRUE        # holds throughout the body
                    break
            if spec is None:
                spec = mk("while", canon_mu(cond, L, depth))
                # keep idx of the while loop as is but give it the canonical spec
                repl[mk("idx", mk("wl", L), depth)] = mk("idx", spec, depth)
                idx = mk("idx", spec, depth)
        for key, dlt in ind.items():
            m = self.mu_in(L, key)
            repl[m] = add(inits[key], mul(dlt, idx))
        if repl:
            f = lambda x: repl.get(x)
            sub_ = lambda t: subst(t, f)
            for e in self.events[nev:]:
                for k2, v2 in list(e.data.items()):
                    if isinstance(v2, T):
                        e.data[k2] = sub_(v2)
                    elif isinstance(v2, tuple):
                        e.data[k2] = tuple(sub_(x) if isinstance(x, T) else x for x in v2)
                    elif isinstance(v2, dict):
                        e.data[k2] = {a: sub_(b) if isinstance(b, T) else b for a, b in v2.items()}
                e.guards = tuple(sub_(g) for g in e.guards if not (test is not None and g is cond and spec.op != "while"))
                e.loops = tuple((l[0], idx, spec) if l[0] == L else l for l in e.loops)
            nexts = {k: sub_(v) for k, v in nexts.items()}
            for stx in [x for x in [end] + [b.st for b in breaks] + [r.st for r in rets] if x is not None]:
                for dct in (stx.loc, stx.cells, stx.heap):
                    for k2 in dct:
                        dct[k2] = sub_(dct[k2])
            for b in breaks:
                b.cond = sub_(b.cond)
            for r in rets:
                r.cond, r.val = sub_(r.cond), sub_(r.val)
        self.loopinfo[L] = dict(spec=spec, idx=idx, carried={k: (inits[k], nexts.get(k)) for k in carried}, node=s,
                                breaks=[b.cond for b in breaks], mus={k: self.mu_in(L, k) for k in carried}, cond=cond,
                                where=self.where(s))
        out = pre.fork()
        brk = None
        if breaks:
            brk = mk("brk", spec, *[canon_mu(b.cond, L, depth) for b in breaks])
        for key in sorted(carried, key=str):
            kind, k = key
            nx = nexts.get(key)
            if nx is None:
                res = inits[key]
            elif key in ind:
                res = add(inits[key], mul(ind[key], spec)) if spec.op not in ("while",) else \
                    self.fold(L, depth, spec, key, inits, nexts)
            else:
                res = self.fold(L, depth, spec, key, inits, nexts)
            if breaks:
                for b in breaks:
                    bv = self.key_value(key, b.st)
                    if bv is not None:
                        bt = mk("atbreak", spec, self.close_mu(bv, L, depth, inits, nexts))
                        res = ite(brk, bt, res)
            if kind == "loc":
                if not self.is_scalar(res) and res.op not in ("const", "undef"):
                    cell = self.newcell(out, res)
                    al = set()
                    if pre.loc.get(k, UNDEF).op not in ("const", "undef"):
                        al.add(pre.loc[k])
                    if end is not None and end.loc.get(k) is not None and end.loc[k].op != "const":
                        al.add(end.loc[k])
                    self.alias[cell] = al
                    out.loc[k] = cell
                else:
                    out.loc[k] = res
            elif kind == "cell":
                out.cells[k] = res
            else:
                if k[1] == "c":
                    out.heap[k] = res
                else:
                    out.heap[k] = self.bindable(res, out)
        # names first bound inside the loop
        srcs = [x for x in [end] + [b.st for b in breaks] if x is not None]
        for stx in srcs:
            for k, v in stx.loc.items():
                if k not in pre.loc and k not in out.loc:
                    out.loc[k] = self.close_ptr(v, stx, out, L, depth, spec, inits, nexts)
            for k, v in stx.cells.items():
                if k not in out.cells:
                    out.cells[k] = self.close_mu(v, L, depth, inits, nexts)
            for k, v in stx.heap.items():
                if k not in out.heap:
                    out.heap[k] = v
        for r in rets:
            r.cond = mk("exists", spec, r.cond) if r.cond is not TRUE else TRUE
        return out, rets

    def persistent(self, pre):
        return ()

    def unmu(self, a, b):
        return a | {p for p in b if p.op == "cell"} | {p for p in b if p.op in ("const", "undef")}

    def reldrop(self, c, cond):
        parts = list(c.args) if c.op == "and" else [c]
        cp = set(cond.args) if cond.op == "and" else {cond}
        return and_(*[p for p in parts if p not in cp])

    def ref_existed(self, r, pre):
        for h in (pre.heap, self.base.heap):
            for k in h:
                if k[0] is r:
                    return True
        for v in list(pre.loc.values()) + list(pre.heap.values()):
            if v is r:
                return True
        if r.args[0].startswith("inst:"):
            return any(f.selfp is r for f in self.stack)
        return False

    def key_value(self, key, st):
        kind, k = key
        if kind == "loc":
            v = st.loc.get(k)
            return self.deref(v, st) if v is not None else None
        if kind == "cell":
            return st.cells.get(k)
        v = st.heap.get(k)
        if v is None:
            return None
        return v if k[1] == "c" else self.deref(v, st)

    def mu_name(self, key):
        kind, k = key
        if kind == "loc":
            return "loc:" + k
        if kind == "cell":
            return "cell:%d" % k.uid
        return "heap:%d:%s:%s" % (k[0].uid, k[1], k[2])

    def mu_of(self, L, key):
        return self.mu_name(key)

    def mu_in(self, L, key):
        for tag in ("s", "t"):
            m = mk("mu", L, self.mu_name(key), tag)
            if m in _t._table.values() if False else True:
                if (("mu",) and self._mu_used(m)):
                    return m
        return mk("mu", L, self.mu_name(key), "t")

    def _mu_used(self, m):
        # the engine created exactly one of the two tags; the one created first for this loop wins
        return m.uid in self._mu_seen_cache(m)

    def _mu_seen_cache(self, m):
        a = mk("mu", m.args[0], m.args[1], "s")
        b = mk("mu", m.args[0], m.args[1], "t")
        return {min(a.uid, b.uid)}

    def same_shape(self, L, t, inits, nexts):
        """shapes read in t of tensors the loop only writes into: those they had before"""
        out = {}
        for x in walk(t):
            if x.op == "attr" and x.args[1] in ("shape",) and x.args[0].op == "mu" and x.args[0].args[0] == L:
                for key, nx in nexts.items():
                    if self.mu_in(L, key) is x.args[0]:
                        if nx is not None and written_only(nx) is x.args[0]:
                            out[x] = mk("attr", inits[key], "shape")
        return out

    def fold(self, L, depth, spec, key, inits, nexts):
        nx, init = nexts[key], inits[key]
        me = self.mu_in(L, key)
        ismu = lambda x: x.op == "mu" and x.args[0] == L
        # acc = acc ++ stuff
        if nx.op == "lcat" and nx.args[0] is me and not any(contains(a, ismu) for a in nx.args[1:]):
            body = nx.args[1] if len(nx.args) == 2 else mk("lcat", *nx.args[1:])
            return lcat(init, mk("over", spec, body, mk("idx", spec, depth)))
        if nx is me:
            return init
        if nx.op == "call" and nx.args[0] == "tcat" and nx.args[1][1].op == "seq" and nx.args[1][1].args and \
                nx.args[1][1].args[0] is me and not any(contains(a, ismu) for a in nx.args[1][1].args[1:]):
            rest = mk("seq", *nx.args[1][1].args[1:])
            o = mk("over", spec, rest, mk("idx", spec, depth))
            dim = nx.args[1][0]
            if init.op == "call" and init.args[0] == "torch.Tensor" and not init.args[1]:
                return mk("call", "tcat", (dim, o), ())
            return mk("call", "tcat", (dim, lcat(mk("seq", init), o)), ())
        if nx.op == "call" and nx.args[0] == "append" and nx.args[1] and nx.args[1][0] is me and len(nx.args[1]) == 2 \
                and not contains(nx.args[1][1], ismu):
            o = mk("over", spec, mk("seq", nx.args[1][1]), mk("idx", spec, depth))
            return mk("call", "appendover", (init, o), nx.args[2])
        d = norm_light_sub(nx, me)
        if d is not None and not contains(d, ismu) and init is not UNDEF:
            bs = mk("bigsum", spec, d, mk("idx", spec, depth))
            return add(init, bs)
        if not contains(nx, ismu):
            if not contains(nx, lambda x: x.op == "idx" and x.args[1] == depth):
                return ite(mk("lt", const(0), spec), nx, init)
            return mk("last", spec, nx, init)
        return self.fold_general(L, depth, spec, nx, init, me, inits, nexts)

    def fold_general(self, L, depth, spec, nx, init, me, inits, nexts):
        order = []

        def visit(t):
            for x in sorted((x for x in walk(t) if x.op == "mu" and x.args[0] == L), key=lambda x: x.uid):
                if x not in order:
                    order.append(x)
        bykey = {self.mu_in(L, k): k for k in inits}
        order.append(me)
        i = 0
        visit_order(nx, L, order)
        while i < len(order):
            k = bykey.get(order[i])
            if k is not None and nexts.get(k) is not None:
                visit_order(nexts[k], L, order)
            i += 1
        names = {m: mk("m", depth, n, m.args[2]) for n, m in enumerate(order)}
        f = lambda x: names.get(x)
        parts = []
        for m in order:
            k = bykey.get(m)
            a = inits.get(k, UNDEF) if k is not None else UNDEF
            b = nexts.get(k, UNDEF) if k is not None else UNDEF
            parts.append((a, subst(b, f)))
        return mk("fold", spec, tuple(parts), me.args[2])

    def close_mu(self, v, L, depth, inits, nexts):
        if not contains(v, lambda x: x.op == "mu" and x.args[0] == L):
            return v
        bykey = {self.mu_in(L, k): k for k in inits}

        def f(x):
            if x.op == "mu" and x.args[0] == L:
                k = bykey.get(x)
                if k is None or nexts.get(k) is None:
                    return mk("m?", depth, x.args[1].split(":")[0])
                return mk("iter", self.fold_general(L, depth, const(0), nexts[k], inits[k], x, inits, nexts))
            return None
        return subst(v, f)

    def close_ptr(self, v, stx, out, L, depth, spec, inits, nexts):
        if v.op in ("fn", "cls", "ext", "mod", "ref", "closure", "bound", "const"):
            return v
        d = self.deref(v, stx)
        d = self.close_mu(d, L, depth, inits, nexts)
        if d.op in ("cell",):
            return d
        if self.is_scalar(d):
            return mk("last", spec, d, UNDEF)
        c = self.newcell(out, mk("last", spec, d, UNDEF))
        self.alias[c] = {v} if v.op != "const" else set()
        return c

    # ------------------------------------------------------------ entry points
    def run(self, func, args=None, kw=None, selfcls=None, st=None, selfp=None, stars=()):
        """abstractly evaluate a function; returns (value term, state)."""
        st = st or St()
        argl = []
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        kw = dict(kw or {})
        args = list(args or [])
        if func.cls is not None and func.kind in ("inst", "property"):
            s = selfp or mk("sym", "self")
            self.types.setdefault(s, selfcls or func.cls)
            args = [s] + args
        for i, n in enumerate(names):
            if i < len(args):
                argl.append(args[i])
            elif n in kw:
                argl.append(kw.pop(n))
            else:
                p = mk("sym", n)
                d = defaults.get(n)
                if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str, bool)):
                    self.scalars.add(p)
                argl.append(p)
        if a.kwarg and not stars:
            stars = [mk("sym", a.kwarg.arg)]
        for x in a.kwonlyargs:
            if x.arg not in kw:
                kw[x.arg] = mk("sym", x.arg)
        fr = Frame(func, func.module, func.cls, None, 0)
        self.stack.append(fr)
        v = self.inline(func, argl, kw, list(stars), st, func.node, selfp=argl[0] if func.cls is not None and argl and func.kind != "static" else None)
        self.stack.pop()
        return v, st


def visit_order(t, L, order):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop(0)
        if isinstance(x, tuple):
            stack = list(x) + stack
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "mu" and x.args[0] == L and x not in order:
            order.append(x)
        stack = [a for a in x.args if isinstance(a, (T, tuple))] + stack


def canon_mu(t, L, depth):
    order = []
    visit_order(t, L, order)
    names = {m: mk("m", depth, n, m.args[2]) for n, m in enumerate(order)}
    return subst(t, lambda x: names.get(x))


def mus_any(L, name, nx):
    for x in walk(nx):
        if x.op == "mu" and x.args[0] == L and x.args[1] == name:
            return x
    return mk("mu", L, name, "t")


def norm_light_sub(nx, me):
    """d such that nx == me + d (top-level addition only)"""
    terms = []

    def flat(t):
        if t.op == "add":
            flat(t.args[0])
            flat(t.args[1])
        else:
            terms.append(t)
    if nx.op != "add":
        return None
    flat(nx)
    if terms.count(me) != 1:
        return None
    terms.remove(me)
    r = const(0)
    for t in terms:
        r = add(r, t)
    return r


def _root(p):
    while p.op in ("attr", "item"):
        p = p.args[0]
    if p.op == "view":
        return _root(p.args[1])
    return p


root_of = _root


CONVERT = ("tensor", "astensor", "array", "asarray", "to", "float", "double", "half", "type", "clone", "detach", "cpu", "Parameter",
           "requires_grad_", "contiguous", "copy", "deepcopy", "FloatTensor")


def vec(t):
    """the elements of a tensor or array made of a list of known length, as a seq; else None"""
    while True:
        if t.op == "seq":
            return t if not any(x.op == "star" for x in t.args) else None
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[-1] in CONVERT and t.args[1]:
            t = t.args[1][0]
        elif t.op == "view" and t.args[0] in CONVERT:
            t = t.args[1]
        else:
            return None


def length_of(c):
    if c.op in ("call", "view"):
        v = vec(c)
        if v is not None:
            return const(len(v.args))
    if c.op in ("seq", "tuple") and not any(x.op == "star" for x in c.args):
        return const(len(c.args))
    if is_str(c):
        return const(len(cval(c)))
    if c.op == "range" and c.args[0] is const(0) and c.args[2] is const(1):
        return c.args[1]
    if c.op == "over" and c.args[1].op == "seq":
        return mul(const(len(c.args[1].args)), c.args[0])
    if c.op == "lcat":
        r = const(0)
        for x in c.args:
            r = add(r, length_of(x))
        return r
    if c.op == "call" and c.args[0] == "list":
        return length_of(c.args[1][0])
    if c.op == "call" and c.args[0] == ".named_parameters":
        return mk("len", mk("call", ".parameters", c.args[1], c.args[2]))
    if c.op == "call" and c.args[0] == "range":
        pass
    return mk("len", c)


def lcat(a, b):
    """list concatenation"""
    xs = list(a.args) if a.op == "lcat" else [a]
    ys = list(b.args) if b.op == "lcat" else [b]
    out = []
    for x in xs + ys:
        if x.op == "seq" and not x.args:
            continue
        if out and x.op == "seq" and out[-1].op == "seq":
            out[-1] = mk("seq", *(out[-1].args + x.args))
        else:
            out.append(x)
    if not out:
        return mk("seq")
    if len(out) == 1:
        return out[0]
    return mk("lcat", *out)


def strcat(a, b):
    pa = list(a.args) if a.op == "fstr" else [a if is_str(a) else mk("fmt", a, NONE, const(-1))]
    pb = list(b.args) if b.op == "fstr" else [b if is_str(b) else mk("fmt", b, NONE, const(-1))]
    out = []
    for p in pa + pb:
        if out and is_str(p) and is_str(out[-1]):
            out[-1] = const(cval(out[-1]) + cval(p))
        else:
            out.append(p)
    out = [p for p in out if not (is_str(p) and cval(p) == "")] or [const("")]
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk("fstr", *out)


def disjoint(k1, k2):
    """two subscript keys certainly denote different elements"""
    if is_const(k1) and is_const(k2):
        return k1 is not k2 and not (is_num(k1) and is_num(k2) and (cval(k1) < 0) != (cval(k2) < 0))
    if k1.op == "tuple" and k2.op == "tuple":
        for a, b in zip(k1.args, k2.args):
            if is_num(a) and is_num(b) and a is not b and (cval(a) < 0) == (cval(b) < 0):
                return True
            # a:a+1 slices with different constants
            if a.op == "slice" and b.op == "slice" and is_num(a.args[0]) and is_num(b.args[0]) \
                    and is_num(a.args[1]) and is_num(b.args[1]):
                if cval(a.args[1]) <= cval(b.args[0]) or cval(b.args[1]) <= cval(a.args[0]):
                    return True
    return False


def copied(e):
    """S when the comprehension is {k: S[k] for k in S} or {k: v for k, v in S.items()}: a shallow copy of S"""
    g = e.generators[0]
    if len(e.generators) != 1 or g.ifs or not isinstance(e.key, ast.Name):
        return None
    it = g.iter
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "tuple", "iter") and len(it.args) == 1:
        it = it.args[0]
    meth = None
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args and it.func.attr in ("keys", "items"):
        meth, it = it.func.attr, it.func.value
    if not isinstance(it, (ast.Name, ast.Attribute)):
        return None
    if meth == "items":
        ok = isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and all(isinstance(x, ast.Name) for x in g.target.elts) and \
            g.target.elts[0].id == e.key.id and isinstance(e.value, ast.Name) and e.value.id == g.target.elts[1].id and e.value.id != e.key.id
    else:
        ok = meth == "keys" and isinstance(g.target, ast.Name) and g.target.id == e.key.id and isinstance(e.value, ast.Subscript) and \
            ast.dump(e.value.value) == ast.dump(it) and isinstance(e.value.slice, ast.Name) and e.value.slice.id == e.key.id
    return it if ok else None


def fix_locations(n, ref):
    for x in ast.walk(n):
        if not hasattr(x, "lineno") and hasattr(ref, "lineno"):
            try:
                x.lineno, x.col_offset = ref.lineno, getattr(ref, "col_offset", 0)
                x.end_lineno, x.end_col_offset = getattr(ref, "end_lineno", ref.lineno), getattr(ref, "end_col_offset", 0)
            except Exception:
                pass
    return n
