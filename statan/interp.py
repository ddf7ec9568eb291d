"""Abstract interpreter for the Python subset used by the analysed repository.

* Source is parsed with `ast`; nothing of the repository is ever imported or run.
* Tensors are abstract (`graph.Node`), unknown values are `Unknown`, library
  names are `Ext`; python containers and scalars that the source fixes are kept
  as constants.
* A branch whose condition is unknown is handled by bounded trace partitioning
  (`explore`), never by a solver.
"""
import ast
import math
import operator
import os

import numpy as np

from .graph import FactoryVal, Node, ShapeMismatch, ShapeVal, broadcast


class Incomplete(Exception):
    """The analysis cannot follow this construct."""

    def __init__(self, why, loc=None):
        Exception.__init__(self, why)
        self.why = why
        self.loc = loc

    def __str__(self):
        return "%s at %s" % (self.why, self.loc)


class AbsRaise(Exception):
    """The analysed program raises."""

    def __init__(self, exc, msg="", loc=None):
        Exception.__init__(self, "%s: %s" % (exc, msg))
        self.exc = exc          # name or class value
        self.msg = msg
        self.loc = loc
        self.value = None

    @property
    def name(self):
        e = self.exc
        if isinstance(e, str):
            return e
        return getattr(e, "name", str(e))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Unknown:
    _n = 0

    def __init__(self, label="?"):
        self.label = label

    def __repr__(self):
        return "Unknown(%s)" % (self.label,)


class Ext:
    """A name of an external library (tf.*, np.*, ...)."""
    _pool = {}

    def __new__(cls, path):
        o = cls._pool.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._pool[path] = o
        return o

    def __repr__(self):
        return "Ext(%s)" % self.path


class ExtObj:
    """Opaque instance produced by an external call."""

    def __init__(self, path, args=(), kwargs=None):
        self.path = path
        self.args = args
        self.kwargs = kwargs or {}
        self.attrs = {}

    def __repr__(self):
        return "ExtObj(%s)" % self.path


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.ns = {}
        self.tree = None
        self.loaded = False

    def __repr__(self):
        return "Module(%s)" % self.name


INT = object()


class Cls:
    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.is_enum = any(
            (isinstance(b, Ext) and b.path in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.IntFlag"))
            or (isinstance(b, Cls) and b.is_enum) for b in bases)
        self.int_enum = any((isinstance(b, Ext) and b.path in ("enum.IntEnum", "enum.IntFlag")) or b is INT
                            or (isinstance(b, Cls) and b.int_enum) for b in bases)
        self.is_nt = any((isinstance(b, Ext) and b.path == "typing.NamedTuple")
                         or (isinstance(b, Cls) and b.is_nt) for b in bases)
        self.fields = None      # True: constructor and equality come from the annotations (dataclass)

    @property
    def qual(self):
        return "%s.%s" % (self.module.name, self.name)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def ext_bases(self):
        r = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, Cls):
                    r.append(b)
        return r

    def lookup(self, name, default=None, after=None):
        seen = after is None
        for c in self.mro():
            if seen and name in c.ns:
                return c.ns[name], c
            if c is after:
                seen = True
        return default, None

    def __repr__(self):
        return "<class %s>" % self.name


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return "<%s inst>" % self.cls.name


class Func:
    def __init__(self, node, env, module, cls=None, name=None, interp=None):
        self.node = node
        self.env = env
        self.module = module
        self.cls = cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.attrs = {}
        self.defaults = None
        self.kw_defaults = None
        self.isgen = None

    @property
    def qual(self):
        return "%s:%s%s" % (self.module.name, (self.cls.name + ".") if self.cls else "",
                            self.name)

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class PropertyVal:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class _Through(Exception):
    """return / break / continue leaving a with statement through a context manager's generator"""
    def __init__(self, ex):
        self.ex = ex


class GenVal(list):
    """a generator or iterator: the items still to come.  `src` is the iterator
    it takes its items from (enumerate of a generator), consumed in step."""
    src = None

    def take(self):
        if isinstance(self.src, GenVal) and self.src:
            self.src.take()
        return self.pop(0)

    def drain(self):
        while self:
            yield self.take()


class DefDict(dict):
    factory = None


class Env:
    __slots__ = ("vars", "parent", "module", "func", "globals_", "nonlocals")

    def __init__(self, parent, module, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_ = None
        self.nonlocals = None


BUILTIN_EXC = {
    "Exception": None, "TypeError": "Exception", "ValueError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
    "AssertionError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AttributeError": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "ZeroDivisionError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "StopIteration": "Exception",
    "OSError": "Exception", "FileNotFoundError": "OSError", "IOError": "Exception",
    "ArithmeticError": "Exception", "OverflowError": "ArithmeticError", "NotImplemented": None,
    "BaseException": None, "KeyboardInterrupt": "BaseException", "Warning": "Exception",
    "DeprecationWarning": "Warning", "UserWarning": "Warning", "RuntimeWarning": "Warning",
    "FutureWarning": "Warning",
}

BINOPS = {
    ast.Add: ("__add__", "__radd__", operator.add, "__iadd__"),
    ast.Sub: ("__sub__", "__rsub__", operator.sub, "__isub__"),
    ast.Mult: ("__mul__", "__rmul__", operator.mul, "__imul__"),
    ast.Div: ("__truediv__", "__rtruediv__", operator.truediv, "__itruediv__"),
    ast.FloorDiv: ("__floordiv__", "__rfloordiv__", operator.floordiv, "__ifloordiv__"),
    ast.Mod: ("__mod__", "__rmod__", operator.mod, "__imod__"),
    ast.Pow: ("__pow__", "__rpow__", operator.pow, "__ipow__"),
    ast.LShift: ("__lshift__", "__rlshift__", operator.lshift, "__ilshift__"),
    ast.RShift: ("__rshift__", "__rrshift__", operator.rshift, "__irshift__"),
    ast.BitOr: ("__or__", "__ror__", operator.or_, "__ior__"),
    ast.BitXor: ("__xor__", "__rxor__", operator.xor, "__ixor__"),
    ast.BitAnd: ("__and__", "__rand__", operator.and_, "__iand__"),
    ast.MatMult: ("__matmul__", "__rmatmul__", operator.matmul, "__imatmul__"),
}
CMPOPS = {
    ast.Eq: ("__eq__", "__eq__", operator.eq),
    ast.NotEq: ("__ne__", "__ne__", operator.ne),
    ast.Lt: ("__lt__", "__gt__", operator.lt),
    ast.LtE: ("__le__", "__ge__", operator.le),
    ast.Gt: ("__gt__", "__lt__", operator.gt),
    ast.GtE: ("__ge__", "__le__", operator.ge),
}
UNOPS = {
    ast.USub: ("__neg__", operator.neg),
    ast.UAdd: ("__pos__", operator.pos),
    ast.Invert: ("__invert__", operator.invert),
}

CONC = (int, float, str, bool, type(None), bytes, complex, np.generic, np.ndarray, np.dtype)


def is_concrete(v, depth=0):
    if isinstance(v, np.ndarray):
        return v.dtype != object or all(is_concrete(x) for x in v.flat)
    if isinstance(v, CONC) or v is Ellipsis:
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(is_concrete(x) for x in v)
    if isinstance(v, dict):
        return all(is_concrete(x) for x in v.values()) and all(is_concrete(x) for x in v.keys())
    if isinstance(v, (slice,)):
        return all(is_concrete(x) for x in (v.start, v.stop, v.step))
    if isinstance(v, range):
        return True
    return False


MODEL_ERRORS = (TypeError, ValueError, KeyError, IndexError, AttributeError, NotImplementedError, ZeroDivisionError,
                OverflowError, RecursionError)


class _Pass:
    pass


PASS = _Pass()       # an override returns PASS to let the real body be interpreted


class Interp:
    def __init__(self, root, pkg="tf_encrypted", models=None):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.device = None
        self.devstack = []
        self.overrides = {}         # qual func name -> python callable(interp, args, kwargs)
        self.decorator_overrides = {}
        self.models = models or {}
        self.node_method = None     # hook(interp, node, name, args, kwargs)
        self.node_attr = None
        self.factory_method = None
        self.ext_default = None
        self.choices = []
        self.choice_pos = 0
        self.choice_log = []
        self.loc = None
        self.fstack = []
        self.visited = set()        # functions interpreted
        self.callcount = 0
        self.steps = 0
        self.max_steps = 3_000_000
        self.created = []           # all nodes created, in order
        self.events = []            # analysis events recorded by models
        self.assumes = {}
        self.branch_hook = None
        self.maxdepth = 120
        self.print_hook = None
        self.builtins = make_builtins(self)

    # ------------------------------------------------------------ utilities
    def here(self):
        return self.loc

    def site(self):
        return (self.fstack[-1].qual if self.fstack else "?", self.loc)

    def node(self, op, ins=(), params=(), **kw):
        kw.setdefault("device", self.device)
        n = Node(op, ins, params, loc=self.loc,
                 fn=self.fstack[-1].qual if self.fstack else None, **kw)
        self.created.append(n)
        return n

    def fail(self, exc, msg=""):
        raise AbsRaise(exc, msg, self.loc)

    def choose(self, cond=None):
        if self.branch_hook is not None:
            r = self.branch_hook(self, cond)
            if r is not None:
                return r
        if self.choice_pos < len(self.choices):
            c = self.choices[self.choice_pos]
        else:
            c = True
            self.choices.append(c)
        self.choice_pos += 1
        self.choice_log.append((self.loc, c))
        return c

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, ispkg = self.module_path(name)
        if path is None:
            return None
        m = Module(name, path)
        m.ispkg = ispkg
        self.modules[name] = m
        with open(path) as f:
            src = f.read()
        m.tree = ast.parse(src, path)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        env = Env(None, m)
        env.vars = m.ns
        saved = (self.loc, self.device, self.devstack)
        self.device, self.devstack = None, []
        for st in m.tree.body:
            try:
                self.exec_stmt(st, env)
            except (Incomplete, AbsRaise) as e:
                for t in _bound_names(st):
                    m.ns.setdefault(t, Unknown("module:%s.%s:%s" % (name, t, e)))
        self.loc, self.device, self.devstack = saved
        m.loaded = True
        return m

    def resolve_import(self, module, level, cur):
        if level:
            parts = cur.name.split(".")
            if not getattr(cur, "ispkg", False):
                parts = parts[:-1]
            if level > 1:
                parts = parts[: len(parts) - (level - 1)]
            return ".".join(parts + ([module] if module else []))
        return module

    def import_name(self, full):
        if full == self.pkg or full.startswith(self.pkg + "."):
            m = self.load(full)
            if m is not None:
                return m
        return Ext(canon(full))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for st in stmts:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Incomplete("step limit", self.loc)
        self.loc = (env.module.path, st.lineno)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Incomplete("statement " + type(st).__name__, self.loc)
        try:
            return m(st, env)
        except MODEL_ERRORS as ex:
            # a model met arguments it does not know
            raise Incomplete("%s in the analysis: %s" % (type(ex).__name__, ex), self.loc) from ex

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            mod = self.import_name(a.name)
            if a.asname:
                self.assign_name(a.asname, mod, env)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, self.import_name(top), env)

    def s_ImportFrom(self, st, env):
        full = self.resolve_import(st.module, st.level, env.module)
        if full == "__future__":
            return
        if full == self.pkg or full.startswith(self.pkg + "."):
            mod = self.load(full)
            if mod is None:
                for a in st.names:
                    self.assign_name(a.asname or a.name, Ext(full + "." + a.name), env)
                return
            for a in st.names:
                if a.name == "*":
                    allv = mod.ns.get("__all__")
                    names = allv if isinstance(allv, list) else [
                        k for k in mod.ns if not k.startswith("_")]
                    for k in names:
                        if k in mod.ns:
                            self.assign_name(k, mod.ns[k], env)
                    continue
                if a.name in mod.ns:
                    v = mod.ns[a.name]
                else:
                    sub = self.load(full + "." + a.name)
                    if sub is None:
                        v = Unknown("import %s.%s" % (full, a.name))
                    else:
                        v = sub
                self.assign_name(a.asname or a.name, v, env)
            return
        for a in st.names:
            self.assign_name(a.asname or a.name, Ext(canon(full + "." + a.name)), env)

    def s_FunctionDef(self, st, env):
        f = Func(st, env, env.module, cls=getattr(env, "func", None) if False else None)
        if isinstance(env.func, Cls):
            f.cls = env.func
        self.init_func(f, st, env)
        v = f
        for d in reversed(st.decorator_list):
            v = self.apply_decorator(d, v, env)
        self.assign_name(st.name, v, env)

    s_AsyncFunctionDef = s_FunctionDef

    def init_func(self, f, st, env):
        f.defaults = [self.eval(d, env) for d in st.args.defaults]
        f.kw_defaults = [None if d is None else self.eval(d, env) for d in st.args.kw_defaults]
        if isinstance(st, ast.Lambda):
            f.isgen = False
        else:
            f.isgen = _is_gen(st)

    def apply_decorator(self, d, v, env):
        if isinstance(d, ast.Name) and d.id == "property":
            return PropertyVal(v)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return StaticM(v)
        if isinstance(d, ast.Name) and d.id == "classmethod":
            return ClassM(v)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            p = self.eval(d.value, env)
            if isinstance(p, PropertyVal):
                return PropertyVal(p.fget, v)
        dv = self.eval(d, env)
        if isinstance(dv, Ext):
            if dv.path in ("abc.abstractproperty", "functools.cached_property"):
                return PropertyVal(v)
            if dv.path in ("contextlib.contextmanager", "functools.lru_cache", "functools.cache"):
                return self.call_ext(dv.path, [v], {})
            return v
        if isinstance(dv, Func) and dv.qual in self.decorator_overrides:
            return self.decorator_overrides[dv.qual](self, v)
        if isinstance(dv, ExtObj) and dv.path == "functools.lru_cache":
            return self.memo(v)
        if isinstance(dv, (ExtObj, Unknown)):
            return v
        return self.call(dv, [v], {})

    def memo(self, f):
        """functools.lru_cache: results are kept per argument values"""
        table = {}

        def run(it, a, k):
            key = tuple(it.hkey(x) for x in a) + tuple((n, it.hkey(x)) for n, x in sorted(k.items()))
            if key not in table:
                table[key] = it.call(f, a, k)
            return table[key]
        b = Builtin(getattr(f, "name", "cached"), run)
        b.bindable = True
        return b

    def s_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        cenv = Env(env, env.module)
        c = Cls(st.name, bases, cenv.vars, env.module, st)
        cenv.func = c
        for s in st.body:
            self.exec_stmt(s, cenv)
        if c.is_enum:
            for k, v in list(c.ns.items()):
                if not k.startswith("_") and not isinstance(v, (Func, PropertyVal, StaticM, ClassM)):
                    if isinstance(v, Unknown) and v.label == "enum.auto":
                        prev = [m.value for m in c.ns.values() if isinstance(m, EnumMember)]
                        v = prev[-1] + 1 if prev else 1
                    c.ns[k] = EnumMember(c, k, v)
        v = c
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env)
            if isinstance(dv, (Ext, ExtObj)) and dv.path == "dataclasses.dataclass":
                c.fields = True
                c.frozen = isinstance(dv, ExtObj)
            elif isinstance(dv, (Func, Bound, Builtin)):
                v = self.call(dv, [v], {})
        self.assign_name(st.name, v, env)

    def s_Return(self, st, env):
        v = None if st.value is None else self.eval(st.value, env)
        raise _Return(v)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            rhs = self.eval(st.value, env)
            self.assign(t, self.binop(type(st.op), cur, rhs, inplace=True), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(st.value, env)
            self.setattr(o, t.attr, self.binop(type(st.op), cur, rhs, inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            rhs = self.eval(st.value, env)
            self.setitem(o, k, self.binop(type(st.op), cur, rhs, inplace=True))
        else:
            raise Incomplete("augassign target", self.loc)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                try:
                    del o[k]
                except (KeyError, IndexError, TypeError) as e:
                    self.fail(type(e).__name__, str(e))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Inst):
                    o.attrs.pop(t.attr, None)

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_While(self, st, env):
        n = 0
        while True:
            self.loc = (env.module.path, st.lineno)
            if not self.truth(self.eval(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            n += 1
            if n > 5000:
                raise Incomplete("loop bound", self.loc)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue

    def s_For(self, st, env):
        src = self.eval(st.iter, env)
        # a generator only loses the items the loop has taken
        it = src.drain() if isinstance(src, GenVal) else self.iterate(src)
        for v in it:
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_Global(self, st, env):
        env.globals_ = (env.globals_ or set()) | set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals = (env.nonlocals or set()) | set(st.names)

    def s_Assert(self, st, env):
        v = self.eval(st.test, env)
        t = self.truth_maybe(v)
        if t is False:
            self.fail("AssertionError", ast.unparse(st.test) if st.msg is None else self.to_str(self.eval(st.msg, env)))
        # unknown: assumed to hold (a failing assertion stops the program)

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is not None:
                raise cur
            self.fail("RuntimeError", "re-raise")
        v = self.eval(st.exc, env)
        name, msg = self.exc_name(v)
        e = AbsRaise(name, msg, self.loc)
        e.value = v
        raise e

    def exc_name(self, v):
        if isinstance(v, Builtin):
            return v.name, ""
        if isinstance(v, ExtObj):
            return v.path, " ".join(str(a) for a in v.args if isinstance(a, str))
        if isinstance(v, Ext):
            return v.path, ""
        if isinstance(v, Inst):
            return v.cls, ""
        if isinstance(v, Cls):
            return v, ""
        return "Exception", repr(v)

    def exc_matches(self, e, h):
        if isinstance(h, tuple):
            return any(self.exc_matches(e, x) for x in h)
        hn = h.name if isinstance(h, (Builtin, Cls)) else (h.path if isinstance(h, Ext) else None)
        if hn in ("Exception", "BaseException"):
            return True
        if isinstance(e.exc, Cls):
            if isinstance(h, Cls):
                return h in e.exc.mro()
            names = [b.name if isinstance(b, Builtin) else getattr(b, "path", None) for b in e.exc.ext_bases()]
            return any(self._excsub(n, hn) for n in names)
        return self._excsub(e.name, hn)

    def _excsub(self, n, hn):
        while n is not None:
            if n == hn:
                return True
            n = BUILTIN_EXC.get(n)
        return False

    def s_Try(self, st, env):
        dev = (self.device, list(self.devstack))
        try:
            try:
                self.exec_block(st.body, env)
            except AbsRaise as e:
                self.device, self.devstack = dev[0], dev[1]
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type, env)):
                        saved = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        if h.name:
                            env.vars[h.name] = e.value if e.value is not None else ExtObj(e.name, (e.msg,))
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def s_Match(self, st, env):
        v = self.eval(st.subject, env)
        for c in st.cases:
            b = {}
            r = self.match(c.pattern, v, env, b)
            if r is None:
                raise Incomplete("match on an unknown value", self.loc)
            if r:
                for n, x in b.items():
                    self.assign_name(n, x, env)
                if c.guard is None or self.truth(self.eval(c.guard, env)):
                    return self.exec_block(c.body, env)

    def match(self, p, v, env, b):
        """whether the pattern matches (None: not known), collecting the names it binds"""
        if isinstance(p, ast.MatchValue):
            return self.truth_maybe(self.compare(ast.Eq, v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth_maybe(self.compare(ast.Is, v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                r = self.match(p.pattern, v, env, b)
                if not r:
                    return r
            if p.name is not None:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                r = self.match(q, v, env, b)
                if r or r is None:
                    return r
            return False
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Unknown):
                return None
            if not isinstance(v, (list, tuple)) and not (isinstance(v, Inst) and v.cls.is_nt):
                return False
            xs = self.iterate(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i, n = star[0], len(p.patterns) - 1
                if len(xs) < n:
                    return False
                if p.patterns[i].name:
                    b[p.patterns[i].name] = xs[i:len(xs) - (n - i)]
                pairs = list(zip(p.patterns[:i], xs)) + list(zip(p.patterns[i + 1:], xs[len(xs) - (n - i):]))
            else:
                if len(xs) != len(p.patterns):
                    return False
                pairs = list(zip(p.patterns, xs))
            return self.match_all(pairs, env, b)
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return None if isinstance(v, Unknown) else False
            ks = [self.eval(k, env) for k in p.keys]
            if not all(k in v for k in ks):
                return False
            if p.rest:
                b[p.rest] = {k: x for k, x in v.items() if k not in ks}
            return self.match_all([(q, v[k]) for q, k in zip(p.patterns, ks)], env, b)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            r = isinst(self, v, c)
            if isinstance(r, Unknown):
                return None
            if not r:
                return False
            if p.patterns and isinstance(c, Builtin):
                return self.match(p.patterns[0], v, env, b)
            pos = []
            if p.patterns:
                names = c.ns.get("__match_args__") or list(self.class_fields(c))
                pos = list(zip(p.patterns, [self.getattr(v, n) for n in names]))
            return self.match_all(pos + [(q, self.getattr(v, n)) for q, n in zip(p.kwd_patterns, p.kwd_attrs)], env, b)
        raise Incomplete("pattern", self.loc)

    def match_all(self, pairs, env, b):
        for q, x in pairs:
            r = self.match(q, x, env, b)
            if not r:
                return r
        return True

    def s_With(self, st, env):
        self._with(st.items, st.body, env)

    def _with(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        it = items[0]
        cm = self.eval(it.context_expr, env)
        if isinstance(cm, ExtObj) and cm.path == "tf.device":
            saved = self.device
            d = cm.args[0] if cm.args else None
            self.device = d if d is not None else saved
            self.devstack.append(saved)
            try:
                self._with(items[1:], body, env)
            finally:
                self.device = saved
                if self.devstack:
                    self.devstack.pop()
            return
        if isinstance(cm, ExtObj) and cm.path == "$cm":
            # contextlib.contextmanager: the body of the with statement runs where the generator yields
            f, a, k = cm.args

            def yielded(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                self._with(items[1:], body, env)
            self.call_func(f, a, k, on_yield=yielded)
            return
        if isinstance(cm, ExtObj) and cm.path == "contextlib.ExitStack":
            saved, exits = (self.device, list(self.devstack)), []

            def enter(i2, a, k):
                c = a[0]
                if isinstance(c, ExtObj) and c.path == "tf.device":
                    self.device = c.args[0] if c.args and c.args[0] is not None else self.device
                    return None
                if isinstance(c, Inst):
                    exits.append(self.getattr(c, "__exit__"))
                    return self.call(self.getattr(c, "__enter__"), [], {})
                if isinstance(c, ExtObj) and c.path == "$cm":
                    raise Incomplete("enter_context of a generator", self.loc)
                return c
            cm.attrs["enter_context"] = Builtin("enter_context", enter)
            cm.attrs["callback"] = Builtin("callback", lambda i2, a, k: exits.append(
                Builtin("cb", lambda i3, a3, k3: i3.call(a[0], a[1:], k))))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, cm, env)
            try:
                self._with(items[1:], body, env)
            finally:
                for e in reversed(exits):
                    self.call(e, [None, None, None], {})
                self.device, self.devstack = saved
            return
        if isinstance(cm, ExtObj) and cm.path == "contextlib.nullcontext":
            if it.optional_vars is not None:
                self.assign(it.optional_vars, cm.args[0] if cm.args else None, env)
            self._with(items[1:], body, env)
            return
        if isinstance(cm, ExtObj) and cm.path == "contextlib.suppress":
            try:
                self._with(items[1:], body, env)
            except AbsRaise as e:
                if not any(self.exc_matches(e, h) for h in cm.args):
                    raise
            return
        if isinstance(cm, Inst):
            ent, _ = cm.cls.lookup("__enter__")
            if ent is not None:
                v = self.call(self.getattr(cm, "__enter__"), [], {})
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                ex, _ = cm.cls.lookup("__exit__")
                if ex is None:
                    self.fail("AttributeError", "__exit__")
                ex = self.getattr(cm, "__exit__")
                try:
                    self._with(items[1:], body, env)
                except AbsRaise as e:
                    if not self.truth(self.call(ex, [self.builtins.get(e.name, Unknown("exc")), e.value, None], {})):
                        raise
                except (_Return, _Break, _Continue):
                    self.call(ex, [None, None, None], {})
                    raise
                else:
                    self.call(ex, [None, None, None], {})
                return
        if it.optional_vars is not None:
            self.assign(it.optional_vars, cm if isinstance(cm, (ExtObj, Unknown)) else Unknown("with"), env)
        self._with(items[1:], body, env)

    # ------------------------------------------------------------ assignment
    def assign_name(self, name, v, env):
        if env.globals_ and name in env.globals_:
            env.module.ns[name] = v
            return
        if env.nonlocals and name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars and not isinstance(e.func, Cls):
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Unknown):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Unknown(v.label), env)
                return
            vals = list(self.iterate(v, want=n if not star else None))
            if star:
                i = star[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    self.fail("ValueError", "unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            if len(vals) != n:
                self.fail("ValueError", "cannot unpack %d values into %d targets" % (len(vals), n))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.iterate(v)), env)
        else:
            raise Incomplete("assign target", self.loc)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            p, _ = o.cls.lookup(name)
            if isinstance(p, PropertyVal):
                if p.fset is None:
                    self.fail("AttributeError", "can't set " + name)
                self.call(p.fset, [o, v], {})
                return
            o.attrs[name] = v
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, Module):
            o.ns[name] = v
        elif isinstance(o, (Func, ExtObj)):
            o.attrs[name] = v
        elif isinstance(o, Bound):
            pass
        elif isinstance(o, (Unknown, Node, Ext)):
            pass
        else:
            self.fail("AttributeError", "cannot set %s on %r" % (name, o))

    def setitem(self, o, k, v):
        if isinstance(o, Unknown):
            return
        if isinstance(o, Inst):
            f, _ = o.cls.lookup("__setitem__")
            if f is None:
                self.fail("TypeError", "no __setitem__")
            self.call(self.getattr(o, "__setitem__"), [k, v], {})
            return
        if isinstance(o, np.ndarray) and not is_concrete(v):
            raise Incomplete("abstract value stored in a numpy constant", self.loc)
        if isinstance(k, Unknown) or (isinstance(k, tuple) and any(isinstance(x, Unknown) for x in k)):
            if isinstance(o, list):
                for i in range(len(o)):
                    o[i] = Unknown("weak update")
                return
            if isinstance(o, dict):
                o[self.hkey(k)] = v
                return
            raise Incomplete("store at unknown index", self.loc)
        if isinstance(o, dict):
            o[self.hkey(k)] = v
            return
        if isinstance(o, (list, np.ndarray)):
            try:
                o[k] = v
            except (IndexError, TypeError, ValueError) as e:
                self.fail(type(e).__name__, str(e))
            return
        if isinstance(o, (Node, ExtObj)):
            raise Incomplete("item store on %r" % (o,), self.loc)
        self.fail("TypeError", "item assignment on %s" % type(o).__name__)

    def hkey(self, k):
        if isinstance(k, (Node, Inst, Unknown, Cls, Func, Ext, ExtObj, EnumMember, FactoryVal)):
            return k
        try:
            hash(k)
            return k
        except TypeError:
            self.fail("TypeError", "unhashable")

    # ------------------------------------------------------------ truth
    def truth_maybe(self, v):
        if v is None or v is Ellipsis:
            return v is Ellipsis
        if isinstance(v, np.ndarray):
            try:
                return bool(v)
            except ValueError as e:
                self.fail("ValueError", str(e))
        if isinstance(v, (bool, int, float, str, np.generic, list, tuple, dict, set, frozenset, bytes, range)):
            return bool(v)
        if isinstance(v, (Func, Bound, Builtin, Cls, Module, FactoryVal, EnumMember)):
            return True
        if isinstance(v, Ext):
            return True
        if isinstance(v, Inst):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth_maybe(self.call(f, [v], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth_maybe(self.call(f, [v], {}))
            return True
        if isinstance(v, ExtObj):
            return None if v.path in ("?",) else True
        if isinstance(v, Node) and v.kind != "backing" and self.const_value is not None:
            c = self.const_value(v)
            if isinstance(c, (int, bool, float, np.generic)):
                return bool(c)
        return None

    const_value = None

    def truth(self, v):
        t = self.truth_maybe(v)
        if t is None:
            return self.choose(v)
        return t

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Incomplete("expression " + type(e).__name__, self.loc)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        n = e.id
        s = env
        first = True
        while s is not None:
            if n in s.vars and (first or not isinstance(s.func, Cls)):
                return s.vars[n]
            if first and isinstance(s.func, Func) and n in _locals_of(s.func.node) \
                    and not (s.globals_ and n in s.globals_) and not (s.nonlocals and n in s.nonlocals):
                self.fail("UnboundLocalError", n)
            first = False
            s = s.parent
        if n in env.module.ns:
            return env.module.ns[n]
        if n in self.builtins:
            return self.builtins[n]
        self.fail("NameError", n)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self.hkey(x) for x in self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.hkey(self.eval(k, env))] = self.eval(v, env)
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None and is_concrete(x):
                    try:
                        parts.append(format(x, self.e_JoinedStr(v.format_spec, env)))
                        continue
                    except (ValueError, TypeError) as ex:
                        self.fail(type(ex).__name__, str(ex))
                parts.append(repr(x) if v.conversion == 114 and is_concrete(x) else self.to_str(x))
        return "".join(parts)

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, Inst):
            return "<%s>" % x.cls.name
        if isinstance(x, ExtObj) and x.path in BUILTIN_EXC:
            return " ".join(self.to_str(a) for a in x.args)
        if isinstance(x, (Func, Bound)):
            return "<fn>"
        try:
            return str(x)
        except Exception:
            return "?"

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth_maybe(v)
            if t is None:
                return not self.choose(v)
            return not t
        return self.unop(type(e.op), v)

    def unop(self, op, v):
        name, f = UNOPS[op]
        if isinstance(v, Inst):
            m, _ = v.cls.lookup(name)
            if m is None:
                self.fail("TypeError", "bad operand for " + name)
            return self.call(m, [v], {})
        if isinstance(v, Node):
            return self.node_method(self, v, name, [], {})
        if isinstance(v, (Unknown, ExtObj, Ext)):
            return Unknown(name)
        try:
            return f(v)
        except Exception as ex:
            self.fail(type(ex).__name__, str(ex))

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.loc = (env.module.path, e.lineno)
        return self.binop(type(e.op), a, b)

    def binop(self, op, a, b, inplace=False):
        name, rname, f, iname = BINOPS[op]
        a, b = _int_enum(a), _int_enum(b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(a, Inst):
                if inplace:
                    m, _ = a.cls.lookup(iname)
                    if m is not None:
                        return self.call(m, [a, b], {})
                m, _ = a.cls.lookup(name)
                if m is not None:
                    r = self.call(m, [a, b], {})
                    if not (isinstance(r, Builtin) and r.name == "NotImplemented"):
                        return r
            if isinstance(b, Inst):
                m, _ = b.cls.lookup(rname)
                if m is not None:
                    r = self.call(m, [b, a], {})
                    if not (isinstance(r, Builtin) and r.name == "NotImplemented"):
                        return r
            if isinstance(a, (Unknown, ExtObj)) or isinstance(b, (Unknown, ExtObj)):
                return Unknown(name)
            self.fail("TypeError", "unsupported operand %s: %r, %r" % (name, a, b))
        if isinstance(a, Node):
            return self.node_method(self, a, name, [b], {})
        if isinstance(b, Node):
            return self.node_method(self, b, rname, [a], {})
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op is ast.Add:
            if isinstance(a, ShapeVal) or isinstance(b, ShapeVal):
                return ShapeVal(tuple(a) + tuple(b))
            if type(a) is GenVal or type(b) is GenVal:
                a, b = list(a), list(b)
            if inplace and isinstance(a, list):
                a.extend(b)
                return a
            try:
                return a + b
            except TypeError as ex:
                self.fail("TypeError", str(ex))
        if isinstance(a, list) and op is ast.Mult and isinstance(b, int):
            return a * b
        if isinstance(a, str) and op is ast.Mod:
            try:
                return a % b
            except Exception:
                return "?"
        if isinstance(a, np.ndarray) and inplace and is_concrete(b):
            # numpy in-place update keeps identity
            try:
                r = f(a, b)
            except Exception as ex:
                self.fail(type(ex).__name__, str(ex))
            if isinstance(r, np.ndarray) and r.shape == a.shape:
                a[...] = r
                return a
            return r
        if isinstance(a, (Unknown, Ext, ExtObj, FactoryVal)) or isinstance(b, (Unknown, Ext, ExtObj, FactoryVal)):
            return Unknown(name)
        if isinstance(a, ShapeVal):
            a = tuple(a)
        try:
            return f(a, b)
        except Exception as ex:
            self.fail(type(ex).__name__, "%s (%r, %r)" % (ex, a, b))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            r = self.compare(type(op), left, right)
            if len(e.ops) == 1:
                return r
            t = self.truth(r)
            if not t:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if op in (ast.Is, ast.IsNot):
            if isinstance(a, (Unknown,)) or isinstance(b, (Unknown,)):
                if a is None or b is None:
                    r = False
                else:
                    return Unknown("is")
            else:
                r = a is b or (isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str))
                               and type(a) is type(b) and a == b)
            return r if op is ast.Is else not r
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if isinstance(r, Unknown):
                return r
            return r if op is ast.In else not r
        name, rname, f = CMPOPS[op]
        if isinstance(a, Inst) or isinstance(b, Inst):
            for x, y, nm in ((a, b, name), (b, a, rname)):
                if isinstance(x, Inst):
                    m, _ = x.cls.lookup(nm)
                    if m is not None:
                        return self.call(m, [x, y], {})
                    if nm == "__ne__":
                        m, _ = x.cls.lookup("__eq__")
                        if m is not None:
                            r = self.call(m, [x, y], {})
                            t = self.truth_maybe(r)
                            return Unknown("ne") if t is None else (not t)
            if op in (ast.Eq, ast.NotEq):
                va, vb = [self.nt_values(x) if isinstance(x, Inst) and x.cls.is_nt else x for x in (a, b)]
                if isinstance(va, Inst) and isinstance(vb, Inst) and va.cls is vb.cls and va.cls.fields:
                    va, vb = self.nt_values(va), self.nt_values(vb)
                if isinstance(va, tuple) and isinstance(vb, tuple):
                    return self.compare(op, va, vb)
            if op is ast.Eq:
                return a is b
            if op is ast.NotEq:
                return a is not b
            self.fail("TypeError", "compare %s %r %r" % (name, a, b))
        if isinstance(a, Node):
            return self.node_method(self, a, name, [b], {})
        if isinstance(b, Node):
            return self.node_method(self, b, rname, [a], {})
        a, b = _int_enum(a), _int_enum(b)
        if isinstance(a, (EnumMember, Cls, Func, Module, FactoryVal, Ext)) or \
           isinstance(b, (EnumMember, Cls, Func, Module, FactoryVal, Ext)):
            if isinstance(a, (Unknown,)) or isinstance(b, (Unknown,)):
                return Unknown("cmp")
            if op is ast.Eq:
                return a is b
            if op is ast.NotEq:
                return a is not b
            return Unknown("cmp")
        if isinstance(a, (Unknown, ExtObj)) or isinstance(b, (Unknown, ExtObj)):
            if (a is None or b is None) and op in (ast.Eq, ast.NotEq):
                return op is ast.NotEq
            return Unknown("cmp")
        if isinstance(a, ShapeVal) or isinstance(b, ShapeVal):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                r = list(a) == list(b)
                if op is ast.Eq:
                    return r
                if op is ast.NotEq:
                    return not r
            if op is ast.Eq:
                return False
            if op is ast.NotEq:
                return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op in (ast.Eq, ast.NotEq):
            r = self.seq_eq(a, b)
            if r is None:
                return Unknown("cmp")
            return r if op is ast.Eq else not r
        try:
            return f(a, b)
        except Exception as ex:
            self.fail(type(ex).__name__, str(ex))

    def seq_eq(self, a, b):
        if type(a) is not type(b) and not (isinstance(a, (list, GenVal)) and isinstance(b, (list, GenVal))):
            return False
        if len(a) != len(b):
            return False
        unk = False
        for x, y in zip(a, b):
            r = self.truth_maybe(self.compare(ast.Eq, x, y))
            if r is False:
                return False
            if r is None:
                unk = True
        return None if unk else True

    def contains(self, c, x):
        if isinstance(c, (Unknown, ExtObj)):
            return Unknown("in")
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            return Unknown("in")
        if isinstance(c, dict):
            if isinstance(x, Unknown):
                return Unknown("in")
            try:
                return x in c
            except TypeError as e:
                self.fail("TypeError", str(e))
        if isinstance(c, Inst):
            m, _ = c.cls.lookup("__contains__")
            if m is not None:
                return self.call(m, [c, x], {})
        if isinstance(x, Unknown):
            return Unknown("in")
        if isinstance(c, (range, np.ndarray)):
            return x in c
        unk = False
        for y in self.iterate(c):
            if x is y:
                return True
            r = self.truth_maybe(self.compare(ast.Eq, x, y))
            if r is True:
                return True
            if r is None:
                unk = True
        return Unknown("in") if unk else False

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        k = self.eval(e.slice, env)
        self.loc = (env.module.path, e.lineno)
        return self.getitem(o, k)

    def e_Slice(self, e, env):
        return slice(*[None if x is None else self.eval(x, env) for x in (e.lower, e.upper, e.step)])

    def e_Lambda(self, e, env):
        f = Func(e, env, env.module)
        self.init_func(f, e, env)
        return f

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        if "$yield" in env.vars:
            env.vars["$yield"](v)
            return None
        g = self.gen_sink(env)
        g.append(v)
        if len(g) >= self.gen_limit:
            raise _Return(None)         # generators are unfolded to a bounded prefix
        return None

    gen_limit = 4096

    def e_YieldFrom(self, e, env):
        for v in self.iterate(self.eval(e.value, env)):
            self.gen_sink(env).append(v)
        return None

    def e_Await(self, e, env):
        return self.eval(e.value, env)

    def gen_sink(self, env):
        while env is not None:
            if "$gen" in env.vars:
                return env.vars["$gen"]
            env = env.parent
        raise Incomplete("yield outside generator", self.loc)

    def comp(self, gens, env, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        for v in self.iterate(self.eval(g.iter, env)):
            self.assign(g.target, v, env)
            ok = True
            for c in g.ifs:
                if not self.truth(self.eval(c, env)):
                    ok = False
                    break
            if ok:
                self.comp(gens[1:], env, emit)

    def _compenv(self, env):
        # comprehension scope: sees the enclosing scope (class scopes included for the
        # first iterable; harmless over-approximation)
        ce = Env(env, env.module)
        return ce

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, self._compenv(env), lambda en: out.append(self.eval(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        out = GenVal()
        self.comp(e.generators, self._compenv(env), lambda en: out.append(self.eval(e.elt, en)))
        return out

    def e_SetComp(self, e, env):
        out = set()
        self.comp(e.generators, self._compenv(env), lambda en: out.add(self.hkey(self.eval(e.elt, en))))
        return out

    def e_DictComp(self, e, env):
        out = {}

        def emit(en):
            out[self.hkey(self.eval(e.key, en))] = self.eval(e.value, en)
        self.comp(e.generators, self._compenv(env), emit)
        return out

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                c = self.eval(e.args[0], env)
                s = self.eval(e.args[1], env)
                return SuperVal(c, s)
            s = env
            while s is not None and not (isinstance(s.func, Func) and s.func.cls is not None):
                s = s.parent
            if s is None:
                raise Incomplete("super() outside method", self.loc)
            first = s.func.node.args.args[0].arg
            return SuperVal(s.func.cls, s.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id in ("globals", "locals") and not e.args:
            return env.module.ns if e.func.id == "globals" else dict(env.vars)
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, dict):
                    kwargs.update(d)
                elif not isinstance(d, Unknown):
                    self.fail("TypeError", "** of non mapping")
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        self.loc = (env.module.path, e.lineno)
        r = self.call(f, args, kwargs)
        self.loc = (env.module.path, e.lineno)
        return r

    # ------------------------------------------------------------ attribute access
    def concrete_function(self, f, a, k):
        """tf.function(f).get_concrete_function(...): a traced graph, kept as the function itself"""
        g = ExtObj("FuncGraph")
        g.attrs.update(func=f, outputs=[], internal_captures=[], control_captures=[], name="g",
                       get_operations=Builtin("get_operations", lambda i, a2, k2: []))
        c = ExtObj("ConcreteFunction")
        c.attrs.update(graph=g, captured_inputs=[])
        return c

    def getattr(self, o, name, default=AbsRaise):
        if isinstance(o, Inst):
            p, owner = o.cls.lookup(name)
            if isinstance(p, PropertyVal):
                return self.call(p.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if owner is not None:
                return self.bind(p, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if o.cls.is_nt and name == "_replace":
                return Builtin(name, lambda it, a, k: it.instantiate(o.cls, [], dict(zip(it.class_fields(o.cls), it.nt_values(o)), **k)))
            if o.cls.is_nt and name == "_asdict":
                return Builtin(name, lambda it, a, k: dict(zip(it.class_fields(o.cls), it.nt_values(o))))
            if o.cls.is_nt and name == "_fields":
                return tuple(self.class_fields(o.cls))
            g, _ = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(g, [o, name], {})
            hook = self.assumes.get("inst_getattr")
            if hook is not None:
                r = hook(self, o, name)
                if r is not None:
                    return r
            if default is not AbsRaise:
                return default
            eb = [b for b in o.cls.ext_bases() if isinstance(b, Ext) and b.path not in
                  ("abc.ABC", "object", "enum.Enum", "typing.Generic")]
            if eb:
                return Unknown("%s.%s" % (o.cls.name, name))
            self.fail("AttributeError", "%s has no attribute %s" % (o.cls.name, name))
        if isinstance(o, Cls):
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__members__" and o.is_enum:
                return {k: v for k, v in o.ns.items() if isinstance(v, EnumMember)}
            if default is not AbsRaise:
                return default
            if o.ext_bases():
                return Unknown("%s.%s" % (o.name, name))
            self.fail("AttributeError", "class %s has no attribute %s" % (o.name, name))
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            sub = self.load(o.name + "." + name)
            if sub is not None:
                return sub
            if default is not AbsRaise:
                return default
            if not o.loaded:
                return Unknown("circular %s.%s" % (o.name, name))
            self.fail("AttributeError", "module %s has no %s" % (o.name, name))
        if isinstance(o, SuperVal):
            scls = o.self_.cls if isinstance(o.self_, Inst) else o.self_
            v, owner = scls.lookup(name, after=o.cls)
            if owner is not None:
                if isinstance(v, PropertyVal):
                    return self.call(v.fget, [o.self_], {})
                return self.bind(v, o.self_, scls)
            return Builtin("ext-super." + name, lambda it, a, k: None)
        if isinstance(o, EnumMember):
            if name in ("name", "value"):
                return getattr(o, name)
            v, owner = o.cls.lookup(name)
            if owner is not None:
                if isinstance(v, PropertyVal):
                    return self.call(v.fget, [o], {})
                return self.bind(v, o, o.cls)
            self.fail("AttributeError", name)
        if isinstance(o, Node):
            return self.node_attr(self, o, name)
        if isinstance(o, FactoryVal):
            return self.factory_attr(self, o, name)
        if isinstance(o, Ext):
            p = canon(o.path + "." + name)
            m = self.models.get("attr:" + p)
            if m is not None:
                return m(self) if callable(m) else m
            if o.path == "np" and name in ("pi", "e", "inf", "nan", "newaxis"):
                return getattr(np, name)
            if o.path == "math" and name in ("pi", "e", "inf"):
                return getattr(math, name)
            return Ext(p)
        if isinstance(o, ExtObj):
            if name in o.attrs:
                return o.attrs[name]
            if o.path in BUILTIN_EXC and name == "args":
                return tuple(o.args)
            m = self.models.get("objattr:" + o.path)
            if m is not None:
                return m(self, o, name)
            return Builtin("extmethod", lambda it, a, k, o=o, name=name: it.ext_method(o, name, a, k))
        if isinstance(o, Unknown):
            return Unknown("%s.%s" % (o.label, name))
        if isinstance(o, Func) and name == "get_concrete_function":
            return Builtin(name, lambda i, a, k, f=o: i.concrete_function(f, a, k))
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__wrapped__":
                self.fail("AttributeError", name)
            if name == "__doc__":
                return ""
            if default is not AbsRaise:
                return default
            return Unknown("func." + name)
        if isinstance(o, Bound):
            if name == "__name__":
                return getattr(o.func, "name", "?")
            if name == "__func__":
                return o.func
            if name == "__self__":
                return o.self_
            return Unknown("bound." + name)
        if isinstance(o, Builtin):
            if name == "__name__":
                return o.name
            m = self.builtins.get(o.name + "." + name)
            if m is not None:
                return m
            return Unknown("builtin." + name)
        if isinstance(o, ShapeVal):
            return shape_attr(self, o, name)
        if isinstance(o, PropertyVal):
            return Unknown("prop." + name)
        # plain python values
        return self.py_attr(o, name, default)

    def py_attr(self, o, name, default=AbsRaise):
        if isinstance(o, (list, GenVal)):
            ok = ("append", "extend", "pop", "insert", "index", "remove", "reverse", "copy", "count", "sort", "clear",
                  "popleft", "appendleft")
        elif isinstance(o, dict):
            ok = ("get", "items", "keys", "values", "pop", "update", "setdefault", "copy", "clear", "popitem",
                  "move_to_end", "fromkeys")
        elif isinstance(o, (set, frozenset)):
            ok = ("add", "remove", "union", "update", "discard", "intersection", "difference", "issubset", "pop",
                  "issuperset", "isdisjoint", "symmetric_difference", "intersection_update", "difference_update",
                  "copy", "clear")
        elif isinstance(o, tuple):
            ok = ("index", "count")
        elif isinstance(o, str):
            ok = tuple(n for n in dir(str) if not n.startswith("__"))
        else:
            ok = None
        if ok is not None:
            if name == "__class__":
                return self.builtins[type(o).__name__] if type(o).__name__ in self.builtins else Unknown("cls")
            if name not in ok:
                if default is not AbsRaise:
                    return default
                self.fail("AttributeError", "%s.%s" % (type(o).__name__, name))
            return Builtin(name, lambda it, a, k, o=o, name=name: it.py_method(o, name, a, k))
        # numbers / numpy constants
        try:
            v = getattr(o, name)
        except AttributeError:
            if default is not AbsRaise:
                return default
            self.fail("AttributeError", "%s.%s" % (type(o).__name__, name))
        if callable(v):
            def run(it, a, k, v=v):
                a = [real_dtype(x) for x in a]
                k = {kk: real_dtype(x) for kk, x in k.items()}
                if not all(is_concrete(x) or isinstance(x, type) for x in list(a) + list(k.values())):
                    return Unknown(name)
                try:
                    return v(*a, **k)
                except Exception as ex:
                    it.fail(type(ex).__name__, str(ex))
            return Builtin(name, run)
        if isinstance(o, np.ndarray) and name == "shape":
            return tuple(v)
        return v

    def py_method(self, o, name, a, k):
        if isinstance(o, list):
            if name == "sort":
                o[:] = self.call(self.builtins["sorted"], [list(o)], k)
                return None
            if name == "popleft":
                return o.pop(0) if o else self.fail("IndexError", "empty")
            if name == "appendleft":
                o.insert(0, a[0])
                return None
            if name == "extend":
                o.extend(self.iterate(a[0]))
                return None
            if name in ("index", "count", "remove"):
                hits = [i for i, y in enumerate(o)
                        if y is a[0] or self.truth_maybe(self.compare(ast.Eq, y, a[0])) is True]
                if name == "count":
                    return len(hits)
                if not hits:
                    self.fail("ValueError", "not in list")
                if name == "index":
                    return hits[0]
                del o[hits[0]]
                return None
        if isinstance(o, dict):
            if name in ("items",):
                return [(x, y) for x, y in o.items()]
            if name in ("keys", "values"):
                return list(getattr(o, name)())
            if name == "update" and a and not isinstance(a[0], (dict, list, GenVal)):
                return None
        if isinstance(o, str):
            if name == "format":
                try:
                    return o.format(*[self.to_str(x) if not isinstance(x, (int, float, str)) else x for x in a],
                                    **{kk: self.to_str(x) if not isinstance(x, (int, float)) else x for kk, x in k.items()})
                except Exception:
                    return "?"
            if not all(is_concrete(x) for x in a):
                if name == "join":
                    a = [[self.to_str(x) for x in self.iterate(a[0])]]
                else:
                    return Unknown(name)
            elif name == "join":
                a = [[self.to_str(x) for x in self.iterate(a[0])]]
        try:
            return getattr(o, name)(*a, **k)
        except Exception as ex:
            self.fail(type(ex).__name__, str(ex))

    def bind(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, Builtin) and getattr(v, "bindable", False):
            return Bound(v, o)
        return v

    # ------------------------------------------------------------ items / iteration
    def getitem(self, o, k):
        if isinstance(o, Inst):
            f, _ = o.cls.lookup("__getitem__")
            if f is None and o.cls.is_nt:
                return self.getitem(self.nt_values(o), k)
            if f is None:
                self.fail("TypeError", "%s not subscriptable" % o.cls.name)
            return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(o, Node):
            return self.node_method(self, o, "__getitem__", [k], {})
        if isinstance(o, (Unknown,)):
            return Unknown("%s[]" % o.label)
        if isinstance(o, ExtObj):
            m = self.models.get("getitem:" + o.path)
            if m is not None:
                return m(self, o, k)
            return Unknown("%s[]" % o.path)
        if isinstance(o, Ext):
            if o.path == "sys.modules":
                if isinstance(k, str):
                    m = self.load(k)
                    if m is not None:
                        return m
            return o if o.path.startswith("typing") else Unknown(o.path + "[]")
        if isinstance(o, Cls):
            if o.is_enum and isinstance(k, str):
                return o.ns[k]
            return o
        if isinstance(o, dict):
            if isinstance(k, Unknown):
                return Unknown("dict[]")
            if isinstance(o, DefDict) and not self.contains(o, k):
                o[self.hkey(k)] = self.call(o.factory, [], {})
            try:
                return o[k]
            except (KeyError, TypeError) as ex:
                self.fail(type(ex).__name__, str(ex))
        if isinstance(k, Unknown) or (isinstance(k, slice) and not is_concrete(k)):
            return Unknown("[]")
        if isinstance(k, Node):
            return Unknown("[]")
        if isinstance(o, np.ndarray) and not is_concrete(k):
            return Unknown("np[]")
        try:
            r = o[k]
        except Exception as ex:
            self.fail(type(ex).__name__, "%s (%r[%r])" % (ex, type(o).__name__, k))
        if isinstance(o, ShapeVal) and isinstance(k, slice):
            return ShapeVal(r)
        return r

    def iterate(self, v, want=None):
        if isinstance(v, GenVal):
            # generators are single pass
            return list(v.drain())
        if isinstance(v, (list, tuple, range, str, set, frozenset, bytes, bytearray)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, np.ndarray):
            return list(v)
        if isinstance(v, Inst) and v.cls.is_nt:
            return list(self.nt_values(v))
        if isinstance(v, Inst):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
            f, _ = v.cls.lookup("__getitem__")
            ln, _ = v.cls.lookup("__len__")
            if f is not None and ln is not None:
                n = self.call(ln, [v], {})
                if isinstance(n, int):
                    return [self.call(f, [v, i], {}) for i in range(n)]
            raise Incomplete("iterate over %r" % v, self.loc)
        if isinstance(v, Cls) and v.is_enum:
            return [m for m in v.ns.values() if isinstance(m, EnumMember)]
        if isinstance(v, Node):
            return self.node_iter(v, want)
        if isinstance(v, ExtObj) and "iter" in v.attrs:
            return list(v.attrs["iter"])
        if isinstance(v, Unknown) and want:
            return [Unknown(v.label) for _ in range(want)]
        if isinstance(v, (int, float, type(None))):
            self.fail("TypeError", "not iterable: %r" % (v,))
        raise Incomplete("iterate over %r" % (v,), self.loc)

    def node_iter(self, v, want):
        n = want
        if v.shape is not None and len(v.shape) and v.shape[0] is not None:
            n = v.shape[0]
        if n is None:
            raise Incomplete("iterate over tensor of unknown length", self.loc)
        return [self.node_method(self, v, "__getitem__", [i], {}) for i in range(n)]

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        self.callcount += 1
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f.path, list(args), kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Inst):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
            self.fail("TypeError", "%s not callable" % f.cls.name)
        if isinstance(f, Unknown):
            return self.unknown_call(f.label, args, kwargs)
        if isinstance(f, ExtObj):
            m = self.models.get("callobj:" + f.path)
            if m is not None:
                return m(self, f, args, kwargs)
            return self.unknown_call(f.path, args, kwargs)
        if isinstance(f, type) and issubclass(f, np.generic):
            if all(is_concrete(a) for a in args):
                return f(*args)
            return Unknown(f.__name__)
        if f is None or isinstance(f, (int, str, list, tuple, dict, Node)):
            self.fail("TypeError", "%s object is not callable" % type(f).__name__)
        raise Incomplete("call of %r" % (f,), self.loc)

    def unknown_call(self, label, args, kwargs):
        nodes = [a for a in flatten(list(args) + list(kwargs.values())) if isinstance(a, Node)]
        if nodes:
            return self.node("ext:" + str(label), nodes, (), kind="tf")
        return Unknown(label)

    def instantiate(self, c, args, kwargs):
        ov = self.overrides.get(c.qual)
        if ov is not None:
            return ov(self, args, kwargs)
        if c.is_enum:
            for m in c.ns.values():
                if isinstance(m, EnumMember) and args and self.truth_maybe(self.compare(ast.Eq, m.value, args[0])):
                    return m
            self.fail("ValueError", "enum")
        o = Inst(c)
        init, owner = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif c.is_nt or any(k.fields for k in c.mro()) or \
                any(isinstance(b, Ext) and b.path == "tf.experimental.ExtensionType" for b in c.ext_bases()):
            self.extension_type(c, o, args, kwargs)
            post, _ = c.lookup("__post_init__")
            if post is not None:
                self.call(post, [o], {})
        else:
            if args or kwargs:
                if not [b for b in c.ext_bases() if not (isinstance(b, Ext) and b.path in ("abc.ABC",))]:
                    self.fail("TypeError", "%s() takes no arguments" % c.name)
            o.attrs["$args"] = (args, kwargs)
        return o

    def extension_type(self, c, o, args, kwargs):
        """the constructor tf.experimental.ExtensionType derives from the annotations"""
        fields = self.class_fields(c)
        if len(args) > len(fields):
            self.fail("TypeError", "%s() takes %d arguments" % (c.name, len(fields)))
        for nm, v in list(zip(fields, args)) + list(kwargs.items()):
            if nm not in fields or nm in o.attrs:
                self.fail("TypeError", "%s() argument %s" % (c.name, nm))
            o.attrs[nm] = v
        for nm, d in fields.items():
            if nm not in o.attrs:
                if isinstance(d, ExtObj) and d.path == "dataclasses.field":
                    kw = d.attrs["kw"]
                    d = self.call(kw["default_factory"], [], {}) if "default_factory" in kw else kw.get("default", Ellipsis)
                if d is Ellipsis:
                    self.fail("TypeError", "%s() missing argument %s" % (c.name, nm))
                o.attrs[nm] = d

    def class_fields(self, c):
        fields = {}
        for k in reversed(c.mro()):
            if isinstance(k.fields, list):
                fields.update((n, k.ns.get(n, Ellipsis)) for n in k.fields)
            for st in getattr(getattr(k, "node", None), "body", ()):
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and \
                        "ClassVar" not in ast.unparse(st.annotation):
                    fields[st.target.id] = k.ns.get(st.target.id, Ellipsis)
        return fields

    def nt_values(self, o):
        return tuple(o.attrs[n] for n in self.class_fields(o.cls))

    def call_func(self, f, args, kwargs, on_yield=None):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, list(args), dict(kwargs))
            if r is not PASS:
                return r
        if len(self.fstack) > self.maxdepth:
            raise Incomplete("call depth", self.loc)
        env = Env(f.env, f.module, f)
        self.bind_args(f, args, kwargs, env)
        self.visited.add(f.qual)
        saved = (self.loc, self.device)
        callsite = self.loc
        if not self.fstack:
            self.steps = 0
        self.fstack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.isgen and on_yield is not None:
                def leave(v, _y=on_yield, dev=self.device):
                    try:
                        _y(v)
                    except (_Return, _Break, _Continue) as ex:
                        raise _Through(ex)
                env.vars["$yield"] = leave
                try:
                    self.exec_block(f.node.body, env)
                except _Return:
                    pass
                except _Through as t:
                    raise t.ex
                return None
            if f.isgen:
                env.vars["$gen"] = GenVal()
                try:
                    self.exec_block(f.node.body, env)
                except _Return:
                    pass
                return env.vars["$gen"]
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.fstack.pop()
            self.loc, self.device = saved

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        args = list(args)
        v = env.vars
        if len(args) > len(pos):
            if a.vararg is None:
                self.fail("TypeError", "%s() takes %d positional arguments but %d were given"
                          % (f.name, len(pos), len(args)))
            v[a.vararg.arg] = tuple(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        for n, x in zip(pos, args):
            v[n] = x
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n in v and i < len(args):
                if n in kwargs:
                    self.fail("TypeError", "%s() got multiple values for %s" % (f.name, n))
                continue
            if n in kwargs:
                v[n] = kwargs.pop(n)
            else:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.fail("TypeError", "%s() missing argument %s" % (f.name, n))
                v[n] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kw_defaults):
            if x.arg in kwargs:
                v[x.arg] = kwargs.pop(x.arg)
            elif a.kw_defaults[a.kwonlyargs.index(x)] is not None:
                v[x.arg] = d
            else:
                self.fail("TypeError", "%s() missing keyword %s" % (f.name, x.arg))
        if a.kwarg is not None:
            v[a.kwarg.arg] = kwargs
        elif kwargs:
            self.fail("TypeError", "%s() got unexpected keyword %s" % (f.name, sorted(kwargs)))

    # ------------------------------------------------------------ external calls
    def call_ext(self, path, args, kwargs):
        m = self.models.get(path)
        if m is not None:
            return m(self, args, kwargs)
        if path in ("tf.name_scope", "tf.compat.v1.name_scope", "tf.control_dependencies", "tf.variable_scope"):
            return ExtObj(path)
        if path.startswith("np.") and not path.startswith("np.random"):
            return np_call(self, path, args, kwargs)
        if path.startswith("math."):
            if all(is_concrete(a) for a in args):
                try:
                    return getattr(math, path[5:])(*args)
                except Exception as ex:
                    self.fail(type(ex).__name__, str(ex))
            return Unknown(path)
        if path in ("functools.wraps",):
            def wraps(it, a, k, src=args[0]):
                if isinstance(a[0], Func) and isinstance(src, Func):
                    a[0].attrs["__name__"] = src.attrs.get("__name__", src.name)
                return a[0]
            return Builtin("wraps", wraps)
        if path == "functools.partial":
            def part(it, a, k, args=args, kwargs=kwargs):
                kk = dict(kwargs)
                kk.update(k)
                return it.call(args[0], list(args[1:]) + a, kk)
            return Builtin("partial", part)
        if path in ("functools.reduce",):
            it = self.iterate(args[1])
            if len(args) > 2:
                acc = args[2]
            else:
                if not it:
                    self.fail("TypeError", "reduce of empty")
                acc, it = it[0], it[1:]
            for x in it:
                acc = self.call(args[0], [acc, x], {})
            return acc
        if path.startswith("itertools."):
            import itertools
            name = path[10:]
            if name == "islice" and isinstance(args[0], GenVal) and len(args) == 2:
                return GenVal(args[0].take() for _ in range(min(args[1], len(args[0]))))
            if name == "accumulate":
                xs, f = self.iterate(args[0]), (args[1] if len(args) > 1 else kwargs.get("func"))
                out = [kwargs["initial"]] if kwargs.get("initial") is not None else []
                for x in xs:
                    out.append(x if not out else self.binop(ast.Add, out[-1], x) if f is None else self.call(f, [out[-1], x], {}))
                return GenVal(out)
            if name in ("product", "chain", "permutations", "combinations", "zip_longest", "islice",
                        "combinations_with_replacement", "compress"):
                try:
                    conv = [self.iterate(a) if not isinstance(a, int) else a for a in args]
                    return GenVal(getattr(itertools, name)(*conv, **kwargs))
                except Incomplete:
                    raise
            if name == "repeat":
                return GenVal([args[0]] * (args[1] if len(args) == 2 else kwargs.get("times", 4096)))
            if name == "count":
                a0, st = (list(args) + [0, 1][len(args):])[:2]
                return GenVal(a0 + st * j for j in range(4096))
            if name == "cycle":
                xs = self.iterate(args[0])
                return GenVal((xs * (4096 // max(len(xs), 1) + 1))[:4096] if xs else [])
            if name == "starmap":
                return GenVal(self.call(args[0], list(self.iterate(x)), {}) for x in self.iterate(args[1]))
            if name == "chain.from_iterable":
                return GenVal(y for x in self.iterate(args[0]) for y in self.iterate(x))
            if name in ("takewhile", "dropwhile", "filterfalse"):
                return GenVal(getattr(itertools, name)(lambda x: self.truth(self.call(args[0], [x], {})), self.iterate(args[1])))
            if name in ("tee",):
                xs = self.iterate(args[0])
                return tuple(GenVal(xs) for _ in range(args[1] if len(args) > 1 else 2))
            if name == "groupby":
                out, key = [], (args[1] if len(args) > 1 else kwargs.get("key"))
                for x in self.iterate(args[0]):
                    kx = x if key is None else self.call(key, [x], {})
                    if out and self.truth(self.compare(ast.Eq, out[-1][0], kx)):
                        out[-1][1].append(x)
                    else:
                        out.append((kx, GenVal([x])))
                return GenVal(out)
            if name == "pairwise":
                xs = self.iterate(args[0])
                return GenVal(zip(xs, xs[1:]))
        if path.startswith("operator."):
            name = path[9:]
            opmap = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "xor": ast.BitXor, "and_": ast.BitAnd,
                     "or_": ast.BitOr, "truediv": ast.Div, "floordiv": ast.FloorDiv, "matmul": ast.MatMult,
                     "lshift": ast.LShift, "rshift": ast.RShift, "mod": ast.Mod, "pow": ast.Pow}
            if name in opmap:
                return self.binop(opmap[name], args[0], args[1])
            if name == "neg":
                return self.unop(ast.USub, args[0])
            cmpmap = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE,
                      "is_": ast.Is, "is_not": ast.IsNot}
            if name in cmpmap:
                return self.compare(cmpmap[name], args[0], args[1])
            if name == "contains":
                return self.contains(args[0], args[1])
            if name in ("invert", "inv"):
                return self.unop(ast.Invert, args[0])
            if name == "not_":
                t = self.truth_maybe(args[0])
                return Unknown("not") if t is None else not t
            if name == "truth":
                return self.truth(args[0])
            if name == "getitem":
                return self.getitem(args[0], args[1])
            if name == "setitem":
                return self.setitem(args[0], args[1], args[2])
            if name in ("iadd", "isub", "imul", "ixor"):
                return self.binop(opmap[name[1:]], args[0], args[1], inplace=True)
            if name == "itemgetter":
                ks = list(args)
                return Builtin(name, lambda it, a, k: it.getitem(a[0], ks[0]) if len(ks) == 1 else tuple(it.getitem(a[0], x) for x in ks))
            if name == "attrgetter":
                def ag(it, a, k, ks=tuple(args)):
                    def one(nm):
                        o = a[0]
                        for part in nm.split("."):
                            o = it.getattr(o, part)
                        return o
                    return one(ks[0]) if len(ks) == 1 else tuple(one(x) for x in ks)
                return Builtin(name, ag)
            if name == "methodcaller":
                return Builtin(name, lambda it, a, k, m=args[0], r=args[1:], kw=dict(kwargs): it.call(it.getattr(a[0], m), list(r), kw))
        if path == "collections.OrderedDict":
            d = {}
            if args:
                src = args[0]
                for kv in (src.items() if isinstance(src, dict) else self.iterate(src)):
                    d[self.hkey(kv[0])] = kv[1]
            d.update(kwargs)
            return d
        if path == "collections.defaultdict":
            d = DefDict(*args[1:], **kwargs)
            d.factory = args[0] if args else None
            return d if d.factory is not None else dict(d)
        if path == "collections.namedtuple":
            names = args[1] if isinstance(args[1], (list, tuple)) else args[1].replace(",", " ").split()
            c = Cls(args[0], [Ext("typing.NamedTuple")], {}, self.fstack[-1].module if self.fstack else Module("?", "?"))
            c.fields = list(names)
            dfl = kwargs.get("defaults") or ()
            c.ns.update(zip(c.fields[len(c.fields) - len(dfl):], dfl))
            return c
        if path == "collections.deque":
            return list(self.iterate(args[0])) if args else []
        if path == "dataclasses.field":
            x = ExtObj(path)
            x.attrs["kw"] = dict(kwargs)
            return x
        if path == "dataclasses.dataclass":
            if args and isinstance(args[0], Cls):
                args[0].fields = True
                return args[0]
            return ExtObj(path)
        if path == "dataclasses.replace":
            o = args[0]
            return self.instantiate(o.cls, [], dict(zip(self.class_fields(o.cls), self.nt_values(o)), **kwargs))
        if path == "contextlib.contextmanager":
            f = args[0]
            b = Builtin(f.name, lambda it, a, k: ExtObj("$cm", (f, a, k)))
            b.bindable = True
            return b
        if path in ("functools.lru_cache", "functools.cache"):
            return self.memo(args[0]) if args and isinstance(args[0], (Func, Bound)) else ExtObj("functools.lru_cache")
        if path == "copy.copy" or path == "copy.deepcopy":
            x = args[0]
            if isinstance(x, (list, dict, set)):
                import copy as _c
                return type(x)(x) if path == "copy.copy" else _deep(x)
            return x
        if path in ("contextlib.nullcontext", "contextlib.suppress", "contextlib.ExitStack"):
            return ExtObj(path, tuple(args))
        if path.startswith("logging") or path.startswith("warnings") or path.startswith("tf.get_logger"):
            return ExtObj(path)
        if path.startswith("typing."):
            return Ext(path)
        if path.split(".")[-1] in BUILTIN_EXC and path.startswith("tf.errors"):
            return ExtObj(path, tuple(args))
        if self.ext_default is not None:
            return self.ext_default(self, path, args, kwargs)
        return self.unknown_call(path, args, kwargs)

    def ext_method(self, o, name, args, kwargs):
        m = self.models.get("method:%s.%s" % (o.path, name))
        if m is not None:
            return m(self, o, args, kwargs)
        return self.unknown_call("%s.%s" % (o.path, name), args, kwargs)

    def factory_attr(self, it, o, name):
        return self.factory_method(self, o, name)


def _int_enum(x):
    return x.value if isinstance(x, EnumMember) and x.cls.int_enum else x


def _deep(x):
    if isinstance(x, list):
        return [_deep(y) for y in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(_deep(y) for y in x)
    if isinstance(x, dict):
        return {k: _deep(v) for k, v in x.items()}
    return x


def flatten(v):
    for x in v:
        if isinstance(x, (list, tuple)):
            yield from flatten(x)
        elif isinstance(x, dict):
            yield from flatten(list(x.values()))
        else:
            yield x


_canon_pref = [("tensorflow", "tf"), ("numpy", "np")]


def canon(p):
    for a, b in _canon_pref:
        if p == a:
            return b
        if p.startswith(a + "."):
            return b + p[len(a):]
    return p


_localcache = {}


def _locals_of(node):
    r = _localcache.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    names = set()
    if isinstance(node, ast.Lambda):
        _localcache[id(node)] = (node, names)
        return names
    gl = set()

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                gl.update(c.names)
            if isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            if isinstance(c, ast.alias):
                names.add((c.asname or c.name).split(".")[0])
            visit(c)
    for s in node.body:
        visit(ast.Module([s], []))
    names -= gl
    _localcache[id(node)] = (node, names)
    return names


def _is_gen(node):
    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if visit(c):
                return True
        return False
    return visit(node)


def _bound_names(st):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, ast.Assign):
        return [t.id for t in st.targets if isinstance(t, ast.Name)]
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split(".")[0] for a in st.names]
    return []


NPDT = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32",
        "float64", "bool_", "bool", "object_", "object"}


def real_dtype(x):
    """np dtype names given as Ext -> real numpy dtype (constant folding only)."""
    if isinstance(x, Ext) and x.path.startswith("np.") and x.path[3:] in NPDT:
        n = x.path[3:]
        return {"bool": bool, "object": object}.get(n) or getattr(np, n)
    if isinstance(x, Ext) and x.path == "object":
        return object
    if isinstance(x, Builtin) and x.name in ("int", "float", "bool", "object", "str"):
        return {"int": int, "float": float, "bool": bool, "object": object, "str": str}[x.name]
    return x


def np_call(it, path, args, kwargs):
    name = path[3:]
    a = [real_dtype(x) for x in args]
    k = {kk: real_dtype(x) for kk, x in kwargs.items()}
    a = [tuple(x) if isinstance(x, ShapeVal) else (list(x) if isinstance(x, GenVal) else x) for x in a]
    ok = all(is_concrete(x) or isinstance(x, type) for x in a + list(k.values()))
    if ok:
        f = np
        try:
            for part in name.split("."):
                f = getattr(f, part)
        except AttributeError:
            return Unknown(path)
        try:
            return f(*a, **k)
        except Exception as ex:
            it.fail(type(ex).__name__, str(ex))
    m = it.models.get("npabs:" + name)
    if m is not None:
        return m(it, args, kwargs)
    if name in ("prod",) and isinstance(a[0], (list, tuple)):
        return Unknown("prod")
    nodes = [x for x in flatten(list(args) + list(kwargs.values())) if isinstance(x, Node)]
    if nodes:
        return it.node("np:" + name, nodes, (), kind="np")
    return Unknown(path)


def shape_attr(it, o, name):
    def meth(f):
        return Builtin(name, lambda it2, a, k: f(*a, **k))
    if name == "as_list":
        return meth(lambda: list(o))
    if name in ("ndims", "rank"):
        return len(o)
    if name == "dims":
        return list(o)
    if name == "num_elements":
        def ne():
            n = 1
            for d in o:
                if d is None:
                    return None
                n *= d
            return n
        return meth(ne)
    if name == "is_fully_defined":
        return meth(lambda: all(d is not None for d in o))
    if name == "concatenate":
        return meth(lambda b: ShapeVal(tuple(o) + tuple(b)))
    if name == "assert_is_compatible_with":
        return meth(lambda b: None)
    if name == "is_compatible_with":
        return meth(lambda b: len(o) == len(b) and all(x is None or y is None or x == y for x, y in zip(o, b)))
    if name in ("index", "count"):
        return meth(getattr(tuple(o), name))
    it.fail("AttributeError", "TensorShape." + name)


def explore(make, limit=64):
    """Run `make(choices)` for each combination of decisions at unknown branches."""
    results = []
    pending = [[]]
    truncated = False
    while pending:
        if len(results) >= limit:
            truncated = True
            break
        pre = pending.pop()
        it, out = make(list(pre))
        results.append(out)
        n = it.choice_pos
        for i in range(len(pre), n):
            pending.append(it.choices[:i] + [not it.choices[i]])
    return results, truncated


# ---------------------------------------------------------------- builtins
def make_builtins(it):
    B = {}

    def reg(name):
        def deco(fn):
            B[name] = Builtin(name, fn)
            return fn
        return deco

    for e in BUILTIN_EXC:
        if e == "NotImplemented":
            continue
        B[e] = Builtin(e, lambda i, a, k, e=e: ExtObj(e, tuple(a)))
    B["NotImplemented"] = Builtin("NotImplemented", lambda i, a, k: None)
    B["True"], B["False"], B["None"] = True, False, None
    B["Ellipsis"] = Ellipsis
    B["__name__"] = "__module__"
    B["object"] = Ext("object")

    @reg("len")
    def _len(i, a, k):
        v = a[0]
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__len__")
            if m is None and v.cls.is_nt:
                return len(i.nt_values(v))
            if m is None:
                i.fail("TypeError", "no len()")
            return i.call(m, [v], {})
        if isinstance(v, Node):
            if v.shape is not None and len(v.shape):
                return v.shape[0]
            return Unknown("len")
        if isinstance(v, (Unknown, ExtObj)):
            return Unknown("len")
        try:
            return len(v)
        except TypeError as ex:
            i.fail("TypeError", str(ex))

    @reg("range")
    def _range(i, a, k):
        if any(isinstance(x, (Unknown, Node)) for x in a):
            return Unknown("range")
        try:
            return range(*[int(x) if isinstance(x, np.integer) else x for x in a])
        except TypeError as ex:
            i.fail("TypeError", str(ex))

    @reg("isinstance")
    def _isinst(i, a, k):
        return isinst(i, a[0], a[1])

    @reg("issubclass")
    def _issub(i, a, k):
        if isinstance(a[0], Cls):
            ts = a[1] if isinstance(a[1], tuple) else (a[1],)
            return any(t in a[0].mro() for t in ts)
        if isinstance(a[0], Ext) and a[0].path.startswith("type:") and all(isinstance(c, Cls) for c in (a[1] if isinstance(a[1], tuple) else (a[1],))):
            return False
        return Unknown("issubclass")

    @reg("type")
    def _type(i, a, k):
        v = a[0]
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Node):
            return Ext("type:" + v.kind)
        if isinstance(v, ExtObj) and v.path in B:
            return B[v.path]
        n = type(v).__name__
        return B.get(n, Ext("type:" + n))

    @reg("callable")
    def _callable(i, a, k):
        v = a[0]
        if isinstance(v, (Func, Bound, Builtin, Cls)):
            return True
        if isinstance(v, Inst):
            return v.cls.lookup("__call__")[0] is not None
        if isinstance(v, (Unknown, Ext, ExtObj)):
            return Unknown("callable")
        return False

    @reg("getattr")
    def _getattr(i, a, k):
        if isinstance(a[1], Unknown):
            return Unknown("getattr")
        if len(a) > 2:
            try:
                return i.getattr(a[0], a[1], a[2])
            except AbsRaise as e:
                if e.name == "AttributeError":
                    return a[2]
                raise
        return i.getattr(a[0], a[1])

    @reg("hasattr")
    def _hasattr(i, a, k):
        s = object()
        if isinstance(a[0], (Unknown, ExtObj)):
            return Unknown("hasattr")
        try:
            r = i.getattr(a[0], a[1], s)
        except AbsRaise as e:
            if e.name == "AttributeError":
                return False
            raise
        return r is not s

    @reg("setattr")
    def _setattr(i, a, k):
        i.setattr(a[0], a[1], a[2])

    @reg("print")
    def _print(i, a, k):
        return None

    @reg("list")
    def _list(i, a, k):
        return list(i.iterate(a[0])) if a else []

    @reg("tuple")
    def _tuple(i, a, k):
        return tuple(i.iterate(a[0])) if a else ()

    @reg("set")
    def _set(i, a, k):
        return set(i.hkey(x) for x in i.iterate(a[0])) if a else set()

    @reg("frozenset")
    def _fset(i, a, k):
        return frozenset(i.hkey(x) for x in i.iterate(a[0])) if a else frozenset()

    @reg("dict")
    def _dict(i, a, k):
        d = {}
        if a:
            if isinstance(a[0], dict):
                d.update(a[0])
            else:
                for kv in i.iterate(a[0]):
                    kv = list(i.iterate(kv))
                    d[i.hkey(kv[0])] = kv[1]
        d.update(k)
        return d

    @reg("zip")
    def _zip(i, a, k):
        if any(isinstance(x, GenVal) for x in a):
            # items are taken in step, as from real iterators
            its = [x if isinstance(x, GenVal) else GenVal(i.iterate(x)) for x in a]
            out = GenVal()
            while all(its):
                row = []
                for x in its:
                    if not x:
                        return out
                    row.append(x.take())
                out.append(tuple(row))
            return out
        xs = [i.iterate(x) for x in a]
        if k.get("strict") and len(set(map(len, xs))) > 1:
            i.fail("ValueError", "zip() arguments differ in length")
        return GenVal(zip(*xs))

    @reg("enumerate")
    def _enum(i, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        if isinstance(a[0], GenVal):
            g = GenVal((n + start, x) for n, x in enumerate(list(a[0])))
            g.src = a[0]
            return g
        return GenVal((n + start, x) for n, x in enumerate(i.iterate(a[0])))

    @reg("reversed")
    def _rev(i, a, k):
        return GenVal(reversed(list(i.iterate(a[0]))))

    @reg("map")
    def _map(i, a, k):
        its = [i.iterate(x) for x in a[1:]]
        return GenVal(i.call(a[0], list(xs), {}) for xs in zip(*its))

    @reg("filter")
    def _filter(i, a, k):
        return GenVal(x for x in i.iterate(a[1]) if i.truth(x if a[0] is None else i.call(a[0], [x], {})))

    @reg("iter")
    def _iter(i, a, k):
        return a[0] if isinstance(a[0], GenVal) else GenVal(i.iterate(a[0]))

    @reg("next")
    def _next(i, a, k):
        if isinstance(a[0], list):
            if a[0]:
                return a[0].take() if isinstance(a[0], GenVal) else a[0].pop(0)
            if len(a) > 1:
                return a[1]
            i.fail("StopIteration")
        return Unknown("next")

    @reg("sorted")
    def _sorted(i, a, k):
        xs = list(i.iterate(a[0]))
        if is_concrete(xs) and k.get("key") is None:
            try:
                return sorted(xs, reverse=bool(k.get("reverse", False)))
            except TypeError as ex:
                i.fail("TypeError", str(ex))
        if k.get("key") is not None:
            ks = [i.call(k["key"], [x], {}) for x in xs]
            if is_concrete(ks):
                idx = sorted(range(len(xs)), key=lambda j: ks[j], reverse=bool(k.get("reverse", False)))
                return [xs[j] for j in idx]
        raise Incomplete("sorted over abstract values", i.loc)

    @reg("sum")
    def _sum(i, a, k):
        acc = a[1] if len(a) > 1 else k.get("start", 0)
        for x in i.iterate(a[0]):
            acc = i.binop(ast.Add, acc, x)
        return acc

    def minmax(name, op):
        @reg(name)
        def _mm(i, a, k):
            xs = list(i.iterate(a[0])) if len(a) == 1 else list(a)
            if any(isinstance(x, (Unknown, Node)) for x in xs):
                return Unknown(name)
            key = k.get("key")
            if key is not None:
                return op(xs, key=lambda x: i.call(key, [x], {}))
            try:
                return op(xs)
            except (TypeError, ValueError) as ex:
                if "default" in k and not xs:
                    return k["default"]
                i.fail(type(ex).__name__, str(ex))
    minmax("max", max)
    minmax("min", min)

    @reg("any")
    def _any(i, a, k):
        unk = False
        for x in i.iterate(a[0]):
            t = i.truth_maybe(x)
            if t:
                return True
            if t is None:
                unk = True
        return Unknown("any") if unk else False

    @reg("all")
    def _all(i, a, k):
        unk = False
        for x in i.iterate(a[0]):
            t = i.truth_maybe(x)
            if t is False:
                return False
            if t is None:
                unk = True
        return Unknown("all") if unk else True

    def simple(name, f):
        @reg(name)
        def _s(i, a, k):
            if name == "int" and a and isinstance(a[0], Inst):
                m, _ = a[0].cls.lookup("__int__")
                if m is not None:
                    return i.call(m, [a[0]], {})
            if any(isinstance(x, (Unknown, Node, Inst, Ext, ExtObj)) for x in a):
                if name in ("str", "repr"):
                    if isinstance(a[0], Inst):
                        for nm in (("__str__", "__repr__") if name == "str" else ("__repr__",)):
                            m, _ = a[0].cls.lookup(nm)
                            if m is not None:
                                return i.call(m, [a[0]], {})
                    return i.to_str(a[0])
                if name == "abs" and isinstance(a[0], Node):
                    return i.node_method(i, a[0], "__abs__", [], {})
                return Unknown(name)
            try:
                return f(*a, **k)
            except Exception as ex:
                i.fail(type(ex).__name__, str(ex))
    simple("int", int)
    simple("float", float)
    simple("str", str)
    simple("repr", repr)
    simple("abs", abs)
    simple("round", round)
    simple("bin", bin)
    simple("divmod", divmod)
    simple("bytes", bytes)
    simple("ord", ord)
    simple("chr", chr)
    simple("hex", hex)
    simple("complex", complex)
    simple("bytearray", bytearray)
    simple("oct", oct)
    simple("ascii", ascii)
    simple("format", format)

    @reg("pow")
    def _pow(i, a, k):
        if len(a) == 2:
            return i.binop(ast.Pow, a[0], a[1])
        return pow(*a)

    @reg("bool")
    def _bool(i, a, k):
        if not a:
            return False
        t = i.truth_maybe(a[0])
        return Unknown("bool") if t is None else t

    @reg("id")
    def _id(i, a, k):
        if isinstance(a[0], np.ndarray):
            return 140000000000         # the id of an array that has died is used again for the next one
        return id(a[0])

    @reg("hash")
    def _hash(i, a, k):
        v = a[0]
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__hash__")
            if m is not None:
                return i.call(m, [v], {})
            if v.cls.lookup("__eq__")[0] is not None:
                i.fail("TypeError", "unhashable type")
            return id(v)
        if isinstance(v, (Node,)):
            if v.kind == "tf":
                return id(v)
            return id(v)
        try:
            return hash(v)
        except TypeError as ex:
            i.fail("TypeError", str(ex))

    @reg("slice")
    def _slice(i, a, k):
        return slice(*a)

    @reg("vars")
    def _vars(i, a, k):
        return a[0].attrs if isinstance(a[0], Inst) else Unknown("vars")

    @reg("dir")
    def _dir(i, a, k):
        o = a[0]
        if isinstance(o, Inst):
            names = set(o.attrs)
            for c in o.cls.mro():
                names |= set(c.ns)
            return sorted(names)
        return Unknown("dir")

    @reg("open")
    def _open(i, a, k):
        return ExtObj("file", tuple(a))

    @reg("input")
    def _input(i, a, k):
        return Unknown("input")
    return B


def isinst(i, v, t):
    if isinstance(t, tuple):
        unk = False
        for x in t:
            r = isinst(i, v, x)
            if r is True:
                return True
            if isinstance(r, Unknown):
                unk = True
        return Unknown("isinstance") if unk else False
    if isinstance(v, Unknown):
        return Unknown("isinstance")
    if isinstance(t, Unknown):
        return Unknown("isinstance")
    if isinstance(t, Cls):
        if isinstance(v, Inst):
            return t in v.cls.mro()
        if isinstance(v, EnumMember):
            return v.cls is t
        if isinstance(v, Node):
            return v.kind == "backing" and t.name in ("AbstractTensor",) or \
                (v.kind == "backing" and t.name == "AbstractVariable" and v.op == "variable") or \
                (v.kind == "backing" and t.name == "AbstractConstant" and v.op == "constant")
        if isinstance(v, FactoryVal):
            return t.name in ("AbstractFactory",)
        return False
    if isinstance(t, Builtin):
        n = t.name
        if n == "int":
            return isinstance(v, int)
        if n == "float":
            return isinstance(v, float)
        if n == "bool":
            return isinstance(v, bool)
        if n == "str":
            return isinstance(v, str)
        if n == "list":
            return isinstance(v, list) and not isinstance(v, GenVal)
        if n == "tuple":
            return (isinstance(v, tuple) and not isinstance(v, ShapeVal)) or (isinstance(v, Inst) and v.cls.is_nt)
        if n == "dict":
            return isinstance(v, dict)
        if n == "set":
            return isinstance(v, set)
        if n == "slice":
            return isinstance(v, slice)
        if n == "range":
            return isinstance(v, range)
        if n == "type":
            return isinstance(v, (Cls, Builtin))
        return False
    if isinstance(t, Ext):
        p = t.path
        if p == "np.ndarray":
            return isinstance(v, np.ndarray) or (isinstance(v, Node) and v.kind == "np")
        if isinstance(v, Inst) and t in v.cls.ext_bases():
            return True
        if p in ("tf.Tensor", "tf.Variable", "tf.python.framework.ops.EagerTensor"):
            if p == "tf.Tensor" and getattr(v, "is_tensor", False):
                return True
            if isinstance(v, Node) and v.kind == "tf":
                if p == "tf.Variable":
                    return v.op == "tf.Variable"
                return v.op != "tf.Variable" or p != "tf.Tensor"
            return False
        if p in ("tf.TensorShape", "tf.python.framework.tensor_shape.TensorShape"):
            return isinstance(v, ShapeVal)
        if p in ("np.integer", "np.int64", "np.int32", "np.floating", "np.float64", "np.generic", "np.number"):
            return isinstance(v, getattr(np, p[3:]))
        if p in ("tf.DType", "tf.dtypes.DType"):
            return isinstance(v, Ext) and v.path.startswith("tf.")
        if p in ("typing.Iterator", "collections.abc.Iterator", "typing.Generator", "collections.abc.Generator"):
            return isinstance(v, GenVal)
        if p in ("collections.abc.Iterable", "collections.Iterable"):
            return isinstance(v, (list, tuple, dict, set, str, np.ndarray))
        if p in ("numbers.Number",):
            return isinstance(v, (int, float, np.number))
        if p == "object":
            return True
        if isinstance(v, ExtObj):
            if v.path == p:
                return True
            return Unknown("isinstance")
        if isinstance(v, Inst):
            eb = v.cls.ext_bases()
            return t in eb
        return False
    if isinstance(t, type):
        return isinstance(v, t)
    return Unknown("isinstance")
