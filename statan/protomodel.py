"""Library models used when analysing protocol code.

Backing tensors (AbstractTensor) become IR nodes with a canonical operation
name; the concrete tensor classes are analysed separately (see ringlaws).
"""
import ast

import numpy as np

from .graph import FactoryVal, Node, ShapeMismatch, ShapeVal, broadcast
from .interp import (AbsRaise, Bound, Builtin, Cls, Ext, ExtObj, Func, GenVal, Incomplete, Inst,
                     Interp, Unknown, canon, flatten, is_concrete)

DT = {n: Ext("tf." + n) for n in ("bool", "int8", "int16", "int32", "int64", "float32", "float64")}

F = {}


def _mk():
    F["bool"] = FactoryVal("bool", 1, DT["bool"], 2)
    F["int8"] = FactoryVal("int8", 8, DT["int8"], 2 ** 8)
    F["int16"] = FactoryVal("int16", 16, DT["int16"], 2 ** 16)
    F["int32"] = FactoryVal("int32", 32, DT["int32"], 2 ** 32)
    F["int64"] = FactoryVal("int64", 64, DT["int64"], 2 ** 64)
    F["int100"] = FactoryVal("int100", 100, DT["int32"], None, "crt")
    F["int128"] = FactoryVal("int128", 128, DT["int64"], 2 ** 128)


_mk()

ALIASES = {
    "__add__": "add", "add": "add", "__radd__": "radd",
    "__sub__": "sub", "sub": "sub", "__rsub__": "rsub",
    "__mul__": "mul", "mul": "mul", "__rmul__": "rmul",
    "__matmul__": "matmul", "matmul": "matmul", "dot": "matmul",
    "__mod__": "mod", "mod": "mod",
    "__neg__": "neg", "negative": "neg",
    "__xor__": "xor", "bitwise_xor": "xor", "__rxor__": "xor",
    "__and__": "and", "bitwise_and": "and", "__rand__": "and",
    "__or__": "or", "bitwise_or": "or", "__ror__": "or",
    "__invert__": "not", "invert": "not",
    "__lshift__": "lshift", "left_shift": "lshift",
    "__rshift__": "arshift", "right_shift": "arshift",
    "logical_rshift": "lrshift",
    "__getitem__": "getitem",
    "__eq__": "equal", "equal": "equal", "__ne__": "not_equal",
    "__lt__": "less", "__gt__": "greater", "__le__": "less_equal", "__ge__": "greater_equal",
    "__truediv__": "div", "__rtruediv__": "rdiv", "__div__": "div",
    "__floordiv__": "floordiv", "__rfloordiv__": "rfloordiv", "__pow__": "pow", "__rpow__": "rpow",
    "__rmod__": "rmod", "__abs__": "abs", "__pos__": "identity",
}

ELEMENTWISE2 = {"add", "sub", "mul", "xor", "and", "or", "equal", "not_equal", "less", "greater",
                "less_equal", "greater_equal", "div", "floordiv", "pow", "mod", "maximum", "minimum"}


def freeze(v):
    """Hashable description of a parameter value."""
    if isinstance(v, Node):
        return ("node", v.id)
    if isinstance(v, np.ndarray):
        return ("nd", tuple(v.shape), tuple(np.asarray(v).ravel().tolist()))
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((str(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, slice):
        return ("slice", freeze(v.start), freeze(v.stop), freeze(v.step))
    if isinstance(v, range):
        return tuple(v)
    if isinstance(v, (int, float, str, bool, type(None))) or v is Ellipsis:
        return v
    if isinstance(v, FactoryVal):
        return v.name
    if isinstance(v, Ext):
        return v.path
    if isinstance(v, Unknown):
        return ("?", v.label)
    return repr(v)


def slice_shape(shape, k):
    if shape is None:
        return None
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    nreal = len([x for x in k if x is not None and x is not Ellipsis])
    if Ellipsis in [x if not isinstance(x, (Node, np.ndarray)) else 0 for x in k]:
        i = [j for j, x in enumerate(k) if x is Ellipsis][0]
        k = k[:i] + [slice(None)] * (len(shape) - nreal) + k[i + 1:]
    out, d = [], 0
    for x in k:
        if x is None:
            out.append(1)
            continue
        if d >= len(shape):
            return False
        if isinstance(x, slice):
            if not is_concrete(x) or shape[d] is None:
                out.append(None)
            else:
                out.append(len(range(*x.indices(shape[d]))))
        elif isinstance(x, (int, np.integer)):
            if shape[d] is not None and not (-shape[d] <= x < shape[d]):
                return False
        else:
            return None
        d += 1
    out.extend(shape[d:])
    return ShapeVal(out)


def norm_axis(axis, n):
    return axis + n if isinstance(axis, (int, np.integer)) and axis < 0 else axis


def reduce_shape(shape, axis, keepdims):
    if shape is None:
        return None
    n = len(shape)
    if axis is None:
        return ShapeVal([1] * n) if keepdims else ShapeVal(())
    ax = [axis] if isinstance(axis, (int, np.integer)) else axis
    if isinstance(ax, (list, tuple)) and all(isinstance(a, (int, np.integer)) for a in ax):
        ax = [norm_axis(a, n) for a in ax]
        return ShapeVal([1 if i in ax else d for i, d in enumerate(shape) if keepdims or i not in ax])
    return None


def reshape_shape(shape, axes):
    if isinstance(axes, (int, np.integer)):
        axes = [axes]
    if isinstance(axes, np.ndarray):
        axes = axes.tolist()
    if not isinstance(axes, (list, tuple)):
        return None
    if not all(isinstance(a, (int, np.integer)) for a in axes):
        return ShapeVal([a if isinstance(a, (int, np.integer)) and a >= 0 else None for a in axes])
    axes = [int(a) for a in axes]
    tot = None
    if shape is not None and all(d is not None for d in shape):
        tot = 1
        for d in shape:
            tot *= d
    if -1 in axes:
        known = 1
        for a in axes:
            if a != -1:
                known *= a
        axes[axes.index(-1)] = tot // known if tot is not None and known else None
        if tot is not None and known and (tot % known):
            raise ShapeMismatch("reshape %s -> %s" % (shape, axes))
    elif tot is not None:
        known = 1
        for a in axes:
            known *= a
        if known != tot:
            raise ShapeMismatch("reshape %s -> %s" % (shape, axes))
    return ShapeVal(axes)


def matmul_shape(a, b):
    if a is None or b is None or len(a) < 2 or len(b) < 2:
        return None
    if a[-1] is not None and b[-2] is not None and a[-1] != b[-2]:
        raise ShapeMismatch("matmul %s x %s" % (a, b))
    batch = broadcast(a[:-2], b[:-2])
    if batch is None:
        return None
    return ShapeVal(tuple(batch) + (a[-2], b[-1]))


def as_int_list(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)) and all(isinstance(x, (int, np.integer)) for x in v):
        return [int(x) for x in v]
    return None


def _conv_out(n, k, s, padding):
    if n is None:
        return None
    if padding == "SAME":
        return -(-n // s)
    return -(-(n - k + 1) // s)


FACTORY_METHODS = {"tensor", "constant", "variable", "sample_uniform", "sample_seeded_uniform", "sample_bounded",
                   "sample_seeded_bounded", "sample_bits", "sample_seeded_bits", "stack", "concat", "ones", "zeros",
                   "ones_like", "zeros_like", "where", "tile", "pad", "scatter_nd"}


class ProtoModel:
    """Hooks for Interp: backing tensors, factories, crypto ops."""

    def __init__(self, it):
        self.it = it
        it.node_method = self.node_method
        it.node_attr = self.node_attr
        it.factory_method = self.factory_attr
        it.ext_default = self.ext_default
        M = it.models
        M["tf.device"] = lambda i, a, k: ExtObj("tf.device", tuple(a))
        M["tf.identity"] = lambda i, a, k: self.mk("identity", [a[0]], (), shape=getattr(a[0], "shape", None),
                                                  kind=getattr(a[0], "kind", "tf"), factory=getattr(a[0], "factory", None),
                                                  dtype=getattr(a[0], "dtype", None)) if isinstance(a[0], Node) else a[0]
        M["tf.TensorShape"] = lambda i, a, k: ShapeVal(tuple(a[0])) if isinstance(a[0], (list, tuple)) else Unknown("shape")
        M["tf.broadcast_static_shape"] = self.bcast_static
        M["tf.cast"] = lambda i, a, k: self.mk("tf.cast", [a[0]], (freeze(a[1] if len(a) > 1 else k.get("dtype")),),
                                              kind="tf", shape=getattr(a[0], "shape", None),
                                              dtype=a[1] if len(a) > 1 else k.get("dtype")) if isinstance(a[0], Node) else Unknown("cast")
        M["tf.shape"] = lambda i, a, k: list(a[0].shape) if isinstance(a[0], Node) and a[0].shape is not None else Unknown("shape")
        for n in ("min", "max"):
            M["attr:tf.int64." + n] = (lambda i, n=n: -2 ** 63 if n == "min" else 2 ** 63 - 1)
            M["attr:tf.int32." + n] = (lambda i, n=n: -2 ** 31 if n == "min" else 2 ** 31 - 1)
        for t, s in (("bool", 1), ("int8", 1), ("int16", 2), ("int32", 4), ("int64", 8)):
            M["attr:tf.%s.size" % t] = (lambda i, s=s: s)
        M["tf.print"] = lambda i, a, k: None
        M["tf.no_op"] = lambda i, a, k: None
        self.eager = None
        it.const_value = self.cval
        eager = lambda i, a, k: Unknown("eager") if self.eager is None else self.eager
        M["tf.executing_eagerly"] = eager
        M["tf.python.eager.context.executing_eagerly"] = eager
        M["tf.python.ops.while_v2._build_while_op"] = self.while_op
        M["random.choices"] = lambda i, a, k: ["A"]
        M["random.randrange"] = lambda i, a, k: Unknown("random")
        M["tf.zeros"] = lambda i, a, k: self.mk("tf.zeros", (), (), kind="tf", shape=self.to_shape(a[0] if a else k.get("shape")))
        M["tf.ones"] = lambda i, a, k: self.mk("tf.ones", (), (), kind="tf", shape=self.to_shape(a[0] if a else k.get("shape")))
        M["tf.constant"] = self.tf_constant
        M["tf.convert_to_tensor"] = self.tf_constant

    def cval(self, n):
        """the literal a node denotes, or None"""
        if not isinstance(n, Node):
            return n if isinstance(n, (int, bool, float, np.generic, np.ndarray)) else None
        from .elem import AF, BF, Elem, ONES, TooBig, Undef
        if self._cel is None:
            self._cel = Elem(64)
        try:
            f = self._cel.form(n)
        except (Undef, TooBig, RecursionError):
            return None
        out = []
        for x in f.reshape(-1):
            if isinstance(x, AF) and set(x.t) <= {()}:
                out.append(x.t.get((), 0))
            elif isinstance(x, BF) and not x.t:
                out.append(0)
            elif isinstance(x, BF) and x.t == {ONES}:
                out.append(1)
            else:
                return None
        return np.array(out).reshape(f.shape) if f.shape else out[0]

    _cel = None
    WHILE_LIMIT = 64

    def while_op(self, i, a, k):
        """unrolls a loop whose condition is decidable"""
        vs, cg, bg = list(a[0]), a[1], a[2]
        for _ in range(self.WHILE_LIMIT):
            c = i.call(cg.attrs["func"], vs, {})
            c = self.cval(c)
            if c is None:
                raise Incomplete("loop condition depends on data", i.loc)
            if not bool(c):
                return vs
            vs = list(i.iterate(i.call(bg.attrs["func"], vs, {})))
        raise Incomplete("loop too long", i.loc)

    def tf_constant(self, i, a, k):
        v = a[0] if a else k.get("value")
        if isinstance(v, Node):
            return v
        try:
            sh = ShapeVal(np.shape(v)) if is_concrete(v) else None
        except Exception:
            sh = None
        return self.mk("tf.constant", (), (freeze(v),), kind="tf", shape=sh,
                       dtype=k.get("dtype", a[1] if len(a) > 1 else None))

    def bcast_static(self, i, a, k):
        try:
            return broadcast(tuple(a[0]), tuple(a[1]))
        except (ShapeMismatch, TypeError) as e:
            i.fail("ValueError", str(e))

    # ------------------------------------------------------------------
    def mk(self, op, ins, params=(), **kw):
        return self.it.node(op, ins, params, **kw)

    def to_shape(self, s):
        if isinstance(s, ShapeVal):
            return s
        if isinstance(s, (int, np.integer)):
            return ShapeVal((int(s),))
        if isinstance(s, np.ndarray):
            s = s.tolist()
        if isinstance(s, (list, tuple)):
            return ShapeVal([int(x) if isinstance(x, (int, np.integer)) else None for x in s])
        return None

    def shape_of(self, v):
        if isinstance(v, Node):
            return v.shape
        if isinstance(v, (int, float, bool, np.generic)):
            return ShapeVal(())
        if isinstance(v, np.ndarray):
            return ShapeVal(v.shape)
        if isinstance(v, (list, tuple)) and is_concrete(v):
            try:
                return ShapeVal(np.shape(v))
            except Exception:
                return None
        return None

    def operand(self, v, like):
        if isinstance(v, Node):
            return v
        return self.mk("const", (), (freeze(v),), kind=like.kind, factory=like.factory,
                       shape=self.shape_of(v))

    def result_kind(self, *ns):
        # tf/np op mixing: any backing wins
        for n in ns:
            if isinstance(n, Node) and n.kind == "backing":
                return "backing", n.factory, n.dtype
        for n in ns:
            if isinstance(n, Node) and n.kind == "tf":
                return "tf", None, n.dtype
        return "np", None, None

    def bin(self, op, a, b):
        it = self.it
        try:
            if op == "matmul":
                sh = matmul_shape(self.shape_of(a), self.shape_of(b))
            else:
                sh = broadcast(self.shape_of(a), self.shape_of(b))
        except ShapeMismatch as e:
            it.fail("ValueError", "shape: %s" % e)
        kind, fac, dt = self.result_kind(a, b)
        if kind == "backing":
            fa = a.factory if isinstance(a, Node) else None
            fb = b.factory if isinstance(b, Node) else None
            if fa is not None and fb is not None and fa is not fb:
                it.fail("TypeError", "mixing factories %r and %r in %s" % (fa, fb, op))
        return self.mk(op, [a, b], (), kind=kind, factory=fac, dtype=dt, shape=sh)

    def un(self, op, x, params=(), shape="same", factory="same"):
        return self.mk(op, [x], params, kind=x.kind, factory=x.factory if factory == "same" else factory,
                       dtype=x.dtype, shape=x.shape if isinstance(shape, str) else shape)

    def arg(self, a, k, i, name, default=None):
        if len(a) > i:
            return a[i]
        return k.get(name, default)

    # ------------------------------------------------------------------
    def node_method(self, it, x, name, a, k):
        op = ALIASES.get(name, name)
        fn = getattr(self, "m_" + op, None)
        try:
            if fn is not None:
                return fn(x, a, k)
            if op in ("add", "sub", "mul", "xor", "and", "or", "matmul", "less", "greater", "less_equal",
                      "greater_equal", "div", "floordiv", "pow", "not_equal"):
                return self.bin(op, x, self.operand(a[0], x))
            if op in ("radd", "rsub", "rmul", "rdiv", "rfloordiv", "rpow", "rmod"):
                return self.bin(op[1:] if op != "rmod" else "mod", self.operand(a[0], x), x)
            if op in ("neg", "not", "identity", "read_value", "bit_reverse", "zeros_like", "ones_like", "abs"):
                return self.un("identity" if op == "read_value" else op, x)
            if op in ("lshift", "arshift", "lrshift"):
                s = a[0] if a else list(k.values())[0]
                ins = [x, s] if isinstance(s, Node) else [x]
                return self.mk(op, ins, (freeze(s),), kind=x.kind, factory=x.factory, dtype=x.dtype, shape=x.shape)
        except ShapeMismatch as e:
            it.fail("ValueError", "shape: %s" % e)
        except IndexError:
            it.fail("TypeError", "missing argument to " + name)
        if x.kind == "backing":
            nodes = [v for v in flatten(list(a) + list(k.values())) if isinstance(v, Node)]
            return self.mk("method:" + op, [x] + nodes, (freeze(a), freeze(k)), kind="backing",
                           factory=x.factory)
        nodes = [v for v in flatten(list(a) + list(k.values())) if isinstance(v, Node)]
        return self.mk("tfm:" + op, [x] + nodes, (freeze(a), freeze(k)), kind=x.kind)

    # individual operations
    def m_mod(self, x, a, k):
        return self.mk("mod", [x], (freeze(a[0]),), kind=x.kind, factory=x.factory, dtype=x.dtype, shape=x.shape)

    def m_getitem(self, x, a, k):
        key = a[0]
        if isinstance(key, Node):
            c = self.cval(key)
            if isinstance(c, (int, np.integer)):
                key = int(c)
        if isinstance(key, Node):
            return self.mk("getitem", [x, key], (), kind=x.kind, factory=x.factory, dtype=x.dtype)
        sh = slice_shape(x.shape, key)
        if sh is False:
            self.it.fail("IndexError", "tensor index")
        return self.un("getitem", x, (freeze(key),), shape=sh)

    def m_equal(self, x, a, k):
        f = self.arg(a, k, 1, "factory")
        if x.kind == "backing":
            y = self.operand(a[0], x)
            return self.mk("equal", [x, y], (), kind="backing", factory=f or x.factory,
                           shape=broadcast(self.shape_of(x), self.shape_of(y)))
        return self.bin("equal", x, self.operand(a[0], x))

    def m_equal_zero(self, x, a, k):
        f = self.arg(a, k, 0, "factory")
        return self.un("equal_zero", x, (), factory=f or x.factory)

    def m_reshape(self, x, a, k):
        ax = a[0] if len(a) == 1 else (k.get("axes", k.get("shape")) if not a else list(a))
        if isinstance(ax, Node):
            return self.mk("reshape", [x, ax], (), kind=x.kind, factory=x.factory)
        sh = reshape_shape(x.shape, ax)
        return self.un("reshape", x, (freeze(list(sh) if sh is not None and None not in sh else ax),), shape=sh)

    def m_transpose(self, x, a, k):
        p = self.arg(a, k, 0, "perm")
        n = None if x.shape is None else len(x.shape)
        if p is None:
            sh = None if n is None else ShapeVal(reversed(x.shape))
            pp = None if n is None else tuple(range(n - 1, -1, -1))
        else:
            pl = as_int_list(p)
            pp = tuple(pl) if pl is not None else freeze(p)
            sh = None
            if pl is not None and n is not None:
                if len(pl) != n:
                    self.it.fail("ValueError", "transpose perm")
                sh = ShapeVal([x.shape[i] for i in pl])
        return self.un("transpose", x, (pp,), shape=sh)

    def m_strided_slice(self, x, a, k):
        args = self.arg(a, k, 0, "args", ())
        kw = self.arg(a, k, 1, "kwargs", {})
        sh = None
        if isinstance(args, (list, tuple)) and len(args) >= 2 and not kw and x.shape is not None:
            b, e = as_int_list(args[0]), as_int_list(args[1])
            s = as_int_list(args[2]) if len(args) > 2 and args[2] is not None else None
            if b is not None and e is not None:
                s = s or [1] * len(b)
                sh = ShapeVal([len(range(x.shape[i])[b[i]:e[i]:s[i]]) if i < len(b) else d
                               for i, d in enumerate(x.shape)])
        return self.un("strided_slice", x, (freeze(args), freeze(kw)), shape=sh)

    def m_gather(self, x, a, k):
        ind = self.arg(a, k, 0, "indices")
        axis = self.arg(a, k, 1, "axis", 0)
        sh = None
        isz = self.shape_of(ind) if not isinstance(ind, Node) else ind.shape
        if x.shape is not None and isz is not None and isinstance(axis, int):
            ax = norm_axis(axis, len(x.shape))
            sh = ShapeVal(tuple(x.shape[:ax]) + tuple(isz) + tuple(x.shape[ax + 1:]))
        ins = [x, ind] if isinstance(ind, Node) else [x]
        return self.mk("gather", ins, (freeze(ind) if not isinstance(ind, Node) else None, freeze(axis)), kind=x.kind,
                       factory=x.factory, dtype=x.dtype, shape=sh)

    def m_split(self, x, a, k):
        num = self.arg(a, k, 0, "num_split")
        axis = self.arg(a, k, 1, "axis", 0)
        if isinstance(num, (int, np.integer)):
            n = int(num)
            sizes = None
            if x.shape is not None and isinstance(axis, int) and x.shape[axis] is not None:
                if x.shape[axis] % n:
                    raise ShapeMismatch("split")
                sizes = [x.shape[axis] // n] * n
        elif isinstance(num, (list, tuple)):
            n = len(num)
            sizes = list(num) if is_concrete(num) else None
        else:
            raise Incomplete("split by unknown count", self.it.loc)
        out = []
        off = 0
        for j in range(n):
            sh = None
            if sizes is not None and x.shape is not None:
                ax = norm_axis(axis, len(x.shape))
                sh = ShapeVal([sizes[j] if i == ax else d for i, d in enumerate(x.shape)])
            out.append(self.un("split", x, (n if sizes is None else tuple(sizes), freeze(norm_axis(axis, len(x.shape)) if x.shape is not None else axis), j), shape=sh))
        return out

    def m_reverse(self, x, a, k):
        return self.un("reverse", x, (freeze(self.arg(a, k, 0, "axis")),))

    def m_expand_dims(self, x, a, k):
        ax = self.arg(a, k, 0, "axis")
        sh = None
        if x.shape is not None and isinstance(ax, int):
            n = len(x.shape) + 1
            p = ax + n if ax < 0 else ax
            sh = ShapeVal(tuple(x.shape[:p]) + (1,) + tuple(x.shape[p:]))
            ax = p
        return self.un("expand_dims", x, (freeze(ax),), shape=sh)

    def m_squeeze(self, x, a, k):
        ax = self.arg(a, k, 0, "axis")
        sh = None
        if x.shape is not None:
            n = len(x.shape)
            if ax is None:
                drop = [i for i, d in enumerate(x.shape) if d == 1]
            else:
                drop = [norm_axis(i, n) for i in (ax if isinstance(ax, (list, tuple)) else [ax])]
                if any(isinstance(i, int) and i < n and x.shape[i] not in (1, None) for i in drop):
                    raise ShapeMismatch("squeeze")
            sh = ShapeVal([d for i, d in enumerate(x.shape) if i not in drop])
            ax = drop
        return self.un("squeeze", x, (freeze(ax),), shape=sh)

    def m_reduce_sum(self, x, a, k):
        ax = self.arg(a, k, 0, "axis")
        kd = self.arg(a, k, 1, "keepdims", None)
        if x.shape is not None and isinstance(ax, (int, np.integer)):
            ax2 = norm_axis(ax, len(x.shape))
        else:
            ax2 = ax
        return self.un("reduce_sum", x, (freeze(ax2), bool(kd) if not isinstance(kd, Unknown) else None),
                       shape=reduce_shape(x.shape, ax, kd))

    def m_reduce_max(self, x, a, k):
        ax = self.arg(a, k, 0, "axis")
        kd = self.arg(a, k, 1, "keepdims", False)
        return self.un("reduce_max", x, (freeze(ax), bool(kd)), shape=reduce_shape(x.shape, ax, kd))

    def m_cumsum(self, x, a, k):
        return self.un("cumsum", x, (freeze(self.arg(a, k, 0, "axis")), freeze(self.arg(a, k, 1, "exclusive", False)),
                                     freeze(self.arg(a, k, 2, "reverse", False))))

    def m_truncate(self, x, a, k):
        am = self.arg(a, k, 0, "amount")
        base = self.arg(a, k, 1, "base", 2)
        if base == 2 and getattr(x.factory, "kind", "ring") != "crt":
            return self.un("arshift", x, (freeze(am),))
        return self.un("truncate", x, (freeze(am), freeze(base)))

    def m_cast(self, x, a, k):
        f = self.arg(a, k, 0, "factory")
        if x.kind != "backing":
            return self.un("tf.cast", x, (freeze(f),))
        if f is x.factory:
            return self.un("identity", x)
        return self.un("cast", x, (x.factory.name if x.factory else None, freeze(f)), factory=f)

    def m_to_native(self, x, a, k):
        return self.mk("to_native", [x], (), kind="tf", shape=x.shape)

    def m_bits(self, x, a, k):
        f = self.arg(a, k, 0, "factory")
        bs = self.arg(a, k, 1, "bitsize")
        n = bs if bs is not None else (x.factory.nbits if x.factory is not None else None)
        sh = ShapeVal(tuple(x.shape) + (n if isinstance(n, int) else None,)) if x.shape is not None else None
        return self.un("bits", x, (n if isinstance(n, int) else freeze(n),), shape=sh, factory=f or x.factory)

    def m_bit_gather(self, x, a, k):
        return self.un("bit_gather", x, (freeze(self.arg(a, k, 0, "start")), freeze(self.arg(a, k, 1, "stride"))))

    def m_bit_split_and_gather(self, x, a, k):
        st = self.arg(a, k, 0, "stride")
        sh = ShapeVal((st,) + tuple(x.shape)) if x.shape is not None and isinstance(st, int) else None
        return self.un("bit_split_and_gather", x, (freeze(st),), shape=sh)

    def m_xor_indices(self, x, a, k):
        return self.un("xor_indices", x)

    def m_tile(self, x, a, k):
        m = self.arg(a, k, 0, "multiples")
        ml = as_int_list(m)
        sh = None
        if ml is not None and x.shape is not None and len(ml) == len(x.shape):
            sh = ShapeVal([None if d is None else d * q for d, q in zip(x.shape, ml)])
        return self.un("tile", x, (freeze(m),), shape=sh)

    def m_scatter_nd(self, x, a, k):
        ind = self.arg(a, k, 0, "indices")
        shp = self.arg(a, k, 1, "shape")
        ins = [x, ind] if isinstance(ind, Node) else [x]
        return self.mk("scatter_nd", ins, (freeze(ind) if not isinstance(ind, Node) else None, freeze(shp)), kind=x.kind,
                       factory=x.factory, shape=self.to_shape(shp))

    def m_im2col(self, x, a, k):
        p = [self.arg(a, k, i, n) for i, n in enumerate(("h_filter", "w_filter", "strides", "padding"))]
        sh = None
        if x.shape is not None and len(x.shape) == 4 and is_concrete(p):
            s = p[2] if isinstance(p[2], (list, tuple)) else [p[2], p[2]]
            n, c, h, w = x.shape
            oh, ow = _conv_out(h, p[0], s[0], p[3]), _conv_out(w, p[1], s[1], p[3])
            if None not in (n, c, oh, ow):
                sh = ShapeVal((p[0] * p[1] * c, oh * ow * n))
        return self.un("im2col", x, (freeze(p),), shape=sh)

    def m_im2patches(self, x, a, k):
        p = [self.arg(a, k, 0, "patch_size"), self.arg(a, k, 1, "strides", [1, 1]),
             self.arg(a, k, 2, "padding", "SAME"), self.arg(a, k, 3, "data_format", "NCHW")]
        sh = None
        if x.shape is not None and len(x.shape) == 4 and is_concrete(p):
            ph, pw = p[0]
            if p[3] == "NCHW":
                n, c, h, w = x.shape
            else:
                n, h, w, c = x.shape
            oh, ow = _conv_out(h, ph, p[1][0], p[2]), _conv_out(w, pw, p[1][1], p[2])
            if None not in (n, c, oh, ow):
                sh = ShapeVal((n, ph * pw * c, oh, ow) if p[3] == "NCHW" else (n, oh, ow, ph * pw * c))
        return self.un("im2patches", x, (freeze(p),), shape=sh)

    def m_patches2im(self, x, a, k):
        names = (("patch_size", None), ("strides", [1, 1]), ("padding", "SAME"), ("img_size", None),
                 ("consolidation", "SUM"), ("data_format", "NCHW"))
        p = [self.arg(a, k, i, n, d) for i, (n, d) in enumerate(names)]
        return self.un("patches2im", x, (freeze(p),), shape=None)

    def m_conv2d(self, x, a, k):
        w = a[0] if a else k.get("other")
        p = (freeze(self.arg(a, k, 1, "strides")), freeze(self.arg(a, k, 2, "padding", "SAME")))
        sh = None
        s = self.arg(a, k, 1, "strides")
        if x.shape is not None and isinstance(w, Node) and w.shape is not None and len(x.shape) == 4 and len(w.shape) == 4 and is_concrete(s):
            ss = list(s) if isinstance(s, (list, tuple)) else [s, s]
            if len(ss) == 4:
                ss = ss[2:]
            n, c, h, wd = x.shape
            kh, kw, ci, co = w.shape
            sh = ShapeVal((n, co, _conv_out(h, kh, ss[0], p[1]), _conv_out(wd, kw, ss[1] if len(ss) > 1 else ss[0], p[1])))
        return self.mk("conv2d", [x, w], p, kind=x.kind, factory=x.factory, shape=sh)

    def m_batch_to_space(self, x, a, k):
        bs, cr = self.arg(a, k, 0, "block_shape"), self.arg(a, k, 1, "crops")
        sh = None
        b, c = as_int_list(bs), np.array(cr).tolist() if is_concrete(cr) else None
        if b and c is not None and x.shape is not None and None not in x.shape:
            p = int(np.prod(b))
            if x.shape[0] % p:
                raise ShapeMismatch("batch_to_space %s by %s" % (x.shape, b))
            sh = ShapeVal([x.shape[0] // p] + [d * q - u - v for d, q, (u, v) in zip(x.shape[1:], b, c)] + list(x.shape[1 + len(b):]))
        return self.un("batch_to_space", x, (freeze(bs), freeze(cr)), shape=sh)

    def m_space_to_batch(self, x, a, k):
        bs, pd = self.arg(a, k, 0, "block_shape"), self.arg(a, k, 1, "paddings")
        sh = None
        b, c = as_int_list(bs), np.array(pd).tolist() if is_concrete(pd) else None
        if b and c is not None and x.shape is not None and None not in x.shape:
            full = [d + u + v for d, (u, v) in zip(x.shape[1:], c)]
            if any(d % q for d, q in zip(full, b)):
                raise ShapeMismatch("space_to_batch %s by %s" % (x.shape, b))
            sh = ShapeVal([x.shape[0] * int(np.prod(b))] + [d // q for d, q in zip(full, b)] + list(x.shape[1 + len(b):]))
        return self.un("space_to_batch", x, (freeze(bs), freeze(pd)), shape=sh)

    def m_assign(self, x, a, k):
        v = a[0] if a else list(k.values())[0]
        n = self.mk("assign", [x, v] if isinstance(v, Node) else [x], (), kind=x.kind, factory=x.factory, shape=x.shape)
        self.it.events.append(("assign", x, v, self.it.device, self.it.loc))
        return n

    def m_numpy(self, x, a, k):
        return self.mk("numpy", [x], (), kind="np", shape=x.shape)

    def m_set_shape(self, x, a, k):
        return None

    # ------------------------------------------------------------------
    def node_attr(self, it, x, name):
        if name == "shape":
            return x.shape if x.shape is not None else Unknown("shape")
        if name == "factory":
            return x.factory if x.factory is not None else Unknown("factory")
        if name == "value" and x.kind == "backing":
            return self.mk("value", [x], (), kind="tf", shape=x.shape, device=x.device)
        if name == "device":
            return x.device
        if name == "dtype":
            return x.dtype if x.dtype is not None else Unknown("dtype")
        if name == "name":
            return "t%d" % x.id
        if name == "backing" and x.kind == "backing":
            return [x]
        if name == "support":
            return [x]
        if name == "graph":
            return Unknown("graph")
        if name == "initializer":
            return Unknown("initializer")
        if name == "dispatch_id" and x.kind in ("tf", "np", "backing"):
            it.fail("AttributeError", "dispatch_id")
        if name == "__class__":
            return Ext("type:" + x.kind)
        if name == "T":
            return self.node_method(it, x, "transpose", [], {})
        return Builtin(name, lambda i, a, k, x=x, name=name: i.node_method(i, x, name, a, k))

    # ------------------------------------------------------------------ factories
    def factory_attr(self, it, f, name):
        if name == "nbits":
            return 0 if f.name == "bool" else f.nbits
        if name == "native_type":
            return f.native
        if name == "modulus":
            return f.modulus if f.modulus is not None else Unknown("modulus")
        if name in ("min", "max"):
            if f.name.startswith("int") and f.kind == "ring":
                return -2 ** (f.nbits - 1) if name == "min" else 2 ** (f.nbits - 1) - 1
            return Unknown(name)
        if name == "name":
            return f.name
        if name == "supports_native_arithmetic" or name == "sumref":
            return Unknown(name)
        if name not in FACTORY_METHODS and name not in self.tensor_defs():
            it.fail("AttributeError", "factory has no attribute %s" % name)
        return Builtin(name, lambda i, a, k, f=f, name=name: self.factory_call(f, name, a, k))

    _defs = None

    def tensor_defs(self):
        """every attribute the tensor package defines anywhere"""
        if self._defs is None:
            import glob, os, re
            names = set()
            for p in glob.glob(os.path.join(self.it.root, "tf_encrypted", "tensor", "*.py")):
                with open(p) as fh:
                    names |= set(re.findall(r"^\s*(?:def|class)\s+(\w+)", fh.read(), re.M))
            self._defs = names
        return self._defs

    nrnd = 0

    def rndname(self):
        self.nrnd += 1
        return "u%d" % self.nrnd

    def factory_call(self, f, name, a, k):
        it = self.it
        base = dict(kind="backing", factory=f)
        try:
            if name in ("tensor", "constant", "variable"):
                v = a[0] if a else k.get("initial_value", k.get("value"))
                enc = self.arg(a, k, 1, "encode", True)
                if isinstance(v, Node):
                    if v.kind == "backing" and v.factory is not f and v.factory is not None and name == "tensor":
                        pass
                    op = {"tensor": "tensor", "constant": "constant", "variable": "variable"}[name]
                    return self.mk(op, [v], (enc,), shape=v.shape, **base)
                if isinstance(v, (Unknown,)):
                    return self.mk(name + ":unknown", (), (), **base)
                sh = self.shape_of(v)
                return self.mk(name, (), (freeze(v), enc), shape=sh, **base)
            if name in ("sample_uniform",):
                shape = self.arg(a, k, 0, "shape")
                mn, mx = self.arg(a, k, 1, "minval"), self.arg(a, k, 2, "maxval")
                n = self.mk("sample_uniform", (), (self.rndname(), freeze(mn), freeze(mx)), shape=self.to_shape(shape), **base)
                it.events.append(("sample", n, None, it.device, it.loc))
                return n
            if name == "sample_seeded_uniform":
                shape = self.arg(a, k, 0, "shape")
                seed = self.arg(a, k, 1, "seed")
                mn, mx = self.arg(a, k, 2, "minval"), self.arg(a, k, 3, "maxval")
                n = self.mk("prf", [seed] if isinstance(seed, Node) else [], (freeze(mn), freeze(mx)),
                            shape=self.to_shape(shape), **base)
                it.events.append(("prf", n, seed, it.device, it.loc))
                return n
            if name in ("sample_bounded", "sample_seeded_bounded"):
                shape = self.arg(a, k, 0, "shape")
                if name == "sample_bounded":
                    bl = self.arg(a, k, 1, "bitlength")
                    return self.mk("sample_bounded", (), (self.rndname(), freeze(bl)), shape=self.to_shape(shape), **base)
                seed = self.arg(a, k, 1, "seed")
                bl = self.arg(a, k, 2, "bitlength")
                return self.mk("prf_bounded", [seed] if isinstance(seed, Node) else [], (freeze(bl),), shape=self.to_shape(shape), **base)
            if name in ("sample_bits", "sample_seeded_bits"):
                shape = self.arg(a, k, 0, "shape")
                return self.mk("sample_bits", (), (self.rndname(),), shape=self.to_shape(shape), **base)
            if name in ("stack", "concat"):
                xs = list(it.iterate(a[0] if a else k.get("xs")))
                axis = self.arg(a, k, 1, "axis", 0)
                sh = None
                shapes = [x.shape for x in xs]
                if xs and all(s is not None for s in shapes) and isinstance(axis, int):
                    n = len(shapes[0])
                    if name == "stack":
                        ax = axis + n + 1 if axis < 0 else axis
                        if any(tuple(s) != tuple(shapes[0]) for s in shapes):
                            raise ShapeMismatch("stack %s" % shapes)
                        sh = ShapeVal(tuple(shapes[0][:ax]) + (len(xs),) + tuple(shapes[0][ax:]))
                    else:
                        ax = norm_axis(axis, n)
                        for s in shapes:
                            if len(s) != n or any(s[i] != shapes[0][i] and None not in (s[i], shapes[0][i]) for i in range(n) if i != ax):
                                raise ShapeMismatch("concat %s" % shapes)
                        tot = None if any(s[ax] is None for s in shapes) else sum(s[ax] for s in shapes)
                        sh = ShapeVal([tot if i == ax else d for i, d in enumerate(shapes[0])])
                    axis = ax
                return self.mk(name, xs, (freeze(axis),), shape=sh, **base)
            if name in ("ones", "zeros"):
                shape = a[0] if a else k.get("shape")
                return self.mk("const", (), (1 if name == "ones" else 0,), shape=self.to_shape(shape), **base)
            if name in ("ones_like", "zeros_like"):
                return self.mk("const", (), (1 if name == "ones_like" else 0,), shape=a[0].shape, **base)
            if name == "where":
                c, x, y = self.arg(a, k, 0, "condition"), self.arg(a, k, 1, "x"), self.arg(a, k, 2, "y")
                sh = broadcast(broadcast(self.shape_of(c), self.shape_of(x)), self.shape_of(y))
                return self.mk("where", [c, x, y], (), shape=sh, **base)
            if name == "tile":
                return self.m_tile(a[0], list(a[1:]), k)
            if name == "pad":
                x = a[0] if a else k.get("tensor")
                p = self.arg(a, k, 1, "paddings")
                sh = None
                if x.shape is not None and isinstance(p, (list, tuple)) and is_concrete(p):
                    sh = ShapeVal([d + b + c for d, (b, c) in zip(x.shape, p)])
                return self.mk("pad", [x], (freeze(p),), shape=sh, **base)
            if name == "scatter_nd":
                ind, upd, shp = self.arg(a, k, 0, "indices"), self.arg(a, k, 1, "updates"), self.arg(a, k, 2, "shape")
                return self.m_scatter_nd(upd, [ind, shp], {})
        except ShapeMismatch as e:
            it.fail("ValueError", "shape: %s" % e)
        nodes = [v for v in flatten(list(a) + list(k.values())) if isinstance(v, Node)]
        return self.mk("factory:" + name, nodes, (freeze(a), freeze(k)), **base)

    # ------------------------------------------------------------------ externals
    TFBIN = {"add": "add", "math.add": "add", "subtract": "sub", "math.subtract": "sub", "multiply": "mul",
             "math.multiply": "mul", "matmul": "matmul", "linalg.matmul": "matmul",
             "bitwise.bitwise_xor": "xor", "bitwise.bitwise_and": "and",
             "equal": "equal", "math.equal": "equal", "less": "less", "greater": "greater"}

    def ext_default(self, it, path, args, kwargs):
        nodes = [v for v in flatten(list(args) + list(kwargs.values())) if isinstance(v, Node)]
        if path.startswith("tf.") and nodes:
            n = path[3:]
            if n in self.TFBIN and len(args) >= 2:
                a, b = args[0], args[1]
                if not isinstance(a, Node):
                    a = self.operand(a, b)
                if not isinstance(b, Node):
                    b = self.operand(b, a)
                return self.bin(self.TFBIN[n], a, b)
            if n in ("reshape", "transpose", "expand_dims", "squeeze", "reduce_sum", "reverse", "gather", "tile", "split",
                     "negative", "math.negative", "cumsum", "reduce_max"):
                m = n.split(".")[-1]
                if n == "split":
                    return self.m_split(args[0], args[1:], {("num_split" if k == "num_or_size_splits" else k): v for k, v in kwargs.items()})
                return self.node_method(it, args[0], m, args[1:], {k: v for k, v in kwargs.items() if k != "name"})
            if n in ("concat", "stack"):
                xs = list(it.iterate(args[0]))
                return self.mk(n, xs, (freeze(self.arg(args, kwargs, 1, "axis", 0)),), kind="tf")
            if n in ("where",):
                return self.mk("where", [x if isinstance(x, Node) else self.operand(x, nodes[0]) for x in args[:3]], (), kind="tf")
        if nodes:
            return self.mk("ext:" + path, nodes, (freeze(args), freeze(kwargs)), kind="tf")
        if path.startswith("tf."):
            r = self.fold(path[3:], args, kwargs)
            if r is not None:
                return r
        return ExtObj(path, tuple(args), kwargs)

    FOLD = {
        "range": lambda *a, delta=1, limit=None: np.arange(a[0], a[1], a[2] if len(a) > 2 else delta) if len(a) > 1 else np.arange(
            *((0, a[0], delta) if limit is None else (a[0], limit, delta))),
        "meshgrid": lambda *a, indexing="xy": list(np.meshgrid(*a, indexing=indexing)),
        "stack": lambda xs, axis=0: np.stack(xs, axis=axis),
        "concat": lambda xs, axis=0: np.concatenate(xs, axis=axis),
        "reshape": lambda x, shape: np.reshape(x, [int(v) for v in shape]),
        "transpose": lambda x, perm=None: np.transpose(x, perm),
        "expand_dims": lambda x, axis: np.expand_dims(x, axis),
        "tile": lambda x, m: np.tile(x, m),
    }

    def fold(self, name, args, kwargs):
        """constant folding of index arithmetic"""
        f = self.FOLD.get(name)
        kw = {k: v for k, v in kwargs.items() if k not in ("name", "dtype")}
        if f is None or not args or not all(is_concrete(x) for x in list(args) + list(kw.values())):
            return None
        try:
            return f(*args, **kw)
        except Exception:
            return None
