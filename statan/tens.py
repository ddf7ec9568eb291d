"""Tensor classes (tensor/*.py) against the ring operations the protocols rely on.

The protocol analyses replace a backing tensor by an abstract ring element whose
methods have a canonical meaning (protomodel / elem).  Here the real classes are
interpreted down to TensorFlow operations on their stored representation, and
the represented ring element is compared with that canonical meaning.
"""
import numpy as np

from .aby3world import World
from .algebra import AF, BF, a_add, a_const, b_and, ONES
from .elem import Elem, Undef, TooBig, W, bf_support, diff, elementwise, map_id, shift_map, to_obj, toA, toW, tobit, bits_to_int
from .graph import FactoryVal, Node, ShapeMismatch, ShapeVal, broadcast
from .interp import AbsRaise, Ext, ExtObj, Incomplete, Inst, Unknown, is_concrete
from .protomodel import DT, F, ProtoModel, as_int_list, freeze, reduce_shape, _conv_out

BITS = {"tf.bool": 1, "tf.int8": 8, "tf.int16": 16, "tf.int32": 32, "tf.int64": 64}


def dtpath(n):
    return getattr(n.dtype, "path", None)


class TElem(Elem):
    """forms of TensorFlow-level nodes: the dtype fixes the ring"""

    def nbits(self, n):
        if n.factory is not None:
            return Elem.nbits(self, n)
        return BITS.get(dtpath(n), self.nb)

    def isbool(self, n):
        if n.factory is not None:
            return n.factory.name == "bool"
        return dtpath(n) == "tf.bool"

    def reduce(self, arr, n):
        if n.factory is not None or n.kind == "backing":
            return Elem.reduce(self, arr, n)
        nb = BITS.get(dtpath(n))
        if nb is None or nb == 1:
            return arr
        M, h = 1 << nb, 1 << (nb - 1)
        flat = [f for f in arr.reshape(-1)]
        ch = False
        for i, f in enumerate(flat):
            if isinstance(f, AF) and any(isinstance(c, int) and not -h <= c < h for c in f.t.values()):
                flat[i] = AF({m: ((c + h) % M - h if isinstance(c, int) else c) for m, c in f.t.items()})
                ch = True
        if not ch:
            return arr
        return to_obj(arr.shape, lambda k, idx: flat[k])

    def o_tf_cast(self, n):
        src = n.ins[0]
        a = self.form(src)
        if self.isbool(n) and not self.isbool(src):
            return elementwise(lambda f: tobit(f, self.nbits(src)), a)
        nb = self.nbits(n)
        if self.isbool(src):
            if self.isbool(n):
                return a
            return elementwise(lambda f: W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in f.t], nb), a)
        m = Node("cast", [src], (), kind=n.kind, factory=n.factory, dtype=n.dtype, shape=n.shape)
        return self.o_cast(m)


def arg(a, k, i, *names, default=None):
    if len(a) > i:
        return a[i]
    for n in names:
        if n in k:
            return k[n]
    return default


class ExtDt:
    def __init__(self, dt):
        self.dtype = dt


class TF:
    """tf operator models on nodes of kind 'tf' (dtype-carrying)"""

    def __init__(self, w):
        self.w = w
        self.pm = w.pm
        self.it = w.it
        M = w.it.models
        for name in dir(self):
            if name.startswith("t_"):
                M["tf." + name[2:].replace("__", ".")] = getattr(self, name)
        for nm, op in (("bitwise.right_shift", "arshift"), ("bitwise.left_shift", "lshift"), ("bitwise.bitwise_and", "and"),
                       ("bitwise.bitwise_or", "or"), ("bitwise.bitwise_xor", "xor"), ("equal", "equal"), ("math.equal", "equal"),
                       ("less", "less"), ("greater", "greater"), ("add", "add"), ("subtract", "sub"), ("multiply", "mul"),
                       ("math.add", "add"), ("math.subtract", "sub"), ("math.multiply", "mul"), ("not_equal", "not_equal"),
                       ("math.logical_and", "and"), ("math.logical_or", "or"), ("math.logical_xor", "xor"),
                       ("logical_and", "and"), ("logical_or", "or"), ("matmul", "matmul"), ("linalg.matmul", "matmul"),
                       ("floormod", "mod"), ("math.floormod", "mod"), ("math.mod", "mod")):
            M["tf." + nm] = (lambda i, a, k, op=op: self.bin(op, arg(a, k, 0, "x", "a"), arg(a, k, 1, "y", "b")))
        for nm, op in (("bitwise.invert", "not"), ("math.logical_not", "not"), ("logical_not", "not"), ("negative", "neg"),
                       ("math.negative", "neg"), ("identity", "identity"), ("round", "round"), ("math.round", "round")):
            M["tf." + nm] = (lambda i, a, k, op=op: self.un(op, arg(a, k, 0, "x", "input")))
        for nm in ("transpose", "reshape", "strided_slice", "split", "reverse", "expand_dims", "squeeze", "tile", "reduce_sum",
                   "reduce_max", "cumsum", "batch_to_space", "space_to_batch"):
            M["tf." + nm] = (lambda i, a, k, nm=nm: self.layout(nm, a, k))
        def aliases():
            def neg(i, a, k, op):
                return self.un("not", i.models["tf." + op](i, a, k))

            def unstack(i, a, k):
                x = self.node(arg(a, k, 0, "value"))
                axis = arg(a, k, 2, "axis", default=0)
                axis = axis % len(x.shape)
                return [self.pm.node_method(i, x, "__getitem__", [(slice(None),) * axis + (j,)], {}) for j in range(x.shape[axis])]

            def tslice(i, a, k):
                x, b, n = self.node(arg(a, k, 0, "input_")), arg(a, k, 1, "begin"), arg(a, k, 2, "size")
                key = tuple(slice(s, None if c == -1 else s + c) for s, c in zip(b, n))
                return self.pm.node_method(i, x, "__getitem__", [key], {})

            def addn(i, a, k):
                xs = list(i.iterate(arg(a, k, 0, "inputs")))
                r = xs[0]
                for x in xs[1:]:
                    r = self.bin("add", r, x)
                return r

            def fill(i, a, k):
                v = arg(a, k, 1, "value")
                if isinstance(v, Node):
                    raise Incomplete("fill with a tensor", i.loc)
                return self.pm.mk("tf.constant", (), (v,), kind="tf", shape=self.pm.to_shape(arg(a, k, 0, "dims")), dtype=None)

            def pick(i, a, k):
                x, idx = self.node(arg(a, k, 0, "params")), arg(a, k, 1, "indices")
                if not is_concrete(idx) or k.get("batch_dims"):
                    raise Incomplete("gather_nd", i.loc)
                idx = np.asarray(idx)
                rows = [self.pm.node_method(i, x, "__getitem__", [tuple(int(v) for v in idx[j])], {}) for j in np.ndindex(*idx.shape[:-1])]
                if idx.ndim == 1:
                    return rows[0]
                r = self.t_stack(i, [rows], {})
                return r if idx.ndim == 2 else self.layout("reshape", [r, list(idx.shape[:-1]) + list(r.shape[1:])], {})
            M["tf.unstack"] = unstack
            M["tf.slice"] = tslice
            M["tf.add_n"] = M["tf.math.add_n"] = addn
            M["tf.fill"] = fill
            M["tf.gather_nd"] = pick
            for q in ("tf.", "tf.math."):
                M[q + "greater_equal"] = lambda i, a, k: neg(i, a, k, "less")
                M[q + "less_equal"] = lambda i, a, k: neg(i, a, k, "greater")
                M[q + "square"] = lambda i, a, k: self.bin("mul", a[0], a[0])
            for q in ("greater", "less", "not_equal"):
                M["tf.math." + q] = M["tf." + q]
        aliases()
        M["tf.math.reduce_sum"] = M["tf.reduce_sum"]
        M["tf.math.reduce_max"] = M["tf.reduce_max"]
        M["tf.math.cumsum"] = M["tf.cumsum"]
        for t in ("bool", "float16", "float32", "float64"):
            M["attr:tf.%s.is_integer" % t] = lambda i: False
            M["attr:tf.%s.is_floating" % t] = lambda i, t=t: t != "bool"
        for t, b in (("int8", 8), ("int16", 16), ("int32", 32), ("int64", 64)):
            M["attr:tf.%s.min" % t] = (lambda i, b=b: -(1 << (b - 1)))
            M["attr:tf.%s.is_integer" % t] = lambda i: True
            M["attr:tf.%s.is_floating" % t] = lambda i: False
            M["attr:tf.%s.max" % t] = (lambda i, b=b: (1 << (b - 1)) - 1)

    def node(self, v, like=None, dtype=None):
        if isinstance(v, Node):
            return v
        dt = dtype or (like.dtype if like is not None else None)
        if isinstance(v, (list, tuple)) and any(isinstance(x, Node) for x in v):
            return self.t_stack(self.it, [list(v)], {})
        return self.pm.mk("tf.constant", (), (freeze(v),), kind="tf", shape=self.pm.shape_of(v), dtype=dt)

    def bin(self, op, a, b):
        like = a if isinstance(a, Node) else b
        a, b = self.node(a, like), self.node(b, like)
        pm = self.pm
        try:
            if op == "matmul":
                return pm.bin(op, a, b)
            sh = broadcast(pm.shape_of(a), pm.shape_of(b))
        except ShapeMismatch as e:
            self.it.fail("ValueError", "shape: %s" % e)
        dt = a.dtype if a.dtype is not None else b.dtype
        if op in ("equal", "less", "greater", "not_equal"):
            dt = DT["bool"]
        if op in ("lshift", "arshift"):
            return pm.mk(op, [a, b], (None,), kind="tf", dtype=dt, shape=sh)
        if op == "mod":
            c = pm.cval(b) if b.op == "tf.constant" else None
            if isinstance(c, (int, np.integer)):
                return pm.mk(op, [a], (int(c),), kind="tf", dtype=dt, shape=sh)
        return pm.mk(op, [a, b], (), kind="tf", dtype=dt, shape=sh)

    def un(self, op, x):
        x = self.node(x)
        return self.pm.mk(op, [x], (), kind=x.kind, factory=x.factory, dtype=x.dtype, shape=x.shape)

    def layout(self, nm, a, k):
        a, k = list(a), dict(k)
        k.pop("name", None)
        x = a.pop(0) if a else None
        for nn in ("input", "tensor", "a", "value", "x", "input_", "input_tensor"):
            if x is None and nn in k:
                x = k.pop(nn)
        ren = {"num_or_size_splits": "num_split", "shape": "axes"} if nm != "tile" else {}
        k = {ren.get(q, q): v for q, v in k.items()}
        if is_concrete(x):
            r = self.pm.fold(nm, [x] + a, k)
            if r is not None:
                return r
        x = self.node(x)
        if nm == "strided_slice":
            args, kw = a, k
            if kw or len(args) != 3:
                names = ("begin", "end", "strides")
                args = list(args) + [kw.pop(n) for n in names[len(args):] if n in kw]
            return self.pm.node_method(self.it, x, "strided_slice", [args, kw], {})
        if nm in ("batch_to_space", "space_to_batch"):
            a = [arg(a, k, 0, "block_shape"), arg(a, k, 1, "crops" if nm[0] == "b" else "paddings")]
            k = {}
        try:
            return self.pm.node_method(self.it, x, nm, a, k)
        except (TypeError, ValueError) as e:
            self.it.fail("ValueError", "%s: %s" % (nm, e))

    # ------------------------------------------------------------------
    def t_cast(self, i, a, k):
        x, dt = a[0], arg(a, k, 1, "dtype")
        x = self.node(x)
        return self.pm.mk("tf.cast", [x], (freeze(dt),), kind="tf", shape=x.shape, dtype=dt)

    def t_convert_to_tensor(self, i, a, k):
        v, dt = arg(a, k, 0, "value"), arg(a, k, 1, "dtype")
        if isinstance(v, Node):
            if dt is not None and v.dtype is not None and v.dtype is not dt:
                i.fail("ValueError", "tensor conversion requested dtype")
            if v.op == "tf.Variable":
                return self.pm.mk("read_value", [v], (), kind="tf", shape=v.shape, dtype=v.dtype)
            return v
        n = self.node(v, dtype=dt)
        sh = arg(a, k, 2, "shape")
        if sh is not None:
            n = self.pm.node_method(i, n, "reshape", [list(sh)], {})
        return n

    def t_constant(self, i, a, k):
        if "shape" in k and not isinstance(a[0], Node):
            sh = list(k["shape"])
            v = a[0]
            if np.ndim(v) == 0:
                v = np.full(sh, v)
            return self.t_convert_to_tensor(i, [np.reshape(np.array(v), sh)], {"dtype": k.get("dtype")})
        return self.t_convert_to_tensor(i, a, k)

    def const(self, v, a, k):
        dt = arg(a, k, 1, "dtype")
        sh = self.pm.to_shape(arg(a, k, 0, "shape"))
        return self.pm.mk("tf.constant", (), (v,), kind="tf", shape=sh, dtype=dt)

    def t_zeros(self, i, a, k):
        return self.const(0, a, k)

    def t_ones(self, i, a, k):
        return self.const(1, a, k)

    def t_zeros_like(self, i, a, k):
        return self.pm.mk("tf.constant", (), (0,), kind="tf", shape=a[0].shape, dtype=arg(a, k, 1, "dtype") or a[0].dtype)

    def t_ones_like(self, i, a, k):
        return self.pm.mk("tf.constant", (), (1,), kind="tf", shape=a[0].shape, dtype=arg(a, k, 1, "dtype") or a[0].dtype)

    def t_pad(self, i, a, k):
        x, p = a[0], arg(a, k, 1, "paddings")
        if p is None:
            i.fail("TypeError", "pad() missing argument paddings")
        if np.shape(p) != (len(x.shape), 2):
            i.fail("ValueError", "paddings shape")
        return self.pm.mk("pad", [x], (freeze(p),), kind="tf", dtype=x.dtype,
                          shape=ShapeVal([d + b + c for d, (b, c) in zip(x.shape, p)]))

    def t_where(self, i, a, k):
        c, x, y = arg(a, k, 0, "condition"), arg(a, k, 1, "x"), arg(a, k, 2, "y")
        like = x if isinstance(x, Node) else y
        x, y, c = self.node(x, like), self.node(y, like), self.node(c)
        try:
            sh = broadcast(broadcast(c.shape, x.shape), y.shape)
        except ShapeMismatch as e:
            i.fail("ValueError", str(e))
        return self.pm.mk("where", [c, x, y], (), kind="tf", shape=sh, dtype=x.dtype)

    def t_gather(self, i, a, k):
        x, ind = arg(a, k, 0, "params"), arg(a, k, 1, "indices")
        axis = k.get("axis", 0)
        if isinstance(ind, (list, tuple)):
            ind = np.array(ind)
        try:
            r = self.pm.m_gather(x, [ind, axis], {})
        except (IndexError, TypeError, ValueError) as e:
            i.fail("ValueError", "gather %s" % e)
        n = len(x.shape)
        if isinstance(axis, int) and not -n <= axis < n:
            i.fail("ValueError", "gather axis")
        c = self.pm.cval(ind) if isinstance(ind, Node) else ind
        if isinstance(axis, int) and is_concrete(c) and c is not None:
            v = np.asarray(c)
            if v.size and (v.min() < 0 or v.max() >= x.shape[axis]):
                i.fail("InvalidArgumentError", "gather index out of range: %s of %s" % (c, x.shape[axis]))
        return r

    def t_scatter_nd(self, i, a, k):
        ind, upd, sh = arg(a, k, 0, "indices"), arg(a, k, 1, "updates"), arg(a, k, 2, "shape")
        r = self.pm.m_scatter_nd(upd, [ind, sh], {})
        r.dtype = upd.dtype
        return r

    def joined(self, i, op, a, k):
        xs = list(i.iterate(arg(a, k, 0, "values")))
        axis = arg(a, k, 1, "axis", default=0)
        if all(is_concrete(x) for x in xs):
            return (np.stack if op == "stack" else np.concatenate)([np.asarray(x) for x in xs], axis=axis)
        like = next(x for x in xs if isinstance(x, Node))
        xs = [self.node(x, like) for x in xs]
        shapes = [x.shape for x in xs]
        n = len(shapes[0])
        if op == "stack":
            if any(tuple(s) != tuple(shapes[0]) for s in shapes) or not -n - 1 <= axis <= n:
                i.fail("ValueError", "stack %s axis %s" % (shapes, axis))
            ax = axis + n + 1 if axis < 0 else axis
            sh = ShapeVal(tuple(shapes[0][:ax]) + (len(xs),) + tuple(shapes[0][ax:]))
        else:
            if not -n <= axis < n or any(len(s) != n for s in shapes):
                i.fail("ValueError", "concat %s axis %s" % (shapes, axis))
            ax = axis + n if axis < 0 else axis
            if any(s[j] != shapes[0][j] for s in shapes for j in range(n) if j != ax):
                i.fail("ValueError", "concat %s" % (shapes,))
            sh = ShapeVal([sum(s[ax] for s in shapes) if j == ax else d for j, d in enumerate(shapes[0])])
        return self.pm.mk(op, xs, (ax,), kind="tf", shape=sh, dtype=xs[0].dtype)

    def t_stack(self, i, a, k):
        return self.joined(i, "stack", a, k)

    def t_concat(self, i, a, k):
        return self.joined(i, "concat", a, k)

    def t_image__extract_patches(self, i, a, k):
        x = arg(a, k, 0, "images")
        s, st, pad = arg(a, k, 1, "sizes"), arg(a, k, 2, "strides"), arg(a, k, 4, "padding")
        if list(arg(a, k, 3, "rates")) != [1, 1, 1, 1] or s[0] != 1 or s[3] != 1 or st[0] != 1 or st[3] != 1:
            raise Incomplete("extract_patches rates", i.loc)
        return self.pm.node_method(i, x, "im2patches", [(s[1], s[2]), [st[1], st[2]], pad, "NHWC"], {})

    def t_Variable(self, i, a, k):
        v, dt = arg(a, k, 0, "initial_value"), k.get("dtype")
        v = self.node(v, dtype=dt)
        return self.pm.mk("tf.Variable", [v], (), kind="tf", shape=v.shape, dtype=dt or v.dtype)

    def t_random__uniform(self, i, a, k):
        return self.rand(arg(a, k, 0, "shape"), arg(a, k, 1, "minval"), arg(a, k, 2, "maxval"), arg(a, k, 3, "dtype"), None)

    def t_random__stateless_uniform(self, i, a, k):
        return self.rand(arg(a, k, 0, "shape"), arg(a, k, 2, "minval"), arg(a, k, 3, "maxval"), arg(a, k, 4, "dtype"), arg(a, k, 1, "seed"))

    def rand(self, shape, mn, mx, dt, seed):
        ins = [seed] if isinstance(seed, Node) else []
        if dtpath(ExtDt(dt)) not in ("tf.int32", "tf.int64", "tf.float32", "tf.float64"):
            self.it.fail("ValueError", "tf.random.uniform of %s" % (dt,))
        n = self.pm.mk("tfrand", ins, (None if ins else self.pm.rndname(), freeze(mn), freeze(mx)), kind="tf",
                       shape=self.pm.to_shape(shape), dtype=dt)
        self.w.it.events.append(("tfrand", n, seed, self.it.device, self.it.loc))
        return n


# ---------------------------------------------------------------- 128-bit pairs
class Half:
    """one 64-bit half of a 128-bit element"""
    __slots__ = ("i", "f")

    def __init__(self, i, f):
        self.i, self.f = i, f

    def key(self):
        return ("half", self.i, self.f.key())

    def __eq__(self, o):
        return isinstance(o, Half) and self.i == o.i and self.f == o.f

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "half%d(%r)" % (self.i, self.f)


def cst(f):
    if isinstance(f, AF) and set(f.t) <= {()}:
        return f.t.get((), 0)
    return None


class PElem(TElem):
    """TensorFlow-level forms where an int64 entry may be half of a 128-bit element"""

    def __init__(self):
        TElem.__init__(self, 64)
        self.wide = Elem(128)
        self.nz = {}

    def pair(self, lo, hi):
        if isinstance(lo, Half) and isinstance(hi, Half) and lo.i == 0 and hi.i == 1 and lo.f == hi.f:
            return lo.f
        a, b = cst(lo), cst(hi)
        if a is not None and b is not None:
            v = (a % (1 << 64)) | ((b % (1 << 64)) << 64)
            return a_const(v - (1 << 128) if v >> 127 else v)
        if isinstance(lo, AF) and not isinstance(hi, Half):
            sx = W.mapw(toW(lo, 64), (63,) * 64, 64)
            if sx == toW(hi, 64):
                return AF({(("fn", "widen", (64, 128), lo.key()),): 1})
        l = self.masked(lo, 0)
        h = self.masked(hi, 1)
        if l is not None and h is not None:
            return BF(l.t ^ h.t)
        return AF({(("pair", lo.key(), hi.key()),): 1})

    def masked(self, x, i):
        """128-bit word equal to x in half i, zero elsewhere"""
        m = ((1 << 64) - 1) << (64 * i)
        c = cst(x)
        if c is not None:
            return W.const((int(c) % (1 << 64)) << (64 * i), 128)
        if isinstance(x, Half) and x.i == i:
            return W.and_(toW(x.f, 128), W.const(m, 128), 128)
        return None

    def pairs(self, arr):
        if arr.ndim == 0 or arr.shape[-1] != 2:
            raise Undef("not a pair array: %s" % (arr.shape,))
        return to_obj(arr.shape[:-1], lambda k, idx: self.pair(arr[idx + (0,)], arr[idx + (1,)]))

    def unpair(self, arr):
        def one(i, f):
            c = cst(f)
            if c is not None:
                c = (int(c) >> (64 * i)) % (1 << 64)
                return a_const(c - (1 << 64) if c >> 63 else c)
            return Half(i, f)
        return np.stack([elementwise(lambda f: one(0, f), arr), elementwise(lambda f: one(1, f), arr)], -1) if arr.size else np.empty(arr.shape + (2,), dtype=object)

    def o_atom128(self, n):
        return self.unpair(to_obj(tuple(n.shape[:-1]), lambda k, idx: AF({(("v", n.tag, k),): 1})))

    def reduce(self, arr, n):
        if any(isinstance(f, Half) for f in arr.reshape(-1)):
            return arr
        return TElem.reduce(self, arr, n)

    def plus(self, x, y, n, nb):
        if isinstance(x, Half) or isinstance(y, Half):
            if cst(x) == 0:
                return y
            if cst(y) == 0:
                return x
            return AF({(("fn", "plus", x.key(), y.key()),): 1})
        return TElem.plus(self, x, y, n, nb)

    LAYOUTS = {"transpose", "reshape", "strided_slice", "split", "reverse", "expand_dims", "squeeze", "tile", "gather", "getitem",
               "stack", "concat", "pad", "identity", "read_value", "tf.identity", "scatter_nd", "batch_to_space", "space_to_batch",
               "im2patches", "xor", "and", "or", "not", "arshift", "lrshift", "lshift", "i128", "i128p", "where", "tf.constant",
               "tf.Variable", "atom", "atom128", "fixed"}

    def step(self, n):
        if n.op not in self.LAYOUTS and n.op in ("add", "sub", "mul", "matmul", "neg", "reduce_sum", "equal", "less", "greater", 

                                                 "bits", "mod", "cumsum", "not_equal", "bit_gather", "bit_reverse"):
            if any(isinstance(f, Half) for i in n.ins if isinstance(i, Node) for f in self.form(i).reshape(-1)):
                if n.op in ("reduce_sum", "matmul", "cumsum"):
                    return self.wholefn(n, n.op)
                key = (n.op, repr(n.params))
                arrs = np.broadcast_arrays(*[self.form(i) for i in n.ins])
                return to_obj(arrs[0].shape, lambda k, idx: AF({(("fn",) + key + tuple(a[idx].key() for a in arrs),): 1}))
        return TElem.step(self, n)

    def wide_op(self, n, op, params=(), shape=None):
        """apply a canonical 128-bit operation to pair operands"""
        ins = []
        for i in n.ins:
            if not isinstance(i, Node):
                continue
            arr = self.pairs(self.form(i))
            m = Node("fixed", (), (), kind="backing", factory=F["int128"], shape=ShapeVal(arr.shape))
            self.wide.fixed[m.id] = arr
            ins.append(m)
        r = Node(op, ins, params, kind="backing", factory=F["int128"], shape=shape)
        return self.wide.form(r)

    def o_i128(self, n):
        op, params = n.params
        sh = None if n.shape is None else ShapeVal(n.shape[:-1])
        return self.unpair(self.wide_op(n, op, params, sh))

    def o_i128p(self, n):
        """predicate on pairs"""
        op, params = n.params
        r = self.wide_op(n, op, params, n.shape)
        return elementwise(lambda f: tobit(f, 128), r)

    def half2(self, n, op, base):
        a, b = [self.form(i) for i in n.ins]
        if not any(isinstance(f, Half) for f in list(a.reshape(-1)) + list(b.reshape(-1))):
            return base(n)

        def one(x, y):
            ix = x.i if isinstance(x, Half) else y.i
            fx, fy = self.lift(x, ix), self.lift(y, ix)
            if fx is None or fy is None:
                return AF({(("fn", op, x.key(), y.key()),): 1})
            wx, wy = toW(fx, 128), toW(fy, 128)
            g = {"xor": lambda: BF(wx.t ^ wy.t), "and": lambda: W.and_(wx, wy, 128),
                 "or": lambda: BF(BF(wx.t ^ wy.t).t ^ W.and_(wx, wy, 128).t)}[op]()
            return Half(ix, g)
        return elementwise(one, a, b)

    def lift(self, x, i):
        if isinstance(x, Half):
            return x.f if x.i == i else None
        c = cst(x)
        if c in (0, -1):
            return a_const(c)
        return None if c is None else self.masked(x, i)

    def o_xor(self, n):
        return self.half2(n, "xor", lambda n: TElem.o_xor(self, n))

    def o_and(self, n):
        return self.half2(n, "and", lambda n: TElem.o_and(self, n))

    def o_tf_cast(self, n):
        a = self.form(n.ins[0])
        if self.isbool(n) and any(isinstance(f, Half) for f in a.reshape(-1)):
            def nz(f):
                if not isinstance(f, Half):
                    return tobit(f, 64)
                w = self.small(f, n.ins[0])
                if w is not None:
                    return tobit(w, 128)
                v = ("bit", ("nzhalf",) + f.key())
                self.nz[v] = f
                return BF([frozenset([v])])
            return elementwise(nz, a)
        if dtpath(n) == "tf.float64":
            r = elementwise(lambda f: self.small(f, n.ins[0]), a)
            return r if all(f is not None for f in r.reshape(-1)) else self.wholefn(n, "float64")
        return TElem.o_tf_cast(self, n)

    def small(self, f, src):
        """the form of a 0/1 value (exact in floating point) or a small constant, else None"""
        c = cst(f)
        if c is not None:
            return f if abs(c) < 1 << 53 else None
        if isinstance(f, Half):
            if f.i:
                return None
            w = toW(f.f, 128)
        elif self.isbool(src):
            w = W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in f.t], 128)
        else:
            w = toW(f, 64)
        return w if bf_support(w, 128) <= 1 else None

    def o_to128(self, n):
        a = self.form(n.ins[0])
        if n.params[0] != 1 or n.ins[0].op != "tf.cast":
            return self.wholefn(n, "to128")
        return self.unpair(a)

    def orbit(self, x, y):
        hs = [self.nz.get(next(iter(next(iter(f.t))))) if len(f.t) == 1 and len(next(iter(f.t))) == 1 else None for f in (x, y)]
        if all(hs) and type(hs[0]) is Half and type(hs[1]) is Half and {hs[0].i, hs[1].i} == {0, 1} and hs[0].f == hs[1].f:
            return tobit(hs[0].f, 128)
        return BF(BF(x.t ^ y.t).t ^ b_and(x, y).t)

    def o_or(self, n):
        if self.isbool(n):
            return elementwise(self.orbit, *[self.form(i) for i in n.ins])
        return self.half2(n, "or", lambda n: TElem.o_or(self, n))

    def o_not(self, n):
        a = self.form(n.ins[0])
        if any(isinstance(f, Half) for f in a.reshape(-1)):
            return elementwise(lambda f: Half(f.i, BF(toW(f.f, 128).t ^ {ONES})) if isinstance(f, Half) else a_const(~cst(f)), a)
        return TElem.o_not(self, n)

    def shifts(self, n, kind):
        a = self.form(n.ins[0])
        if not any(isinstance(f, Half) for f in a.reshape(-1)):
            return TElem.shifts(self, n, kind)
        s = self.form(n.ins[1])

        def one(x, k):
            k = cst(k)
            if k is None or not isinstance(x, Half):
                return AF({(("fn", kind, x.key(), repr(k)),): 1})
            w = toW(x.f, 128)
            k = min(k, 63)
            if kind == "ar":
                mp = tuple(64 * x.i + min(j + k, 63) for j in range(64)) + (-1,) * 64
            elif kind == "lr":
                mp = tuple(64 * x.i + j + k if j + k < 64 else -1 for j in range(64)) + (-1,) * 64
            else:
                mp = tuple(64 * x.i + j - k if j >= k else -1 for j in range(64)) + (-1,) * 64
            w = W.mapw(w, mp, 128)
            return Low(w) if w.t else a_const(0)
        return elementwise(one, a, s)


class Low(Half):
    """a 64-bit word given by the low half of a 128-bit word form"""

    def __init__(self, f):
        Half.__init__(self, 0, f)


# ---------------------------------------------------------------- the world
def along(it, a, k):
    """np.apply_along_axis of an interpreted function"""
    f, ax, arr = arg(a, k, 0, "func1d"), arg(a, k, 1, "axis"), arg(a, k, 2, "arr")
    if isinstance(arr, Node):
        it.fail("NotImplementedError", "numpy function of a symbolic tensor")
    arr = np.asarray(arr)
    ax = ax % arr.ndim
    m = np.moveaxis(arr, ax, -1)
    out = [np.asarray(it.call(f, [m[idx]], {})) for idx in np.ndindex(*m.shape[:-1])]
    if not out:
        return np.zeros(m.shape[:-1] + (0,), dtype=arr.dtype)
    r = np.array(out).reshape(m.shape[:-1] + out[0].shape)
    return np.moveaxis(r, -1, ax) if out[0].ndim == 1 else r


class TensWorld(World):
    """the tensor package itself, interpreted (no factory replaced)"""
    SECURE = True

    def configure(self):
        it = self.it
        ov = it.overrides
        for k in list(ov):
            if k.startswith("tf_encrypted.tensor") or "secure_random" in k:
                del ov[k]
        O = "tf_encrypted.operations."
        sec = self.SECURE
        ov[O + "secure_random.secure_random:_try_load_secure_random_module"] = lambda i, a, k: Ext("sr") if sec else None
        ov[O + "aux.aux:_try_load_aux_module"] = lambda i, a, k: Ext("aux")
        ov[O + "tf_i128.tf_i128:_try_load_tf_i128_module"] = lambda i, a, k: Ext("i128")
        self.tf = TF(self)
        M = it.models
        pm = self.pm

        def aux(op):
            def f(i, a, k):
                x = arg(a, k, 0, "x")
                ps = [arg(a, k, j + 1, n) for j, n in enumerate(("start", "stride") if op == "bit_gather" else ("stride",) if "split" in op else ())]
                r = pm.node_method(i, x, op, ps, {})
                return r
            return f
        for op in ("bit_gather", "bit_split_and_gather", "bit_reverse", "xor_indices"):
            M["aux." + op] = aux(op)
            M["i128.i128_" + op] = self.i128m(op)
        for nm, op in (("i128_add", "add"), ("i128_sub", "sub"), ("i128_mul", "mul"), ("i128_mat_mul", "matmul")):
            M["i128." + nm] = (lambda i, a, k, op=op: self.i128(op, a))
        for nm, op in (("i128_left_shift", "lshift"), ("i128_right_shift", "arshift"), ("i128_logic_right_shift", "lrshift"),
                       ("i128_negate", "neg"), ("i128_abs", "abs")):
            M["i128." + nm] = (lambda i, a, k, op=op: self.i128(op, a))
        M["i128.i128_equal"] = lambda i, a, k: self.i128("equal", a)
        M["i128.i128_reduce_sum"] = lambda i, a, k: self.i128sum(a[0], arg(a, k, 1, "axis"), arg(a, k, 2, "keepdims"))
        M["i128.to_i128"] = lambda i, a, k: pm.mk("to128", [a[0]], (freeze(a[1]),), kind="tf", dtype=DT["int64"],
                                                 shape=ShapeVal(tuple(a[0].shape) + (2,)))
        M["i128.from_i128"] = lambda i, a, k: pm.mk("from128", [a[0]], (freeze(a[1]),), kind="tf", dtype=DT["float64"],
                                                   shape=ShapeVal(a[0].shape[:-1]))
        M["np.apply_along_axis"] = along
        for t in BITS:
            M["attr:tf.python.framework.dtypes." + t[3:]] = (lambda i, t=t: DT[t[3:]])
        M["tf.python.framework.dtypes.as_dtype"] = lambda i, a, k: a[0]
        M["tf.as_dtype"] = M["tf.dtypes.as_dtype"] = lambda i, a, k: a[0]
        M["tf.python.framework.ops.convert_to_tensor"] = lambda i, a, k: i.models["tf.convert_to_tensor"](i, a, k)
        M["sr.secure_seed"] = self._seed
        M["sr.secure_seeded_random_uniform"] = lambda i, a, k: self.sample(a[0], a[1], a[2], a[3])
        M["sr.secure_random_uniform"] = lambda i, a, k: self.sample(a[0], None, a[1], a[2])
        M["sr.i128_secure_seeded_random_uniform"] = lambda i, a, k: self.sample128(a[0], a[1], a[2], a[3])
        M["sr.i128_secure_random_uniform"] = lambda i, a, k: self.sample128(a[0], None, a[1], a[2])

    def sample(self, shape, seed, mn, mx):
        pm = self.pm
        c = [pm.cval(x) for x in (mn, mx)]
        dt = mn.dtype if isinstance(mn, Node) else None
        n = pm.mk("srand", [seed] if isinstance(seed, Node) else [], (None if seed is not None else pm.rndname(), freeze(c[0]), freeze(c[1])),
                  kind="tf", shape=pm.to_shape(shape), dtype=dt)
        self.it.events.append(("srand", n, seed, self.it.device, self.it.loc))
        return n

    def sample128(self, shape, seed, mn, mx):
        pm = self.pm
        sh = pm.to_shape(shape)
        n = pm.mk("srand128", [seed] if isinstance(seed, Node) else [], (None if seed is not None else pm.rndname(), freeze(pm.cval(mn)), freeze(pm.cval(mx))),
                  kind="tf", shape=ShapeVal(tuple(sh) + (2,)), dtype=DT["int64"])
        self.it.events.append(("srand128", n, seed, self.it.device, self.it.loc))
        return n

    def i128m(self, op):
        def f(i, a, k):
            x = a[0]
            ps = tuple(freeze(v) for v in list(a[1:]) + list(k.values()))
            sh = tuple(x.shape[:-1])
            if op == "bit_split_and_gather":
                sh = (a[1] if len(a) > 1 else k["stride"],) + sh
            return self.mk128(op, [x], ps, sh)
        return f

    def mk128(self, op, ins, params, sh):
        return self.pm.mk("i128", ins, (op, params), kind="tf", dtype=DT["int64"], shape=ShapeVal(tuple(sh) + (2,)))

    def i128(self, op, a):
        it = self.it
        x = self.tf.node(a[0])
        if x.shape[-1:] != (2,):
            it.fail("InvalidArgumentError", "not an i128 tensor: %s" % (x.shape,))
        if op in ("lshift", "arshift", "lrshift", "neg", "abs"):
            return self.mk128(op, [x], tuple(freeze(v) for v in a[1:2]), x.shape[:-1])
        y = self.tf.node(a[1])
        try:
            if op == "matmul":
                # the C++ kernel multiplies two matrices of pairs
                if len(x.shape) != 3 or len(y.shape) != 3:
                    it.fail("InvalidArgumentError", "i128 matmul of ranks %d, %d" % (len(x.shape) - 1, len(y.shape) - 1))
                from .protomodel import matmul_shape
                sh = matmul_shape(ShapeVal(x.shape[:-1]), ShapeVal(y.shape[:-1]))
            else:
                sh = broadcast(x.shape[:-1], y.shape[:-1])
        except ShapeMismatch as e:
            it.fail("InvalidArgumentError", str(e))
        if op == "equal":
            return self.pm.mk("i128p", [x, y], (op, ()), kind="tf", dtype=DT["bool"], shape=sh)
        return self.mk128(op, [x, y], (), sh)

    def i128sum(self, x, axis, keep):
        ax = list(axis) if isinstance(axis, (list, tuple)) else [axis]
        sh = reduce_shape(ShapeVal(x.shape[:-1]), ax, keep)
        return self.mk128("reduce_sum", [x], (freeze(tuple(ax)), bool(keep)), sh)


def same_value(x, y, nb):
    from .elem import equal_forms
    if equal_forms(x, y, nb):
        return True
    try:
        wx, wy = toW(x, nb), toW(y, nb)
    except TooBig:
        return False
    return all(W.bit(wx, k) == W.bit(wy, k) for k in range(nb))


# ---------------------------------------------------------------- comparison with the canonical operations
class TensJudge:
    """one tensor class: each method against the canonical ring operation"""

    def __init__(self, w, rep, name, factory, spec, enc, prefix=""):
        self.w, self.rep, self.name, self.fac, self.spec = w, rep, name, factory, spec
        self.pm, self.it = w.pm, w.it
        self.enc = enc
        self.prefix = "%s: " % name
        self.count = 0

    # representation: an abstract ring tensor <-> a real Tensor instance
    def pair(self, tag, shape):
        """(real tensor, abstract node) denoting the same ring element"""
        nbk = Node("atom", (), (), kind="backing", factory=self.spec, shape=ShapeVal(shape), tag=tag)
        if self.enc == "i128":
            v = Node("atom128", (), (), kind="tf", shape=ShapeVal(tuple(shape) + (2,)), tag=tag, dtype=DT["int64"])
        else:
            v = Node("atom", (), (), kind="tf", shape=ShapeVal(shape), tag=tag, dtype=self.spec.native)
        real = self.w.call(self.it.getattr(self.fac, "tensor"), v, encode=False)
        return real, nbk

    def evaluator(self):
        return PElem() if self.enc == "i128" else TElem(self.spec.nbits)

    def forms_real(self, E, v, fac=None):
        """(array of forms, factory name)"""
        v = self.it.getattr(v, "value")
        arr = E.form(v)
        if self.enc == "i128" and v.shape is not None and fac is None:
            return E.pairs(arr)
        return arr

    def is_tensor(self, v):
        return isinstance(v, Inst) and "Tensor" in [c.name for c in v.cls.mro()]

    def run(self, what, real_fn, spec_fn, spec_factory=None):
        """compare a real computation with its canonical meaning"""
        rep, it = self.rep, self.it
        cons = self.prefix + what
        it.steps = 0
        try:
            r = real_fn()
        except AbsRaise as e:
            rep.bad("tensor-total", cons, "raises %s: %s at %s" % (e.name, e.msg, e.loc))
            return
        except (Incomplete, Undef, TooBig) as e:
            rep.undecided("tensor-op", cons, e)
            return
        rep.ok("tensor-total", cons)
        try:
            s = spec_fn()
            self.compare(cons, r, s)
        except AbsRaise as e:
            rep.undecided("tensor-op", cons, "specification raises %s" % e)
        except (Incomplete, Undef, TooBig) as e:
            rep.undecided("tensor-op", cons, e)

    def compare(self, cons, r, s):
        rep, it = self.rep, self.it
        if isinstance(s, (list, tuple)):
            rs = list(it.iterate(r))
            if len(rs) != len(s):
                rep.bad("tensor-op", cons, "%d results instead of %d" % (len(rs), len(s)))
                return
            for j, (x, y) in enumerate(zip(rs, s)):
                self.compare("%s[%d]" % (cons, j), x, y)
            return
        E = PElem() if s.factory is not None and s.factory.name == "int128" else self.evaluator()
        if self.is_tensor(r):
            fac = it.getattr(r, "factory")
            want = self.w.fac_of(s.factory)
            if fac is not want:
                rep.bad("tensor-op", cons, "result belongs to another tensor factory than %s" % s.factory.name)
                return
            sh = tuple(it.getattr(r, "shape"))
            v = it.getattr(r, "value")
            arr = E.form(v)
            if s.factory.name == "int128":
                arr = E.pairs(arr)
            dt = dtpath(v)
            if dt != s.factory.native.path:
                rep.bad("tensor-op", cons, "result is stored as %s instead of %s" % (dt, s.factory.native.path))
                return
        elif isinstance(r, Node):
            arr = E.form(r)
            sh = tuple(r.shape) if r.shape is not None else arr.shape
        else:
            rep.bad("tensor-op", cons, "result is not a tensor (%r)" % (r,))
            return
        self.same(cons, E, arr, sh, s)

    def same(self, cons, E, arr, sh, s):
        rep = self.rep
        S = Elem(s.factory.nbits if s.factory is not None else 64)
        exp = S.form(s)
        if tuple(sh) != tuple(arr.shape):
            rep.bad("tensor-op", cons, "the tensor reports shape %s but holds %s" % (tuple(sh), arr.shape))
            return
        if tuple(arr.shape) != tuple(exp.shape):
            rep.bad("tensor-op", cons, "shape %s instead of %s" % (tuple(arr.shape), tuple(exp.shape)))
            return
        nb = s.factory.nbits if s.factory is not None else 64
        for idx in np.ndindex(*arr.shape):
            x, y = arr[idx], exp[idx]
            if isinstance(x, Half):
                x = AF({(("half",) + x.key(),): 1})
            if s.factory is not None and s.factory.name == "bool":
                x, y = tobit(x, 64) if isinstance(x, AF) else x, tobit(y, 64) if isinstance(y, AF) else y
                eq = x == y
            else:
                eq = same_value(x, y, nb)
            if not eq:
                rep.bad("tensor-op", cons, "element %s is %r, the ring operation gives %r" % (idx, x, y))
                return
        rep.ok("tensor-op", cons, repr(arr.reshape(-1)[0])[:160] if arr.size else "empty")

    # ------------------------------------------------------------------
    def method(self, name, shapes, *args, **kw):
        """x.name(*args); 'Y' among args is a second tensor"""
        xs = [self.pair("xyz"[i], sh) for i, sh in enumerate(shapes)]
        it = self.it

        def sub(v, j):
            if isinstance(v, str) and v in ("X", "Y", "Z"):
                return xs["XYZ".index(v)][j]
            if isinstance(v, list):
                return [sub(q, j) for q in v]
            if isinstance(v, FactoryVal) and j == 0:
                return self.w.fac_of(v)
            return v
        ar = [[sub(a, j) for a in args] for j in (0, 1)]
        kr = [{k: sub(v, j) for k, v in kw.items()} for j in (0, 1)]
        what = "%s(%s)" % (name, ", ".join([("tensor%s" % (tuple(sh),)) for sh in shapes[:1]] + [a if isinstance(a, str) else repr(a) for a in args] + [
            "%s=%r" % (k, v) for k, v in kw.items()]))

        def real():
            x = xs[0][0]
            return it.call(it.getattr(x, name), ar[0], kr[0])

        def spec():
            sp = xs[0][1]
            return self.canon(name, sp, ar[1], kr[1])
        self.run(what, real, spec)
        self.count += 1

    def canon(self, name, x, a, k):
        if name == "equal_zero":
            name, a = "equal", [0] + list(a)
        name = LOGICAL.get(name, name)
        return self.pm.node_method(self.it, x, name, a, k)

    def factory_op(self, name, shapes, *args, **kw):
        xs = [self.pair("xyz"[i], sh) for i, sh in enumerate(shapes)]
        it = self.it

        def sub(v, j):
            if isinstance(v, str) and v in ("X", "Y", "Z"):
                return xs["XYZ".index(v)][j]
            if isinstance(v, list):
                return [sub(q, j) for q in v]
            return v
        ar = [[sub(a, j) for a in args] for j in (0, 1)]
        kr = [{k: sub(v, j) for k, v in kw.items()} for j in (0, 1)]
        what = "factory.%s(%s)" % (name, ", ".join([a if isinstance(a, str) else repr(a) for a in args] + ["%s=%r" % (k, v) for k, v in kw.items()]))
        self.run(what, lambda: it.call(it.getattr(self.fac, name), ar[0], kr[0]),
                 lambda: self.pm.factory_call(self.spec, name, ar[1], kr[1]))


    # ------------------------------------------------------------------
    def construct(self):
        """tensor / constant / variable and reading back"""
        it, spec, rep = self.it, self.spec, self.rep
        nb = spec.nbits
        boo = spec.name == "bool"
        if boo:
            arrs = [np.array([[True, False], [False, True]]), np.array([True])]
        else:
            big = (1 << (min(nb, 64) - 1)) - 1
            arrs = [np.array([[0, 1, -1], [5, -7, big]], dtype=object if nb > 64 else np.int64), np.array([3, -big - 1])]
            if nb > 64:
                arrs.append(np.array([[(1 << 127) - 1, -(1 << 127), (1 << 64) + 5, -(1 << 64) - 9]], dtype=object))

        def expect(a, like=None):
            def spec_fn():
                return self.pm.mk("tf.constant", (), (freeze(a.astype(int) if boo else a),), kind="backing", factory=spec, shape=ShapeVal(a.shape))
            return spec_fn
        for kind in ("tensor", "constant", "variable"):
            for a in arrs:
                self.run("factory.%s(array%s)" % (kind, a.shape), lambda: it.call(it.getattr(self.fac, kind), [a], {}), expect(a))
            x, n = self.pair("x", (2, 3))
            enc = it.getattr(x, "value")
            self.run("factory.%s(encoded value, encode=False)" % kind,
                     lambda: it.call(it.getattr(self.fac, kind), [self.backing_for(kind, enc)], {"encode": False}), lambda: n)
        self.run("factory.tensor(True)" if boo else "factory.tensor(-4)", lambda: it.call(it.getattr(self.fac, "tensor"), [True if boo else -4], {}), expect(np.array(1 if boo else -4)))
        x, n = self.pair("x", (2, 3))
        self.run("factory.variable(tensor)", lambda: it.call(it.getattr(self.fac, "variable"), [x], {}), lambda: n)
        if self.enc == "native":
            v = Node("atom", (), (), kind="tf", shape=ShapeVal((2, 3)), tag="x", dtype=spec.native)
            self.run("factory.tensor(tf.Tensor)", lambda: it.call(it.getattr(self.fac, "tensor"), [v], {}), lambda: n)
            self.run("tensor.to_native()", lambda: it.call(it.getattr(x, "to_native"), [], {}), lambda: n)
            b = Node("atom", (), (), kind="tf", shape=ShapeVal((2, 3)), tag="b", dtype=DT["bool"])
            nb_ = Node("atom", (), (), kind="backing", factory=F["bool"], shape=ShapeVal((2, 3)), tag="b")
            self.run("factory.tensor(tf.bool Tensor)", lambda: it.call(it.getattr(self.fac, "tensor"), [b], {}),
                     lambda: nb_ if boo else self.pm.node_method(it, nb_, "cast", [spec], {}))
        else:
            y = it.call(it.getattr(x, "to_native"), [], {})
            self.rep.__getattribute__("ok" if y.op == "from128" and y.params[0] == 1 and y.ins[0] is enc_of(it, x) else "bad")(
                "tensor-op", self.prefix + "tensor.to_native()", "decodes the stored pair with scale 1")
        self.assign()

    def backing_for(self, kind, enc):
        return enc

    def assign(self):
        it, rep = self.it, self.rep
        cons = self.prefix + "variable.assign(tensor) then read_value()"
        it.steps = 0
        x, n = self.pair("x", (2, 3))
        y, m = self.pair("y", (2, 3))
        try:
            var = it.call(it.getattr(self.fac, "variable"), [x], {})
            before = len(it.events)
            it.call(it.getattr(var, "assign"), [y], {})
            ev = [e for e in it.events[before:] if e[0] == "assign"]
            r = it.call(it.getattr(var, "read_value"), [], {})
        except AbsRaise as e:
            rep.bad("tensor-total", cons, "raises %s: %s at %s" % (e.name, e.msg, e.loc))
            return
        except Incomplete as e:
            rep.undecided("tensor-op", cons, e)
            return
        rep.ok("tensor-total", cons)
        vs = self.cells(var)
        if [e[1] for e in ev] != vs:
            rep.bad("tensor-op", cons, "assigns %d variables instead of the %d that hold the value" % (len(ev), len(vs)))
            return
        new = self.rewrap([e[2] for e in ev])
        self.compare(cons + ": assigned value", new, m)
        if self.reads(r) != vs:
            rep.bad("tensor-op", cons, "the value read is not that of the variable that was assigned")
        else:
            rep.ok("tensor-op", cons + ": value read")

    def cells(self, var):
        return [self.it.getattr(var, "variable")]

    def rewrap(self, vs):
        return self.it.call(self.it.getattr(self.fac, "tensor"), [vs[0]], {"encode": False})

    def reads(self, r):
        v = self.it.getattr(r, "value")
        return [v.ins[0] if v.op in ("read_value", "tf.identity", "identity") else v]


def enc_of(it, x):
    return it.getattr(x, "value")


class Tensors(TensWorld):
    def __init__(self, repo=None):
        TensWorld.__init__(self, repo)
        t = self.mod("tensor")
        self.facs = {n: self.it.getattr(t, {"bool": "int1factory"}.get(n, n + "factory")) for n in ("bool", "int8", "int16", "int32", "int64", "int128", "int100")}
        nat = self.mod("tensor.native").ns["native_factory"]
        self.prime = self.call(nat, DT["int32"], 37)

    def fac_of(self, spec):
        return self.facs[spec.name]


LOGICAL = {"logical_xor": "bitwise_xor", "logical_and": "bitwise_and", "logical_or": "bitwise_or", "logical_not": "invert"}


def C(name, shapes, *a, **k):
    return (name, shapes, a, k)


LAYOUT = [
    C("__getitem__", [(3, 2)], 1), C("__getitem__", [(3, 2)], slice(0, 2)), C("__getitem__", [(3, 2)], (slice(None), 1)),
    C("__getitem__", [(3, 2)], (slice(None), slice(1, 2))), C("__getitem__", [(3, 2)], (Ellipsis, 0)),
    C("__getitem__", [(3, 2)], (None, slice(1, 3))),
    C("transpose", [(3, 2)], [1, 0]), C("transpose", [(2, 3, 4)], [2, 0, 1]), C("transpose", [(2, 3)], None),
    C("reshape", [(3, 2)], [2, 3]), C("reshape", [(3, 2)], [6]), C("reshape", [(3, 2)], [-1, 2]), C("reshape", [(3, 2)], (1, 6)),
    C("strided_slice", [(3, 4)], ([0, 1], [2, 3], [1, 1]), {}), C("strided_slice", [(3, 4)], ([0, 0], [3, 4], [2, 3]), {}),
    C("gather", [(3, 2)], [2, 0]), C("gather", [(3, 2)], [1, 0, 1], 1), C("gather", [(3, 2)], [1, 0], axis=-1),
    C("gather", [(2, 3, 2)], [1, 2], axis=-2),
    C("split", [(4, 2)], 2), C("split", [(2, 4)], 2, 1), C("split", [(2, 4)], [1, 3], axis=-1), C("split", [(4, 3)], 2, axis=-2),
    C("reverse", [(3, 2)], [0]), C("reverse", [(3, 2)], [1]), C("reverse", [(3, 2)], [0, 1]), C("reverse", [(3, 2)], [-1]),
    C("reverse", [(2, 3, 2)], [-2]),
    C("expand_dims", [(3, 2)], 0), C("expand_dims", [(3, 2)], 1), C("expand_dims", [(3, 2)], -1), C("expand_dims", [(3, 2)], -2),
    C("squeeze", [(3, 1, 2)], [1]), C("squeeze", [(1, 3, 1)],), C("squeeze", [(3, 1)], [-1]), C("squeeze", [(1, 3, 2)], axis=[0]),
    C("squeeze", [(3, 1, 2)], [-2]),
    C("scatter_nd", [(2,)], [[3], [1]], [5]), C("scatter_nd", [(2, 2)], [[2], [0]], [3, 2]),
]
AXES = [
    C("reduce_sum", [(3, 2)], 0), C("reduce_sum", [(3, 2)], 1), C("reduce_sum", [(3, 2)], None), C("reduce_sum", [(3, 2)], 0, True),
    C("reduce_sum", [(3, 2)], -1), C("reduce_sum", [(2, 3, 2)], -2), C("reduce_sum", [(2, 3, 2)], [0, 1]), C("reduce_sum", [(2, 3, 2)], [0, 2], True),
]
CUMS = [C("cumsum", [(3, 2)], 0, False, False), C("cumsum", [(3, 2)], 1, True, False), C("cumsum", [(3, 2)], 0, False, True)]
SPACE = [
    C("batch_to_space", [(4, 1, 2, 3)], [2, 2], [[0, 0], [0, 0]]), C("batch_to_space", [(4, 2, 2, 1)], [2, 2], [[1, 0], [0, 1]]),
    C("space_to_batch", [(1, 2, 4, 3)], [2, 2], [[0, 0], [0, 0]]), C("space_to_batch", [(1, 3, 2, 1)], [2, 2], [[1, 0], [1, 1]]),
]
PATCHES = [
    C("im2col", [(2, 2, 4, 5)], 2, 3, [1, 1], "SAME"), C("im2col", [(1, 2, 4, 5)], 3, 2, [2, 1], "VALID"), C("im2col", [(1, 1, 5, 4)], 2, 2, [1, 2], "SAME"),
    C("im2patches", [(2, 2, 4, 5)], (2, 3), [1, 1], "SAME", "NCHW"), C("im2patches", [(1, 4, 5, 2)], (2, 2), [2, 1], "VALID", "NHWC"),
    C("im2patches", [(1, 2, 5, 4)], (3, 2), [1, 2], "VALID", "NCHW"),
]
P2IM = [
    C("patches2im", [(1, 4, 3, 2)], (2, 2), [1, 1], "VALID"), C("patches2im", [(1, 4, 2, 2)], (2, 2), [2, 2], "SAME", img_size=(4, 4)),
    C("patches2im", [(1, 4, 3, 3)], (2, 2), [1, 1], "SAME", img_size=(3, 3)), C("patches2im", [(1, 8, 2, 3)], (2, 2), [2, 2], "VALID", img_size=(5, 6)),
    C("patches2im", [(1, 2, 3, 4)], (2, 2), [1, 1], "VALID", data_format="NHWC"), C("patches2im", [(1, 6, 2, 3)], (2, 3), [2, 1], "VALID"),
    C("patches2im", [(1, 6, 3, 2)], (3, 2), [1, 2], "VALID", img_size=(5, 5)), C("patches2im", [(1, 4, 2, 2)], (2, 2), [2, 2], "VALID", img_size=(4, 5)),
    C("patches2im", [(1, 4, 2, 3)], (2, 2), [1, 2], "SAME", img_size=(2, 5)), C("patches2im", [(1, 4, 2, 3)], (2, 2), [2, 2], "VALID", img_size=(5, 7)),
    C("patches2im", [(2, 4, 2, 2)], (2, 2), [1, 1], "VALID"),
]
CONV = [
    C("conv2d", [(1, 2, 4, 4), (2, 2, 2, 3)], "Y", [1, 1], "SAME"), C("conv2d", [(2, 1, 4, 5), (2, 3, 1, 2)], "Y", [1, 1], "VALID"),
    C("conv2d", [(1, 2, 5, 4), (3, 2, 2, 1)], "Y", [2, 1], "SAME"), C("conv2d", [(1, 1, 5, 6), (2, 2, 1, 2)], "Y", [2, 3], "VALID"),
]
FACT = [
    C("stack", [(3, 2), (3, 2)], ["X", "Y"]), C("stack", [(3, 2), (3, 2)], ["X", "Y"], 1), C("stack", [(3, 2), (3, 2)], ["X", "Y"], axis=-1),
    C("concat", [(3, 2), (1, 2)], ["X", "Y"], 0), C("concat", [(3, 2), (3, 1)], ["X", "Y"], axis=1), C("concat", [(3, 2), (3, 1)], ["X", "Y"], axis=-1),
    C("concat", [(2, 3, 2), (2, 1, 2)], ["X", "Y"], axis=-2), C("stack", [(3, 2), (3, 2)], ["X", "Y"], axis=-2),
]
FACT2 = [
    C("ones", [], [2, 3]), C("zeros", [], [2, 3]), C("ones", [], ()), C("zeros", [], ()), C("ones_like", [(2, 3)], "X"), C("zeros_like", [(2, 3)], "X"), C("tile", [(2, 3)], "X", [2, 1]),
    C("tile", [(2, 3)], "X", (1, 2)), C("pad", [(2, 3)], "X", [[1, 0], [0, 2]]), C("scatter_nd", [(2,)], [[3], [1]], "X", [5]),
]
ARITH = [
    C("add", [(2, 3), (2, 3)], "Y"), C("sub", [(2, 3), (2, 3)], "Y"), C("mul", [(2, 3), (2, 3)], "Y"), C("__add__", [(2, 3), (2, 3)], "Y"),
    C("__sub__", [(2, 3), (2, 3)], "Y"), C("__mul__", [(2, 3), (2, 3)], "Y"), C("__add__", [(2, 3)], 5), C("__sub__", [(2, 3)], 5), C("__mul__", [(2, 3)], 5),
    C("__radd__", [(2, 3)], 5), C("__rsub__", [(2, 3)], 5), C("__rmul__", [(2, 3)], 5), C("add", [(2, 3), (3,)], "Y"), C("sub", [(2, 1), (1, 3)], "Y"),
    C("mul", [(2, 3), (1, 3)], "Y"), C("negative", [(2, 3)]), C("__add__", [()], 3), C("sub", [(2, 3)], -7), C("mul", [(2, 3)], -1),
]
MATMUL = [C("matmul", [(2, 3), (3, 2)], "Y"), C("matmul", [(1, 4), (4, 1)], "Y")]
BITS_ = [
    C("bits", [(2, 2)]), C("right_shift", [(2, 2)], 3), C("__rshift__", [(2, 2)], 1), C("logical_rshift", [(2, 2)], 3), C("logical_rshift", [(2, 2)], 0),
    C("__lshift__", [(2, 2)], 2), C("bitwise_xor", [(2, 2), (2, 2)], "Y"), C("bitwise_and", [(2, 2), (2, 2)], "Y"), C("bitwise_or", [(2, 2), (2, 2)], "Y"),
    C("__xor__", [(2, 2), (2, 2)], "Y"), C("__and__", [(2, 2), (2, 2)], "Y"), C("__or__", [(2, 2), (2, 2)], "Y"), C("invert", [(2, 2)]), C("__invert__", [(2, 2)]),
    C("__xor__", [(2, 2)], 5), C("__and__", [(2, 2)], 12), C("__and__", [(2, 2), (2,)], "Y"), C("truncate", [(2, 2)], 4), C("__rshift__", [(2, 2)], 7),
]
BITS64 = [
    C("bit_gather", [(2,)], 0, 2), C("bit_gather", [(2,)], 1, 2), C("bit_gather", [(2,)], 3, 4), C("bit_split_and_gather", [(2,)], 2),
    C("bit_split_and_gather", [(2, 3)], 4), C("bit_reverse", [(2,)]), C("xor_indices", [(2,)]),
]


CMP = [
    C("equal", [(2, 2), (2, 2)], "Y"), C("equal", [(2, 2), (2,)], "Y"), C("equal", [(2, 2)], 3), C("equal_zero", [(2, 2)]),
    C("equal", [(2, 2), (2, 2)], "Y", factory=F["bool"]), C("equal_zero", [(2, 2)], factory=F["bool"]),
    C("cast", [(2, 2)], F["bool"]), C("mod", [(2, 2)], 8), C("__mod__", [(2, 2)], 37), C("identity", [(2, 2)]),
    C("bits", [(2, 2)], factory=F["bool"]), C("bits", [(2, 2)], F["int8"]), C("bits", [(2, 2)], bitsize=5),
]
CAST = {"int64": ["int128", "int8", "int16", "int32", "bool"], "int32": ["int8", "int64", "bool"], "int16": ["bool"], "int8": ["bool"]}
BOOL = [
    C("__xor__", [(2, 2), (2, 2)], "Y"), C("__and__", [(2, 2), (2, 2)], "Y"), C("__or__", [(2, 2), (2, 2)], "Y"), C("__invert__", [(2, 2)]),
    C("logical_xor", [(2, 2), (2,)], "Y"), C("equal", [(2, 2), (2, 2)], "Y"), C("cast", [(2, 2)], F["int64"]), C("cast", [(2, 2)], F["int8"]),
    C("equal", [(2, 2), (2, 2)], "Y", factory=F["int64"]),
]


def apply(J, items, kind="method"):
    for name, shapes, a, k in items:
        getattr(J, kind)(name, shapes, *a, **k)


def native(w, rep, name, tier="quick"):
    J = TensJudge(w, rep, name, w.facs[name], F[name], "native")
    apply(J, ARITH + MATMUL + LAYOUT + AXES + CUMS + SPACE + PATCHES + CONV + BITS_)
    apply(J, P2IM + CMP)
    apply(J, [C("cast", [(2, 2)], F[d]) for d in CAST[name]])
    if name == "int64":
        apply(J, BITS64)
    apply(J, FACT + FACT2, "factory_op")
    J.construct()
    return J


def boolean(w, rep, name="bool", tier="quick"):
    J = TensJudge(w, rep, "bool", w.facs["bool"], F["bool"], "native")
    apply(J, BOOL + [c for c in LAYOUT if c[0] not in ("reverse", "scatter_nd")])
    apply(J, FACT, "factory_op")
    J.construct()
    return J


def int128(w, rep, name="int128", tier="quick"):
    J = TensJudge(w, rep, "int128", w.facs["int128"], F["int128"], "i128")
    apply(J, ARITH + MATMUL + LAYOUT + AXES + SPACE + PATCHES + CONV + P2IM)
    apply(J, BITS_ + BITS64 + [C("bits", [(2, 2)], bitsize=5), C("bits", [(2, 2)], bitsize=64), C("bits", [(2, 2)], bitsize=100), C("bits", [(2, 2)], F["bool"])])
    apply(J, [c for c in CMP if c[0] in ("equal", "cast", "identity")])
    apply(J, FACT + FACT2, "factory_op")
    J.construct()
    return J


# ---------------------------------------------------------------- sampling
class SampleElem(PElem):
    """forms of sampled tensors; the range of every stream is recorded"""

    def __init__(self):
        PElem.__init__(self)
        self.ranges = {}

    def stream(self, n):
        if n.ins:
            a = self.form(n.ins[0])
            return ("seeded", tuple(f.key() for f in a.reshape(-1)))
        return ("fresh", n.params[0])

    def o_seed(self, n):
        return to_obj(tuple(n.shape), lambda k, idx: AF({(("v", "seed:" + str(n.tag), k),): 1}))

    def o_srand(self, n):
        nm, lo, hi = n.params
        key = ("rnd", self.stream(n), lo, hi, dtpath(n))
        self.ranges[key] = (lo, hi, BITS.get(dtpath(n), 64))
        return to_obj(tuple(n.shape), lambda k, idx: AF({(("v", key, k),): 1}))

    o_tfrand = o_srand

    def o_srand128(self, n):
        nm, lo, hi = n.params

        def big(v):
            if isinstance(v, tuple) and len(v) == 3 and v[0] == "nd":
                v = v[2]
            v = np.array(v, dtype=object).reshape(-1)
            if v.shape != (2,):
                raise Undef("bounds of a 128-bit sample")
            return (int(v[0]) % (1 << 64)) + (int(v[1]) << 64)
        key = ("rnd", self.stream(n), big(lo), big(hi), "int128")
        self.ranges[key] = (big(lo), big(hi), 128)
        return self.unpair(to_obj(tuple(n.shape[:-1]), lambda k, idx: AF({(("v", key, k),): 1})))


def uniform_bits(E, f, nb):
    """(number of low bits, None) if the word form holds that many distinct bits of one full-range sample element, zero elsewhere"""
    w = toW(f, nb)
    if len(w.t) != 1:
        return None
    m = next(iter(w.t))
    src = [g for g in m if g[0] == "m"]
    if len(src) != 1 or any(g[0] not in ("m", "c") for g in m):
        return None
    mask = (1 << nb) - 1
    for g in m:
        if g[0] == "c":
            mask &= g[1]
    from .elem import _maplist
    mp = _maplist[src[0][1]]
    atom = src[0][2]
    rng = E.ranges.get(atom[1])
    if rng is None or not full(rng):
        return None
    pos = [mp[j] if (mask >> j) & 1 and mp[j] >= 0 else None for j in range(nb)]
    k = 0
    while k < nb and pos[k] is not None:
        k += 1
    if any(p is not None for p in pos[k:]) or len(set(pos[:k])) != k:
        return None
    return k, (atom[1], atom[2])


def full(rng):
    """the sampled range misses at most a 2^-24 part of the ring"""
    lo, hi, nb = rng
    M = 1 << nb
    return hi - lo <= M and (M - (hi - lo)) << 24 <= M


class Sampling:
    def __init__(self, w, rep, name, fac, spec, secure, modulus=None):
        self.w, self.rep, self.name, self.fac, self.spec = w, rep, name, fac, spec
        self.it = w.it
        self.secure = secure
        self.modulus = modulus
        self.pre = "%s%s: " % (name, "" if secure else " without secure randomness")

    def draw(self, what, name, args, kw, expect, seed=None):
        rep, it = self.rep, self.it
        cons = self.pre + what
        it.steps = 0
        try:
            r = it.call(it.getattr(self.fac, name), list(args), dict(kw))
            r2 = it.call(it.getattr(self.fac, name), list(args), dict(kw))
        except AbsRaise as e:
            rep.bad("sample", cons, "raises %s: %s at %s" % (e.name, e.msg, e.loc))
            return
        except (Incomplete, Undef) as e:
            rep.undecided("sample", cons, e)
            return
        try:
            self.check(cons, r, r2, args[0], expect, seed)
        except Skewed as e:
            rep.bad("sample", cons, e)
        except (Incomplete, Undef, TooBig) as e:
            rep.undecided("sample", cons, e)
        except AbsRaise as e:
            rep.bad("sample", cons, "the sample is not a usable tensor: %s at %s" % (e.msg, e.loc))

    def value(self, r):
        return self.it.getattr(r, "value")

    def check(self, cons, r, r2, shape, expect, seed):
        rep, it = self.rep, self.it
        if not (isinstance(r, Inst) and it.getattr(r, "factory") is self.fac):
            rep.bad("sample", cons, "the sample is not a tensor of this factory")
            return
        v = self.value(r)
        if not isinstance(v, Node):
            rep.bad("sample", cons, "the tensor wraps %r instead of a TensorFlow tensor" % (v,))
            return
        if dtpath(v) != self.spec.native.path:
            rep.bad("sample", cons, "stored as %s instead of %s" % (dtpath(v), self.spec.native.path))
            return
        E = SampleElem()
        arrs = []
        for q in (r, r2):
            a = E.form(self.value(q))
            arrs.append(E.pairs(a) if self.spec.name == "int128" else a)
        if tuple(arrs[0].shape) != tuple(shape):
            rep.bad("sample", cons, "shape %s instead of %s" % (arrs[0].shape, tuple(shape)))
            return
        seen = set()
        for f in list(arrs[0].reshape(-1)):
            lo, hi, atom = self.dist(E, f)
            if atom in seen:
                rep.bad("sample", cons, "two elements reuse the same random element")
                return
            seen.add(atom)
            bad = expect(lo, hi)
            if bad:
                rep.bad("sample", cons, "elements are drawn from [%s, %s): %s" % (lo, hi, bad))
                return
            st = atom[0][1]
            if seed is not None:
                if st[0] != "seeded" or not (E.form(seed).reshape(-1)[0].key() in st[1] or st[1] == tuple(g.key() for g in E.form(seed).reshape(-1))):
                    rep.bad("sample", cons, "the values are not determined by the given seed")
                    return
        same = all(x == y for x, y in zip(arrs[0].reshape(-1), arrs[1].reshape(-1)))
        if seed is not None and not same:
            rep.bad("sample", cons, "two draws with one seed differ")
        elif seed is None and same:
            rep.bad("sample", cons, "two draws give the same values")
        else:
            rep.ok("sample", cons, "%s" % (seen and next(iter(seen))[0][2:],))

    def dist(self, E, f):
        """(lo, hi, atom): f is uniform on [lo, hi)"""
        nb = 1 if self.spec.name == "bool" else self.spec.nbits
        if isinstance(f, BF) and self.spec.name == "bool":
            if len(f.t) == 1 and len(next(iter(f.t))) == 1:
                g = next(iter(next(iter(f.t))))
                if g[0] == "bit" and g[1][0] == "nz":
                    for key, rng in E.ranges.items():
                        for k in range(64):
                            a = AF({(("v", key, k),): 1})
                            if a.key() == g[1][1]:
                                lo, hi = rng[:2]
                                if not lo <= 0 < hi or hi - lo != 2:
                                    raise Skewed("a value of [%d, %d) is non-zero with probability other than 1/2" % (lo, hi))
                                return 0, 2, (key, k)
            raise Undef("boolean sample %r" % (f,))
        if isinstance(f, AF) and len([m for m in f.t if m]) == 1:
            m = next(m for m in f.t if m)
            c = f.t.get((), 0)
            if len(m) == 1 and f.t[m] == 1 and m[0][0] == "v" and m[0][1] in E.ranges:
                lo, hi, _ = E.ranges[m[0][1]]
                return lo + c, hi + c, (m[0][1], m[0][2])
        u = uniform_bits(E, f, nb)
        if u is not None:
            k, atom = u
            if k == nb:
                return -(1 << (nb - 1)), 1 << (nb - 1), atom
            return 0, 1 << k, atom
        raise Undef("sample element %r" % (f,))


class Skewed(Undef):
    pass


def sampling(w, rep, name, fac, spec, secure, modulus=None):
    S = Sampling(w, rep, name, fac, spec, secure, modulus)
    nb = 1 if spec.name == "bool" else spec.nbits
    M = modulus or (1 << nb)

    def ring(lo, hi):
        if hi - lo > M:
            return "more than the %d elements of the ring" % M
        if (M - (hi - lo)) << 24 > M:
            return "does not reach %d of the %d elements of the ring" % (M - (hi - lo), M)
        return None

    def exactly(a, b):
        return lambda lo, hi: None if (lo, hi) == (a, b) else "expected [%d, %d)" % (a, b)
    seed = Node("seed", (), (), kind="tf", shape=ShapeVal((2,)), tag="given", dtype=DT["int32"])
    for sh in ([2, 3], [3], []):
        S.draw("sample_uniform(%s)" % sh, "sample_uniform", [list(sh)], {}, ring)
        S.draw("sample_seeded_uniform(%s)" % sh, "sample_seeded_uniform", [list(sh), seed], {}, ring, seed)
    if name != "bool":
        small = min(nb - 2, 20) if not modulus else 5
        for b in sorted({1, small, nb - 2 if not modulus else 5}):
            S.draw("sample_bounded([2, 3], %d)" % b, "sample_bounded", [[2, 3], b], {}, exactly(0, 1 << b))
        S.draw("sample_bits([2, 3])", "sample_bits", [[2, 3]], {}, exactly(0, 2))
        if spec.name != "int128":
            S.draw("sample_uniform([2, 3], 3, 11)", "sample_uniform", [[2, 3], 3, 11], {}, exactly(3, 11))
            top = (modulus,) if modulus else ((1 << (nb - 1)) - 1, 1 << (nb - 1))
            S.draw("sample_uniform([2, 3], minval=1)", "sample_uniform", [[2, 3]], {"minval": 1},
                   lambda lo, hi: None if lo == 1 and hi in top else "expected [1, %d)" % top[0])
            S.draw("sample_uniform([2, 3], maxval=7)", "sample_uniform", [[2, 3]], {"maxval": 7}, exactly(0 if modulus else -(1 << (nb - 1)), 7))
            S.draw("sample_seeded_uniform([2, 3], 3, 11)", "sample_seeded_uniform", [[2, 3], seed, 3, 11], {}, exactly(3, 11), seed)
        else:
            for b in (1, 64, 65, 127, 128):
                S.draw("sample_seeded_bounded([2, 3], %d)" % b, "sample_seeded_bounded", [[2, 3], seed, b], {},
                       exactly(0, 1 << b) if b < 128 else ring, seed)


class Insecure(Tensors):
    SECURE = False
