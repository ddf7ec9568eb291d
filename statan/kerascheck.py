"""The Keras layer: layers, losses, optimizers and models.

The protocols' operations are taken at their contract (decided by the A- and
B-properties): a tfe tensor is an array of exact real polynomials in symbols.
The layer code is abstractly interpreted on such tensors; its results are
compared, as canonical forms, with the mathematical definition.
"""
import numpy as np

from . import interp as I
from . import reals as R
from .aby3world import World
from .graph import ShapeVal
from .interp import AbsRaise, Bound, Builtin, Cls, Ext, ExtObj, GenVal, Incomplete, Inst, PropertyVal
from .report import Report

if R.P not in I.CONC:
    I.CONC = I.CONC + (R.P,)


def bindable(name, f):
    b = Builtin(name, f)
    b.bindable = True
    return b


def pads(n, k, s, padding):
    if padding == "VALID":
        return 0, 0, -(-(n - k + 1) // s)
    out = -(-n // s)
    p = max((out - 1) * s + k - n, 0)
    return p // 2, p - p // 2, out


def windows(x, kh, kw, sh, sw, padding):
    """NCHW -> [n, c, oh, ow, kh, kw], zero padded"""
    n, c, h, w = x.shape
    t, b, oh = pads(h, kh, sh, padding)
    l, r, ow = pads(w, kw, sw, padding)
    big = np.empty((n, c, h + t + b, w + l + r), dtype=object)
    big[...] = R.poly(0)
    big[:, :, t:t + h, l:l + w] = x
    out = np.empty((n, c, oh, ow, kh, kw), dtype=object)
    for i in range(oh):
        for j in range(ow):
            out[:, :, i, j] = big[:, :, i * sh:i * sh + kh, j * sw:j * sw + kw]
    return out


def conv(x, w, sh, sw, padding):
    """NCHW x HWIO -> NCHW"""
    kh, kw, ci, co = w.shape
    if x.shape[1] != ci:
        raise ValueError("conv2d: %d input channels for a kernel with %d" % (x.shape[1], ci))
    win = windows(x, kh, kw, sh, sw, padding)
    n, c, oh, ow = win.shape[:4]
    a = win.transpose(0, 2, 3, 4, 5, 1).reshape(n * oh * ow, kh * kw * c)
    r = matmul(a, w.reshape(kh * kw * ci, co))
    return r.reshape(n, oh, ow, co).transpose(0, 3, 1, 2)


def matmul(a, b):
    if a.ndim != 2 or b.ndim != 2:
        return R.arr(np.matmul(a, b))
    if a.shape[1] != b.shape[0]:
        raise ValueError("matmul of %s and %s" % (a.shape, b.shape))
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            t = {}
            for k in range(a.shape[1]):
                x, y = a[i, k], b[k, j]
                if not x.t or not y.t:
                    continue
                for m, c in (x * y).t.items():
                    v = t.get(m, 0) + c
                    if v:
                        t[m] = v
                    else:
                        t.pop(m, None)
            out[i, j] = R.P(t)
    return out


def pair(s):
    return (s, s) if isinstance(s, int) else (s[0], s[1])


def each(f, a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out


def lastaxis(f, a):
    """apply f to every row along the last axis"""
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        r = f(list(a[i]))
        for j in range(len(r)):
            out[i + (j,)] = r[j]
    return out


class Ideal(World):
    """tf_encrypted with its protocol replaced by exact arithmetic on symbols"""

    def __init__(self):
        R.reset()
        World.__init__(self)
        it = self.it
        self.tfe = it.load("tf_encrypted")
        pr = it.load("tf_encrypted.protocol")
        ns = pr.ns
        mod = self.tfe
        self.native = Cls("Tensor", [Ext("tf.Tensor")], {}, mod)
        base = {}
        self.c = {}
        for nm, b in (("private", "TFEPrivateTensor"), ("public", "TFEPublicTensor"),
                      ("privatevar", "TFEPrivateVariable"), ("publicvar", "TFEPublicVariable")):
            self.c[nm] = Cls(nm, [ns[b]], {}, mod)
        self.methods()
        self.functions()
        self.externals()
        self.nvar = 0
        self.prot = ExtObj("Protocol")
        fc = ExtObj("FixedpointConfig")
        fc.attrs["precision_fractional"] = 15
        self.prot.attrs["fixedpoint_config"] = fc
        it.overrides["tf_encrypted:get_protocol"] = lambda i, a, k: self.prot
        it.gen_limit = 64

    # ---- values
    def mk(self, kind, v, cur=None):
        c = self.native if kind == "native" else self.c[kind]
        o = Inst(c)
        o.attrs["v"] = R.arr(v)
        if kind.endswith("var"):
            o.attrs["cur"] = o.attrs["v"] if cur is None else cur
        return o

    def kind(self, o):
        if not isinstance(o, Inst):
            return None
        if o.cls is self.native:
            return "native"
        for k, c in self.c.items():
            if o.cls is c:
                return k
        return None

    def val(self, o):
        """the current value of a tensor, variable, array or number"""
        if isinstance(o, Inst) and "v" in o.attrs:
            return o.attrs["v"]
        if isinstance(o, (int, float, R.P, np.ndarray, np.generic)) and not isinstance(o, bool):
            return R.arr(o)
        if isinstance(o, (list, tuple)):
            return R.arr(np.array([self.val(x) for x in o], dtype=object))
        raise Incomplete("value of %r" % (o,), self.it.loc)

    def cur(self, o):
        return o.attrs["cur"] if "cur" in o.attrs else o.attrs["v"]

    def join(self, *os):
        ks = [self.kind(o) for o in os]
        if all(k in (None, "native") for k in ks):
            return "native" if "native" in ks else "public"
        return "private" if any(k and k.startswith("private") for k in ks) else "public"

    # ---- tfe.* at contract level
    def functions(self):
        it = self.it
        ns = self.tfe.ns
        S = self

        def guard(name, f):
            def run(i, a, k):
                try:
                    return f(*a, **k)
                except (AbsRaise, Incomplete):
                    raise
                except (TypeError, ValueError, IndexError, ZeroDivisionError) as e:
                    i.fail(type(e).__name__, "%s: %s" % (name, e))
            return Builtin(name, run)

        F = {}

        def un(name, g):
            F[name] = lambda x, *a, **k: S.mk(S.join(x), g(S.val(x), *a, **k))

        def bi(name, g):
            F[name] = lambda x, y: S.mk(S.join(x, y), g(S.val(x), S.val(y)))
        bi("add", lambda a, b: a + b)
        bi("sub", lambda a, b: a - b)
        bi("mul", lambda a, b: a * b)
        bi("div", lambda a, b: R.arr(np.vectorize(lambda p, q: p / q, otypes=[object])(a, b)))
        bi("matmul", matmul)
        un("negative", lambda a: each(lambda p: -p, a))
        un("square", lambda a: a * a)
        F["lift"] = lambda x, y=None: x if y is None else (x, y)
        F["add_n"] = lambda xs: S.mk(S.join(*xs), sum((S.val(x) for x in xs[1:]), S.val(xs[0])))
        un("pow", lambda a, p: each(lambda q: q ** p, a))
        un("transpose", lambda a, perm=None: a.transpose(perm) if perm is not None else a.transpose())
        un("reshape", lambda a, axe: a.reshape(tuple(int(d) for d in axe)))
        un("expand_dims", lambda a, axis: np.expand_dims(a, axis))
        un("squeeze", lambda a, axis=None: np.squeeze(a, tuple(axis) if isinstance(axis, list) else axis))
        un("reduce_sum", lambda a, axis=None, keepdims=False: R.arr(np.sum(
            a, axis=tuple(axis) if isinstance(axis, (list, tuple)) else axis, keepdims=bool(keepdims))))
        un("tile", lambda a, multiples: np.tile(a, tuple(int(m) for m in multiples)))
        un("reverse", lambda a, axis: np.flip(a, tuple(axis) if isinstance(axis, (list, tuple)) else axis))
        un("gather", lambda a, indices, axis=0: np.take(a, indices, axis))

        def padz(a, paddings):
            ps = [tuple(p) for p in paddings]
            ps += [(0, 0)] * (a.ndim - len(ps))
            out = np.empty([d + p[0] + p[1] for d, p in zip(a.shape, ps)], dtype=object)
            out[...] = R.poly(0)
            out[tuple(slice(p[0], p[0] + d) for d, p in zip(a.shape, ps))] = a
            return out
        un("pad", padz)

        def expand(a, stride):
            if not isinstance(stride, int):
                raise TypeError("expand takes one stride for both axes")
            h, w = a.shape[:2]
            out = np.empty(((h - 1) * stride + 1, (w - 1) * stride + 1) + a.shape[2:], dtype=object)
            out[...] = R.poly(0)
            out[::stride, ::stride] = a
            return out
        un("expand", expand)
        F["conv2d"] = lambda x, w, strides, padding: S.mk(S.join(x, w), conv(S.val(x), S.val(w), *pair(strides), padding))
        un("avgpool2d", lambda a, pool_size, strides, padding: S.avg(a, pool_size, strides, padding))
        un("maxpool2d", lambda a, pool_size, strides, padding: S.maxp(a, pool_size, strides, padding)[0])

        def mpa(x, pool_size, strides, padding):
            m, g = S.maxp(S.val(x), pool_size, strides, padding)
            return S.mk(S.join(x), m), S.mk(S.join(x), g)
        F["maxpool2d_with_argmax"] = mpa

        def i2p(a, patch_size, strides=(1, 1), padding="SAME", data_format="NCHW"):
            if data_format == "NHWC":
                a = a.transpose(0, 3, 1, 2)
            kh, kw = pair(patch_size)
            win = windows(a, kh, kw, *pair(strides), padding)
            r = win.transpose(0, 2, 3, 4, 5, 1).reshape(win.shape[0], win.shape[2], win.shape[3], -1)
            return r if data_format == "NHWC" else r.transpose(0, 3, 1, 2)
        un("im2patches", i2p)

        def p2i(a, patch_size, strides=(1, 1), padding="SAME", img_size=None, consolidation="SUM", data_format="NCHW"):
            if consolidation != "SUM":
                raise Incomplete("patches2im %s" % consolidation, it.loc)
            if data_format == "NCHW":
                a = a.transpose(0, 2, 3, 1)
            kh, kw = pair(patch_size)
            sh, sw = pair(strides)
            bs, oh, ow, d = a.shape
            c = d // (kh * kw)
            H, W = (oh - 1) * sh + kh, (ow - 1) * sw + kw
            ih, iw = (H, W) if img_size is None else (int(img_size[0]), int(img_size[1]))
            out = np.empty((bs, max(H, ih), max(W, iw), c), dtype=object)
            out[...] = R.poly(0)
            for i in range(oh):
                for j in range(ow):
                    out[:, i * sh:i * sh + kh, j * sw:j * sw + kw] += a[:, i, j].reshape(bs, kh, kw, c)
            t, l = max(H - ih, 0) // 2, max(W - iw, 0) // 2
            out = out[:, t:t + ih, l:l + iw]
            return out if data_format == "NHWC" else out.transpose(0, 3, 1, 2)
        un("patches2im", p2i)
        # comparison and selection
        F["select"] = lambda choice_bit, x, y: S.mk(S.join(choice_bit, x, y), S.val(x) + S.val(choice_bit) * (S.val(y) - S.val(x)))
        bi("maximum", lambda a, b: S.max2(a, b))
        un("relu", lambda a: each(R.relu, a))
        F["relu_with_cmp"] = lambda x: (S.mk(S.join(x), each(R.relu, S.val(x))), S.mk(S.join(x), each(R.gt0, S.val(x))))
        F["greater_than"] = lambda x, y: S.mk(S.join(x, y), each(R.gt0, S.val(x) - S.val(y)))
        F["less_equal"] = lambda x, y: S.mk(S.join(x, y), 1 - each(R.gt0, S.val(x) - S.val(y)))
        F["less_than"] = lambda x, y: S.mk(S.join(x, y), each(R.gt0, S.val(y) - S.val(x)))
        F["greater_equal"] = lambda x, y: S.mk(S.join(x, y), 1 - each(R.gt0, S.val(y) - S.val(x)))
        F["reduce_max"] = lambda x, axis=None, keepdims=False, method="tree": S.rmax(x, axis, keepdims)[0]
        F["reduce_max_with_argmax"] = lambda x, axis=0, keepdims=False, output_style="onehot": S.rmax(x, axis, keepdims)
        F["argmax"] = lambda x, axis=0, output_style="onehot": S.rmax(x, axis, False)[1]
        # non-polynomial functions
        for nm in ("sigmoid", "log", "inv_sqrt", "exp", "exp2", "tanh"):
            un(nm, lambda a, *r, nm=nm, **k: each(lambda p: R.fn(nm, p), a))

        def sqrt(a, *r, **k):
            return each(lambda p: R.fn("sqrt", p), a)
        un("sqrt", sqrt)

        def rec(p):
            m = p.t
            if len(m) == 1 and list(m.values()) == [1]:
                (mm,) = m
                if len(mm) == 1 and R.ATOMS[mm[0]][0] == "f" and R.ATOMS[mm[0]][1][0] == "sqrt":
                    return R.fn("inv_sqrt", R.ATOMS[mm[0]][1][1][0])
            return R.poly(1) / p
        self.rec = rec
        un("reciprocal", lambda a, *r, **k: each(rec, a))
        un("softmax", lambda a, *r, **k: lastaxis(R.softmax, a))
        # structure
        F["concat"] = lambda xs, axis: S.mk(S.join(*xs), np.concatenate([S.val(x) for x in xs], axis=axis))
        F["stack"] = lambda xs, axis=0: S.mk(S.join(*xs), np.stack([S.val(x) for x in xs], axis=axis))
        F["split"] = lambda x, num_split, axis=0: [S.mk(S.join(x), p) for p in np.split(S.val(x), num_split, axis)]
        F["reveal"] = lambda x: S.mk("public", S.val(x))
        F["truncate"] = lambda x, *a, **k: x
        F["indexer"] = lambda x, slc: S.mk(S.join(x), S.val(x)[slc])

        # variables
        def define(kind):
            def f(initial_value, apply_scaling=True, share_type=None, name=None, factory=None):
                v = S.cur(initial_value) if isinstance(initial_value, Inst) and "v" in initial_value.attrs else S.val(initial_value)
                return S.mk(kind + "var", v)
            return f
        F["define_private_variable"] = define("private")
        F["define_public_variable"] = define("public")
        F["define_constant"] = lambda value, apply_scaling=True, share_type=None, name=None, factory=None: S.mk("public", S.val(value))

        def assign(var, value):
            if not (S.kind(var) or "").endswith("var"):
                raise TypeError("assign to a %s" % (S.kind(var),))
            v = S.val(value)
            if v.shape != var.attrs["v"].shape:
                raise ValueError("assign of shape %s to a variable of shape %s" % (v.shape, var.attrs["v"].shape))
            if S.kind(var) == "publicvar" and (S.kind(value) or "").startswith("private"):
                raise TypeError("a private value assigned to a public variable")
            var.attrs["cur"] = v
            return None
        F["assign"] = assign
        F["function"] = lambda f=None, **k: f if f is not None else Builtin("function", lambda i, a, kk: a[0])
        self.F = F
        for n, f in F.items():
            ns[n] = guard(n, f)

    def avg(self, a, pool, strides, padding):
        kh, kw = pair(pool)
        win = windows(a, kh, kw, *pair(strides), padding)
        return R.arr(win.reshape(win.shape[:4] + (kh * kw,)).sum(axis=4)) * R.poly(R.num(R.Fraction(1, kh * kw)))

    def maxp(self, a, pool, strides, padding):
        kh, kw = pair(pool)
        win = windows(a, kh, kw, *pair(strides), padding)
        flat = win.reshape(win.shape[:4] + (kh * kw,))
        hot = lastaxis(R.hots, flat)
        return R.arr((hot * flat).sum(axis=4)), hot

    def rmax(self, x, axis, keepdims):
        a = self.val(x)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        m = np.moveaxis(a, axis, -1)
        hot = lastaxis(R.hots, m)
        mx = R.arr((hot * m).sum(axis=-1))
        if keepdims:
            mx = np.expand_dims(mx, axis)
        return self.mk(self.join(x), mx), self.mk(self.join(x), np.moveaxis(hot, -1, axis))

    def max2(self, a, b):
        a, b = np.broadcast_arrays(a, b)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            x, y = a[i], b[i]
            if x.key() == y.key():
                out[i] = x
            else:
                # symmetric: ordered by canonical key
                p, q = sorted((x, y), key=lambda u: repr(sorted(u.t.items(), key=repr)))
                out[i] = p + R.gt0(q - p) * (q - p)
        return out

    # ---- methods of tensors
    def methods(self):
        S = self
        T = {}

        def m(name, f):
            def run(i, a, k):
                try:
                    return f(*a, **k)
                except (AbsRaise, Incomplete):
                    raise
                except (TypeError, ValueError, IndexError, ZeroDivisionError) as e:
                    i.fail(type(e).__name__, "%s: %s" % (name, e))
            T[name] = bindable(name, run)

        def opn(name, g):
            m("__%s__" % name, lambda x, y: S.mk(S.join(x, y), g(S.val(x), S.val(y))))

        def ropn(name, g):
            m("__r%s__" % name, lambda x, y: S.mk(S.join(x, y), g(S.val(y), S.val(x))))
        dv = lambda a, b: R.arr(np.vectorize(lambda p, q: p / q, otypes=[object])(a, b))
        for nm, g in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b), ("truediv", dv), ("matmul", matmul)):
            opn(nm, g)
            ropn(nm, g)
        m("__neg__", lambda x: S.mk(S.join(x), each(lambda p: -p, S.val(x))))
        m("__pow__", lambda x, p: S.mk(S.join(x), each(lambda q: q ** p, S.val(x))))
        m("__getitem__", lambda x, k: S.mk(S.join(x), S.index(x, k)))
        for nm, fnm in (("__gt__", "greater_than"), ("__le__", "less_equal"), ("__lt__", "less_than"), ("__ge__", "greater_equal")):
            m(nm, lambda x, y, fnm=fnm: S.F[fnm](x, y))
        for nm in ("add", "sub", "mul", "matmul", "square", "negative", "transpose", "reshape", "reduce_sum", "reveal", "expand_dims",
                   "squeeze", "gather", "split", "reduce_max", "sigmoid", "relu", "log", "softmax", "exp", "truncate", "pow", "div",
                   "greater_than", "less_than", "cast", "reciprocal"):
            m(nm, lambda x, *a, nm=nm, **k: S.F[nm](x, *a, **k))
        m("dot", lambda x, y: S.F["matmul"](x, y))
        native = {k: v for k, v in T.items() if k.startswith("__") and k not in ("__gt__", "__le__", "__lt__", "__ge__")}
        T["shape"] = PropertyVal(Builtin("shape", lambda i, a, k: ShapeVal(a[0].attrs["v"].shape)))
        T["share_type"] = PropertyVal(Builtin("share_type", lambda i, a, k: "ARITHMETIC"))
        T["backing_dtype"] = PropertyVal(Builtin("backing_dtype", lambda i, a, k: "FACTORY"))
        T["is_scaled"] = PropertyVal(Builtin("is_scaled", lambda i, a, k: True))
        T["prot"] = PropertyVal(Builtin("prot", lambda i, a, k: S.prot))
        rd = bindable("read_value", lambda i, a, k: S.mk(S.kind(a[0])[:-3], a[0].attrs["cur"]))
        tn = bindable("to_native", lambda i, a, k: S.mk("native", a[0].attrs["v"]))
        nn = bindable("numpy", lambda i, a, k: S.val(a[0]))
        for k, c in self.c.items():
            c.ns.update(T)
            if k.endswith("var"):
                c.ns["read_value"] = rd
            if k.startswith("public"):
                c.ns["to_native"] = tn
            else:
                c.ns.pop("to_native", None)
        self.native.ns.update(native)
        self.native.ns["shape"] = T["shape"]
        self.native.ns["numpy"] = nn

    def index(self, x, k):
        a = self.val(x)
        ks = k if isinstance(k, tuple) else (k,)
        return a[tuple(ks)]

    # ---- other libraries
    def externals(self):
        it = self.it
        M = it.models
        S = self
        it.overrides["tf_encrypted.keras.engine.base_layer_utils:unique_object_name"] = \
            lambda i, a, k: a[0] if a else k["name"]

        def init(i, a, k):
            ident = a[0]
            if not isinstance(ident, str):
                return ident

            def run(i2, a2, k2):
                shape = tuple(int(d) for d in (a2[0] if a2 else k2["shape"]))
                if ident == "zeros":
                    return S.mk("native", np.zeros(shape, dtype=int))
                if ident == "ones":
                    return S.mk("native", np.ones(shape, dtype=int))
                S.nvar += 1
                return S.mk("native", R.sym("%s#%d" % (ident, S.nvar), shape))
            return Builtin("initializer", run)

        def tup(i, a, k):
            v, n = a[0], a[1]
            if isinstance(v, int):
                return (v,) * n
            if len(v) != n:
                i.fail("ValueError", "normalize_tuple")
            return tuple(v)

        def padding(i, a, k):
            v = a[0].lower()
            if v not in ("valid", "same", "causal"):
                i.fail("ValueError", "padding")
            return v

        def fmt(i, a, k):
            v = a[0] if a else k.get("value")
            v = "channels_last" if v is None else v.lower()
            if v not in ("channels_first", "channels_last"):
                i.fail("ValueError", "data_format")
            return v
        for pre in ("tf.python.keras.", "tf.keras."):
            M[pre + "initializers.get"] = init
            M[pre + "utils.conv_utils.normalize_tuple"] = tup
            M[pre + "utils.conv_utils.normalize_padding"] = padding
            M[pre + "utils.conv_utils.normalize_data_format"] = fmt
            M[pre + "utils.generic_utils.to_snake_case"] = lambda i, a, k: a[0].lower()
        M["tf.keras.backend.get_uid"] = lambda i, a, k: 1

        def progbar(i, a, k):
            o = ExtObj("tf.keras.utils.Progbar")
            o.attrs["add"] = o.attrs["update"] = Builtin("add", lambda i2, a2, k2: None)
            return o
        M["tf.keras.utils.Progbar"] = progbar
        DEF = {"max_value": None, "negative_slope": 0, "threshold": 0, "dilation_rate": (1, 1), "groups": 1}

        class Params(dict):
            def __contains__(self, k):
                return k in DEF or k.endswith("_regularizer") or k.endswith("_constraint")

            def __getitem__(self, k):
                o = ExtObj("inspect.Parameter")
                o.attrs["default"] = DEF.get(k)
                return o

        def signature(i, a, k):
            o = ExtObj("inspect.Signature")
            o.attrs["parameters"] = Params()
            return o
        M["inspect.signature"] = signature
        un = lambda g: (lambda i, a, k: S.mk("native", each(g, S.val(a[0]))))
        M["tf.sqrt"] = M["tf.math.sqrt"] = un(lambda p: R.fn("sqrt", p))
        M["tf.math.rsqrt"] = un(lambda p: R.fn("inv_sqrt", p))
        M["tf.constant"] = lambda i, a, k: S.mk("native", S.val(a[0]) if not k.get("shape") else S.val(a[0]).reshape(tuple(k["shape"])))
        M["tf.convert_to_tensor"] = lambda i, a, k: S.mk("native", S.val(a[0]))
        M["tf.reshape"] = lambda i, a, k: S.mk("native", S.val(a[0]).reshape(tuple(int(d) for d in (a[1] if len(a) > 1 else k["shape"]))))
        M["tf.multiply"] = lambda i, a, k: S.mk("native", S.val(a[0]) * S.val(a[1]))
        M["tf.cast"] = lambda i, a, k: a[0]
        cat = lambda i, a, k: S.mk("native", np.concatenate([S.val(x) for x in i.iterate(a[0])], axis=a[1] if len(a) > 1 else k.get("axis", 0)))
        M["npabs:concatenate"] = M["tf.concat"] = cat

        def metric(name):
            def f(i, a, k):
                o = ExtObj("metric")
                yt = a[0] if a else k["y_true"]
                yp = a[1] if len(a) > 1 else k["y_pred"]
                o.attrs["of"] = (name, S.val(yt), S.val(yp))
                return o
            return f
        for nm in ("categorical_accuracy", "binary_accuracy"):
            M["tf.keras.metrics." + nm] = metric(nm)

        def mean(i, a, k):
            o = ExtObj("mean")
            o.attrs["of"] = a[0]
            return o
        M["tf.reduce_mean"] = M["tf.math.reduce_mean"] = mean
        M["npabs:mean"] = mean
        M["time.time"] = lambda i, a, k: 0.0
        it.models["method:tf.keras.utils.Progbar.add"] = lambda i, o, a, k: None

    # ---- conveniences
    def layer(self, name, **k):
        cls = self.it.getattr(self.it.load("tf_encrypted.keras.layers"), name)
        return self.call(cls, **k)

    def meth(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), k)

    def get(self, mod, name):
        return self.it.getattr(self.it.load("tf_encrypted.keras" + mod), name)
