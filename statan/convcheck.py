"""Model conversion: ONNX graphs described literally, interpreted through the
library's converter and nodes, and compared with the ONNX definition of the
operators (on exact real polynomials, as for the Keras layer)."""
import numpy as np

from . import reals as R
from .interp import AbsRaise, Builtin, Cls, Ext, ExtObj, Incomplete, Inst
from .kerascheck import Ideal, conv, each, lastaxis, matmul, windows
from .kerasroots import Run, val, vjp
from .report import Report


class IntT(np.ndarray):
    """an integer initializer: a tensor whose elements are numbers"""

    is_tensor = True

    def numpy(self):
        return np.asarray(self)


def fill(v, shape):
    return np.broadcast_to(v, shape) if v.size == 1 else v.reshape(shape)


def obj(kind, **k):
    o = ExtObj(kind)
    o.attrs.update(k)
    return o


class Attr:
    pass


def attribute(name, v):
    d = {"name": name, "i": 0, "ints": [], "f": 0.0, "s": b"", "floats": []}
    if isinstance(v, bool) or isinstance(v, int):
        d["i"] = int(v)
    elif isinstance(v, float):
        d["f"] = v
    elif isinstance(v, (list, tuple)):
        d["ints"] = list(v)
    elif isinstance(v, bytes):
        d["s"] = v
    return obj("AttributeProto", **d)


class Converted(Ideal):
    def __init__(self):
        Ideal.__init__(self)
        it, S, ns = self.it, self, self.tfe.ns

        def private_input(i, a, k):
            f = a[1] if len(a) > 1 else k["inputter_fn"]
            return S.mk("private", S.cur(S.call(f)))
        ns["define_private_input"] = Builtin("define_private_input", private_input)

        def strided(i, a, k):
            a = list(a)
            x = a.pop(0)
            begin = a.pop(0) if a else k["begin"]
            end = a.pop(0) if a else k["end"]
            st = a.pop(0) if a else k.get("strides")
            v = S.val(x)
            st = [1] * len(begin) if st is None else st
            ix = tuple(slice(int(p), int(q), int(r)) for p, q, r in zip(begin, end, st))
            for s, n in zip(ix, v.shape):
                if s.stop == -1 and n == 0:
                    raise Incomplete("strided_slice", i.loc)
            return S.mk(S.join(x), v[ix])
        ns["strided_slice"] = Builtin("strided_slice", strided)

        def split(i, a, k):
            names = ("x", "num_split", "axis")
            d = dict(zip(names, a))
            if "num_or_size_splits" in k:
                k = dict(k, num_split=k.pop("num_or_size_splits"))
            d.update(k)
            v, n, ax = S.val(d["x"]), d["num_split"], int(d.get("axis", 0))
            if isinstance(n, (int, np.integer)):
                if v.shape[ax] % int(n):
                    i.fail("ValueError", "split")
                ps = np.split(v, int(n), ax)
            else:
                n = [int(q) for q in n]
                if sum(n) != v.shape[ax]:
                    i.fail("ValueError", "split sizes")
                ps = np.split(v, np.cumsum(n)[:-1], ax)
            return [S.mk(S.join(d["x"]), p) for p in ps]
        ns["split"] = Builtin("split", split)
        def constant(i, a, k):
            v = S.val(a[0] if a else k["value"])
            return Builtin("initializer", lambda i2, a2, k2: S.mk("native", fill(v, tuple(int(d) for d in (a2[0] if a2 else k2["shape"])))))
        for pre in ("tf.keras.initializers.", "tf.python.keras.initializers.", "tf.constant_initializer"):
            it.models[pre + ("Constant" if pre[-1] == "." else "")] = constant
        keep = it.models["tf.convert_to_tensor"]
        it.models["tf.convert_to_tensor"] = lambda i, a, k: a[0].view(IntT) if isinstance(a[0], np.ndarray) and a[0].dtype.kind == "i" else keep(i, a, k)

        def frombuffer(i, a, k):
            o = a[0]
            if not isinstance(o, ExtObj) or "array" not in o.attrs:
                raise Incomplete("frombuffer", i.loc)
            return o.attrs["array"].reshape(-1)
        it.models["npabs:frombuffer"] = it.models["np.frombuffer"] = frombuffer
        self.conv = it.load("tf_encrypted.convert.convert")
        self.proto = Cls("ModelProto", [Ext("onnx.onnx_ml_pb2.ModelProto")], {}, self.tfe)
        self.player = self.call(it.getattr(it.load("tf_encrypted.player"), "Player"), name="weights-provider", index=0, device_name="", host=None)

    def model(self, inputs, inits, nodes, outputs):
        """inits: {name: (array, onnx data type)}; nodes: (op, inputs, outputs, attributes)"""
        g = obj("GraphProto",
                input=[obj("ValueInfoProto", name=n) for n in inputs],
                output=[obj("ValueInfoProto", name=n) for n in outputs],
                initializer=[obj("TensorProto", name=n, dims=list(a.shape), data_type=7 if a.dtype.kind == "i" else 1,
                                 raw_data=obj("bytes", array=a)) for n, a in inits.items()],
                node=[obj("NodeProto", name="n%d_%s" % (j, op), op_type=op, input=list(i), output=list(o),
                          attribute=[attribute(p, q) for p, q in at]) for j, (op, i, o, at) in enumerate(nodes)])
        m = Inst(self.proto)
        m.attrs["graph"] = g
        return m

    def convert(self, mp, shapes):
        c = self.call(self.it.getattr(self.conv, "Converter"), config=obj("Config"))
        return self.meth(c, "convert", mp, [list(s) for s in shapes], self.player)


# ---------------------------------------------------------------- ONNX definitions
def k_(a, n, d=None):
    return a.get(n, d)


def padded(x, ps):
    """zero padding, [(before, after)] per axis"""
    out = np.empty(tuple(n + b + e for n, (b, e) in zip(x.shape, ps)), dtype=object)
    out[...] = R.poly(0)
    out[tuple(slice(b, b + n) for n, (b, e) in zip(x.shape, ps))] = x
    return out


def o_conv(a, x, w, b=None):
    p = k_(a, "pads", [0, 0, 0, 0])
    x = padded(x, [(0, 0), (0, 0), (p[0], p[2]), (p[1], p[3])])
    g = k_(a, "group", 1)
    sh, sw = k_(a, "strides", [1, 1])
    co, ci = w.shape[0] // g, w.shape[1]
    ys = [conv(x[:, i * ci:(i + 1) * ci], w[i * co:(i + 1) * co].transpose(2, 3, 1, 0), sh, sw, "VALID") for i in range(g)]
    y = np.concatenate(ys, axis=1)
    return [y if b is None else y + b.reshape(1, -1, 1, 1)]


def o_bn(a, x, g, b, m, v):
    r = lambda t: t.reshape([1, -1] + [1] * (x.ndim - 2))
    return [(x - r(m)) * each(lambda p: R.fn("inv_sqrt", p + R.poly(R.num(k_(a, "epsilon", 1e-5)))), r(v)) * r(g) + r(b)]


def win_flat(a, x):
    kh, kw = a["kernel_shape"]
    w = windows(x, kh, kw, *k_(a, "strides", [1, 1]), "VALID")
    return w.reshape(w.shape[:4] + (kh * kw,))


def mean(x, axes, keep):
    n = int(np.prod([x.shape[i] for i in axes]))
    return R.arr(np.sum(x, axis=tuple(axes), keepdims=keep)) * R.poly(R.num(R.Fraction(1, n)))


def top(flat):
    return R.arr((lastaxis(R.hots, flat) * flat).sum(axis=-1))


def maxover(x, axes, keep):
    rest = [i for i in range(x.ndim) if i not in axes]
    t = x.transpose(rest + list(axes)).reshape([x.shape[i] for i in rest] + [-1])
    y = top(t)
    return y.reshape([1 if i in axes else x.shape[i] for i in range(x.ndim)]) if keep else y


def spatial(a, x):
    ax = k_(a, "axes")
    ax = [i % x.ndim for i in ax] if ax is not None else list(range(x.ndim))
    return sorted(ax), bool(k_(a, "keepdims", 1))


def ints(t):
    return [int(v) for v in np.asarray(t).reshape(-1)]


def o_slice(a, x, st, en, ax=None, sp=None):
    st, en = ints(st), ints(en)
    ax = ints(ax) if ax is not None else list(range(len(st)))
    sp = ints(sp) if sp is not None else [1] * len(st)
    ix = [slice(None)] * x.ndim
    for b, e, i, s in zip(st, en, ax, sp):
        ix[i] = slice(b, e, s)
    return [x[tuple(ix)]]


def o_split(a, x, sizes=None, n=None):
    ax = k_(a, "axis", 0)
    if sizes is None:
        return np.split(x, n, ax)
    return np.split(x, np.cumsum(ints(sizes))[:-1], ax)


def o_reshape(a, x, s):
    s = [x.shape[i] if d == 0 else d for i, d in enumerate(ints(s))]
    return [x.reshape(s)]


def o_unsqueeze(a, x, ax):
    ax = sorted(i % (x.ndim + len(ints(ax))) for i in ints(ax))
    for i in ax:
        x = np.expand_dims(x, i)
    return [x]


def o_squeeze(a, x, ax=None):
    ax = ints(ax) if ax is not None else k_(a, "axes")
    return [np.squeeze(x, axis=None if ax is None else tuple(ax))]


def o_pad(a, x, p, v=None):
    p = ints(p)
    n = len(p) // 2
    return [padded(x, list(zip(p[:n], p[n:])))]


def o_gemm(a, x, w, b=None):
    x = x.T if k_(a, "transA", 0) else x
    w = w.T if k_(a, "transB", 0) else w
    y = matmul(x, w)
    return [y if b is None else y + b]


DEFS = {
    "Add": lambda a, x, y: [x + y], "Sub": lambda a, x, y: [x - y], "Mul": lambda a, x, y: [x * y], "Neg": lambda a, x: [each(lambda p: -p, x)],
    "MatMul": lambda a, x, y: [matmul(x, y)], "Gemm": o_gemm, "Conv": o_conv, "BatchNormalization": o_bn,
    "AveragePool": lambda a, x: [mean(win_flat(a, x), [4], False)], "MaxPool": lambda a, x: [top(win_flat(a, x))],
    "ReduceMean": lambda a, x: [mean(x, *spatial(a, x))], "ReduceMax": lambda a, x: [maxover(x, *spatial(a, x))],
    "GlobalAveragePool": lambda a, x: [mean(x, [2, 3], True)], "GlobalMaxPool": lambda a, x: [maxover(x, [2, 3], True)],
    "Relu": lambda a, x: [each(R.relu, x)], "Sigmoid": lambda a, x: [each(lambda p: R.fn("sigmoid", p), x)],
    "Softmax": lambda a, x: [lastaxis(R.softmax, x)], "Slice": o_slice,
    "Gather": lambda a, x, ix: [np.take(x, np.asarray(ix), axis=k_(a, "axis", 0))], "Split": o_split,
    "Concat": lambda a, *xs: [np.concatenate(xs, axis=a["axis"])], "Stack": lambda a, *xs: [np.stack(xs, axis=a["axis"])],
    "Reshape": o_reshape, "Flatten": lambda a, x: [x.reshape(x.shape[0], -1)], "Transpose": lambda a, x: [x.transpose(a["perm"])],
    "Unsqueeze": o_unsqueeze, "ExpandDims": o_unsqueeze, "Squeeze": o_squeeze, "Pad": o_pad}


def evaluate(nodes, outputs, env):
    env = dict(env)
    for op, i, o, at in nodes:
        a = dict(at)
        args = [env[n] for n in i]
        ys = DEFS[op](a, *args, **({"n": len(o)} if op == "Split" and len(i) == 1 else {}))
        for n, y in zip(o, ys):
            env[n] = y
    return [env[n] for n in outputs]


# ---------------------------------------------------------------- contexts
class G:
    """one graph: inputs {name: shape}, float initializers {name: shape}, integer initializers {name: list}"""

    def __init__(self, label, inputs, weights, consts, nodes, outputs, grad=True):
        self.label, self.inputs, self.weights, self.consts = label, inputs, weights, consts
        self.nodes, self.outputs, self.grad = [n if len(n) == 4 else n + ([],) for n in nodes], outputs, grad


def graphs(tier):
    deep = tier == "thorough"
    out = []

    def add(*a, **k):
        out.append(G(*a, **k))

    def one(label, op, shape, at=(), weights=None, consts=None, grad=True, outs=1, more=()):
        w, c = weights or {}, consts or {}
        o = ["o%d" % i for i in range(outs)]
        add("%s %s" % (op, label), {"x": shape}, w, c, [(op, ["x"] + list(w) + list(c) + list(more), o, list(at))], o, grad)
    # elementwise
    for sx, sy in (((2, 3), (2, 3)), ((3, 1), (3, 1)), ((2, 3, 1, 1), (2, 3, 2, 2)), ((2, 2, 2), (2, 1, 2)), ((2, 3), (1, 3)) if deep else ((2, 3), (2, 1))):
        for op in ("Add", "Sub", "Mul"):
            add("%s of %s and %s" % (op, sx, sy), {"x": sx, "y": sy}, {}, {}, [(op, ["x", "y"], ["o"])], ["o"])
    for s in ((2, 3), (2, 2, 1, 2)):
        for op in ("Neg", "Relu", "Sigmoid"):
            one("of %s" % (s,), op, s)
        one("of %s" % (s,), "Softmax", s, [("axis", -1)], grad=False)
        one("of %s, last axis" % (s,), "Softmax", s, [("axis", len(s) - 1)], grad=False)
    for s, b in (((3, 2), (2,)), ((2, 2, 2, 3), (3,)), ((2, 3, 2, 2), (3, 1, 1)), ((2, 3, 2, 2), (1, 3, 1, 1)), ((2, 3), (1, 3)), ((2, 3), (1,)) if deep else ((2, 2), (1,))):
        one("of a bias %s to %s" % (b, s), "Add", s, weights={"b": b})
    for s in ((3, 2), (2, 2, 2, 3)):
        add("Mul of a tensor and itself %s" % (s,), {"x": s}, {}, {}, [("Mul", ["x", "x"], ["o"])], ["o"])
    # linear
    for n in (1, 3):
        one("%d rows" % n, "MatMul", (n, 4), weights={"w": (4, 2)})
        for at in ([("transA", 0), ("transB", 0)], [("transB", 1)], [("alpha", 1.0), ("beta", 1.0), ("transB", 1)], [("alpha", 1.0), ("beta", 1.0)], [],
                   [("transB", 1), ("transA", 0)], [("transA", 0), ("transB", 1)]):
            t = dict(at).get("transB", 0)
            one("%d rows, %s" % (n, dict(at)), "Gemm", (n, 4), at, {"w": (2, 4) if t else (4, 2), "b": (2,)})
    # convolution
    geos = [((4, 5), [1, 1], None), ((4, 4), [2, 2], [0, 0, 1, 1]), ((5, 5), [1, 1], [1, 1, 1, 1]), ((4, 5), [1, 1], [0, 1, 2, 0]), ((5, 4), [2, 2], [1, 0, 0, 2]),
            ((4, 4), [1, 1], [1, 0, 0, 0]), ((3, 4), [1, 1], [2, 1, 0, 0])]
    for hw, st, ps in geos:
        for bias in (True, False):
            for order in (0, 1) if deep or ps else (0,):
                at = [("dilations", [1, 1]), ("strides", st), ("kernel_shape", [3, 2])] + ([("pads", ps)] if ps else []) + [("group", 1)]
                k = (2, 2, 2, 2)
                at[2] = ("kernel_shape", [2, 2])
                if order:
                    at = at[::-1]
                w = {"k": k}
                if bias:
                    w["b"] = (2,)
                one("%s strides %s pads %s bias=%s%s" % (hw, st, ps, bias, " reordered" if order else ""), "Conv", (2 if deep else 1, 2) + hw, at, w)
    for hw, st, ps in geos[:4] + geos[-1:]:
        for mult in (1, 2):
            for bias in (True, False):
                at = [("dilations", [1, 1]), ("strides", st), ("kernel_shape", [2, 2]), ("group", 3)] + ([("pads", ps)] if ps else [])
                w = {"k": (3 * mult, 1, 2, 2)}
                if bias:
                    w["b"] = (3 * mult,)
                one("depthwise x%d %s strides %s pads %s bias=%s" % (mult, hw, st, ps, bias), "Conv", (2, 3) + hw, at, w, grad=False)
    for at in ([("epsilon", 0.25)], [("epsilon", 0.125), ("momentum", 0.5)], [("momentum", 0.5), ("epsilon", 0.25)], [("momentum", 0.5)]):
        one("%s" % dict(at), "BatchNormalization", (2, 3, 2, 2), at, {"g": (3,), "b": (3,), "m": (3,), "v": (3,)}, grad=False)
    # pooling
    for hw, ks, st in (((4, 4), [2, 2], [2, 2]), ((5, 4), [2, 2], [1, 2]), ((4, 5), [2, 3], [1, 1]), ((5, 5), [3, 3], [2, 2]), ((5, 6), [3, 2], [2, 1])):
        for op in ("AveragePool", "MaxPool"):
            for extra in ([], [("pads", [0, 0, 0, 0])], [("auto_pad", b"VALID")], [("ceil_mode", 0), ("auto_pad", b"NOTSET")]) if deep or ks == [2, 2] else ([],):
                one("%s kernel %s strides %s %s" % (hw, ks, st, dict(extra)), op, (1, 2) + hw, [("strides", st), ("kernel_shape", ks)] + list(extra))
    for op in ("ReduceMean", "ReduceMax"):
        for ax in ([1, 2], [2, 3], [-2, -1], [3, 2], [-3, -2], [2, 1]):
            for at in ([("axes", ax), ("keepdims", 0)], [("keepdims", 1), ("axes", ax)], [("axes", ax)]):
                one("%s" % dict(at), op, (2, 2, 3, 2), at)
    for op in ("GlobalAveragePool", "GlobalMaxPool"):
        one("", op, (2, 3, 2, 2))
    # structure
    big = 2 ** 63 - 1
    for sh, st, en, ax, sp in (((3, 4, 5), [1, 0, 2], [3, 3, 5], [0, 1, 2], [1, 1, 1]), ((3, 4, 5), [1], [3], [1], None), ((3, 4, 5), [0, 1], [4, 5], [1, 2], [2, 3]),
                               ((2, 4, 5), [1], [big], [2], [1]), ((2, 4, 5), [-3], [-1], [-1], [1]), ((2, 4), [0, 1], [2, 3], None, None), ((2, 5), [4], [-big], [1], [-2]),
                               ((3, 4, 5), [1, 1], [2, 4], [2, 1], [1, 2]), ((3, 2), [0], [2], [0], [1])):
        c = {"st": st, "en": en}
        if ax is not None:
            c["ax"] = ax
        if sp is not None:
            c["sp"] = sp
        one("%s [%s:%s:%s] axes %s" % (sh, st, en, sp, ax), "Slice", sh, consts=c, grad=False)
    for sh, ix, ax in (((3, 4, 2), [1, 3], 1), ((3, 4), [2, 0, 2], 0), ((3, 4, 2), [1], -1)):
        one("%s of %s axis %d" % (ix, sh, ax), "Gather", sh, [("axis", ax)], consts={"ix": ix}, grad=False)
    one("default axis", "Gather", (3, 2), [], consts={"ix": [2, 1]}, grad=False)
    for sh, ax, n in (((2, 6), 1, 3), ((2, 2, 4), -1, 2), ((2, 4, 3), 1, 2), ((2, 3, 2), 2, 2)):
        one("%s axis %d into %d" % (sh, ax, n), "Split", sh, [("axis", ax)], outs=n)
        z = [1] * (n - 1) + [sh[ax] - n + 1]
        one("%s axis %d into %s" % (sh, ax, z), "Split", sh, [("axis", ax)], consts={"z": z}, outs=n)
    for shs, ax in (([(2, 1, 3), (2, 2, 3), (2, 3, 3)], 1), ([(2, 3), (2, 1)], -1), ([(2, 2, 1), (2, 2, 3)], 2)):
        ns = {"x%d" % i: s for i, s in enumerate(shs)}
        add("Concat axis %d of %s" % (ax, shs), ns, {}, {}, [("Concat", list(ns), ["o"], [("axis", ax)])], ["o"])
    for ax in (0, 1, 2, -1):
        ns = {"x%d" % i: (2, 3) for i in range(3)}
        add("Stack axis %d" % ax, ns, {}, {}, [("Stack", list(ns), ["o"], [("axis", ax)])], ["o"])
    for sh, to in (((2, 3, 4), [-1, 12]), ((2, 3, 4), [-1, 4, 3]), ((1, 2, 3, 2), [-1, 6]), ((2, 12), [-1, 2, 3, 2])):
        one("%s to %s" % (sh, to), "Reshape", sh, consts={"s": to})
    for sh in ((2, 3), (2, 3, 2), (2, 3, 2, 2)):
        one("%s" % (sh,), "Flatten", sh)
        one("%s axis 1" % (sh,), "Flatten", sh, [("axis", 1)])
    for sh, pm in (((2, 3, 2, 4), [0, 3, 1, 2]), ((2, 3, 2, 4), [0, 2, 3, 1]), ((2, 3, 4), [2, 0, 1]), ((2, 3), [1, 0])):
        one("%s %s" % (sh, pm), "Transpose", sh, [("perm", pm)])
    for ax in (0, 1, 2, -1, -2):
        for op in ("Unsqueeze", "ExpandDims"):
            one("axis %d" % ax, op, (2, 3), consts={"ax": [ax]})
    for sh, ax in (((1, 2, 3, 1), [3]), ((2, 1, 3, 1), [1, 3]), ((2, 1, 3, 1), [-1]), ((2, 1, 3, 1), [-3, -1]), ((2, 1, 3, 1), [1])):
        one("%s of %s" % (ax, sh), "Squeeze", sh, consts={"ax": ax})
        one("%s of %s, attribute" % (ax, sh), "Squeeze", sh, [("axes", ax)])
    one("all of (2, 1, 3, 1)", "Squeeze", (2, 1, 3, 1))
    for ax in ([3], [1], [-2]):
        one("%s of (2, 1, 2, 1, 3)" % ax, "Squeeze", (2, 1, 2, 1, 3), consts={"ax": ax})
    for sh, ps in (((2, 2, 3), [0, 1, 0, 0, 0, 2]), ((2, 2, 2, 2), [0, 0, 1, 2, 0, 0, 3, 0]), ((2, 2), [1, 0, 0, 1])):
        one("%s %s" % (sh, ps), "Pad", sh, [("mode", b"constant")], consts={"p": ps})
        one("%s %s default mode" % (sh, ps), "Pad", sh, [], consts={"p": ps})
    # graphs
    cv = lambda st, ps, g=1, k=2: [("dilations", [1, 1]), ("strides", st), ("kernel_shape", [k, k]), ("pads", ps), ("group", g)]
    add("dense network", {"x": (2, 3)}, {"w1": (3, 2), "b1": (2,), "w2": (2, 1), "b2": (1,)}, {},
        [("MatMul", ["x", "w1"], ["h"]), ("Add", ["h", "b1"], ["h2"]), ("Relu", ["h2"], ["r"]), ("Gemm", ["r", "w2", "b2"], ["o"], [("transA", 0), ("transB", 0)])], ["o"])
    add("convolutional network", {"x": (2, 1, 4, 4)}, {"k": (2, 1, 2, 2), "b": (2,), "w": (2, 2), "c": (2,)}, {"s": [-1, 2]},
        [("Conv", ["x", "k", "b"], ["h"], cv([2, 2], [0, 0, 1, 1])), ("Relu", ["h"], ["r"]), ("AveragePool", ["r"], ["p"], [("strides", [2, 2]), ("kernel_shape", [2, 2])]),
         ("Reshape", ["p", "s"], ["f"]), ("Gemm", ["f", "w", "c"], ["o"], [("transB", 1)])], ["o"])
    add("convolution behind a transpose", {"x": (1, 3, 3, 2)}, {"k": (1, 2, 2, 2)}, {},
        [("Transpose", ["x"], ["t"], [("perm", [0, 3, 1, 2])]), ("Conv", ["t", "k"], ["c"], cv([1, 1], [1, 0, 0, 1])), ("Transpose", ["c"], ["o"], [("perm", [0, 2, 3, 1])])], ["o"])
    add("residual connection", {"x": (2, 3)}, {"w": (3, 3), "b": (3,)}, {},
        [("Gemm", ["x", "w", "b"], ["h"], []), ("Relu", ["h"], ["r"]), ("Add", ["x", "r"], ["o"])], ["o"])
    add("residual connection, other order", {"x": (2, 3)}, {"w": (3, 3), "b": (3,)}, {},
        [("Gemm", ["x", "w", "b"], ["h"], []), ("Relu", ["h"], ["r"]), ("Sub", ["r", "x"], ["o"])], ["o"])
    add("a tensor used three times", {"x": (2, 2)}, {"w": (2, 2), "u": (2, 2)}, {},
        [("MatMul", ["x", "w"], ["a"]), ("MatMul", ["a", "u"], ["p"]), ("Relu", ["a"], ["q"]), ("Mul", ["p", "q"], ["m"]), ("Add", ["m", "a"], ["o"])], ["o"])
    add("a tensor used again beside another", {"x": (2, 2)}, {"w": (2, 2), "u": (2, 2)}, {},
        [("MatMul", ["x", "w"], ["a"]), ("MatMul", ["x", "u"], ["p"]), ("Sub", ["a", "p"], ["q"]), ("Mul", ["q", "a"], ["o"])], ["o"])
    add("residual block of a bottleneck", {"x": (2, 2)}, {"w": (2, 2), "u": (2, 2)}, {},
        [("MatMul", ["x", "w"], ["a"]), ("Relu", ["a"], ["r"]), ("MatMul", ["r", "u"], ["b"]), ("Add", ["b", "a"], ["c"]), ("Add", ["c", "x"], ["o"])], ["o"])
    add("one weight used twice", {"x": (2, 2)}, {"w": (2, 2), "v": (2, 2)}, {},
        [("MatMul", ["x", "w"], ["a"]), ("MatMul", ["a", "v"], ["o"])], ["o"])
    add("two outputs", {"x": (2, 3)}, {"w": (3, 2), "v": (3, 1)}, {}, [("MatMul", ["x", "w"], ["p"]), ("MatMul", ["x", "v"], ["q"])], ["q", "p"])
    add("two inputs, used out of order", {"x": (2, 2), "y": (2, 2)}, {"w": (2, 2)}, {}, [("MatMul", ["y", "w"], ["h"]), ("Sub", ["h", "x"], ["o"])], ["o"])
    add("split and concatenated", {"x": (2, 4)}, {"w": (2, 2)}, {},
        [("Split", ["x"], ["a", "b"], [("axis", 1)]), ("MatMul", ["a", "w"], ["c"]), ("Concat", ["b", "c", "b"], ["o"], [("axis", 1)])], ["o"])
    add("split, then a dense layer on each part", {"x": (2, 5)}, {"w": (2, 2), "u": (3, 2)}, {"z": [2, 3]},
        [("Split", ["x", "z"], ["a", "b"], [("axis", -1)]), ("MatMul", ["a", "w"], ["p"]), ("MatMul", ["b", "u"], ["q"]), ("Sub", ["q", "p"], ["o"])], ["o"])
    add("split evenly, then a dense layer", {"x": (2, 4)}, {"w": (2, 2)}, {},
        [("Split", ["x"], ["a", "b"], [("axis", 1)]), ("MatMul", ["b", "w"], ["p"]), ("Add", ["p", "a"], ["o"])], ["o"])
    add("padded, then flattened", {"x": (2, 1, 2, 2)}, {"w": (12, 1), "b": (1,)}, {"p": [0, 0, 0, 1, 0, 0, 1, 1]},
        [("Pad", ["x", "p"], ["h"]), ("Flatten", ["h"], ["f"]), ("Gemm", ["f", "w", "b"], ["o"])], ["o"])
    add("sliced, then a dense layer", {"x": (3, 4)}, {"w": (2, 2)}, {"st": [1], "en": [3], "ax": [1]},
        [("Slice", ["x", "st", "en", "ax"], ["h"]), ("MatMul", ["h", "w"], ["o"])], ["o"], False)
    add("gathered, then a dense layer", {"x": (3, 4)}, {"w": (2, 2)}, {"ix": [2, 0]},
        [("Gather", ["x", "ix"], ["h"], [("axis", -1)]), ("MatMul", ["h", "w"], ["o"])], ["o"], False)
    for ax in (-1, 2):
        add("expanded at %d, flattened, then a dense layer" % ax, {"x": (2, 3)}, {"w": (3, 2)}, {"ax": [ax]},
            [("Unsqueeze", ["x", "ax"], ["h"]), ("Flatten", ["h"], ["f"]), ("MatMul", ["f", "w"], ["o"])], ["o"])
    for ax in (-1, 1):
        add("squeezed at %d, then a dense layer" % ax, {"x": (2, 1, 3) if ax == 1 else (2, 3, 1)}, {"w": (3, 2)}, {"ax": [ax]},
            [("Squeeze", ["x", "ax"], ["h"]), ("MatMul", ["h", "w"], ["o"])], ["o"])
    add("globally pooled, then a dense layer", {"x": (2, 2, 2, 2)}, {"w": (2, 2), "b": (2,)}, {},
        [("GlobalAveragePool", ["x"], ["h"]), ("Flatten", ["h"], ["f"]), ("Gemm", ["f", "w", "b"], ["o"])], ["o"])
    add("globally max pooled, then a dense layer", {"x": (1, 2, 2, 2)}, {"w": (2, 2)}, {},
        [("GlobalMaxPool", ["x"], ["h"]), ("Flatten", ["h"], ["f"]), ("MatMul", ["f", "w"], ["o"])], ["o"])
    add("broadcast, then a dense layer", {"x": (2, 1), "y": (2, 3)}, {"w": (3, 2)}, {},
        [("Mul", ["x", "y"], ["h"]), ("MatMul", ["h", "w"], ["o"])], ["o"])
    add("max pooling, normalised", {"x": (2, 2, 4, 4)}, {"g": (2,), "b": (2,), "m": (2,), "v": (2,)}, {},
        [("BatchNormalization", ["x", "g", "b", "m", "v"], ["h"], [("epsilon", 0.25)]), ("MaxPool", ["h"], ["o"], [("kernel_shape", [2, 2]), ("strides", [2, 2])])], ["o"], False)
    return out


def chained(g):
    """the same node with a layer built behind it, from the shape the node announces"""
    if len(g.nodes) != 1:
        return
    env = {n: R.sym(n, sh) for n, sh in g.inputs.items()}
    env.update({n: R.sym("w_" + n, sh) for n, sh in g.weights.items()})
    env.update({n: np.array(v, dtype=np.int64) for n, v in g.consts.items()})
    for o, y in zip(g.outputs, evaluate(g.nodes, g.outputs, env)):
        first = list(g.inputs.values())[0][0]
        op, at = g.nodes[0][0], dict(g.nodes[0][3])
        moved = (op == "Transpose" and at["perm"][0]) or at.get("axis") == 0 and op in ("Stack", "Concat") or \
            op in ("Unsqueeze", "ExpandDims") and (list(g.consts.values())[0][0] in (0, -len(list(g.inputs.values())[0]) - 1))
        if moved or y.ndim < 2 or y.shape[0] != first and op not in ("Slice", "Gather", "Pad"):
            continue
        n = int(np.prod(y.shape[1:]))
        yield G("%s: %s flattened into a dense layer" % (g.label, o), g.inputs, {**g.weights, "dense": (n, 2)}, g.consts,
                g.nodes + [("Flatten", [o], ["flat"], []), ("MatMul", ["flat", "dense"], ["out"], [])], ["out"], False)
        if y.ndim == 2:
            yield G("%s: %s into a dense layer" % (g.label, o), g.inputs, {**g.weights, "dense": (y.shape[1], 2)}, g.consts,
                    g.nodes + [("MatMul", [o, "dense"], ["out"], [])], ["out"], False)
        if y.ndim == 4:
            yield G("%s: %s into a convolution" % (g.label, o), g.inputs, {**g.weights, "kernel": (2, y.shape[1], 1, 1), "dense": (2 * y.shape[2] * y.shape[3], 1)}, g.consts,
                    g.nodes + [("Conv", [o, "kernel"], ["c"], [("strides", [1, 1]), ("group", 1), ("kernel_shape", [1, 1])]),
                               ("Flatten", ["c"], ["flat"], []), ("MatMul", ["flat", "dense"], ["out"], [])], ["out"], False)


REFUSED = [
    ("Conv", (1, 2, 4, 4), {"k": (2, 2, 2, 2)}, {}, [("dilations", [2, 2]), ("strides", [1, 1]), ("group", 1), ("kernel_shape", [2, 2])]),
    ("Conv", (1, 2, 4, 4), {"k": (2, 2, 2, 2)}, {}, [("auto_pad", b"SAME_UPPER"), ("strides", [1, 1]), ("group", 1), ("kernel_shape", [2, 2])]),
    ("Conv", (1, 4, 4, 4), {"k": (4, 2, 2, 2)}, {}, [("strides", [1, 1]), ("group", 2), ("kernel_shape", [2, 2])]),
    ("MaxPool", (1, 2, 4, 4), {}, {}, [("kernel_shape", [2, 2]), ("strides", [1, 1]), ("pads", [0, 0, 1, 1])]),
    ("MaxPool", (1, 2, 5, 5), {}, {}, [("kernel_shape", [2, 2]), ("strides", [2, 2]), ("ceil_mode", 1)]),
    ("MaxPool", (1, 2, 5, 5), {}, {}, [("kernel_shape", [2, 2]), ("strides", [2, 2]), ("auto_pad", b"SAME_UPPER")]),
    ("MaxPool", (1, 2, 5, 5), {}, {}, [("kernel_shape", [2, 2]), ("strides", [1, 1]), ("dilations", [2, 2])]),
    ("AveragePool", (1, 2, 4, 4), {}, {}, [("kernel_shape", [2, 2]), ("strides", [1, 1]), ("pads", [1, 0, 0, 0])]),
    ("AveragePool", (1, 2, 5, 5), {}, {}, [("kernel_shape", [2, 2]), ("strides", [2, 2]), ("auto_pad", b"SAME_LOWER")]),
    ("AveragePool", (1, 2, 5, 5), {}, {}, [("kernel_shape", [2, 2]), ("strides", [2, 2]), ("ceil_mode", 1)]),
    ("Softmax", (2, 3, 2), {}, {}, [("axis", 1)]), ("Softmax", (2, 3, 2), {}, {}, [("axis", -2)]),
    ("Flatten", (2, 3, 2), {}, {}, [("axis", 2)]),
    ("Pad", (2, 3), {}, {"p": [0, 1, 0, 1]}, [("mode", b"reflect")]), ("Pad", (2, 3), {}, {"p": [0, 1, 0, 1], "v": [1]}, []),
    ("Gemm", (2, 3), {"w": (3, 2), "b": (2,)}, {}, [("alpha", 0.5)]), ("Gemm", (2, 3), {"w": (3, 2), "b": (2,)}, {}, [("beta", 2.0), ("alpha", 1.0)]),
    ("ReduceMean", (2, 3, 2, 2), {}, {}, [("axes", [1]), ("keepdims", 0)]), ("ReduceMean", (2, 3), {}, {}, [("axes", [1]), ("keepdims", 0)]),
    ("ReduceMax", (2, 3, 2, 2), {}, {}, [("axes", [-1]), ("keepdims", 1)]), ("ReduceMax", (2, 3, 2, 2), {}, {}, [("axes", [1, 3]), ("keepdims", 0)]),
    ("ReduceMean", (2, 3, 2, 2), {}, {}, [("keepdims", 0)]),
    ("Tanh", (2, 2), {}, {}, []),
]


def build(w, g):
    env = {n: R.sym(n, s) for n, s in g.inputs.items()}
    ws = {n: R.sym("w_" + n, s) for n, s in g.weights.items()}
    cs = {n: np.array(v, dtype=np.int64) for n, v in g.consts.items()}
    mp = w.model(list(g.inputs), dict(list(ws.items()) + list(cs.items())), g.nodes, g.outputs)
    given = [list(s) for s in g.inputs.values()]
    m = w.convert(mp, given)
    return m, env, ws, cs


def outputs(w, g, m, env):
    y = w.call(m, [w.mk("private", v) for v in env.values()])
    ys = list(y) if isinstance(y, (list, tuple)) else [y]
    return ys


def runner(rep):
    run = Run(rep)
    run.w = Converted()
    return run


def forward(tier):
    rep = Report("-", tier)
    run = runner(rep)
    gs = graphs(tier)
    for g in gs + [c for g in gs for c in chained(g)]:
        def body(w, g=g):
            m, env, ws, cs = build(w, g)
            want = evaluate(g.nodes, g.outputs, {**env, **ws, **cs})
            ys = outputs(w, g, m, env)
            if len(ys) != len(want):
                yield "convert", "", "%d outputs instead of %d" % (len(ys), len(want))
                return
            for n, y, e in zip(g.outputs, ys, want):
                yield "convert", n, R.same(val(w, y), e)
                yield "convert", n + " is kept private", None if w.kind(y) == "private" else "it is %s" % w.kind(y)
            if len(g.inputs) == 1:
                y = w.call(m, w.mk("private", env[list(env)[0]]))
                ys = list(y) if isinstance(y, (list, tuple)) else [y]
                yield "convert", "on one tensor", R.same(val(w, ys[0]), want[0])
        run.case(g.label, body)
    for op, sh, ws, cs, at in REFUSED:
        def body(w, op=op, sh=sh, ws=ws, cs=cs, at=at):
            g = G("", {"x": sh}, ws, cs, [(op, ["x"] + list(ws) + list(cs), ["o"], at)], ["o"])
            try:
                m, env, *_ = build(w, g)
                outputs(w, g, m, env)
            except AbsRaise:
                yield "convert", "", None
                return
            yield "convert", "", "the option is accepted and has no effect"
        run.case("%s %s is refused" % (op, dict(at)), body)
    return rep


def backward(tier):
    rep = Report("-", tier)
    run = runner(rep)
    for g in graphs(tier):
        if not g.grad:
            continue

        def body(w, g=g):
            m, env, ws, cs = build(w, g)
            opt = w.call(w.get(".optimizers", "SGD"), learning_rate=0.25)
            w.meth(m, "compile", opt, w.call(w.get(".losses", "MeanSquaredError")))
            full = {**env, **ws, **cs}
            want = evaluate(g.nodes, g.outputs, full)
            outputs(w, g, m, env)
            ds = [R.sym("d%d" % i, e.shape) for i, e in enumerate(want)]
            dx = w.meth(m, "backward", [w.mk("private", d) for d in ds])
            dx = list(dx)
            if len(dx) != len(env):
                yield "convert-gradient", "", "%d input gradients for %d inputs" % (len(dx), len(env))
                return

            def total(v):
                t = None
                for e, d in zip(want, ds):
                    u = vjp(e, d, v)
                    t = u if t is None else t + u
                return t
            for n, d in zip(env, dx):
                yield "convert-gradient", "of the input %s" % n, R.same(val(w, d), total(env[n]))
            if ws:
                lr = R.poly(R.num(0.25))
                new = {n: v - total(v) * lr for n, v in ws.items()}
                fresh = {n: R.sym("again_" + n, v.shape) for n, v in env.items()}
                ys = outputs(w, g, m, fresh)
                for n, y, e in zip(g.outputs, ys, evaluate(g.nodes, g.outputs, {**fresh, **new, **cs})):
                    yield "convert-gradient", "%s after one step of descent" % n, R.same(val(w, y), e)
        run.case(g.label, body)
    return rep
