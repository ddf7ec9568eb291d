"""The contexts analysed for the Keras layer, with their definitions."""
import traceback

import numpy as np

from . import reals as R
from .graph import ShapeVal
from .interp import AbsRaise, Bound, Builtin, Cls, ExtObj, Func, GenVal, Incomplete, Inst, Unknown
from .kerascheck import Ideal, bindable, conv, each, lastaxis, matmul, pair, windows
from .report import Report

ACT = {None: lambda a: a, "linear": lambda a: a, "relu": lambda a: each(R.relu, a), "sigmoid": lambda a: each(lambda p: R.fn("sigmoid", p), a),
       "softmax": lambda a: lastaxis(R.softmax, a), "tanh": lambda a: each(lambda p: R.fn("tanh", p), a)}


class Run:
    def __init__(self, rep):
        self.rep = rep
        self.n = 0
        self.w = Ideal()

    def case(self, label, thunk):
        """thunk(w) yields (rule, what, difference or None)"""
        self.n += 1
        w = self.w
        w.it.fstack, w.it.device, w.it.devstack, w.it.steps = [], None, [], 0
        try:
            for rule, what, d in thunk(w):
                nm = label + ((": " + what) if what else "")
                if d is None:
                    self.rep.ok(rule, nm, "")
                else:
                    self.rep.bad(rule, nm, d)
        except AbsRaise as e:
            self.rep.bad("total", label, "raises %s at %s" % (e, e.loc))
        except (Incomplete, RecursionError) as e:
            self.rep.undecided("total", label, str(e))
        self.rep.functions |= set(w.it.visited)
        self.rep.contexts = self.n


def val(w, o):
    if isinstance(o, Inst) and "v" in o.attrs:
        return w.cur(o)
    raise Incomplete("not a tensor: %r" % (o,))


def sshape(s):
    return list(int(d) for d in s)


# ---------------------------------------------------------------- definitions
def d_dense(x, ws, units, act, bias):
    y = matmul(x, ws[0])
    if bias:
        y = y + ws[1]
    return ACT[act](y)


def nchw(x, fmt):
    return x if fmt == "channels_first" else x.transpose(0, 3, 1, 2)


def back(y, fmt):
    return y if fmt == "channels_first" else y.transpose(0, 2, 3, 1)


def d_conv(x, k, b, strides, padding, fmt, act):
    y = conv(nchw(x, fmt), k, *pair(strides), padding.upper())
    if b is not None:
        y = y + b.reshape(-1, 1, 1)
    return ACT[act](back(y, fmt))


def d_depthwise(x, k, b, strides, padding, fmt, act):
    """k: [h, w, in, multiplier]"""
    a = nchw(x, fmt)
    kh, kw, ci, m = k.shape
    win = windows(a, kh, kw, *pair(strides), padding.upper())
    n, c, oh, ow = win.shape[:4]
    y = np.empty((n, ci * m, oh, ow), dtype=object)
    for i in range(ci):
        for j in range(m):
            y[:, i * m + j] = R.arr((win[:, i] * k[:, :, i, j]).reshape(n, oh, ow, -1).sum(axis=3))
    if b is not None:
        y = y + b.reshape(-1, 1, 1)
    return ACT[act](back(y, fmt))


def d_flatten(x, fmt):
    if fmt == "channels_first" and x.ndim > 1:
        x = x.transpose([0] + list(range(2, x.ndim)) + [1])
    return x.reshape(x.shape[0], -1)


def d_pool(w, kind, x, pool, strides, padding, fmt):
    a = nchw(x, fmt)
    y = w.avg(a, pool, strides, padding.upper()) if kind == "avg" else w.maxp(a, pool, strides, padding.upper())[0]
    return back(y, fmt)


def d_global(w, kind, x, fmt, keep):
    a = nchw(x, fmt)
    n, c = a.shape[:2]
    flat = a.reshape(n, c, -1)
    if kind == "avg":
        y = R.arr(flat.sum(axis=2)) * R.poly(R.num(R.Fraction(1, flat.shape[2])))
    else:
        y = R.arr((lastaxis(R.hots, flat) * flat).sum(axis=2))
    if keep:
        y = y.reshape((n, c, 1, 1) if fmt == "channels_first" else (n, 1, 1, c))
    return y


# ---------------------------------------------------------------- layers
def layer_cases(tier):
    """(label, class, kwargs, input shape, definition(w, x, weights), raw weight shapes, differentiable)"""
    out = []
    deep = tier == "thorough"

    def add(label, cls, kw, shape, f, wshapes=(), grad=True, store=None):
        out.append((label, cls, kw, shape, f, list(wshapes), grad, store))
    for act in (None, "relu", "sigmoid", "linear", "softmax"):
        for bias in (True, False):
            kw = {"units": 2, "activation": act, "use_bias": bias}
            add("Dense(activation=%s, use_bias=%s)" % (act, bias), "Dense", kw, (3, 4),
                lambda w, x, ws, act=act, bias=bias: d_dense(x, ws, 2, act, bias), [(4, 2)] + ([(2,)] if bias else []), act != "softmax")
    geos = [((4, 5), 1, "valid"), ((5, 4), 2, "same"), ((5, 5), 2, "valid"), ((4, 4), 1, "same"), ((6, 5), 2, "valid"), ((4, 6), 2, "same"),
            ((5, 7), (2, 1), "valid"), ((5, 7), (1, 2), "same"), ((6, 6), 3, "same"), ((7, 6), 3, "valid")]
    for (h, wd), st, pad in geos:
        for fmt in ("channels_first", "channels_last"):
            ks = [3, 2] if deep else [3 if (h + wd) % 2 else 2]
            for k in ks:
                for bias, act in (((True, None), (False, "relu")) if not deep else ((True, None), (True, "relu"), (False, None), (False, "sigmoid"))):
                    kw = {"filters": 3, "kernel_size": k, "strides": st, "padding": pad, "data_format": fmt, "use_bias": bias, "activation": act}
                    sh = (2, 2, h, wd) if fmt == "channels_first" else (2, h, wd, 2)
                    sq = pair(st)[0] == pair(st)[1]
                    add("Conv2D(%dx%d, kernel %d, strides %s, %s, %s, bias=%s, %s)" % (h, wd, k, st, pad, fmt, bias, act), "Conv2D", kw, sh,
                        lambda w, x, ws, st=st, pad=pad, fmt=fmt, act=act, bias=bias: d_conv(x, ws[0], ws[1] if bias else None, st, pad, fmt, act),
                        [(k, k, 2, 3)] + ([(3,)] if bias else []), sq or "strides")
    for (h, wd), st, pad in geos[:4] + geos[6:7]:
        for fmt in ("channels_first", "channels_last"):
            for mult in (1, 2):
                for bias, act in ((True, None), (False, "relu")):
                    kw = {"kernel_size": 2, "strides": st, "padding": pad, "depth_multiplier": mult, "data_format": fmt, "use_bias": bias, "activation": act}
                    sh = (2, 3, h, wd) if fmt == "channels_first" else (2, h, wd, 3)
                    add("DepthwiseConv2D(%dx%d, strides %s, %s, %s, multiplier %d, bias=%s)" % (h, wd, st, pad, fmt, mult, bias), "DepthwiseConv2D", kw, sh,
                        lambda w, x, ws, st=st, pad=pad, fmt=fmt, act=act, bias=bias: d_depthwise(x, ws[0], ws[1] if bias else None, st, pad, fmt, act),
                        [(2, 2, 3, mult)] + ([(3 * mult,)] if bias else []), False)
    for fmt in (None, "channels_last", "channels_first"):
        for sh in ((2, 3), (2, 3, 4), (2, 3, 2, 4)):
            add("Flatten(%s) of %s" % (fmt, sh), "Flatten", {"data_format": fmt}, sh, lambda w, x, ws, fmt=fmt: d_flatten(x, fmt))
    for tgt, sh in (((4, 3), (2, 12)), ((-1,), (2, 3, 4)), ((2, -1), (3, 4, 3)), ((12,), (2, 3, 4)), ((2, 3, 2), (1, 12))):
        add("Reshape(%s) of %s" % (tgt, sh), "Reshape", {"target_shape": tgt}, sh, lambda w, x, ws, tgt=tgt: x.reshape((x.shape[0],) + tgt))
    for sh in ((2, 3), (2, 2, 3, 2)):
        add("ReLU of %s" % (sh,), "ReLU", {}, sh, lambda w, x, ws: each(R.relu, x))
        for act in ("relu", "sigmoid", "linear", "softmax", "tanh"):
            add("Activation(%s) of %s" % (act, sh), "Activation", {"activation": act}, sh, lambda w, x, ws, act=act: ACT[act](x), (), act not in ("softmax", "tanh"))
    for kind, cls in (("max", "MaxPooling2D"), ("avg", "AveragePooling2D")):
        # windows that reach over the border: the gradient of what the library computes there (zero padding) is still its derivative
        for (h, wd), pool, st in (((5, 5), 2, 2), ((4, 5), 3, 1), ((5, 4), (3, 2), (2, 2))):
            for fmt in ("channels_first", "channels_last"):
                sh = (1, 2, h, wd) if fmt == "channels_first" else (1, h, wd, 2)
                add("%s(%dx%d, pool %s, strides %s, same, %s)" % (cls, h, wd, pool, st, fmt), cls,
                    {"pool_size": pool, "strides": st, "padding": "same", "data_format": fmt}, sh,
                    lambda w, x, ws, kind=kind, pool=pool, st=st, fmt=fmt: d_pool(w, kind, x, pool, st, "same", fmt), store="border")
        for (h, wd), pool, st, pad in (((4, 4), 2, None, "valid"), ((5, 4), 2, None, "valid"), ((4, 5), (2, 3), (1, 2), "valid"), ((4, 6), 2, 2, "same"),
                                       ((5, 5), 3, 2, "valid"), ((5, 6), (3, 2), (2, 1), "valid")):
            for fmt in ("channels_first", "channels_last", None):
                sh = (2, 2, h, wd) if fmt == "channels_first" else (2, h, wd, 2)
                kw = {"pool_size": pool, "strides": st, "padding": pad, "data_format": fmt}
                add("%s(%dx%d, pool %s, strides %s, %s, %s)" % (cls, h, wd, pool, st, pad, fmt), cls, kw, sh,
                    lambda w, x, ws, kind=kind, pool=pool, st=st, pad=pad, fmt=fmt: d_pool(w, kind, x, pool, pool if st is None else st, pad, fmt))
    for kind, cls in (("avg", "GlobalAveragePooling2D"), ("max", "GlobalMaxPooling2D")):
        for fmt in ("channels_first", "channels_last", None):
            for keep in (False, True):
                sh = (2, 3, 2, 4) if fmt == "channels_first" else (2, 2, 4, 3)
                add("%s(%s, keepdims=%s)" % (cls, fmt, keep), cls, {"data_format": fmt, "keepdims": keep}, sh,
                    lambda w, x, ws, kind=kind, fmt=fmt, keep=keep: d_global(w, kind, x, fmt, keep))
    for axis in (1, 3):
        for center in (True, False):
            for scale in (True, False):
                sh = (2, 3, 2, 2) if axis == 1 else (2, 2, 2, 3)

                def f(w, x, ws, axis=axis, center=center, scale=scale):
                    ps = [1, 1, 1, 1]
                    ps[axis] = 3
                    ws = [v.reshape(ps) for v in ws]
                    g = ws.pop(0) if scale else None
                    b = ws.pop(0) if center else None
                    mean, vr = ws
                    y = (x - mean) * each(lambda p: R.fn("inv_sqrt", p + R.poly(R.num(0.25))), vr)
                    if g is not None:
                        y = y * g
                    if b is not None:
                        y = y + b
                    return y
                add("BatchNormalization(axis=%d, center=%s, scale=%s)" % (axis, center, scale), "BatchNormalization",
                    {"axis": axis, "center": center, "scale": scale, "epsilon": 0.25}, sh, f, [(3,)] * (2 + center + scale), False, "public")
    return out


def given(w, how, shapes, pub):
    """weights the user sets, in the ways they may be given"""
    vs = [R.sym("w%d" % i, s) for i, s in enumerate(shapes)]
    k = "public" if pub else "private"
    if how == "arrays":
        return vs, list(vs)
    if how == "variables":
        # variables whose value has been changed since their definition
        return vs, [w.mk(k + "var", R.sym("old%d" % i, v.shape), cur=v) for i, v in enumerate(vs)]
    return vs, [w.mk(k, v) for v in vs]


def inv(a):
    """1/sqrt written either way has one form"""
    return a


def forward(tier):
    rep = Report("-", tier)
    run = Run(rep)
    for label, cls, kw, shape, f, wshapes, grad, store in layer_cases(tier):
        if store == "border":
            continue

        def body(w, how=None, cls=cls, kw=kw, shape=shape, f=f, wshapes=wshapes, store=store):
            x = w.mk("private", R.sym("x", shape))
            l = w.layer(cls, **kw)
            y = w.call(l, x)
            if how is None:
                # freshly initialised: what the layer says its weights are
                ws = [val(w, v) for v in w.it.getattr(l, "weights")]
                if len(ws) != len(wshapes):
                    yield "layer", "weights", "%d weights instead of %d" % (len(ws), len(wshapes))
                    return
                if cls != "DepthwiseConv2D":
                    for i, (a, s) in enumerate(zip(ws, wshapes)):
                        if a.size != int(np.prod(s)):
                            yield "layer", "weights", "weight %d has shape %s instead of %s" % (i, a.shape, s)
                            return
                    ws = [a.reshape(s) for a, s in zip(ws, wshapes)]
                    want = f(w, x.attrs["v"], ws)
                    yield "layer", "", R.same(val(w, y), want)
                sh = w.meth(l, "compute_output_shape", ShapeVal(shape))
                got = val(w, y).shape
                yield "layer", "compute_output_shape", None if sshape(sh) == list(got) else \
                    "%s for an output of shape %s" % (sshape(sh), list(got))
                yield "layer", "kept private", None if w.kind(y) == "private" else "the output is %s" % w.kind(y)
                return
            vs, ws = given(w, how, wshapes, store == "public")
            before = list(ws)
            w.meth(l, "set_weights", ws)
            yield "layer", "the caller's list", None if len(ws) == len(before) and all(a is b for a, b in zip(ws, before)) else \
                "set_weights changes the list it is given"
            y = w.call(l, x)
            yield "layer", "", R.same(val(w, y), f(w, x.attrs["v"], vs))
        run.case(label, body)
        if wshapes:
            for how in ("arrays", "variables", "tensors"):
                run.case(label + " after set_weights(%s)" % how, lambda w, how=how, body=body: body(w, how))
    refused(run)
    return rep


def refused(run):
    """options that are not supported are refused, not ignored"""
    for cls, kw in (("ReLU", {"max_value": 6.0}), ("ReLU", {"negative_slope": 0.1}), ("ReLU", {"threshold": 1.0}),
                    ("Dense", {"units": 2, "kernel_regularizer": "l2"}), ("Dense", {"units": 2, "bias_regularizer": "l2"}),
                    ("Dense", {"units": 2, "activity_regularizer": "l2"}), ("Dense", {"units": 2, "kernel_constraint": "c"}),
                    ("Dense", {"units": 2, "bias_constraint": "c"}),
                    ("Conv2D", {"filters": 2, "kernel_size": 2, "dilation_rate": (2, 2)}), ("Conv2D", {"filters": 2, "kernel_size": 2, "groups": 2}),
                    ("Conv2D", {"filters": 2, "kernel_size": 2, "kernel_regularizer": "l2"}), ("Conv2D", {"filters": 2, "kernel_size": (2, 3)}),
                    ("DepthwiseConv2D", {"kernel_size": 2, "depthwise_regularizer": "l2"}),
                    ("BatchNormalization", {"beta_regularizer": "l2"}), ("BatchNormalization", {"gamma_constraint": "c"})):
        def body(w, cls=cls, kw=kw):
            try:
                w.layer(cls, **kw)
            except AbsRaise as e:
                yield "layer", "", None
                return
            yield "layer", "", "the option is accepted and has no effect"
        run.case("%s(%s) is refused" % (cls, ", ".join("%s=%r" % i for i in kw.items() if i[0] not in ("units", "filters"))), body)


def vjp(y, d, xs):
    """sum_i d_i * dy_i/dx_j for every j"""
    ys, ds = list(y.reshape(-1)), list(d.reshape(-1))
    out = np.empty(xs.shape, dtype=object)
    memo = {}
    use = {}
    # which outputs mention an atom at all
    atoms = [deps(p, memo_deps) for p in ys for memo_deps in [DEPS]]
    for i in np.ndindex(*xs.shape):
        a = R.atom_of(xs[i])
        t = R.poly(0)
        for p, s, q in zip(ys, atoms, ds):
            if a in s:
                t = t + q * R.diff(p, a, memo)
        out[i] = t
    return out


DEPS = {}


def deps(p, memo):
    out = set()
    for m in p.t:
        for a in m:
            k = R.ATOMS[a]
            if k[0] == "v":
                out.add(a)
            elif k[0] == "f":
                for u in k[1][1]:
                    out |= deps(u, memo)
    return out


def backward(tier):
    rep = Report("-", tier)
    run = Run(rep)
    for label, cls, kw, shape, f, wshapes, grad, store in layer_cases(tier):
        if not grad:
            continue
        for lazy in ((False, True) if cls in ("Dense", "Conv2D") else (False,)):
            def body(w, cls=cls, kw=kw, shape=shape, f=f, wshapes=wshapes, lazy=lazy, loud=grad == "strides"):
                xs = R.sym("x", shape)
                x = w.mk("private", xs)
                l = w.layer(cls, **dict(kw, lazy_normalization=lazy))
                w.call(l, x)
                vs = []
                if wshapes:
                    vs, ws = given(w, "arrays", wshapes, False)
                    w.meth(l, "set_weights", ws)
                w.call(l, x)
                want = f(w, xs, vs)
                d = R.sym("d", want.shape)
                try:
                    r = w.meth(l, "backward", w.mk("private", d))
                except AbsRaise as e:
                    if loud and e.name == "NotImplementedError":
                        yield "gradient", "", None
                        return
                    raise
                if not isinstance(r, tuple) or len(r) != 2:
                    yield "gradient", "", "backward does not return (weight gradients, input gradient)"
                    return
                gs, dx = r
                yield "gradient", "input", R.same(val(w, dx), vjp(want, d, xs))
                gs = list(gs)
                if len(gs) != len(vs):
                    yield "gradient", "weights", "%d weight gradients for %d weights" % (len(gs), len(vs))
                    return
                wl = w.it.getattr(l, "weights")
                for i, (g, v) in enumerate(zip(gs, vs)):
                    e = vjp(want, d, v)
                    if lazy:
                        e = e * R.poly(R.num(R.Fraction(1, shape[0])))
                    a = val(w, g)
                    sh = val(w, wl[i]).shape
                    if a.shape != sh:
                        yield "gradient", "weight %d" % i, "shape %s for a weight of shape %s" % (a.shape, sh)
                    else:
                        yield "gradient", "weight %d" % i, R.same(a.reshape(v.shape), e)
            run.case("%s%s" % (label, " lazy" if lazy else ""), body)
    losses(run)
    return rep


def losses(run):
    n = 3
    for units in (1, 2):
        def mse(w, units=units):
            L = w.call(w.get(".losses", "MeanSquaredError"))
            yt, yp = R.sym("t", (n, units)), R.sym("p", (n, units))
            v = val(w, w.call(L, w.mk("private", yt), w.mk("private", yp)))
            want = R.arr(((yt - yp) * (yt - yp)).sum(axis=0)) * R.poly(R.num(R.Fraction(1, n)))
            yield "loss", "value", R.same(v, want)
            g = val(w, w.meth(L, "grad", w.mk("private", yt), w.mk("private", yp)))
            yield "loss", "gradient", R.same(g, vjp(want, R.arr(np.ones(want.shape, dtype=int)), yp))
        run.case("MeanSquaredError(%d units)" % units, mse)
    for cls in ("BinaryCrossentropy", "CategoricalCrossentropy"):
        for logits in (False, True):
            for lazy in (False, True):
                def ce(w, cls=cls, logits=logits, lazy=lazy):
                    L = w.call(w.get(".losses", cls), from_logits=logits, lazy_normalization=lazy)
                    yt, yp = R.sym("t", (n, 2)), R.sym("p", (n, 2))
                    prob = yp
                    if logits:
                        prob = ACT["sigmoid"](yp) if cls[0] == "B" else ACT["softmax"](yp)
                    lg = lambda a: each(lambda p: R.fn("log", p), a)
                    k = R.poly(R.num(R.Fraction(1, n)))
                    if cls[0] == "B":
                        want = R.arr((yt * lg(prob) + (1 - yt) * lg(1 - prob)).sum(axis=0)) * k * R.poly(-1)
                    else:
                        want = R.arr((yt * lg(prob)).sum()) * k * R.poly(-1)
                    v = val(w, w.call(L, w.mk("private", yt), w.mk("private", yp)))
                    yield "loss", "value", R.same(v, want)
                    g = val(w, w.meth(L, "grad", w.mk("private", yt), w.mk("private", yp)))
                    # with respect to the logits, the way the gradient is used in training
                    e = prob - yt
                    if not lazy:
                        e = e * k
                    yield "loss", "gradient", R.same(g, e)
                run.case("%s(from_logits=%s, lazy_normalization=%s)" % (cls, logits, lazy), ce)


# ---------------------------------------------------------------- training
def sgd(state, W, G, lr, mom):
    V = [R.poly(R.num(mom)) * v + R.poly(R.num(lr)) * g for v, g in zip(state.setdefault("V", [R.poly(0) * w for w in W]), G)]
    state["V"] = V
    return [w - v for w, v in zip(W, V)]


def amsgrad(w, state, W, G, lr, b1, b2, eps):
    z = [R.poly(0) * x for x in W]
    M, V, H = state.get("M", z), state.get("V", z), state.get("H", z)
    n = lambda v: R.poly(R.num(v))
    M = [n(b1) * m + n(1 - b1) * g for m, g in zip(M, G)]
    V = [n(b2) * v + n(1 - b2) * g * g for v, g in zip(V, G)]
    H = [w.max2(h, v) for h, v in zip(H, V)]
    state.update(M=M, V=V, H=H)
    return [x - n(lr) * m * each(lambda p: R.fn("inv_sqrt", p + n(eps)), h) for x, m, h in zip(W, M, H)]


def adam(w, state, W, G, lr, b1, b2, eps):
    z = [R.poly(0) * x for x in W]
    M, V = state.get("M", z), state.get("V", z)
    t = state.get("t", 0) + 1
    n = lambda v: R.poly(R.num(v))
    M = [n(b1) * m + n(1 - b1) * g for m, g in zip(M, G)]
    V = [n(b2) * v + n(1 - b2) * g * g for v, g in zip(V, G)]
    state.update(M=M, V=V, t=t)
    c1, c2 = 1 - R.num(b1) ** t, 1 - R.num(b2) ** t
    return [x - n(lr) * (m * n(R.Fraction(1) / c1)) * each(lambda p: R.fn("inv_sqrt", p + n(eps)), v * n(R.Fraction(1) / c2))
            for x, m, v in zip(W, M, V)]


EPS = 2.0 ** -15


def optimizer_cases():
    yield "SGD", "SGD", {"learning_rate": 0.25}, lambda w: lambda s, W, G: sgd(s, W, G, 0.25, 0)
    yield "SGD with momentum", "SGD", {"learning_rate": 0.25, "momentum": 0.5}, lambda w: lambda s, W, G: sgd(s, W, G, 0.25, 0.5)
    yield "AMSgrad", "AMSgrad", {"learning_rate": 0.25, "beta1": 0.75, "beta2": 0.875}, \
        lambda w: lambda s, W, G: amsgrad(w, s, W, G, 0.25, 0.75, 0.875, EPS)
    yield "Adam", "Adam", {"learning_rate": 0.25, "beta1": 0.75, "beta2": 0.875}, \
        lambda w: lambda s, W, G: adam(w, s, W, G, 0.25, 0.75, 0.875, EPS)


def optimizers(run, tier):
    steps = 3 if tier != "thorough" else 4
    for label, cls, kw, mk in optimizer_cases():
        def body(w, cls=cls, kw=kw, mk=mk):
            ref = mk(w)
            opt = w.call(w.get(".optimizers", cls), **kw)
            groups = []
            for g, shapes in enumerate(([(2, 1), (1,)], [(2,)], [])):
                vals = [R.sym("W%d_%d" % (g, i), s) for i, s in enumerate(shapes)]
                # a variable's definition value is not what it holds later
                groups.append(([w.mk("privatevar", R.sym("old%d_%d" % (g, i), s), cur=v) for i, (s, v) in enumerate(zip(shapes, vals))], vals, {}))
            w.meth(opt, "compile", [g[0] for g in groups])
            for t in range(steps):
                for gi in (1, 0, 2):
                    W, vals, st = groups[gi]
                    G = [R.sym("G%d_%d_%d" % (gi, i, t), v.shape) for i, v in enumerate(vals)]
                    w.meth(opt, "apply_gradients", W, [w.mk("private", g) for g in G])
                    new = ref(st, vals, G) if vals else []
                    groups[gi] = (W, new, st)
                    for gj, (W2, v2, _) in enumerate(groups):
                        for i, (a, b) in enumerate(zip(W2, v2)):
                            d = R.same(w.cur(a), b)
                            if d:
                                yield "update", "step %d, layer %d, weight %d" % (t + 1, gj, i), d
                                return
            yield "update", "", None
        run.case("%s, %d steps" % (label, steps), body)
    for ident, cls in (("sgd", "SGD"), ("amsgrad", "AMSgrad"), ("adam", "Adam")):
        def body(w, ident=ident, cls=cls):
            o = w.call(w.get(".optimizers", "get"), ident)
            yield "update", "", None if isinstance(o, Inst) and o.cls is w.get(".optimizers", cls) else "get(%r) is %r" % (ident, o)
            c = w.get(".optimizers", cls)
            o = w.call(c)
            r = w.call(w.get(".optimizers", "get"), o)
            yield "update", "instance", None if r is o else "an optimizer instance is replaced"
        run.case("optimizers.get(%r)" % ident, body)


def seq(w, layers, shape):
    m = w.call(w.get(".models", "Sequential"))
    for i, (cls, kw) in enumerate(layers):
        kw = dict(kw)
        if i == 0:
            kw["batch_input_shape"] = list(shape)
        w.meth(m, "add", w.layer(cls, **kw))
    return m


STACKS = [
    ("dense-relu-dense", [("Dense", {"units": 2, "activation": "relu"}), ("Dense", {"units": 1, "use_bias": False})], (2, 2),
     [(2, 2), (2,), (2, 1)], lambda w, x, ws: matmul(each(R.relu, matmul(x, ws[0]) + ws[1]), ws[2])),
    ("dense-relu layer-dense", [("Dense", {"units": 2}), ("ReLU", {}), ("Dense", {"units": 1})], (2, 2),
     [(2, 2), (2,), (2, 1), (1,)], lambda w, x, ws: matmul(each(R.relu, matmul(x, ws[0]) + ws[1]), ws[2]) + ws[3]),
    ("conv-flatten-dense", [("Conv2D", {"filters": 2, "kernel_size": 2, "data_format": "channels_first"}), ("Flatten", {"data_format": "channels_first"}),
                            ("Dense", {"units": 1})], (2, 1, 3, 3), [(2, 2, 1, 2), (2,), (8, 1), (1,)],
     lambda w, x, ws: matmul(d_flatten(d_conv(x, ws[0], ws[1], 1, "valid", "channels_first", None), "channels_first"), ws[2]) + ws[3]),
    ("avgpool-reshape-dense", [("AveragePooling2D", {"pool_size": 2}), ("Reshape", {"target_shape": (4,)}), ("Dense", {"units": 1})], (2, 4, 2, 2),
     [(4, 1), (1,)], lambda w, x, ws: matmul(d_pool(w, "avg", x, 2, 2, "valid", "channels_last").reshape(2, 4), ws[0]) + ws[1]),
]


def models(run, tier):
    for label, layers, shape, wsh, f in STACKS:
        def fwd(w, layers=layers, shape=shape, wsh=wsh, f=f, nested=False):
            m = seq(w, layers, shape)
            vs = [R.sym("w%d" % i, s) for i, s in enumerate(wsh)]
            flat = list(vs)
            if nested:
                arg, k = [], 0
                for l in w.it.getattr(m, "layers"):
                    n = len(w.it.getattr(l, "weights"))
                    arg.append(flat[k:k + n])
                    k += n
            else:
                arg = list(flat)
            keep = [list(a) if isinstance(a, list) else a for a in arg]
            w.meth(m, "set_weights", arg)
            yield "model", "the caller's list", None if len(arg) == len(keep) and all(
                (a is b) or (isinstance(a, list) and len(a) == len(b) and all(p is q for p, q in zip(a, b))) for a, b in zip(arg, keep)) else \
                "set_weights changes the list it is given"
            xs = R.sym("x", shape)
            y = w.call(m, w.mk("private", xs))
            yield "model", "", R.same(val(w, y), f(w, xs, vs))
        run.case("Sequential %s, weights as one list" % label, fwd)
        if not isinstance(layers[0], str) and any(1 for _ in [0]):
            run.case("Sequential %s, weights per layer" % label, lambda w, fwd=fwd: fwd(w, nested=True))

        def train(w, layers=layers, shape=shape, wsh=wsh, f=f):
            m = seq(w, layers, shape)
            vs = [R.sym("w%d" % i, s) for i, s in enumerate(wsh)]
            w.meth(m, "set_weights", list(vs))
            loss = w.call(w.get(".losses", "MeanSquaredError"))
            opt = w.call(w.get(".optimizers", "SGD"), learning_rate=0.25)
            w.meth(m, "compile", opt, loss)
            xs = R.sym("x", shape)
            pred = f(w, xs, vs)
            ys = R.sym("y", pred.shape)
            r = w.meth(m, "fit_batch", w.mk("private", xs), w.mk("private", ys))
            k = R.poly(R.num(R.Fraction(1, shape[0])))
            total = R.arr(((pred - ys) * (pred - ys)).sum(axis=0)) * k
            yield "train", "reported loss", R.same(val(w, r), total)
            d = (pred - ys) * k * 2
            got = [w.cur(v) for l in w.it.getattr(m, "layers") for v in w.it.getattr(l, "weights")]
            for i, (g, v) in enumerate(zip(got, vs)):
                want = v - vjp(pred, d, v) * R.poly(R.num(0.25))
                yield "train", "weight %d after one batch" % i, R.same(g.reshape(v.shape), want)
        run.case("Sequential %s, one training batch" % label, train)

    def named(w):
        for i, nm in enumerate(("first", "second")):
            m = w.call(w.get(".models", "Sequential"), name=nm)
            got = w.it.getattr(m, "name")
            yield "model", "name", None if got == nm else "Sequential(name=%r) is called %r" % (nm, got)
            yield "model", "trainable", None if w.it.getattr(m, "trainable") is True else "the model's trainable flag is %r" % (w.it.getattr(m, "trainable"),)
    run.case("Sequential with a name", named)

    def listed(w):
        m = w.call(w.get(".models", "Sequential"), [w.layer("Dense", units=2, batch_input_shape=[2, 2]), w.layer("ReLU")])
        vs = [R.sym("w0", (2, 2)), R.sym("w1", (2,))]
        w.meth(m, "set_weights", list(vs))
        xs = R.sym("x", (2, 2))
        yield "model", "", R.same(val(w, w.call(m, w.mk("private", xs))), each(R.relu, matmul(xs, vs[0]) + vs[1]))
    run.case("Sequential from a list of layers", listed)

    def clone(w):
        layers = STACKS[1]
        conf = {"layers": [{"class_name": "InputLayer", "config": {}}]}
        for i, (cls, kw) in enumerate(layers[1]):
            c = dict(kw)
            if i == 0:
                c["batch_input_shape"] = list(layers[2])
            conf["layers"].append({"class_name": cls, "config": c})
        vs = [R.sym("w%d" % i, s) for i, s in enumerate(layers[3])]
        km = ExtObj("tf.keras.Sequential")
        km.attrs["get_config"] = Builtin("get_config", lambda i, a, k: conf)
        km.attrs["get_weights"] = Builtin("get_weights", lambda i, a, k: list(vs))
        m = w.call(w.get(".models", "clone_model"), km)
        xs = R.sym("x", layers[2])
        yield "model", "", R.same(val(w, w.call(m, w.mk("private", xs))), layers[4](w, xs, vs))
    run.case("clone_model", clone)


def recorder(w, trace, outs=None):
    """a model that records what it is trained and evaluated on"""
    base = w.get(".models", "BaseModel")
    ns = {}
    c = Cls("Recorder", [base], ns, base.module)

    def call(i, a, k):
        x = a[1]
        v = [w.val(t) for t in x] if isinstance(x, list) else w.val(x)
        trace.append(("call", v))
        y = v[0] if isinstance(v, list) else v
        r = w.mk("private", y * 3 + 1)
        return [r, w.mk("private", y * 5)] if outs == 2 else r
    ns["call"] = bindable("call", call)
    ns["backward"] = bindable("backward", lambda i, a, k: trace.append(("backward", w.val(a[1]))))
    ns["compile"] = bindable("compile", lambda i, a, k: None)
    m = w.call(c)
    lc = Cls("RecLoss", [], {}, base.module)

    def grad(i, a, k):
        trace.append(("grad", w.val(a[1]), w.val(a[2])))
        return w.mk("private", w.val(a[2]) - w.val(a[1]))
    lc.ns["grad"] = bindable("grad", grad)
    lc.ns["__call__"] = bindable("loss", lambda i, a, k: w.mk("private", w.val(a[2]) * w.val(a[1])))
    m.attrs["_loss"] = Inst(lc)
    return m


def steps_of(trace):
    """per training step: inputs, labels, gradient handed to backward"""
    out, cur = [], {}
    for e in trace:
        if e[0] == "call":
            cur = {"x": e[1]}
        elif e[0] == "grad":
            cur["y"] = e[1]
            cur["p"] = e[2]
        elif e[0] == "backward":
            cur["d"] = e[1]
            out.append(cur)
            cur = {}
    return out


def check_steps(trace, want):
    got = steps_of(trace)
    if len(got) != len(want):
        return "%d training steps instead of %d" % (len(got), len(want))
    for t, (g, (x, y)) in enumerate(zip(got, want)):
        gx = g["x"] if isinstance(g["x"], list) else [g["x"]]
        wx = x if isinstance(x, list) else [x]
        if len(gx) != len(wx):
            return "step %d: %d inputs" % (t + 1, len(gx))
        for a, b in zip(gx, wx):
            d = R.same(a, b)
            if d:
                return "step %d trains on other samples: %s" % (t + 1, d)
        d = R.same(g.get("y", np.array(0)), y)
        if d:
            return "step %d uses other labels: %s" % (t + 1, d)
        p = wx[0] * 3 + 1
        d = R.same(g["d"], p - y)
        if d:
            return "step %d propagates another gradient: %s" % (t + 1, d)
    return None


def split(a, b):
    return [a[i:i + b] for i in range(0, a.shape[0], b)]


def loops(run, tier):
    sizes = [(6, 2), (5, 2), (4, 4), (3, 8), (1, 1)] if tier != "thorough" else [(n, b) for n in range(1, 8) for b in (1, 2, 3, 4, 8)]
    for n, b in sizes:
        for feats in ((2,), (7,), ()) if tier != "thorough" else ((2,), (7,), (), (2, 3)):
            for epochs in (1, 2, 3):
                def fit(w, n=n, b=b, feats=feats, epochs=epochs):
                    xs, ys = R.sym("x", (n,) + feats), R.sym("y", (n,) + feats)
                    tr = []
                    m = recorder(w, tr)
                    w.meth(m, "fit", w.mk("private", xs), w.mk("private", ys), batch_size=b, epochs=epochs, verbose=0)
                    yield "train", "", check_steps(tr, list(zip(split(xs, b), split(ys, b))) * epochs)
                run.case("fit on %d samples of shape %s, batch %d, %d epochs" % (n, list(feats), b, epochs), fit)

    for n, b, sp in ((6, 2, 2), (6, 2, 3)):
        def lim(w, n=n, b=b, sp=sp):
            xs, ys = R.sym("x", (n, 2)), R.sym("y", (n, 2))
            tr = []
            m = recorder(w, tr)
            w.meth(m, "fit", w.mk("private", xs), w.mk("private", ys), batch_size=b, epochs=1, steps_per_epoch=sp, verbose=0)
            yield "train", "", check_steps(tr, list(zip(split(xs, b), split(ys, b)))[:sp])
        run.case("fit with steps_per_epoch=%d" % sp, lim)

    def gen(w):
        tr = []
        m = recorder(w, tr)
        bs = [(R.sym("x%d" % i, (2, 2)), R.sym("y%d" % i, (2, 2))) for i in range(6)]
        g = GenVal([(w.mk("private", a), w.mk("private", b)) for a, b in bs])
        w.meth(m, "fit", g, epochs=2, steps_per_epoch=3, verbose=0)
        yield "train", "", check_steps(tr, bs)
    run.case("fit from a generator, 2 epochs of 3 steps", gen)

    def many(w):
        xs = [R.sym("x", (5, 2)), R.sym("z", (5, 3))]
        ys = R.sym("y", (5, 2))
        tr = []
        m = recorder(w, tr)
        w.meth(m, "fit", [w.mk("private", x) for x in xs], w.mk("private", ys), batch_size=2, epochs=2, verbose=0)
        yield "train", "", check_steps(tr, [([p, q], y) for p, q, y in zip(split(xs[0], 2), split(xs[1], 2), split(ys, 2))] * 2)
    run.case("fit on a list of inputs", many)

    for n, b in sizes:
        def pred(w, n=n, b=b):
            xs = R.sym("x", (n, 3))
            for order in ((True,), (False,), (True, False), (False, True)):
                tr = []
                m = recorder(w, tr)
                for j, rv in enumerate(order):
                    r = w.meth(m, "predict", w.mk("private", xs), batch_size=b, reveal=rv)
                    what = " then ".join("revealed" if o else "private" for o in order[:j + 1])
                    k = w.kind(r)
                    d = None
                    if isinstance(r, np.ndarray):
                        k, v = "native", r
                    elif k is None:
                        d = "the result is %r" % (r,)
                    else:
                        v = val(w, r)
                    if d is None and (k == "native") != rv:
                        d = "the prediction is %s" % ("revealed" if k == "native" else "left private")
                    if d is None:
                        d = R.same(v, xs * 3 + 1)
                    yield "predict", what, d
        run.case("predict on %d samples, batch %d" % (n, b), pred)

    def pred2(w):
        xs = R.sym("x", (5, 3))
        for rv in (True, False):
            m = recorder(w, [], 2)
            r = w.meth(m, "predict", w.mk("private", xs), batch_size=2, reveal=rv)
            if not isinstance(r, list) or len(r) != 2:
                yield "predict", "", "%r" % (r,)
                continue
            for a, b in zip(r, (xs * 3 + 1, xs * 5)):
                yield "predict", "revealed" if rv else "private", R.same(a if isinstance(a, np.ndarray) else val(w, a), b)
    run.case("predict with two outputs", pred2)

    for n, b, st in ((6, 2, None), (5, 2, None), (6, 2, 2), (3, None, None)):
        for met in ("categorical_accuracy", "binary_accuracy"):
            def ev(w, n=n, b=b, st=st, met=met):
                xs, ys = R.sym("x", (n, 3)), R.sym("y", (n, 3))
                m = recorder(w, [])
                r = w.meth(m, "evaluate", w.mk("private", xs), w.mk("private", ys), batch_size=b, steps=st, metrics=[met])
                o = r.get(met) if isinstance(r, dict) else None
                k = n if st is None else st * b
                if not isinstance(o, ExtObj) or o.path != "mean":
                    yield "predict", "", "the metric is %r" % (o,)
                    return
                o = o.attrs["of"]
                if not isinstance(o, ExtObj) or o.path != "metric" or o.attrs["of"][0] != met:
                    yield "predict", "", "another metric is computed"
                    return
                _, yt, yp = o.attrs["of"]
                yield "predict", "labels", R.same(yt, ys[:k])
                yield "predict", "predictions", R.same(yp, (xs * 3 + 1)[:k])
            run.case("evaluate %s on %d samples, batch %s, steps %s" % (met, n, b, st), ev)


def training(tier):
    rep = Report("-", tier)
    run = Run(rep)
    optimizers(run, tier)
    models(run, tier)
    loops(run, tier)
    return rep
