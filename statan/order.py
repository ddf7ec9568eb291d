"""Selection-type operations (maximum, sort, pooling, argmax, relu), decided in
an order domain: the elements of the secret stay symbolic, and the only facts
an operation may use about them are their order relations.  Every weak ordering
of the elements that meet in one output (including zero where the operation
compares with it) is a case; in each case every sign test of a difference is
resolved by the ordering and the result must be the right element."""
import itertools

import numpy as np

from .aby3ops import Exp, flat_results
from .elem import AF, BF, Elem, ONES, TooBig, Undef, W, elementwise, to_obj, toA
from .graph import Node
from .interp import AbsRaise, Incomplete, Inst
from .lib import Cx, Judge
from .protomodel import F


def weak_orders(n):
    """all rank tuples (dense ranks) of n elements"""
    out = []
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1 if n else 0)):
            out.append(r)
    return out


class OrderElem(Elem):
    """element forms under one ordering: rank[tag, k] of input elements; equal ranks are equal values"""

    def __init__(self, nbits, rank, zero=None, top=None):
        Elem.__init__(self, nbits)
        self.rank, self.zero, self.top = rank, zero, top
        self.rep = {}
        for key, r in sorted(rank.items(), key=repr):
            self.rep.setdefault(r, key)
        self.used = 0

    def o_atom(self, n):
        def at(k, idx):
            key = (n.tag, k)
            if key in self.rank and not self.isbool(n):
                r = self.rank[key]
                if r == self.zero:
                    return AF({})
                return AF({(("v",) + self.rep[r],): 1})
            return self.atom(("v", n.tag, k), n)
        return to_obj(tuple(n.shape), at)

    def rk(self, m):
        """rank of a value: a single input element, zero or the top bound"""
        if m == ():
            return self.zero
        if len(m) == 1 and m[0][0] == "v" and (m[0][1], m[0][2]) in self.rank:
            return self.rank[(m[0][1], m[0][2])]
        return None

    def sign(self, f, nb):
        """-1/0/1 of an arithmetic form, by the ordering"""
        f = toA(f, nb)
        t = f.t
        if not t:
            return 0
        pos, neg = [], []
        for m, c in t.items():
            if m == ():
                h = 1 << (nb - 1)
                c = (c + h) % (1 << nb) - h
                if self.topval(nb) <= abs(c) <= self.topval(nb) + 1:
                    (pos if c > 0 else neg).append(self.top)
                elif len(t) == 1:
                    return (c > 0) - (c < 0)
                else:
                    raise Undef("compares with the literal %s" % c)
            elif c == 1:
                pos.append(self.rk(m))
            elif c == -1:
                neg.append(self.rk(m))
            else:
                raise Undef("sign of %r" % f)
        if len(pos) > 1 or len(neg) > 1 or None in pos or None in neg:
            raise Undef("sign of %r" % f)
        a = pos[0] if pos else self.zero
        b = neg[0] if neg else self.zero
        if a is None or b is None:
            raise Undef("compares with zero")
        self.used += 1
        return (a > b) - (a < b)

    def topval(self, nb):
        return (1 << (nb - 2)) - 1

    def bit(self, n, v):
        if self.isbool(n):
            return BF([ONES]) if v else BF([])
        return AF({(): 1}) if v else AF({})

    def o_msb(self, n):
        nb = self.nbits(n.ins[0])
        return elementwise(lambda x: self.bit(n, self.sign(x, nb) < 0), self.form(n.ins[0]))

    def o_cmp_eq0(self, n):
        nb = self.nbits(n.ins[0])
        return elementwise(lambda x: self.bit(n, self.sign(x, nb) == 0), self.form(n.ins[0]))

    def o_reduce_max(self, n):
        a = self.form(n.ins[0])
        ax, keep = n.params
        nb = self.nbits(n)
        axs = tuple(range(a.ndim)) if ax is None else ((ax,) if isinstance(ax, int) else tuple(ax))
        axs = tuple(x % a.ndim for x in axs)
        rest = [i for i in range(a.ndim) if i not in axs]
        b = a.transpose(rest + list(axs)).reshape([a.shape[i] for i in rest] + [-1])
        out = np.empty([a.shape[i] for i in rest], dtype=object)
        from .algebra import a_add
        for i in np.ndindex(*out.shape):
            m = b[i][0]
            for v in b[i][1:]:
                if self.sign(a_add(toA(v, nb), toA(m, nb), -1), nb) > 0:
                    m = v
            out[i] = m
        if keep:
            out = out.reshape([1 if i in axs else a.shape[i] for i in range(a.ndim)])
        return out


class Orders:
    ELEM = OrderElem

    def __init__(self, w, rep, prefix=""):
        self.w, self.rep, self.prefix = w, rep, prefix
        self.J = Judge(w, rep, prefix)
        self.cases = 0

    def run(self, op, inputs, args, kw, groups, check, exps, zero=False, top=False):
        """groups: list of lists of (tag, flat index) — elements that meet in one output; check(get, rank, zero) -> None or message"""
        w, rep = self.w, self.rep
        it = w.it
        c = Cx(op, w.label(op, args, kw))
        c.judged = True
        w.order.append(c)
        nm = self.prefix + c.label
        w.run(c, lambda: it.call(it.getattr(w.prot, op), list(args), dict(kw)), None, lambda: exps, inputs)
        if c.status == "raise":
            rep.bad("total", nm, "raises %s at %s" % (c.why, getattr(c.why, "loc", None)))
            return
        if c.status != "ok":
            rep.undecided("total", nm, c.why)
            return
        outs = flat_results(c.result)
        if len(outs) != len(exps):
            rep.bad("value", nm, "returns %d tensors, expected %d" % (len(outs), len(exps)))
            return
        rep.ok("total", nm)
        self.J.handed(c, nm)
        for i, (o, e) in enumerate(zip(outs, exps)):
            self.J.one(nm if len(outs) == 1 else "%s[%d]" % (nm, i), o, e)
        if any(not (isinstance(o, Inst) and w.ist(o)) for o in outs):
            return
        n = max(len(g) for g in groups)
        pats = weak_orders(n + (1 if zero else 0))
        secs = [w.secret(o) for o in outs]
        bad = None
        try:
            for p in pats:
                for variant in range(2 if len(groups) > 1 else 1):
                    rank, z, t = self.assign(groups, p, zero, variant)
                    el = self.ELEM(w.nbits, rank, z, t)
                    fs = [el.form(s) for s in secs]
                    m = check(fs, el)
                    self.cases += 1
                    if m:
                        bad = "%s, when the elements are ordered %s" % (m, describe(rank, z))
                        break
                if bad:
                    break
            if bad:
                from .aby3ops import out_loc
                rep.bad("value", nm, bad + "; built in %s" % (out_loc(outs[0], w),))
            else:
                rep.ok("value", nm, "%d orderings" % len(pats))
        except (Undef, TooBig, RecursionError) as e:
            rep.undecided("value", nm, str(e) or "too large")

    def assign(self, groups, p, zero, variant):
        rank = {}
        K = 1000
        if zero:
            z = p[-1] * K
            p = p[:-1]
        else:
            z = None
        # group 0 follows the pattern; the others follow rotations of it, interleaved above or below
        for gi, g in enumerate(groups):
            for j, key in enumerate(g):
                r = p[(j + gi) % len(p)] if len(g) == len(p) else p[j % len(p)]
                base = r * K
                if not (zero and base == z):
                    base += (gi if variant == 0 else len(groups) - gi)
                rank.setdefault(key, base)
        return rank, z, 10 ** 9


def describe(rank, z):
    d = {}
    for k, r in rank.items():
        d.setdefault(r, []).append("%s[%d]" % k)
    if z is not None:
        d.setdefault(z, []).append("0")
    return " < ".join("=".join(sorted(d[r])) for r in sorted(d))[:300]


# ------------------------------------------------------------------ checks
def same(f, g):
    if isinstance(f, BF) or isinstance(g, BF):
        return f == g
    return toA(f, 64) == toA(g, 64)


def val(el, key):
    r = el.rank[key]
    return AF({}) if r == el.zero else AF({(("v",) + el.rep[r],): 1})


def pick(el, keys, hi=True):
    k = (max if hi else min)(keys, key=lambda q: el.rank[q])
    return val(el, k)


def maxkey(el, keys):
    return max(el.rank[k] for k in keys)


def flat(shape):
    return np.arange(int(np.prod(shape)), dtype=int).reshape(shape)


def slices(shape, axis):
    """(index array of groups, output shape): groups[out index] = keys"""
    ix = flat(shape)
    if axis is None:
        return ix.reshape(1, -1), ()
    m = np.moveaxis(ix, axis, -1)
    return m.reshape(-1, m.shape[-1]), m.shape[:-1]


def sel_roots(O, tier):
    w = O.w
    full = tier == "thorough"
    AR, BO = w.ARITH, w.BOOL

    def reduce_max(kind, shape, axis, keep, **kw):
        x = w.P("x", shape) if kind == "P" else w.U("x", shape)
        g, osh = slices(shape, axis)
        groups = [[("x", int(k)) for k in r] for r in g]
        sh = osh
        if keep:
            sh = (1,) * len(shape) if axis is None else tuple(1 if i == axis % len(shape) else d for i, d in enumerate(shape))

        def check(fs, el):
            f = fs[0]
            if f.shape != tuple(sh):
                return "result has shape %s, expected %s" % (f.shape, sh)
            for i, (a, r) in enumerate(zip(f.reshape(-1), groups)):
                if not same(a, pick(el, r)):
                    return "element %d of the result is %r, not the maximum" % (i, a)
        O.run("reduce_max", [x], [x], dict(axis=axis, keepdims=keep, **kw), groups, check,
              [Exp("private" if kind == "P" else "public", None, True, AR if kind == "P" else None)])
    for sh, ax in (((3,), 0), ((4,), None), ((2, 3), 1), ((3, 2), 0), ((2, 3), -1), ((2, 2), None), ((1, 3), None), ((5,), None), ((5,), 0))[:9 if full else 8]:
        for keep in (False, True):
            reduce_max("P", sh, ax, keep)
            if (ax is None or ax >= 0) and max(sh) < 5:
                w.pm.eager = True
                reduce_max("P", sh, ax, keep, method="network")
                w.pm.eager = None
            if ax is not None:
                reduce_max("U", sh, ax, keep)

    # pairwise
    for op in ("maximum", "cmp_swap"):
        for kx, ky in (("P", "P"), ("P", "U"), ("U", "P")):
            for sc in (True, False):
                x = w.P("x", (2,), sc) if kx == "P" else w.U("x", (2,), sc)
                y = w.P("y", (2,), sc) if ky == "P" else w.U("y", (2,), sc)
                groups = [[("x", i), ("y", i)] for i in range(2)]

                def check(fs, el, op=op, groups=groups):
                    want = (("maximum", True),) if op == "maximum" else (("minimum", False), ("maximum", True))
                    for f, (nm, hi) in zip(fs, want):
                        for i, r in enumerate(groups):
                            if not same(f.reshape(-1)[i], pick(el, r, hi)):
                                return "element %d of the %s is %r" % (i, nm, f.reshape(-1)[i])
                O.run(op, [x, y], [x, y], {}, groups, check, [Exp("private", None, sc, AR)] * (1 if op == "maximum" else 2))

    # relu
    for sc in (True, False):
        for op in ("relu", "relu_with_cmp"):
            x = w.P("x", (2,), sc)
            groups = [[("x", 0)], [("x", 1)]]

            def check(fs, el):
                for i in range(2):
                    r = el.rank[("x", i)]
                    if not same(fs[0][i], val(el, ("x", i)) if r > el.zero else AF({})):
                        return "element %d of the result is %r" % (i, fs[0][i])
                    if len(fs) > 1 and not same(fs[1][i], BF([ONES]) if r > el.zero else BF([])):
                        return "element %d of the comparison bit is %r" % (i, fs[1][i])
            O.run(op, [x], [x], {}, groups, check, [Exp("private", None, sc, AR)] + ([Exp("private", None, None, BO)] if op != "relu" else []), zero=True)

    # argmax
    def argmax(op, shape, axis, style, keep=False):
        x = w.P("x", shape)
        g, osh = slices(shape, axis)
        groups = [[("x", int(k)) for k in r] for r in g]
        both = op != "argmax"
        n = shape[axis]

        def check(fs, el):
            am = fs[-1]
            if both:
                f = fs[0]
                want = tuple(1 if i == axis % len(shape) else d for i, d in enumerate(shape)) if keep else osh
                if f.shape != tuple(want):
                    return "maximum has shape %s, expected %s" % (f.shape, want)
                for a, r in zip(f.reshape(-1), groups):
                    if not same(a, pick(el, r)):
                        return "maximum is %r" % (a,)
            if style == "onehot":
                if am.shape != tuple(shape):
                    return "one-hot has shape %s, expected %s" % (am.shape, shape)
                m = np.moveaxis(am, axis, -1).reshape(-1, n)
                for row, r in zip(m, groups):
                    hot = [j for j, b in enumerate(row) if b == BF([ONES]) or (isinstance(b, AF) and b.t == {(): 1})]
                    cold = [j for j, b in enumerate(row) if not b.t]
                    if len(hot) != 1 or len(hot) + len(cold) != n:
                        return "one-hot row is %s" % (list(row),)
                    if el.rank[r[hot[0]]] != maxkey(el, r):
                        return "one-hot marks position %d, which is not a maximum" % hot[0]
            else:
                if am.shape != tuple(osh):
                    return "index has shape %s, expected %s" % (am.shape, osh)
                for a, r in zip(am.reshape(-1), groups):
                    a = toA(a, w.nbits)
                    c = a.t.get((), 0)
                    if set(a.t) - {()} or c % (1 << w.frac):
                        return "index is %r" % a
                    j = c >> w.frac
                    if not 0 <= j < n or el.rank[r[j]] != maxkey(el, r):
                        return "index %d is not a maximum" % j
        kw = dict(axis=axis, output_style=style)
        if both:
            kw["keepdims"] = keep
        ex = [Exp("private", None, True, AR)] if both else []
        ex.append(Exp("private", None, None, BO if style == "onehot" else AR))
        O.run(op, [x], [x], kw, groups, check, ex)
    for sh, ax in (((3,), 0), ((2, 3), 1), ((3, 2), 0), ((4,), 0))[:4 if full else 3]:
        argmax("argmax", sh, ax, "onehot")
        argmax("reduce_max_with_argmax", sh, ax, "onehot")
        argmax("reduce_max_with_argmax", sh, ax, "onehot", True)
    argmax("argmax", (3,), 0, "normal")
    argmax("reduce_max_with_argmax", (4,), 0, "normal")

    # sort
    def sort(shape, axis, acc, eager):
        x = w.P("x", shape)
        g, osh = slices(shape, axis)
        groups = [[("x", int(k)) for k in r] for r in g]

        def check(fs, el):
            f = fs[0]
            if f.shape != tuple(shape):
                return "result has shape %s, expected %s" % (f.shape, shape)
            m = np.moveaxis(f, axis, -1).reshape(-1, shape[axis])
            for row, r in zip(m, groups):
                ks = sorted(r, key=lambda q: el.rank[q], reverse=not acc)
                for j, (a, k) in enumerate(zip(row, ks)):
                    if not same(a, val(el, k)):
                        return "position %d of the sorted result is %r" % (j, a)
        w.pm.eager = eager
        try:
            O.run("sort", [x], [x, axis] + ([] if acc else [False]), {}, groups, check, [Exp("private", None, True, AR)])
        finally:
            w.pm.eager = None
    for eager in (True, False):
        for sh, ax in (((4,), 0), ((3,), 0), ((2, 3), 1), ((3, 2), 0), ((2, 2), -1)):
            for acc in (True, False):
                sort(sh, ax, acc, eager)
    w.pm.eager = None

    # pooling
    def pool(op, shape, size, st, pad):
        x = w.P("x", shape)
        ix = flat(shape)
        n, c, h, wd = shape
        oh, ow = -(-(h - size[0] + 1) // st[0]), -(-(wd - size[1] + 1) // st[1])
        groups = []
        for b in range(n):
            for ch in range(c):
                for i in range(oh):
                    for j in range(ow):
                        groups.append([("x", int(k)) for k in ix[b, ch, i * st[0]:i * st[0] + size[0], j * st[1]:j * st[1] + size[1]].reshape(-1)])

        def check(fs, el):
            f = fs[0]
            if f.shape != (n, c, oh, ow):
                return "result has shape %s, expected %s" % (f.shape, (n, c, oh, ow))
            for a, r in zip(f.reshape(-1), groups):
                if not same(a, pick(el, r)):
                    return "a window's result is %r, not its maximum" % (a,)
            if len(fs) > 1:
                g = fs[1]
                if g.shape != (n, c, oh, ow, size[0] * size[1]):
                    return "argmax has shape %s" % (g.shape,)
                for row, r in zip(g.reshape(-1, len(groups[0])), groups):
                    hot = [j for j, b in enumerate(row) if b.t]
                    if len(hot) != 1 or row[hot[0]] != BF([ONES]) or el.rank[r[hot[0]]] != maxkey(el, r):
                        return "a window's one-hot is %s" % (list(row),)
        ex = [Exp("private", None, True, AR)]
        if op.endswith("argmax"):
            ex.append(Exp("private", None, None, BO))
        O.run(op, [x], [x, size, st, pad], {}, groups, check, ex)
    for op in ("maxpool2d", "maxpool2d_with_argmax"):
        pool(op, (1, 1, 2, 4), (2, 2), (2, 2), "VALID")
        pool(op, (2, 2, 2, 2), (2, 1), (1, 1), "VALID")
        pool(op, (1, 2, 2, 3), (1, 2), (1, 1), "VALID")
        if full:
            pool(op, (2, 1, 4, 4), (2, 2), (2, 2), "VALID")
