"""Cache transparency: with the library's own result cache in force, a request is never
answered with the stored result of a different request.  Several requests that
share operands but differ in one argument are analysed one after the other
and each result is compared with its own ideal result."""
import numpy as np

from .interp import AbsRaise, Incomplete
from .elem import TooBig, Undef
from .aby3ops import flat_results
from .lib import Judge, Lib
from .pondlib import PondJudge, PondLib


def variants_common(w, mk, kinds, scaled=True):
    """groups of requests (operation, args, kwargs) that must not be confused"""
    out = []
    for k in kinds:
        x, y = mk(k, "x", (2, 3)), mk(k, "y", (2, 3))
        q, r = mk(k, "q", (2, 2)), mk(k, "r", (2, 2))
        c = mk(k, "c", (2, 2, 2))
        o = mk(k, "o", (1, 2, 1))
        out += [
            ("transpose", [((c,), {"perm": p}) for p in ([0, 2, 1], [2, 1, 0], [1, 0, 2])] + [((c,), {})]),
            ("reshape", [((x, s), {}) for s in ([3, 2], [6], [1, 6], [-1, 2])]),
            ("expand_dims", [((x,), {"axis": a}) for a in (0, 1, 2, -1)]),
            ("squeeze", [((o,), {"axis": a}) for a in ([0], [2])] + [((o,), {})]),
            ("strided_slice", [((x, [0, 0], [1, 2]), {}), ((x, [0, 0], [2, 1]), {}), ((x, [0, 1], [1, 2]), {}),
                               ((x, [0, 0], [2, 3], [1, 2]), {}), ((x, [0, 0], [2, 3], [2, 1]), {})]),
            ("indexer", [((x, 0), {}), ((x, 1), {}), ((x, -1), {}), ((x, (slice(None), 1)), {}), ((x, (slice(None), slice(0, 2))), {}),
                         ((x, (slice(None), slice(1, 3))), {}), ((x, slice(0, 1)), {})]),
            ("gather", [((x, [0]), {"axis": 1}), ((x, [1]), {"axis": 1}), ((x, [0]), {"axis": 0}), ((x, [1, 0]), {"axis": 0}), ((x, [0, 1]), {"axis": 0})]),
            ("split", [((x, 3), {"axis": 1}), ((x, 2), {"axis": 0}), ((x, [1, 2]), {"axis": 1}), ((x, [2, 1]), {"axis": 1})]),
            ("stack", [(([x, y],), {"axis": a}) for a in (0, 1, 2)] + [(([y, x],), {"axis": 0})]),
            ("concat", [(([x, y],), {"axis": 0}), (([x, y],), {"axis": 1}), (([y, x],), {"axis": 1})]),
            ("reduce_sum", [((x,), {"axis": 0}), ((x,), {"axis": 1}), ((x,), {"axis": 1, "keepdims": True}), ((x,), {"axis": 0, "keepdims": True}), ((x,), {})]),
            ("sub", [((q, r), {}), ((r, q), {}), ((q, q), {})]),
            ("add", [((q, 1), {}), ((q, 2), {}), ((q, -1), {}), ((1, q), {}), ((q, r), {})]),
            ("mul", [((q, 2), {}), ((q, 3), {}), ((3, q), {}), ((q, 0.5), {}), ((q, 0.25), {})] if scaled else [((q, 2), {}), ((q, 3), {}), ((3, q), {})]),
            ("matmul", [((q, r), {}), ((r, q), {}), ((q, q), {})]),
            ("negative", [((q,), {}), ((r,), {})]),
        ]
        big = [np.arange(1500) % 2 for _ in range(2)]
        big[1][700] = 1 - big[1][700]
        out.append(("gather", [((q, b), {"axis": 0}) for b in big]))
        if k != "M":
            out.append(("pad", [((q, p), {}) for p in ([[0, 0], [1, 1]], [[1, 1], [0, 0]], [[1, 0], [0, 1]])]))
    return out


def pond_variants(w):
    mk = lambda k, t, s: w.mk(k, t, s, False)
    out = variants_common(w, mk, "UPM", False)
    for k in "UPM":
        x = mk(k, "x", (2, 3))
        out.append(("cumsum", [((x,), {"axis": 0}), ((x,), {"axis": 1}), ((x,), {"axis": 1, "exclusive": True}), ((x,), {"axis": 1, "reverse": True})]))
        i, f = mk(k, "i", (1, 2, 3, 3)), mk(k, "f", (2, 2, 2, 2))
        if k != "U":
            out.append(("conv2d", [((i, f, 1, "VALID"), {}), ((i, f, 2, "VALID"), {}), ((i, f, 1, "SAME"), {}), ((i, f, 2, "SAME"), {})]))
        s = w.mk(k, "s", (1, 1, 2, 4), True)
        out.append(("avgpool2d", [((s, (2, 2), (2, 2), "VALID"), {}), ((s, (2, 2), (1, 1), "VALID"), {}), ((s, (1, 2), (1, 2), "VALID"), {}), ((s, (2, 1), (2, 1), "VALID"), {})]))
        b = mk(k, "b", (1, 4, 2, 1))
        out.append(("space_to_batch", [((b, [2, 1], [[0, 0], [0, 0]]), {}), ((b, [1, 2], [[0, 0], [0, 0]]), {}), ((b, [2, 2], [[0, 0], [0, 0]]), {})]))
    p, q = w.P("p", (2,), False), w.P("q", (2,), False)
    out.append(("mask", [((p,), {}), ((q,), {})]))
    out.append(("reveal", [((p,), {}), ((q,), {})]))
    return out


def aby3_variants(w):
    mk = lambda k, t, s: w.P(t, s, False) if k == "P" else w.U(t, s, False)
    out = [(op, r) for op, r in variants_common(w, mk, "UP", False) if not (op == "matmul" and w.kind(r[0][0][0]) == "public")]
    for k in "UP":
        x = mk(k, "x", (2, 3))
        out.append(("tile", [((x, [1, 2]), {}), ((x, [2, 1]), {}), ((x, [2, 2]), {})]))
        if k == "P":
            out.append(("reverse", [((x, [0]), {}), ((x, [1]), {}), ((x, [0, 1]), {})]))
        out.append(("mul_pow2", [((x, 2), {}), ((x, 3), {})]))
    b = w.B("b", (2,))
    d = w.B("d", (2,))
    for op in ("lshift", "rshift", "logical_rshift"):
        out.append((op, [((b, n), {}) for n in (1, 2, 5)]))
    out.append(("xor", [((b, d), {}), ((b, b), {})]))
    out.append(("and_", [((b, d), {}), ((b, b), {}), ((d, d), {})]))
    out.append(("or_", [((b, d), {}), ((b, b), {})]))
    out.append(("not_", [((b,), {}), ((d,), {})]))
    out.append(("bit_gather", [((b, 0, 2), {}), ((b, 1, 2), {})]))
    i, f = w.P("i", (1, 2, 3, 3), False), w.P("f", (2, 2, 2, 2), False)
    out.append(("conv2d", [((i, f, [1, 1], "VALID"), {}), ((i, f, [2, 2], "VALID"), {}), ((i, f, [1, 1], "SAME"), {}), ((i, f, [2, 1], "VALID"), {})]))
    p, q = w.P("p", (2,), False), w.P("q", (2,), False)
    out.append(("reveal", [((p,), {}), ((q,), {})]))
    return out


def run(make, judge, variants, rep, prefix):
    for back in (False, True):
        w = make()
        J = judge(w, rep)
        it = w.it
        for op, reqs in variants(w):
            if getattr(w, "sp_" + op, None) is None:
                continue
            for a, k in reqs[::-1] if back else reqs:
                nm = "%s%s, after other %s requests on the same operands" % (prefix, w.label(op, a, k), op)
                d0 = len(it.fstack)
                pos = it.choice_pos
                try:
                    e = w.spec(op, a, k)
                    if e is None:
                        continue
                    r = it.call(it.getattr(w.prot, op), list(a), dict(k))
                except AbsRaise as x:
                    del it.fstack[d0:]
                    it.device = None
                    rep.undecided("cache", nm, "raises %s" % x)
                    continue
                except (Incomplete, RecursionError, Undef, TooBig) as x:
                    del it.fstack[d0:]
                    it.device = None
                    rep.undecided("cache", nm, str(x))
                    continue
                es = e if isinstance(e, list) else [e]
                outs = flat_results(r)
                if len(es) != len(outs):
                    rep.bad("cache", nm, "answers %d tensors, expected %d" % (len(outs), len(es)))
                    continue
                sub = type(rep)(rep.pid, rep.tier)
                J.rep = sub
                for o, x in zip(outs, es):
                    J.one(nm, o, x)
                bad = [m for rl, c, m in sub.bad_ if rl in ("value", "scale", "masked", "replicated")]
                und = [m for rl, c, m in sub.und_ if rl == "value"]
                if bad:
                    rep.bad("cache", nm, bad[0])
                elif und:
                    rep.undecided("cache", nm, und[0])
                else:
                    rep.ok("cache", nm)
        rep.functions |= set(it.visited)


def pond(rep, config="low", prefix="[pond] "):
    run(lambda: type("CachedPond", (PondLib,), {"CACHE": True})(config, 0.0, ops=[]), PondJudge, pond_variants, rep, prefix)


def cached_aby3():
    w = type("CachedABY3", (Lib,), {"CACHE": True})(64, ops=[])
    w.pm.eager = True
    return w


def aby3(rep, prefix="[aby3] "):
    run(cached_aby3, Judge, aby3_variants, rep, prefix)
    protocols(rep)


def graph_scopes(rep):
    graphs(rep, cached_aby3, None, "[aby3] ")
    graphs(rep, lambda: type("CachedPond", (PondLib,), {"CACHE": True})("low", 0.0, ops=[]), None, "[pond] ")


def protocols(rep):
    """two protocol instances: a result of one is never handed out by the other"""
    w = cached_aby3()
    it = w.it
    p2 = it.call(w.prot.cls, [], {})
    for name, args, kw in (("zeros", [[2, 2]], {}), ("zeros", [[2]], {"apply_scaling": True})):
        nm = "[aby3] %s requested from two protocol instances" % name
        try:
            a = it.call(it.getattr(w.prot, name), list(args), dict(kw))
            b = it.call(it.getattr(p2, name), list(args), dict(kw))
            if it.getattr(a, "prot") is it.getattr(b, "prot"):
                rep.bad("cache", nm, "the second protocol answers with the first one's tensor")
            else:
                rep.ok("cache", nm)
        except (AbsRaise, Incomplete) as e:
            rep.undecided("cache", nm, str(e))


def graphs(rep, make, judge_unused, prefix):
    """results cached while one graph is traced never turn up in another graph"""
    from .graph import walk
    from .interp import ExtObj
    w = make()
    it = w.it
    state = [None]
    eager = lambda i, a, k: state[0] is None
    it.models["tf.executing_eagerly"] = eager
    it.models["tf.python.eager.context.executing_eagerly"] = eager
    it.models["tf.compat.v1.get_default_graph"] = lambda i, a, k: state[0]
    g1, g2 = ExtObj("graph 1"), ExtObj("graph 2")
    made = {}
    x, y = w.P("x", (2, 2), False), w.P("y", (2, 2), False)
    reqs = [("transpose", (x,), {}), ("mul", (x, y), {}), ("matmul", (x, y), {}), ("add", (x, y), {}), ("negative", (x,), {}), ("reshape", (x, [4]), {}),
            ("stack", ([x, y],), {"axis": 0}), ("strided_slice", (x, [0, 0], [1, 2]), {}), ("reveal", (x,), {}), ("reduce_sum", (x,), {"axis": 0})]
    if getattr(w, "masks", None) is not None:
        i, f = w.P("i", (1, 1, 3, 3), False), w.P("f", (2, 2, 1, 1), False)
        reqs += [("mask", (x,), {}), ("conv2d", (i, f, 1, "VALID"), {}), ("avgpool2d", (w.P("s", (1, 1, 2, 2), True), (2, 2), (2, 2), "VALID"), {})]
    for g, nmg in ((g1, "graph 1"), (g2, "graph 2"), (None, "eager execution")):
        state[0] = g
        for op, a, k in reqs:
            nm = "%s%s requested in %s" % (prefix, w.label(op, a, k), nmg)
            d0 = len(it.fstack)
            it.created = []
            try:
                r = it.call(it.getattr(w.prot, op), list(a), dict(k))
            except (AbsRaise, Incomplete) as e:
                del it.fstack[d0:]
                it.device = None
                rep.undecided("cache", nm, str(e))
                continue
            for n in it.created:
                made[n.id] = g
            ns = []
            for o in flat_results(r):
                sh = w.shares(o)
                for n in sh:
                    ns += list(n) if isinstance(n, (list, tuple)) else [n]
            alien = [n for n in walk(ns) if made.get(n.id, g) is not g and made.get(n.id) is not None]
            if alien:
                rep.bad("cache", nm, "the answer contains a tensor built in another graph (%s)" % alien[0].fn)
            else:
                rep.ok("cache", nm)
