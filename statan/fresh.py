"""Freshness of pairwise masks: the analysed program is a long history of
operations in one protocol instance, every operation fully expanded.  A server
may draw the stream of one (key, nonce) at most once in such a history; drawing
it again hands out the same mask a second time."""
from .elem import Elem, TooBig, Undef
from .graph import Node
from .interp import AbsRaise, Incomplete
from .lib import Lib
from .protomodel import F
from .roots import mk


def history(w):
    """(label, thunk) list: every kind of operation that draws masks"""
    it, prot = w.it, w.prot

    def call(name, *a, **k):
        return lambda: it.call(it.getattr(prot, name), list(a), k)

    P, B, U = w.private, (lambda t, s, f=None: w.private(t, s, w.BOOL, False, f)), w.public
    ops = []

    def add(label, th):
        ops.append((label, th))
    x, y = P("x", (2,)), P("y", (2,))
    m, n = P("m", (2, 3)), P("n", (3, 2))
    b, c = B("b", (2,)), B("c", (2,))
    b1 = B("b1", (2,), F["bool"])
    add("mul", call("mul", x, y))
    add("mul unscaled", call("mul", P("x", (2,), None, False), P("y", (2,), None, False)))
    add("mul broadcast", call("mul", P("x", (2, 2)), P("y", (2,))))
    add("mul_trunc2", call("mul_trunc2", x, y))
    add("matmul", call("matmul", m, n))
    add("conv2d", call("conv2d", P("i", (1, 1, 3, 3)), P("k", (2, 2, 1, 1)), [1, 1], "VALID"))
    add("and_", call("and_", b, c))
    add("or_", call("or_", b, c))
    add("and_ bool", call("and_", b1, B("b2", (2,), F["bool"])))
    for t in ("kogge_stone", "sklansky"):
        add("ppa " + t, call("ppa", b, c, topology=t))
    add("a2b", call("a2b", x))
    add("b2a", call("b2a", b))
    add("b2a single", call("b2a", b, nbits=4, method="single"))
    add("b2a_single", call("b2a_single", b1))
    add("mul_ab", call("mul_ab", x, b1))
    add("mul_ab public", call("mul_ab", U("u", (2,)), b1))
    add("bit_extract", call("bit_extract", x, 5))
    add("msb", call("msb", x))
    add("carry", call("carry", b, c))
    for meth in ("local", "heuristic"):
        add("truncate " + meth, call("truncate", x, method=meth))
    for meth in ("secureq8", "cheetah"):
        add("truncate_msb0 " + meth, call("truncate_msb0", x, method=meth))
    add("less_than", call("less_than", x, y))
    add("equal", call("equal", x, y))
    add("select", call("select", b1, x, y))
    add("maximum", call("maximum", x, y))
    add("relu", call("relu", x))
    add("reduce_max", call("reduce_max", P("q", (4,)), 0))
    add("_gen_random_sharing", lambda: it.call(it.getattr(prot, "_gen_random_sharing"), [[2]], {}))
    return ops


def run(rep, nbits, prefix=""):
    w = Lib(nbits, ops=[])
    it = w.it
    el = Elem(nbits)
    first = {}
    draws = 0
    done = []
    for rnd in range(2):
        for label, th in history(w):
            e0 = len(it.events)
            d0 = len(it.fstack)
            try:
                th()
                ok = True
            except (AbsRaise, Incomplete, RecursionError) as e:
                del it.fstack[d0:]
                it.device = None
                ok = False
                rep.undecided("fresh", prefix + label, "%s" % e)
            bad = False
            n_here = 0
            for ev in it.events[e0:]:
                if ev[0] != "prf":
                    continue
                n, seed, dev, loc = ev[1], ev[2], ev[3], ev[4]
                if not isinstance(seed, Node):
                    rep.bad("fresh", prefix + label, "a mask is drawn without a seed at %s:%s" % loc)
                    bad = True
                    continue
                try:
                    key = tuple(f.key() for f in el.form(seed).reshape(-1))
                except (TooBig, Undef) as e:
                    rep.undecided("fresh", prefix + label, str(e))
                    continue
                draws += 1
                n_here += 1
                if (dev, key) in first:
                    l2, loc2, r2 = first[(dev, key)]
                    rep.bad("fresh", prefix + label, "%s draws the mask stream of the same key and nonce again at %s:%s; first drawn by %s at "
                            "%s:%s, so two results are hidden by one mask" % ((dev,) + tuple(loc) + (l2,) + tuple(loc2)))
                    bad = True
                    break
                first[(dev, key)] = (label, loc, rnd)
            if ok and not bad:
                rep.ok("fresh", prefix + label + (" (repeated)" if rnd else ""), "%d draws, all new" % n_here if n_here else None)
    rep.functions |= set(it.visited)
    rep.extra = {"draws": draws}
    # the key streams must be consumed identically by both holders: every (key, nonce) drawn is drawn by exactly the servers that hold the key
    return w


def reexecution(rep, prefix=""):
    """masks inside a compiled computation: does the stream change from one execution to the next?"""
    w = Lib(64, ops=[])
    it = w.it
    e0 = len(it.events)
    it.call(it.getattr(w.prot, "mul"), [w.private("x", (2,), None, False), w.private("y", (2,), None, False)], {})
    per_exec = []
    for ev in it.events[e0:]:
        if ev[0] == "prf" and isinstance(ev[2], Node):
            per_exec.append((ev[2], ev[4]))
    setup = {n.id for n in w.setup_nodes}

    def varies(n, seen):
        if n.id in seen:
            return False
        seen.add(n.id)
        if n.id not in setup and n.op in ("seed", "variable", "tf.Variable", "read_value", "sample_uniform", "rnd"):
            return True
        return any(varies(i, seen) for i in n.ins if isinstance(i, Node))
    bad = [loc for s, loc in per_exec if not varies(s, set())]
    nm = prefix + "compiled function executed repeatedly"
    if not per_exec:
        rep.undecided("reexec", nm, "no draws found")
    elif bad:
        rep.bad("reexec", nm, "key and nonce are fixed when the function is traced, so every execution of the compiled function draws the same masks (%d of %d "
                "draws of a product, e.g. %s:%s)" % (len(bad), len(per_exec), bad[0][0], bad[0][1]))
    else:
        rep.ok("reexec", nm)
