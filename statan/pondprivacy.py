"""Views of the two servers and of the crypto producer in Pond."""
from math import ceil, log2

from .algebra import a_add
from .elem import AF, Elem, leaves
from .graph import Node
from .privacy import Privacy, View, where


class PondView(View):
    """adds the statistical mask of the interactive truncation: a bounded value wide enough to drown one secret within the supported range"""

    wide = None

    def pad(self, a):
        if View.pad(self, a):
            return True
        return (a[0] == "rnd" and not self.known(a) and self.wide is not None and len(a[1]) == 2 and isinstance(a[1][1], int)
                and a[1][1] >= self.wide)

    def narrow(self, a):
        return a[0] == "rnd" and len(a[1]) == 2 and isinstance(a[1][1], int) and not self.pad(a)


class PondPrivacy(Privacy):
    View = PondView

    def __init__(self, w, rep, prefix=""):
        Privacy.__init__(self, w, rep, prefix)
        self.parties.append((2, w.producer))
        gap = w.it.getattr(w.it.getattr(w.prot, "fixedpoint_config"), "truncation_gap")
        self.wide = ceil(log2(w.bound)) + 1 + max(gap, 20)

    def pname(self, p):
        return "server %d" % p if p < 2 else "crypto producer"

    def elem(self, p, opaque):
        w = self.w
        el = self.els.get((p, opaque))
        if el is None:
            el = self.els[(p, opaque)] = Elem(w.nbits, sec_atoms=opaque)
            el.done = set()
        S = w.S
        for n, (base, sec, share, supp) in w.sharings.items():
            if n in el.done:
                continue
            el.done.add(n)
            own = p if p < 2 else 0
            r = Node("atom", (), (), kind="backing", factory=sec.factory, shape=sec.shape, tag="~r%d.%d" % (n, own))
            el.alias[base[own].id] = r
            el.alias[base[1 - own].id] = S.sub(sec, r)
            if n not in w.masks:
                continue
            a0, a1, a, alpha, sec = w.masks[n]
            if p == 2:
                continue
            mine, other = (a0, a1) if p == 0 else (a1, a0)
            al = Node("atom", (), (), kind="backing", factory=sec.factory, shape=sec.shape, tag="~al%d" % n)
            me = Node("atom", (), (), kind="backing", factory=sec.factory, shape=sec.shape, tag=mine.tag)
            el.alias[mine.id] = me
            el.alias[alpha.id] = al
            mask = S.sub(sec, al)
            el.alias[a.id] = mask
            el.alias[other.id] = S.sub(mask, me)
        return el

    def known_tag(self, pub, p):
        if p == 2:
            return lambda tag: tag.startswith("~a") and not tag.startswith("~al") or tag in pub
        a = ".%d" % p
        return lambda tag: tag in pub or tag.startswith("~al") or (tag.startswith("~r") or tag.startswith("~a")) and tag.endswith(a)

    def context(self, c, skip=("reveal",)):
        self.View = type("V", (PondView,), {"wide": self.wide if c.name in ("truncate", "history") else None})
        Privacy.context(self, c, skip)

    def party(self, c, nm, p, d, msgs, pub, rnd_dev):
        if p == 2:
            # the producer may receive nothing that depends on data at all
            view = self.View(self.known_tag(pub, p), self.know.get(d, set()), rnd_dev, d)
            el = self.elem(p, False)
            for i, n in msgs.values():
                try:
                    arr = el.form(i)
                except Exception as e:
                    self.rep.undecided("leak", nm + " -> crypto producer", str(e))
                    return
                for f in arr.reshape(-1):
                    bad = [a for a in leaves(f) if not view.known(a)]
                    if bad:
                        self.rep.bad("leak", nm + " -> crypto producer", "the crypto producer, which knows every mask, receives a value that depends on data "
                                     "(%s): %s" % (where(n), bad[0][:2]))
                        return
            self.rep.ok("leak", nm + " -> crypto producer")
            return
        Privacy.party(self, c, nm, p, d, msgs, pub, rnd_dev)


def history(w):
    """a long sequence of operations that share operands, with the library's own caching in force"""
    it, prot = w.it, w.prot
    P, M, U = w.P, w.M, w.U

    def call(name, *a, **k):
        return it.call(it.getattr(prot, name), list(a), k)
    x, y, z = (P(t, (2,), False) for t in "xyz")
    p, q = P("p", (2, 2), False), P("q", (2, 2), False)
    m = M("m", (2,), False)
    u = U("u", (2,), False)
    out = []

    def do(label, name, *a, **k):
        out.append((label, name, a, k))
    do("x*y", "mul", x, y)
    do("x*z", "mul", x, z)
    do("y*z", "mul", y, z)
    do("x*x", "mul", x, x)
    do("square x", "square", x)
    do("square y", "square", y)
    do("m*x", "mul", m, x)
    do("m*m", "mul", m, m)
    do("p@q", "matmul", p, q)
    do("q@p", "matmul", q, p)
    do("p*q", "mul", p, q)
    do("p*row", "mul", p, x)
    do("x+y masked", "mask", None)
    do("-m*y", None, m, y)
    do("conv", "conv2d", P("i", (1, 1, 2, 2), False), P("k", (1, 1, 1, 1), False), 1, "VALID")
    do("u*x", "mul", u, x)
    do("again x*y", "mul", x, y)
    sx, sy, sz = (P("s" + t, (2,), True) for t in "xyz")
    do("scaled x*y", "mul", sx, sy)
    do("scaled x*z", "mul", sx, sz)
    do("truncate x", "truncate", sx)
    do("scaled x*2.5", "mul", sx, 2.5)
    for label, name, a, k in out:
        if label == "x+y masked":
            s = call("add", x, y)
            yield label, lambda s=s: call("mul", s, z)
        elif name is None:
            yield label, lambda a=a: call("mul", call("negative", a[0]), a[1])
        else:
            yield label, lambda name=name, a=a, k=k: call(name, *a, **k)


class Hist:
    status = "ok"
    name = "history"

    def __init__(self, label, inputs):
        self.label, self.inputs, self.nodes = label, inputs, []


def run_history(config, rep, prefix="", swap=0.0):
    from .interp import AbsRaise, Incomplete
    from .pondlib import PondLib
    w = type("CachedPond", (PondLib,), {"CACHE": True})(config, swap, ops=[])
    c = Hist("sequence of operations sharing operands", [])
    it = w.it
    for label, th in history(w):
        d0 = len(it.fstack)
        try:
            th()
        except (AbsRaise, Incomplete, RecursionError) as e:
            del it.fstack[d0:]
            it.device = None
            rep.undecided("leak", prefix + c.label, "%s: %s" % (label, e))
    c.nodes = [n for n in it.created if n.device is not None]
    w.order.append(c)
    Q = PondPrivacy(w, rep, prefix)
    Q.context(c)
    rep.functions |= set(it.visited)
    return w
