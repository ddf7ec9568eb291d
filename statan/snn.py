"""SecureNN: exact comparison, selection and pooling on two-server shares.

Layer 1 treats the sign bit (`msb`) as an ideal operation and decides every
operation built on it: comparisons and selection as polynomial identities over
that bit, maxima, ReLU and pooling over every weak ordering of the elements.

Layer 2 decides the sign protocol itself.  Its whole result is one polynomial
over bits of the mask `r`, of the revealed `c = x + r` and over zero tests
modulo the prime; the position of the highest bit in which the compared words
differ splits all inputs into finitely many cases, and in each case every zero
test is settled by the range of its argument."""
import itertools

import numpy as np

from .aby3ops import Exp, flat_results, out_loc
from .algebra import a_add, a_const, a_mul, a_scale
from .elem import AF, BF, Elem, TooBig, Undef, elementwise, show, to_obj, toA
from .graph import FactoryVal, Node
from .interp import AbsRaise, Incomplete, Inst, Unknown
from .lib import Cx
from .order import OrderElem, Orders, flat, pick, same, slices, val, maxkey
from .pondlib import PO, PondJudge, PondLib, mred
from .protomodel import DT, F

SN = "tf_encrypted.protocol.securenn.securenn:SecureNN."
OWN = ("bitwise_not", "bitwise_and", "bitwise_or", "bitwise_xor", "msb", "is_negative", "non_negative", "less", "less_equal", "greater",
       "greater_equal", "select", "equal_zero", "bits")


class SecureNNLib(PondLib):
    MODULE = "protocol.securenn.securenn"
    CLASS = "SecureNN"

    def configure(self):
        self.primes = {}
        self.odds = {}
        ov = self.it.overrides
        ov["tf_encrypted.protocol.securenn.odd_tensor:odd_factory"] = self._odd

    def _odd(self, i, a, k):
        t = a[0] if a else k["NATIVE_TYPE"]
        for n in ("int32", "int64"):
            if t is DT[n]:
                if n not in self.odds:
                    b = F[n].nbits
                    self.odds[n] = FactoryVal("odd" + n, b, t, 2 ** b - 1)
                return self.odds[n]
        i.fail("AssertionError", "odd factory of %r" % (t,))

    def _native(self, i, a, k):
        m = a[1] if len(a) > 1 else k.get("EXPLICIT_MODULUS")
        if m is None:
            return PondLib._native(self, i, a, k)
        t = a[0]
        if not isinstance(m, int):
            return Unknown("modulus")
        key = (t.path, m)
        if key not in self.primes:
            nb = [f.nbits for f in F.values() if f.native is t and f.kind == "ring" and f.name != "int128"][0]
            self.primes[key] = FactoryVal("prime%d" % m, nb, t, m)
        return self.primes[key]

    def start(self, ops):
        PondLib.start(self, [] if ops is None else ops)
        if ops is not None:
            return
        self.pub = set()
        for n in [n[3:] for n in dir(self) if n.startswith("sp_") and getattr(self, n) is not None]:
            pre = SN if n in OWN else PO
            self.it.overrides[pre + n] = lambda i, a, k, n=n: self.intercept(n, a, k)

    # ---------------------------------------------------------------- specs
    def bit(self, n):
        return self.S.node("snmsb", [n], (), factory=self.factory)

    def flip(self, n):
        return self.S.sub(self.S.const(1, n), n)

    def cmpx(self, x, y, swap, neg):
        a, b, sx, sy = self.lift2(x, y)
        if bool(sx) != bool(sy):
            return None
        n = self.bit(self.S.sub(b, a) if swap else self.S.sub(a, b))
        return Exp(self.kinds(x, y), self.flip(n) if neg else n, False, None)

    def sp_msb(self, x):
        if self.fac(x) is not self.factory:
            return None
        return Exp(self.kinds(x), self.bit(self.secret(x)), False, None)

    sp_is_negative = sp_msb

    def sp_non_negative(self, x):
        return Exp(self.kinds(x), self.flip(self.bit(self.secret(x))), False, None)

    def sp_less(self, x, y):
        return self.cmpx(x, y, False, False)

    def sp_greater(self, x, y):
        return self.cmpx(x, y, True, False)

    def sp_less_equal(self, x, y):
        return self.cmpx(x, y, True, True)

    def sp_greater_equal(self, x, y):
        return self.cmpx(x, y, False, True)

    def boolx(self, x, y, f):
        if any(isinstance(t, Inst) and self.scaled(t) for t in (x, y)):
            return None
        a, b, _, _ = self.lift2(x, y)
        return Exp(self.kinds(x, y), f(a, b), False, None)

    def sp_bitwise_not(self, x):
        return None if self.scaled(x) else Exp(self.kinds(x), self.flip(self.secret(x)), False, None)

    def sp_bitwise_and(self, x, y):
        return self.boolx(x, y, self.S.mul)

    def sp_bitwise_or(self, x, y):
        S = self.S
        return self.boolx(x, y, lambda a, b: S.sub(S.add(a, b), S.mul(a, b)))

    def sp_bitwise_xor(self, x, y):
        S = self.S
        return self.boolx(x, y, lambda a, b: S.sub(S.add(a, b), S.mul(S.mul(a, b), S.const(2, a))))

    def sp_select(self, c, x, y):
        if not isinstance(c, Inst) or self.scaled(c):
            return None
        S = self.S
        a, b, sx, sy = self.lift2(x, y)
        if bool(sx) != bool(sy) or not (isinstance(x, Inst) or isinstance(y, Inst)):
            return None
        return Exp(self.kinds(c, x, y), S.add(S.mul(S.sub(b, a), self.secret(c)), a), sx, None)

    def sp_equal_zero(self, x, dtype=None):
        if self.isp(x):
            return None
        return Exp("public", self.S.m(self.secret(x), "equal_zero", dtype), False, None)

    def sp_bits(self, x, factory=None):
        if self.isp(x):
            return None
        return Exp("public", self.S.m(self.secret(x), "bits", factory or self.factory), False, None)


# --------------------------------------------------------------- layer 1
class SNOrder(OrderElem):
    o_snmsb = OrderElem.o_msb


def roots(w, tier):
    R, mk = w.root, w.mk
    shapes = [((2,), (2,)), ((2, 3), (3,)), ((2, 3), (2, 1)), ((2, 3), (2, 3)), ((2, 3), ())]
    from .pondroots import grows
    for kx in "UPM":
        for s in (True, False):
            for sh in ((2,), (2, 3)):
                for op in ("msb", "is_negative", "non_negative"):
                    R(op, mk(kx, "x", sh, s))
            for ky in "UPM":
                for op in ("less", "less_equal", "greater", "greater_equal"):
                    for shx, shy in shapes:
                        if not grows(kx, ky, shx, shy):
                            R(op, mk(kx, "x", shx, s), mk(ky, "y", shy, s))
            for op in ("less", "less_equal", "greater", "greater_equal"):
                for lit in (0, 3, -2) + ((0.5,) if s else ()):
                    R(op, mk(kx, "x", (2,), s), lit)
        R("bitwise_not", mk(kx, "x", (2,), False))
        for ky in "UPM":
            for shx, shy in shapes:
                for op in ("bitwise_and", "bitwise_or", "bitwise_xor"):
                    if not grows(kx, ky, shx, shy):
                        R(op, mk(kx, "x", shx, False), mk(ky, "y", shy, False))
            for kc in "UPM":
                for s in (True, False):
                    R("select", mk(kc, "c", (2,), False), mk(kx, "x", (2,), s), mk(ky, "y", (2,), s))
    for kc, kx, ky, a, b, c in (("P", "P", "P", (2, 1), (2, 3), (2, 3)), ("P", "P", "P", (2, 3), (3,), (2, 3)), ("P", "U", "U", (2, 3), (1,), (1,)),
                                ("U", "P", "P", (2, 1), (2, 3), (2, 3)), ("P", "P", "U", (2,), (2,), ())):
        for s in (True, False):
            R("select", mk(kc, "c", a, False), mk(kx, "x", b, s), mk(ky, "y", c, s))
    for s in (True, False):
        R("equal_zero", w.U("x", (2,), s))
        R("equal_zero", w.U("x", (2,), s), w.prime)
        if w.config == "low":
            R("bits", w.U("x", (2,), s))
            R("bits", w.U("x", (2,), s), factory=w.prime)


class SNOrders(Orders):
    ELEM = SNOrder

    def __init__(self, w, rep, prefix=""):
        Orders.__init__(self, w, rep, prefix)
        self.J = PondJudge(w, rep, prefix)


def sel_roots(O, tier):
    w = O.w
    kind = {"P": "private", "U": "public", "M": "private"}
    full = tier == "thorough"

    for k in "PUM":
        for sh, ax in (((3,), 0), ((2, 3), 1), ((3, 2), 0), ((2, 3), -1), ((4,), 0), ((2, 2, 3), 2), ((1, 2), 0), ((5,), 0)):
            if sh == (5,) and not full:
                continue
            g, osh = slices(sh, ax)
            groups = [[("x", int(q)) for q in r] for r in g]

            def chk_max(f, el, osh=osh, groups=groups):
                if f.shape != tuple(osh):
                    return "result has shape %s, expected %s" % (f.shape, osh)
                for i, (a, r) in enumerate(zip(f.reshape(-1), groups)):
                    if not same(a, pick(el, r)):
                        return "element %d of the result is %r, not the maximum" % (i, a)

            def chk_arg(f, el, osh=osh, groups=groups, n=sh[ax]):
                if f.shape != tuple(osh):
                    return "index has shape %s, expected %s" % (f.shape, osh)
                for a, r in zip(f.reshape(-1), groups):
                    a = toA(a, w.nbits)
                    c = a.t.get((), 0)
                    if set(a.t) - {()} or c % w.base:
                        return "index is %r" % a
                    j = c // w.base
                    if not 0 <= j < n or el.rank[r[j]] != maxkey(el, r):
                        return "index %d is not that of a maximum" % j
            for sc in (True, False):
                x = w.mk(k, "x", sh, sc)
                ek = "masked" if k == "M" and sh[ax] == 1 else kind[k]
                O.run("reduce_max", [x], [x], dict(axis=ax), groups, lambda fs, el: chk_max(fs[0], el), [Exp(ek, None, sc, None)])
                if sh[ax] == 1:
                    continue      # a single candidate: the index stays a public constant
                O.run("reduce_max_with_argmax", [x], [x], dict(axis=ax), groups, lambda fs, el: chk_max(fs[0], el) or chk_arg(fs[1], el),
                      [Exp(kind[k], None, sc, None), Exp(kind[k], None, True, None)])
                O.run("argmax", [x], [x], dict(axis=ax), groups, lambda fs, el: chk_arg(fs[0], el), [Exp(kind[k], None, True, None)])
        for ky in "PUM":
            for sc in (True, False):
                for shx, shy in (((2,), (2,)), ((2, 2), (2,))):
                    x, y = w.mk(k, "x", shx, sc), w.mk(ky, "y", shy, sc)
                    bx, by = np.broadcast_to(flat(shx), shx), np.broadcast_to(flat(shy), shx)
                    if k == "U" and ky != "U" and shx != shy:
                        continue
                    groups = [[("x", int(a)), ("y", int(b))] for a, b in zip(bx.reshape(-1), by.reshape(-1))]

                    def check(fs, el, groups=groups):
                        for i, r in enumerate(groups):
                            if not same(fs[0].reshape(-1)[i], pick(el, r)):
                                return "element %d of the maximum is %r" % (i, fs[0].reshape(-1)[i])
                    O.run("maximum", [x, y], [x, y], {}, groups, check,
                          [Exp("public" if k == ky == "U" else "private", None, sc, None)])
        for sc in (True, False):
            for op, sh, kw in (("relu", (2,), {}), ("relu_with_cmp", (2,), {}), ("relu", (2, 3), dict(max_size=2)), ("relu", (1, 5), dict(max_size=2)),
                               ("relu_with_cmp", (2, 3), dict(max_size=4)), ("relu_with_cmp", (1, 5), dict(max_size=2)), ("relu", (2, 2), dict(max_size=4)),
                               ("relu", (2, 2), dict(max_size=None)), ("relu_with_cmp", (3, 2), dict(max_size=1))):
                x = w.mk(k, "x", sh, sc)
                n = int(np.prod(sh))
                groups = [[("x", i)] for i in range(n)]

                def check(fs, el, sh=sh, n=n):
                    for f in fs:
                        if f.shape != tuple(sh):
                            return "result has shape %s, expected %s" % (f.shape, sh)
                    for i in range(n):
                        r = el.rank[("x", i)]
                        a = fs[0].reshape(-1)[i]
                        if not same(a, val(el, ("x", i)) if r > el.zero else AF({})):
                            return "element %d of the result is %r" % (i, a)
                        if len(fs) > 1 and not same(fs[1].reshape(-1)[i], AF({(): 1}) if r >= el.zero else AF({})):
                            return "element %d of the comparison bit is %r" % (i, fs[1].reshape(-1)[i])
                O.run(op, [x], [x], kw, groups, check, [Exp(kind[k], None, sc, None)] + ([Exp(kind[k], None, False, None)] if op != "relu" else []), zero=True)
        for shape, size, st, pad in (((1, 1, 2, 4), (2, 2), (2, 2), "VALID"), ((2, 2, 2, 2), (2, 1), (1, 1), "VALID"), ((1, 2, 2, 3), (1, 2), (1, 1), "VALID"),
                                     ((2, 1, 3, 4), (1, 2), (2, 1), "VALID"), ((1, 2, 4, 2), (2, 2), (2, 2), "SAME"), ((2, 3, 1, 4), (1, 2), (1, 2), "SAME")):
            x = w.mk(k, "x", shape)
            ix = flat(shape)
            n, c, h, wd = shape
            oh, ow = -(-(h - size[0] + 1) // st[0]), -(-(wd - size[1] + 1) // st[1])
            groups = [[("x", int(q)) for q in ix[b, ch, i * st[0]:i * st[0] + size[0], j * st[1]:j * st[1] + size[1]].reshape(-1)]
                      for b in range(n) for ch in range(c) for i in range(oh) for j in range(ow)]

            def check(fs, el, want=(n, c, oh, ow), groups=groups):
                f = fs[0]
                if f.shape != want:
                    return "result has shape %s, expected %s" % (f.shape, want)
                for a, r in zip(f.reshape(-1), groups):
                    if not same(a, pick(el, r)):
                        return "a window's result is %r, not its maximum" % (a,)
            O.run("maxpool2d", [x], [x, size, st, pad], {}, groups, check, [Exp(kind[k], None, True, None)])


# --------------------------------------------------------------- layer 2
class BitElem(Elem):
    """polynomials over bits; words stay opaque except through their bits"""

    def __init__(self, nbits, beta, zero_words=(), nonzero=()):
        Elem.__init__(self, nbits)
        self.nonzero = set(nonzero)
        self.beta = beta
        self.zero = dict(zero_words)         # opaque word atom -> literal value in this case
        self.tests = {}
        self.words = {}

    def o_sample_bits(self, n):
        return to_obj(tuple(n.shape), lambda k, idx: a_const(self.beta))

    def o_sample_uniform(self, n):
        name, lo, hi = n.params
        M = n.factory.modulus
        unit = isinstance(lo, int) and lo >= 1 and (hi is None or isinstance(hi, int) and hi <= M)
        full = lo in (None, 0) and hi in (None, M)
        tag = "unit" if unit else ("uni" if full else "rnd")
        return to_obj(tuple(n.shape), lambda k, idx: AF({((tag, name, n.factory.name, k),): 1}))

    def o_bits(self, n):
        src = n.ins[0]
        nb = self.nbits(src)
        x = self.form(src)
        out = np.empty(x.shape + (n.params[0] or nb,), dtype=object)
        M = src.factory.modulus
        for idx in np.ndindex(*x.shape):
            f = self.word(mred(toA(x[idx], nb), M), M)
            for i in range(out.shape[-1]):
                out[idx + (i,)] = self.bit_of(f, i, M, nb)
        return out

    def word(self, f, M):
        """a blinded value (data + mask, same ring) as one opaque word"""
        body = AF({m: c for m, c in f.t.items() if m})
        kinds = {g[0] for m in body.t for g in m}
        if "v" not in kinds or "bit" in kinds:
            return f
        g = ("word", "sum", body.key(), M, M)
        w = a_const(self.zero[g]) if g in self.zero else AF({(g,): 1})
        return mred(a_add(w, a_const(f.t.get((), 0))), M)

    def bit_of(self, f, i, M, nb):
        if set(f.t) <= {()}:
            v = f.t.get((), 0) % M
            return a_const(v >> min(i, nb - 1) & 1)
        if is_bit(f):
            return f if i == 0 else AF({})
        self.words[f.key()] = (f, M)
        if i == 0 and M == 1 << nb and f.t.get((), 0) % 2:
            g = a_add(f, a_const(1), -1)
            g = mred(g, M)
            self.words[g.key()] = (g, M)
            return a_add(a_const(1), AF({(("bit", ("of", g.key(), M, 0)),): 1}), -1)
        return AF({(("bit", ("of", f.key(), M, i)),): 1})

    def o_cast(self, n):
        src = n.ins[0]
        Ms, Md = src.factory.modulus, n.factory.modulus

        def c(f):
            f = mred(toA(f, self.nb), Ms)
            if set(f.t) <= {()}:
                v = f.t.get((), 0)
                if Ms % 2 == 0 and Md == Ms - 1 and v == -1:
                    return AF({})
                return a_const(v)
            if small(f, min(Ms, Md)):
                return f
            g = ("word", "cast", f.key(), Ms, Md)
            if g in self.zero:
                return a_const(self.zero[g])
            return AF({(g,): 1})
        return elementwise(c, self.form(src))

    def o_equal_zero(self, n):
        M = n.ins[0].factory.modulus

        def f(x):
            x = self.word(mred(toA(x, self.nb), M), M)
            if set(x.t) <= {()}:
                return a_const(int(x.t.get((), 0) % M == 0))
            k = ("bit", ("eq0", x.key(), M))
            if k in self.nonzero:
                return AF({})
            self.tests[k] = (x, M)
            return AF({(k,): 1})
        return elementwise(f, self.form(n.ins[0]))


def is_bit(f):
    return len(f.t) == 1 and list(f.t.values()) == [1] and all(g[0] == "bit" for g in next(iter(f.t)))


def small(f, M):
    """a value known to lie in [0, M) that survives a change of ring"""
    if not all(g[0] == "bit" for m in f.t for g in m):
        return False
    r = span(f)
    return r is not None and r[0] >= 0 and r[1] < M


def span(f):
    """exact range of a polynomial over independent bits (None: components too large)"""
    parent = {}

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    for m in f.t:
        for g in m:
            parent.setdefault(g, g)
        for g in m[1:]:
            parent[find(g)] = find(m[0])
    comp = {}
    for m, c in f.t.items():
        if m:
            comp.setdefault(find(m[0]), []).append((m, c))
    lo = hi = f.t.get((), 0)
    cache = {}
    for ms in comp.values():
        vs = sorted({g for m, _ in ms for g in m}, key=repr)
        if len(vs) > 10:
            return None
        ix = {g: i for i, g in enumerate(vs)}
        key = frozenset((frozenset(ix[g] for g in m), c) for m, c in ms)
        if key not in cache:
            tot = [sum(c for m, c in ms if all(b[ix[g]] for g in m)) for b in itertools.product((0, 1), repeat=len(vs))]
            cache[key] = min(tot), max(tot)
        lo += cache[key][0]
        hi += cache[key][1]
    return lo, hi


def subst(f, env, M):
    """replace bit atoms by polynomials"""
    if not any(g in env for m in f.t for g in m):
        return f
    acc = {}
    for m, c in f.t.items():
        p = AF({tuple(g for g in m if g not in env): c})
        for g in m:
            if g in env:
                p = a_mul(p, env[g])
        for k, v in p.t.items():
            acc[k] = acc.get(k, 0) + v
    return mred(AF(acc), M) if M else AF(acc)


def strip_units(f):
    """divide by the invertible random factors common to all terms; None if another random factor is common"""
    ms = list(f.t)
    com = [g for g in ms[0] if g[0] in ("unit", "uni", "rnd") and all(g in m for m in ms)]
    bad = [g for g in com if g[0] != "unit"]
    if not com:
        return f, bad
    out = {}
    for m, c in f.t.items():
        r = list(m)
        for g in com:
            while g in r:
                r.remove(g)
        out[tuple(r)] = c
    return AF(out), bad


def isprime(p):
    return p > 1 and all(p % d for d in range(2, int(p ** 0.5) + 1))


class Sign:
    """decides the private sign/parity protocol"""

    def __init__(self, w, rep, prefix):
        self.w, self.rep, self.prefix = w, rep, prefix
        self.cases = 0

    def check(self, nm, out, want):
        """out: result tensor; want(F, M) -> None or complaint about the word whose parity is taken"""
        w, rep = self.w, self.rep
        sec = w.secret(out)
        where = out_loc(out, w)
        try:
            for beta in (0, 1):
                el = BitElem(w.nbits, beta)
                arr = el.form(sec)
                for i, f in enumerate(arr.reshape(-1)):
                    m = self.element(el, toA(f, w.nbits), sec, beta, want, i)
                    if m:
                        rep.bad("value", nm, "%s; built in %s" % (m, where))
                        return
            rep.ok("value", nm, "parity of the blinded word, all %d cases" % self.cases)
        except (Undef, TooBig) as e:
            rep.undecided("value", nm, str(e) or "too large")

    def element(self, el, f, sec, beta, want, i):
        nb = self.w.nbits
        M = sec.factory.modulus
        # zero tests of the revealed word split into cases: none succeeds / the word has the tested value
        split = {}
        for g in sorted(tests_in(el, f), key=repr):
            x, Mx = el.tests[g]
            ws = [a for m in x.t for a in m if a[0] == "word"]
            if not ws:
                continue
            if len(ws) != 1 or set(x.t) - {(), (ws[0],)} or x.t[(ws[0],)] not in (1, -1):
                raise Undef("zero test of %s" % show(x))
            split[g] = (ws[0], -x.t.get((), 0) * x.t[(ws[0],)] % Mx, Mx)
        el0 = el
        if split:
            el0 = BitElem(el.nb, beta, nonzero=list(split))
            f = toA(el0.form(sec).reshape(-1)[i], nb)
        info = self.identify(el0, f, want)
        if not isinstance(info, tuple):
            return info
        R, Mr, ca, Mc, d = info
        r = self.settle(el0, f, M, beta, info, None)
        if r:
            return r
        values = {v for w_, v, Mx in split.values()}
        if any(w_ != ca or Mx != Mc for w_, v, Mx in split.values()):
            raise Undef("zero test of another word")
        if d:
            values.add(Mc - d)               # the compared word wraps around
        for v in sorted(values):
            h = Mc // 2
            el1 = BitElem(el.nb, beta, {ca: (v + h) % Mc - h})
            r = self.settle(el1, toA(el1.form(sec).reshape(-1)[i], nb), M, beta, info, v)
            if r:
                return r
        return None

    def words(self, el, f):
        """the words whose bits the result depends on, with the bit positions used inside zero tests"""
        keys = {}

        def scan(p, inner):
            for m in p.t:
                for g in m:
                    if g[0] == "bit" and g[1][0] == "of":
                        s = keys.setdefault((g[1][1], g[1][2]), set())
                        if inner:
                            s.add(g[1][3])
                    elif g in el.tests:
                        scan(el.tests[g][0], True)
        scan(f, False)
        return [(el.words[k][0], M, s) for (k, M), s in keys.items()]

    def identify(self, el, f, want):
        """mask word R, revealed word C and the offset d of the word C + d that R is compared with; or a complaint"""
        nb = el.nb
        ws = self.words(el, f)
        rs = [(x, M) for x, M, _ in ws if all(len(m) == 1 and m[0][0] in ("uni", "rnd", "unit") for m in x.t)]
        if not rs and len(ws) == 1:          # public
            x, Mx, _ = ws[0]
            self.cases += 1
            top = AF({(("bit", ("of", x.key(), Mx, nb - 1)),): 1})
            x2 = unword(x)
            if f == top and Mx == self.w.factory.modulus and len(x2.t) == 1 and list(x2.t.values()) == [1]:
                return None          # two's complement sign bit of the value itself
            if f != AF({(("bit", ("of", x.key(), Mx, 0)),): 1}):
                return "the result is %s, neither the sign bit nor the parity of a word" % show(f)[:200]
            if self.w.factory.kind == "crt" and Mx == self.w.factory.modulus:
                return "the parity of %s is taken, but the bits of a residue are those of its centred representative" % show(x2)
            return want(x2, Mx)
        if len(rs) != 1:
            raise Undef("the mask cannot be identified (%d words)" % len(ws))
        (R, Mr), = rs
        if any(m[0][0] == "rnd" for m in R.t):
            return "the mask is not drawn from the whole ring"
        others = [(x, Mx, s) for x, Mx, s in ws if x.key() != R.key()]
        cas = {a for x, _, _ in others for m in x.t for a in m if a[0] == "word"}
        if len(cas) != 1:
            raise Undef("the revealed word cannot be identified")
        (ca,) = cas
        Fc = AF(dict(ca[2][1]))
        if ca[3] != Mr:
            return "mask and revealed word live in rings of size %d and %d" % (Mr, ca[3])
        X = mred(a_add(Fc, R, -1), Mr)
        if any(g[0] in ("uni", "unit", "rnd") for m in X.t for g in m):
            return "the revealed word is not value + mask: %s" % show(X)
        c = want(X, Mr)
        if c:
            return c
        Mc = ca[4]
        ds = set()
        for x, Mx, s in others:
            if Mx != Mc or set(x.t) - {(), (ca,)} or x.t.get((ca,)) != 1:
                raise Undef("compares with %s" % show(x))
            if any(j > 0 for j in s):
                ds.add(x.t.get((), 0) % Mc)
        if len(ds) != 1:
            return "the mask is compared with %d different words" % len(ds)
        (d,) = ds
        if d not in (0, 1):
            return "the mask is compared with the revealed word shifted by %d" % d
        return R, Mr, ca, Mc, d

    def settle(self, el, f, M, beta, info, known):
        """all positions of the highest difference between the mask and the word it is compared with"""
        nb = el.nb
        R, Mr, ca, Mc, d = info
        rb = [("bit", ("of", R.key(), Mr, j)) for j in range(nb)]
        if known is not None:
            s = (known + d) % Mc
            sb = [a_const(s >> j & 1) for j in range(nb)]
            c0 = a_const(known & 1)
            wrap = known + d >= Mc
        else:
            C = AF({(ca,): 1})
            c0 = AF({(("bit", ("of", C.key(), Mc, 0)),): 1})
            S = a_add(C, a_const(d))
            sb = [el.bit_of(S, j, Mc, nb) for j in range(nb)]
            wrap = False

        def above(kind):
            """is the mask larger than the revealed word?"""
            if wrap:
                return False
            return kind == "above" if d == 0 else kind != "below"
        cases = []
        eqenv = {}
        for k in range(nb - 1, -1, -1):
            for kind, rv in (("above", 1), ("below", 0)):
                env = dict(eqenv)
                env[rb[k]] = a_const(rv)
                at = atoms_of(sb[k])
                if not at and sb[k] == a_const(rv):
                    continue
                for g in at:
                    env[g] = solve(sb[k], g, 1 - rv)
                cases.append((kind, env, k))
            eqenv[rb[k]] = sb[k]
        cases.append(("equal", eqenv, -1))
        tests = sorted({g for m in f.t for g in m if g in el.tests}, key=repr)
        parts = {g: Parts(el.tests[g], rb, sb) for g in tests}
        for kind, env, k in cases:
            self.cases += 1
            e2 = dict(env)
            for g in tests:
                x, Mx = el.tests[g]
                z = parts[g].decide(self, kind, k, env)
                if isinstance(z, str):
                    return "%s, when %s" % (z, self.describe(kind, k, beta, known))
                if z is None:
                    raise Undef("zero test of %s" % show(subst(x, env, Mx))[:200])
                e2[g] = a_const(z)
            got = subst(f, e2, M)
            r0 = subst(AF({(rb[0],): 1}), env, None)
            cc = subst(c0, env, None)
            exp = xor(xor(r0, cc), a_const(int(above(kind))))
            if mred(a_add(got, exp, -1), M).t:
                return "the bit is %s, expected %s, when %s" % (show(got)[:120], show(exp)[:120], self.describe(kind, k, beta, known))
        return None

    def describe(self, kind, k, beta, known):
        s = "" if known is None else ", the revealed word is %d" % known
        if kind == "equal":
            return "the mask equals the word it is compared with (beta=%d%s)" % (beta, s)
        return "the mask is %s the word it is compared with, first in bit %s (beta=%d%s)" % (kind, k, beta, s)

    def zero_test(self, y, M):
        """slow path: an arbitrary polynomial"""
        if set(y.t) <= {()}:
            return int(y.t.get((), 0) % M == 0)
        h, bad = strip_units(y)
        if bad:
            return MAYBE
        if h is not y and not isprime(M):
            return NOINV % M
        if not all(g[0] == "bit" for m in h.t for g in m):
            return None
        r = span(h)
        return None if r is None else in_range(r[0], r[1], M)


MAYBE = "a value is tested for zero after multiplication with a random factor that may itself be zero"
NOINV = "a random factor is not invertible modulo %d"


def in_range(lo, hi, M):
    """is every value in lo..hi zero / non-zero modulo M?"""
    if lo == hi:
        return int(lo % M == 0)
    if lo // M == hi // M and lo % M:
        return 0
    return "a zero test may succeed or fail depending on lower bits (values %d..%d modulo %d)" % (lo, hi, M)


class Parts:
    """a tested polynomial, split by bit position so that a case costs one table lookup per position"""

    def __init__(self, test, rb, sb):
        self.x, self.M = test
        self.pos = None
        self.memo = {}
        self.fail = None
        h, bad = strip_units(self.x) if self.x.t else (self.x, [])
        if bad:
            self.fail = MAYBE
        elif h is not self.x and not isprime(self.M):
            self.fail = NOINV % self.M
        at = {}
        for j, (r, q) in enumerate(zip(rb, sb)):
            at[r] = j
            for g in atoms_of(q):
                at[g] = j
        pos = {}
        self.const = 0
        for m, c in h.t.items():
            js = {at.get(g) for g in m}
            if not m:
                self.const = c
            elif len(js) == 1 and None not in js:
                pos.setdefault(js.pop(), {})[m] = c
            else:
                return
        self.pos = {j: AF(t) for j, t in pos.items()}

    def decide(self, S, kind, k, env):
        if self.pos is None or self.fail:
            y = subst(self.x, env, self.M)
            if self.fail and y.t:
                return self.fail
            return S.zero_test(y, self.M)
        lo = hi = self.const
        for j, p in self.pos.items():
            st = "free" if j < k else (kind if j == k else "eq")
            r = self.memo.get((j, st))
            if r is None:
                q = p
                if st != "free":
                    q = subst(p, env, None)
                r = self.memo[(j, st)] = span(q)
            lo += r[0]
            hi += r[1]
        return in_range(lo, hi, self.M)


def unword(x):
    acc = AF({})
    for m, c in x.t.items():
        if len(m) == 1 and m[0][:2] == ("word", "sum"):
            acc = a_add(acc, a_scale(AF(dict(m[0][2][1])), c))
        else:
            acc = a_add(acc, AF({m: c}))
    return acc


def tests_in(el, f):
    out, todo = set(), [f]
    while todo:
        for m in todo.pop().t:
            for g in m:
                if g in el.tests and g not in out:
                    out.add(g)
                    todo.append(el.tests[g][0])
    return out


def atoms_of(p):
    return {g for m in p.t for g in m}


def solve(p, g, v):
    """value of the single bit g that makes p (g or 1-g) equal v"""
    for b in (0, 1):
        q = subst(p, {g: a_const(b)}, None)
        if q == a_const(v):
            return a_const(b)
    raise Undef("bit equation")


def xor(a, b):
    return a_add(a_add(a, b), a_scale(a_mul(a, b), 2), -1)


def sign_roots(cfg, rep, prefix, swap):
    """msb for every kind, lsb of odd-ring tensors"""
    w = SecureNNLib(cfg, swap)
    for n in OWN:
        w.it.overrides.pop(SN + n, None)
    w.prime = w.it.getattr(w.prot, "prime_factory")
    w.odd = w.it.getattr(w.prot, "odd_factory")
    it = w.it
    S = Sign(w, rep, prefix)
    same_ring = w.odd is w.factory
    M = w.factory.modulus

    def run(op, x):
        c = Cx(op, w.label(op, [x], {}))
        c.judged = True
        w.order.append(c)
        nm = prefix + c.label
        w.run(c, lambda: it.call(it.getattr(w.prot, op), [x], {}), None, lambda: None, [x])
        if c.status == "raise":
            rep.bad("total", nm, "raises %s at %s" % (c.why, getattr(c.why, "loc", None)))
            return None, nm
        if c.status != "ok":
            rep.undecided("total", nm, c.why)
            return None, nm
        rep.ok("total", nm)
        PondJudge(w, rep, prefix).handed(c, nm)
        return c.result, nm

    for k in "PUM":
        for sc in (True, False):
            for sh in ((1,), (2, 1)) if k == "P" and sc else ((1,),):
                x = w.mk(k, "x", sh, sc)
                o, nm = run("msb", x)
                if o is None:
                    continue
                PondJudge(w, rep, prefix).one(nm, o, Exp("public" if k == "U" else "private", None, False, None))
                if w.fac(o) is not w.factory:
                    rep.bad("ring", nm, "the sign lives in %s, not in the protocol's ring" % w.fac(o).name)
                n = 1 if k == "U" else 2
                S.check(nm, o, lambda X, Mx: sign_word(X, Mx, M, same_ring, n))
    for k in "P":
        x = w.mk(k, "x", (1,), False, w.odd)
        o, nm = run("lsb", x)
        if o is not None:
            PondJudge(w, rep, prefix).one(nm, o, Exp("private", None, False, None))
            S.check(nm, o, lambda X, Mx: None if X == AF({(("v", "x", 0),): 1}) else "the parity of %s is computed" % show(X))
    J = PondJudge(w, rep, prefix)
    for c in w.order:
        if not getattr(c, "judged", False):
            J.context(c)
    return w, S


def sign_word(X, Mx, M, same_ring, n):
    """the word whose parity is computed must be twice the value, and the change of ring must not alter the sign"""
    if Mx % 2 == 0:
        return "parity of twice the value says nothing modulo the even number %d" % Mx
    if same_ring:
        v = [m for m in X.t if m and m[0][0] == "v"]
        if len(X.t) == 1 and len(v) == 1 and X.t[v[0]] == 2:
            return None
        return "the parity of %s is computed, expected twice the value" % show(X)
    tot = AF({})
    for m, c in X.t.items():
        if len(m) != 1 or m[0][0] != "word" or c != 2 or m[0][3] != M:
            return "the parity of %s is computed, expected twice the value" % show(X)
        tot = a_add(tot, AF(dict(m[0][2][1])))
    if len(X.t) != n:
        return "the parity of %s is computed, expected twice the value" % show(X)
    tot = mred(tot, M)
    c0 = tot.t.get((), 0)
    rest = {m: c for m, c in tot.t.items() if m}
    if len(rest) != 1 or list(rest.values()) != [1] or next(iter(rest))[0][:2] != ("v", "x"):
        return "the parity of twice %s is computed, expected twice the value" % show(tot)
    if c0 == 0:
        return "the value -1 becomes 0 in the ring without -1, so its sign is lost"
    if c0 != -1:
        return "the value is shifted by %d before its sign is taken" % c0
    return None


def run_sign(cfg, tier, rep):
    rep.contexts = 0
    cases = 0
    for swap in (0.0, 0.9):
        w, S = sign_roots(cfg, rep, "[securenn %s%s] " % (cfg, ", beta from server 1" if swap else ""), swap)
        rep.functions |= set(w.it.visited)
        rep.contexts += len(w.order)
        cases += S.cases
    rep.extra = {"bit_cases_checked": cases}
    return rep


def run_select(cfg, tier, rep):
    pre = "[securenn %s] " % cfg
    w = SecureNNLib(cfg, 0.0)
    w.prime = w.it.getattr(w.prot, "prime_factory")
    roots(w, tier)
    O = SNOrders(w, rep, pre)
    sel_roots(O, tier)
    J = PondJudge(w, rep, pre)
    for c in w.order:
        if not getattr(c, "judged", False) and c.name != "msb":
            J.context(c)
    rep.functions |= set(w.it.visited)
    rep.contexts = len(w.order)
    rep.extra = {"orderings_checked": O.cases}
    return rep
