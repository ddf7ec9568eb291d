"""Bit-vector value domain: canonical (reduced, ordered) decision diagrams.

Used for circuits whose polynomial normal form is too large (adders, carry
networks) and for range facts about truncation.  Two bit-vectors are equal for
every valuation of their atoms iff their diagrams are identical, so the domain
decides equality exactly for all values of a fixed word width.
"""
import numpy as np

from .algebra import AF, BF, ONES, TooBig
from . import elem as E
from .elem import Elem, Undef, elementwise, to_obj, _maplist

LIMIT = 400_000
TOP = 300


class BDD:
    def __init__(self):
        self.var = [1 << 30, 1 << 30]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.memo_and = {}
        self.memo_xor = {}
        self.vars = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            if len(self.var) > LIMIT:
                raise TooBig()
            r = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
        return r

    def variable(self, order):
        return self.mk(order, 0, 1)

    def AND(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1:
            return b
        k = (a, b)
        r = self.memo_and.get(k)
        if r is not None:
            return r
        va, vb = self.var[a], self.var[b]
        v = va if va < vb else vb
        a0, a1 = (self.lo[a], self.hi[a]) if va == v else (a, a)
        b0, b1 = (self.lo[b], self.hi[b]) if vb == v else (b, b)
        r = self.mk(v, self.AND(a0, b0), self.AND(a1, b1))
        self.memo_and[k] = r
        return r

    def XOR(self, a, b):
        if a == b:
            return 0
        if a > b:
            a, b = b, a
        if a == 0:
            return b
        k = (a, b)
        r = self.memo_xor.get(k)
        if r is not None:
            return r
        if a == 1:
            r = self.mk(self.var[b], self.XOR(1, self.lo[b]), self.XOR(1, self.hi[b]))
        else:
            va, vb = self.var[a], self.var[b]
            v = va if va < vb else vb
            a0, a1 = (self.lo[a], self.hi[a]) if va == v else (a, a)
            b0, b1 = (self.lo[b], self.hi[b]) if vb == v else (b, b)
            r = self.mk(v, self.XOR(a0, b0), self.XOR(a1, b1))
        self.memo_xor[k] = r
        return r

    def NOT(self, a):
        return self.XOR(1, a)

    def OR(self, a, b):
        return self.XOR(self.XOR(a, b), self.AND(a, b))

    def ITE(self, c, a, b):
        return self.XOR(b, self.AND(c, self.XOR(a, b)))

    def witness(self, f):
        """one satisfying path as {var order: value}"""
        out = {}
        while f > 1:
            if self.lo[f] != 0:
                out[self.var[f]] = 0
                f = self.lo[f]
            else:
                out[self.var[f]] = 1
                f = self.hi[f]
        return out


class BV:
    __slots__ = ("b",)

    def __init__(self, bits):
        self.b = tuple(bits)

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def key(self):
        return self.b


class BVDomain:
    def __init__(self):
        self.m = BDD()
        self.atoms = {}
        self.names = []
        self.assumed = {}     # atom -> {bit: 0/1}

    def const(self, v, nb):
        return BV((int(v) >> i) & 1 for i in range(nb))

    def idx(self, a):
        i = self.atoms.get(a)
        if i is None:
            i = self.atoms[a] = len(self.names)
            self.names.append(a)
            if i > 60:
                raise TooBig()
        return i

    def atom(self, a, nb):
        i = self.idx(a)
        fix = self.assumed.get(a, {})
        return BV(fix[k] if k in fix else self.m.variable((TOP - k) * 64 + i) for k in range(nb))

    def bitatom(self, a):
        i = self.idx(("bitatom", a))
        return self.m.variable(i)

    def fit(self, x, nb):
        if len(x.b) >= nb:
            return BV(x.b[:nb])
        return BV(x.b + (x.b[-1],) * (nb - len(x.b)))

    def add(self, x, y, cin=0):
        m = self.m
        c = cin
        out = []
        for a, b in zip(x.b, y.b):
            p = m.XOR(a, b)
            out.append(m.XOR(p, c))
            c = m.XOR(m.AND(a, b), m.AND(p, c))
        return BV(out)

    def neg(self, x):
        return self.add(BV([0] * len(x.b)), self.not_(x), 1)

    def sub(self, x, y):
        return self.add(x, self.not_(y), 1)

    def not_(self, x):
        return BV(self.m.NOT(a) for a in x.b)

    def xor(self, x, y):
        return BV(self.m.XOR(a, b) for a, b in zip(x.b, y.b))

    def and_(self, x, y):
        return BV(self.m.AND(a, b) for a, b in zip(x.b, y.b))

    def or_(self, x, y):
        return BV(self.m.OR(a, b) for a, b in zip(x.b, y.b))

    def andbit(self, x, bit):
        return BV(self.m.AND(a, bit) for a in x.b)

    def ite(self, c, x, y):
        return BV(self.m.ITE(c, a, b) for a, b in zip(x.b, y.b))

    def shl(self, x, k):
        n = len(x.b)
        k = min(k, n)
        return BV((0,) * k + x.b[:n - k])

    def shr(self, x, k, fill=0):
        n = len(x.b)
        k = min(k, n)
        return BV(x.b[k:] + (fill,) * k)

    def ashr(self, x, k):
        return self.shr(x, k, x.b[-1])

    def isconst(self, x):
        if all(b < 2 for b in x.b):
            return sum(b << i for i, b in enumerate(x.b))
        return None

    def mulc(self, x, c):
        n = len(x.b)
        c &= (1 << n) - 1
        neg = False
        if bin(c).count("1") > bin((-c) & ((1 << n) - 1)).count("1"):
            c = (-c) & ((1 << n) - 1)
            neg = True
        acc = BV([0] * n)
        i = 0
        while c >> i:
            if c >> i & 1:
                acc = self.add(acc, self.shl(x, i))
            i += 1
        return self.neg(acc) if neg else acc

    def product(self, x, y):
        cx, cy = self.isconst(x), self.isconst(y)
        if cx is not None:
            return self.mulc(y, cx)
        if cy is not None:
            return self.mulc(x, cy)
        for a, b in ((x, y), (y, x)):
            if all(t == 0 for t in a.b[1:]):
                return self.andbit(b, a.b[0])
            if len(set(a.b)) == 1:
                return self.neg(self.andbit(b, a.b[0]))
        raise Undef("product of two unknown words")

    def nonzero(self, x):
        r = 0
        for a in reversed(x.b):
            r = self.m.OR(r, a)
        return r

    def ult(self, x, y):
        """unsigned x < y"""
        lt = 0
        m = self.m
        for a, b in zip(x.b, y.b):
            lt = m.ITE(m.XOR(a, b), b, lt)
        return lt

    def slt(self, x, y):
        fx = BV(x.b[:-1] + (self.m.NOT(x.b[-1]),))
        fy = BV(y.b[:-1] + (self.m.NOT(y.b[-1]),))
        return self.ult(fx, fy)

    # ------------------------------------------------------- forms -> BV
    def factor(self, g, nb):
        t = g[0]
        if t == "bit":
            return BV([self.bit(g[1])] + [0] * (nb - 1))
        if t == "B":
            return self.word(BF(g[1][1]), nb)
        if t == "A":
            return self.arith(AF(dict(g[1][1])), nb)
        if t == "fn" and g[1] == "widen":
            sb, wb = g[2]
            k = g[3]
            f = AF(dict(k[1])) if k[0] == "A" else BF(k[1])
            x = self.arith(f, sb) if isinstance(f, AF) else self.word(f, sb)
            return self.fit(x, nb)
        return self.atom(g, nb)

    def bit(self, g):
        if g[0] == "bitof":
            w = self.factor(g[2], max(g[1] + 1, E.WORDBITS))
            return w.b[g[1]]
        if g[0] == "nz":
            k = g[1]
            f = AF(dict(k[1])) if k[0] == "A" else BF(k[1])
            return self.nonzero(self.form(f, E.WORDBITS))
        if g[0] == "fn" and g[1] == "carry":
            x, y = [self.form(AF(dict(k[1])) if k[0] == "A" else BF(k[1]), E.WORDBITS) for k in g[3:5]]
            return self.carry(x, y, g[2][0])
        return self.bitatom(g)

    def carry(self, x, y, pos):
        m = self.m
        c = 0
        for i in range(pos + 1):
            p = m.XOR(x.b[i], y.b[i])
            c = m.XOR(m.AND(x.b[i], y.b[i]), m.AND(p, c))
        return c

    def arith(self, f, nb):
        if isinstance(f, BF):
            return self.word(f, nb)
        acc = BV([0] * nb)
        for mset, c in sorted(f.t.items(), key=lambda kv: repr(kv[0])):
            if not isinstance(c, int):
                raise Undef("non-integer coefficient")
            p = None
            words = [g for g in mset if g[0] != "bit"]
            if len(words) > 1:
                # a product of unknown words is an unknown word of its own
                p = self.atom(("prod",) + tuple(words), nb)
                mset = tuple(g for g in mset if g[0] == "bit")
            for g in mset:
                w = self.factor(g, nb)
                p = w if p is None else self.product(p, w)
            if p is None:
                p = self.const(c, nb)
            else:
                p = self.mulc(p, c)
            acc = self.add(acc, p)
        return acc

    def word(self, f, nb):
        acc = BV([0] * nb)
        full = BV([1] * nb)
        for mset in f.t:
            p = full
            for g in mset:
                if g[0] == "c":
                    w = self.const(g[1], nb)
                elif g[0] == "m":
                    base = self.factor(g[2], max(nb, len(_maplist[g[1]])))
                    mp = _maplist[g[1]]
                    w = BV((base.b[mp[i]] if i < len(mp) and mp[i] >= 0 else 0) for i in range(nb))
                elif g[0] == "rep":
                    w = BV([self.bit(g[1])] * nb)
                elif g[0] == "bit":
                    w = BV([self.bit(g[1])] * nb)
                else:
                    w = self.factor(g, nb)
                p = self.and_(p, w)
            acc = self.xor(acc, p)
        return acc

    def form(self, f, nb):
        return self.arith(f, nb) if isinstance(f, AF) else self.word(f, nb)


class BVElem(Elem):
    """Elem whose entries are bit-vectors"""
    leafops = ("prf",)

    def __init__(self, dom, nbits=64):
        Elem.__init__(self, nbits)
        self.d = dom
        self.aux = Elem(nbits)

    def width(self, n):
        return 1 if self.isbool(n) else self.nbits(n)

    def reduce(self, arr, n):
        return arr

    def lit(self, v, n):
        if isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, float):
            v = int(v)
        if not isinstance(v, (int, bool)):
            raise Undef("literal %r" % (v,))
        return self.d.const(int(v), self.width(n))

    def atom(self, fac, n):
        return self.d.atom(fac, self.width(n))

    def wholefn(self, n, op):
        raise Undef("operation %s is outside the bit-vector domain" % op)

    def bi(self, n, f):
        a, b = self.form(n.ins[0]), self.form(n.ins[1])
        w = self.width(n)
        return elementwise(lambda x, y: f(self.d.fit(x, w), self.d.fit(y, w)), a, b)

    def un(self, n, f):
        return elementwise(f, self.form(n.ins[0]))

    def o_wrap(self, n):
        if not n.ins:
            return self.o_const(n)
        src = n.ins[0]
        w = self.width(n)
        if self.isbool(n) and not self.isbool(src):
            return self.un(n, lambda x: BV([self.d.nonzero(x)]))
        if self.isbool(src) and not self.isbool(n):
            return self.un(n, lambda x: BV(x.b + (0,) * (w - 1)))
        return self.un(n, lambda x: self.d.fit(x, w))

    o_cast = o_wrap

    def o_tf_cast(self, n):
        return self.o_wrap(n)

    def o_add(self, n):
        return self.bi(n, self.d.xor if self.isbool(n) else self.d.add)

    def o_sub(self, n):
        return self.bi(n, self.d.xor if self.isbool(n) else self.d.sub)

    def o_neg(self, n):
        return self.form(n.ins[0]) if self.isbool(n) else self.un(n, self.d.neg)

    def o_mul(self, n):
        return self.bi(n, self.d.and_ if self.isbool(n) else self.d.product)

    def o_xor(self, n):
        return self.bi(n, self.d.xor)

    def o_and(self, n):
        return self.bi(n, self.d.and_)

    def o_or(self, n):
        return self.bi(n, self.d.or_)

    def o_not(self, n):
        return self.un(n, self.d.not_)

    def shifts(self, n, kind):
        a = self.form(n.ins[0])
        if len(n.ins) == 2:
            s = self.form(n.ins[1])
            s = elementwise(lambda x: self.d.isconst(x), s)
        else:
            p = n.params[0]
            if isinstance(p, tuple) and p and p[0] == "nd":
                s = np.array(p[2], dtype=object).reshape(p[1])
            elif isinstance(p, (int, tuple)):
                s = np.array(p, dtype=object)
            else:
                raise Undef("shift amount")

        def one(x, k):
            if k is None or k < 0:
                raise Undef("shift amount")
            return {"l": self.d.shl, "lr": self.d.shr, "ar": self.d.ashr}[kind](x, int(k))
        return elementwise(one, a, s)

    def gathermap(self, n, start, stride):
        w = self.width(n)
        src = list(range(start, w, stride))
        return lambda x: BV([x.b[i] for i in src] + [0] * (w - len(src)))

    def o_bit_gather(self, n):
        return self.un(n, self.gathermap(n, *n.params))

    def o_bit_split_and_gather(self, n):
        (stride,) = n.params
        return np.stack([self.un(n, self.gathermap(n, s, stride)) for s in range(stride)], 0)

    def o_bit_reverse(self, n):
        return self.un(n, lambda x: BV(reversed(x.b)))

    def o_bits(self, n):
        x = self.form(n.ins[0])
        k = n.params[0] or self.width(n.ins[0])
        w = self.width(n)
        out = np.empty(x.shape + (k,), dtype=object)
        for idx in np.ndindex(*x.shape):
            for i in range(k):
                b = x[idx].b
                bit = b[i] if i < len(b) else (b[-1] if len(b) > 1 else 0)
                out[idx + (i,)] = BV([bit] + [0] * (w - 1))
        return out

    def o_where(self, n):
        c, x, y = [self.form(i) for i in n.ins]
        w = self.width(n)
        return elementwise(lambda c, x, y: self.d.ite(self.d.nonzero(c), self.d.fit(x, w), self.d.fit(y, w)), c, x, y)

    def cmp(self, n, op):
        d = self.d
        w = self.width(n)
        wi = max(self.width(n.ins[0]), self.width(n.ins[1]))

        def f(x, y):
            x, y = d.fit(x, wi), d.fit(y, wi)
            if op in ("equal", "not_equal"):
                b = d.nonzero(d.xor(x, y))
                if op == "equal":
                    b = d.m.NOT(b)
            else:
                if op in ("greater", "less_equal"):
                    x, y = y, x
                b = d.slt(x, y)
                if op in ("less_equal", "greater_equal"):
                    b = d.m.NOT(b)
            return BV([b] + [0] * (w - 1))
        return elementwise(f, self.form(n.ins[0]), self.form(n.ins[1]))

    def o_trunc(self, n):
        return self.un(n, lambda x: self.d.ashr(x, n.params[0]))

    def o_msb(self, n):
        w = self.width(n)
        return self.un(n, lambda x: BV([x.b[-1]] + [0] * (w - 1)))

    def o_equal_zero(self, n):
        w = self.width(n)
        return self.un(n, lambda x: BV([self.d.m.NOT(self.d.nonzero(x))] + [0] * (w - 1)))

    def o_cmp_eq0(self, n):
        return self.un(n, lambda x: BV([self.d.m.NOT(self.d.nonzero(x))]))

    def o_carry(self, n):
        (pos,) = n.params
        d, m = self.d, self.d.m

        def f(x, y):
            c = 0
            for i in range(pos + 1):
                p = m.XOR(x.b[i], y.b[i])
                c = m.XOR(m.AND(x.b[i], y.b[i]), m.AND(p, c))
            return BV([c])
        return elementwise(f, self.form(n.ins[0]), self.form(n.ins[1]))

    def efn(self, n, op=None):
        raise Undef("operation %s is outside the bit-vector domain" % n.op)

    def o_div(self, n):
        raise Undef("division is outside the bit-vector domain")

    def o_prf(self, n):
        if n.ins:
            s = self.aux.form(n.ins[0])
            key = tuple(f.key() for f in s.reshape(-1))
        else:
            key = ("noseed", n.id)
        return to_obj(tuple(n.shape), lambda k, idx: self.atom(("prf", key, n.params, k), n))

    def o_matmul(self, n):
        raise Undef("matmul is outside the bit-vector domain")

    def o_conv2d(self, n):
        raise Undef("conv2d is outside the bit-vector domain")

    def o_reduce_sum(self, n):
        raise Undef("reduce_sum is outside the bit-vector domain")


def bv_diff(d, a, b):
    """first index where two BV arrays differ (with a witness), or None"""
    if a.shape != b.shape:
        return ("shape", a.shape, b.shape)
    for idx in np.ndindex(*a.shape):
        x, y = a[idx], b[idx]
        w = max(len(x.b), len(y.b))
        if x.b != y.b:
            for k in range(min(len(x.b), len(y.b))):
                t = d.m.XOR(x.b[k], y.b[k])
                if t:
                    return (idx, k, valuation(d, d.m.witness(t)))
            return (idx, "width", (len(x.b), len(y.b)))
    return None


def valuation(d, wit):
    vals = {}
    for v, b in wit.items():
        a = d.names[v % 64]
        k = TOP - v // 64 if v >= 64 else 0
        if b:
            vals[a] = vals.get(a, 0) | (1 << k)
        else:
            vals.setdefault(a, 0)
    return {("%s[%s]" % (a[1], a[2]) if len(a) > 2 else str(a)): hex(v) for a, v in vals.items()}
