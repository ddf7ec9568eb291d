"""Approximated functions (reciprocal, square roots, logarithm, powers of two, exponential, sigmoid, softmax ...).

The protocol's source is interpreted with the contracts of the exact operations, which gives the ideal IR of the function over
one symbolic input.  The input range is split where the *library* splits it (sign, highest bit, integer part, pieces), and in every case
the IR is evaluated in a polynomial-enclosure domain: a ring element is a Chebyshev polynomial in the (normalised) input plus a bound on
the accumulated deviation (one unit per truncation), boolean words are known-bit patterns.  The result is compared with the true function as
an enclosure of the difference over the whole case."""
import math

import numpy as np
from numpy.polynomial import chebyshev as C

from .elem import AF, BF, Elem, ONES, TooBig, Undef, elementwise, to_obj
from .interp import AbsRaise, Incomplete

MAXDEG = 48


def signed(v, nb):
    v %= 1 << nb
    return v - (1 << nb) if v >> (nb - 1) else v


def prange(p):
    """bounds of a Chebyshev polynomial over [-1,1]"""
    p = C.chebtrim(p)
    d = len(p) - 1
    if d == 0:
        return p[0], p[0]
    if d == 1:
        return p[0] - abs(p[1]), p[0] + abs(p[1])
    n = 8 * d
    v = C.chebval(np.cos(np.pi * (np.arange(n) + .5) / n), p)
    a, b = v.min(), v.max()
    w = (b - a) / 2 * (1 / math.cos(math.pi / 16) - 1)       # Ehlich-Zeller: maximum between the nodes
    return a - w, b + w


def interp(f, deg=44):
    """Chebyshev interpolant of an analytic function on [-1,1]"""
    t = np.cos(np.pi * (np.arange(deg + 1) + .5) / (deg + 1))
    y = np.array([f(x) for x in t], dtype=float)
    c = np.array([2 / (deg + 1) * np.sum(y * np.cos(k * np.arccos(t))) for k in range(deg + 1)])
    c[0] /= 2
    return c


REAL = {"sqrt": math.sqrt, "rsqrt": lambda v: v ** -.5, "reciprocal": lambda v: 1 / v, "exp": math.exp, "log": math.log,
        "sigmoid": lambda v: 1 / (1 + math.exp(-v)), "tanh": math.tanh, "square": lambda v: v * v}


class Piece:
    """the result of one non-linear step: a Chebyshev polynomial, known within e"""
    __slots__ = ("p", "e")

    def __init__(self, p, e):
        self.p, self.e = p, e


class V:
    """a ring element: constant c, or linear combination of pieces (so that differences cancel exactly), or bits km/kv known of a word"""
    __slots__ = ("c", "lin", "k", "nb", "km", "kv", "_r", "_p", "_e")

    def __init__(self, nb, c=None, p=None, e=0.0, km=None, kv=None, lin=None, k=0):
        if p is not None:
            lin, k = {Piece(np.asarray(p, dtype=float), float(e)): 1}, 0
        self.nb, self.c, self.lin, self.k, self.km, self.kv, self._r, self._p, self._e = nb, c, lin, k, km, kv, None, None, None
        if c is not None:
            self.c = signed(c, nb) if nb > 1 else c & 1

    @property
    def p(self):
        if self.lin is None:
            return None
        if self._p is None:
            r = np.array([float(self.k)])
            for q, w in self.lin.items():
                r = C.chebadd(r, float(w) * q.p)
            self._p = C.chebtrim(r)
        return self._p

    @property
    def e(self):
        if self.lin is None:
            return 0.0
        if self._e is None:
            self._e = sum(abs(float(w)) * q.e for q, w in self.lin.items())
        return self._e

    def key(self):
        return id(self)

    def __repr__(self):
        if self.c is not None:
            return str(self.c)
        if self.p is not None:
            a, b = self.range()
            return "value in [%g, %g]+-%g" % (a, b, self.e)
        return "word %x/%x" % (self.kv or 0, self.km or 0)

    def poly(self):
        if self.c is not None:
            return np.array([float(self.c)])
        if self.lin is None:
            raise Undef("a bit pattern is used as a number")
        return self.p

    def range(self):
        if self.c is not None:
            return self.c, self.c
        if self._r is None:
            a, b = prange(self.poly())
            s = (1e-13 if len(self.p) > 2 else 1e-15) * max(abs(a), abs(b))
            if self.e == 0:
                a, b = math.ceil(a - s - 1e-6), math.floor(b + s + 1e-6)
            else:
                a, b = a - s - self.e, b + s + self.e
            self._r = (a, b)
        return self._r

    def bits(self):
        """(mask of known bits, their values)"""
        full = (1 << self.nb) - 1
        if self.c is not None:
            return full, self.c & full
        km, kv = self.km or 0, self.kv or 0
        if self.p is not None:
            a, b = self.range()
            a, b = math.floor(a), math.ceil(b)
            h = 1 << (self.nb - 1)
            if -h <= a and b < h and (a >= 0) == (b >= 0):
                a, b = a & full, b & full
                n = (a ^ b).bit_length()
                m = full & ~((1 << n) - 1)
                km, kv = km | m, (kv & ~m) | (a & m)
        return km, kv

    def num(self):
        return self.c is not None or self.lin is not None


def word(nb, km, kv, p=None, e=0.0):
    full = (1 << nb) - 1
    if km & full == full:
        return V(nb, c=kv)
    return V(nb, p=p, e=e, km=km & full, kv=kv & km & full)


class Ap(Elem):
    """element values in the enclosure domain; sym maps (atom tag, element) to a V"""

    def __init__(self, nbits, sym, rounding=True):
        Elem.__init__(self, nbits)
        self.sym = sym
        self.rounding = rounding
        self.funs = {}
        self.cuts = {}

    def cut(self, n):
        """an operand of a bit operation that is only known within some units: remember it, its own value has to be split"""
        a = self.form(n)
        for k, x in enumerate(a.reshape(-1)):
            if isinstance(x, V) and x.p is not None and x.e > 0 and len(x.p) == 2:
                self.cuts[n.id] = (n, k, x)

    def step(self, n):
        if n.op in ("and", "xor", "or", "not", "lrshift", "arshift", "bits", "bit_reverse", "bit_gather", "xor_indices"):
            for i in n.ins:
                self.cut(i)
        if n.op.startswith("ext:tf.") and n.op.rsplit(".", 1)[1] in REAL:
            return self.realfn(n, REAL[n.op.rsplit(".", 1)[1]])
        return Elem.step(self, n)

    def realfn(self, n, f):
        """a TensorFlow function of real numbers"""
        def g(x):
            if x.nb != 256:
                raise Undef("real function of a ring element")
            p = x.poly()
            a, b = x.range()
            if x.c is not None or len(p) == 1:
                return V(256, p=np.array([f(float(p[0]))]), e=0)
            if x.e:
                raise Undef("real function of an inexact value")
            return V(256, p=interp(lambda t: f(float(C.chebval(t, p)))))
        return elementwise(g, self.form(n.ins[0]))

    def o_to_native(self, n):
        def g(x):
            if x.c is not None:
                return V(256, c=x.c)
            x.poly()
            r = V(256, lin=x.lin, k=x.k)
            r._r = x._r
            return r
        return elementwise(g, self.form(n.ins[0]))

    def o_div(self, n):
        def g(x, y):
            if y.c is not None:
                d = y.c
            elif y.lin is not None and len(y.p) == 1 and not y.e:
                d = float(y.p[0])
            else:
                raise Undef("division by an unknown value")
            if n.kind == "backing" or not d:
                raise Undef("division in the ring")
            if x.c is not None:
                return V(256, c=x.c // d) if isinstance(d, int) and x.c % d == 0 else V(256, p=np.array([x.c / d]))
            lx, kx = self.parts(x)
            return V(256, lin={q: w / d for q, w in lx.items()}, k=kx / d)
        return self.bi(n, g)

    # ---- constants and inputs
    def nbx(self, n):
        return 1 if self.isbool(n) else self.nbits(n)

    def lit(self, v, n):
        if isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float) and n.kind == "backing":
            v = int(v)
        if n.kind != "backing" and isinstance(v, float):
            r = V(256, p=np.array([v]))
            return r
        return V(self.nbx(n) if n.kind == "backing" else 256, c=int(v))

    def o_atom(self, n):
        if str(n.tag).startswith("~r"):
            # only inside tensors shown not to depend on their masks
            return to_obj(tuple(n.shape), lambda k, i: V(self.nbx(n), c=0))

        def at(k, idx):
            v = self.sym.get((n.tag, k))
            if v is None:
                raise Undef("unknown input %s" % n.tag)
            return v
        return to_obj(tuple(n.shape), at)

    def o_wrap(self, n):
        if not n.ins:
            return self.o_const(n)
        return elementwise(lambda x: self.conv(x, n), self.form(n.ins[0]))

    def conv(self, x, n):
        nb = self.nbx(n)
        if x.nb == nb or n.kind != "backing":
            return x
        if x.c is not None:
            return V(nb, c=x.c)
        if nb == 1:
            km, kv = x.bits()
            if km & 1:
                return V(1, c=kv & 1)
            raise Undef("unknown bit")
        if x.p is not None:
            if x.nb == 256:
                # a real number becomes a ring element (rounded towards zero)
                if len(C.chebtrim(x.p)) == 1 and x.e == 0:
                    return V(nb, c=int(x.p[0]))
                return self.fit(x.p, x.e + (1 if self.rounding else 0), nb)
            return self.fit(x.p, x.e, nb)
        raise Undef("width change of a bit pattern")

    o_cast = o_wrap

    def o_tf_cast(self, n):
        if n.params and n.params[0] == "tf.bool":
            raise Undef("cast to bool")
        return self.form(n.ins[0])

    def fit(self, p, e, nb):
        p = C.chebtrim(np.asarray(p, dtype=float))
        if len(p) > MAXDEG + 1:
            e = e + float(np.sum(np.abs(p[MAXDEG + 1:])))
            p = p[:MAXDEG + 1]
        v = V(nb, p=p, e=float(e))
        a, b = v.range()
        if nb < 256 and (a < -(1 << (nb - 1)) or b >= 1 << (nb - 1)):
            raise Undef("value in [%g, %g] may leave the ring" % (a, b))
        if len(p) == 1 and e == 0 and nb < 256 and abs(p[0]) < 2 ** 52 and p[0] == int(p[0]):
            return V(nb, c=int(p[0]))
        return v

    # ---- arithmetic
    def parts(self, x):
        if x.c is not None:
            return {}, x.c
        x.poly()
        return x.lin, x.k

    def combine(self, x, y, s, nb):
        """x + s y, piece by piece"""
        lx, kx = self.parts(x)
        ly, ky = self.parts(y)
        lin = dict(lx)
        for q, w in ly.items():
            v = lin.get(q, 0) + s * w
            if v:
                lin[q] = v
            else:
                lin.pop(q, None)
        return self.linear(lin, kx + s * ky, nb)

    def linear(self, lin, k, nb):
        if not lin:
            return V(nb, c=k) if nb < 256 or isinstance(k, int) else V(nb, p=np.array([float(k)]))
        r = V(nb, lin=lin, k=k)
        a, b = r.range()
        if nb < 256 and (a < -(1 << (nb - 1)) or b >= 1 << (nb - 1)):
            raise Undef("value in [%g, %g] may leave the ring" % (a, b))
        return r

    def addv(self, x, y, nb, s=1):
        if x.c is not None and y.c is not None:
            return V(nb, c=x.c + s * y.c)
        if x.c == 0 and s == 1:
            return y
        if y.c == 0:
            return x
        r = self.combine(x, y, s, nb)
        if r.c is None and y.c is not None and x.e == 0 and len(x.p) == 2:
            a, b = x.range()
            r._r = (a + s * y.c, b + s * y.c)
        elif r.c is None and x.c is not None and y.e == 0 and len(y.p) == 2:
            a, b = y.range()
            r._r = (x.c + a, x.c + b) if s > 0 else (x.c - b, x.c - a)
        return r

    def mulv(self, x, y, nb):
        if x.c is not None and y.c is not None:
            return V(nb, c=x.c * y.c)
        if x.c == 0 or y.c == 0:
            return V(nb, c=0)
        if x.c == 1:
            return y
        if y.c == 1:
            return x
        for u, v in ((x, y), (y, x)):
            if v.c is not None:
                lu, ku = self.parts(u)
                r = self.linear({q: w * v.c for q, w in lu.items()}, ku * v.c, nb)
                if u.e == 0 and len(u.p) == 2:
                    a, b = u.range()
                    r._r = (a * v.c, b * v.c) if v.c > 0 else (b * v.c, a * v.c)
                return r
        mx = max(map(abs, prange(x.poly())))
        my = max(map(abs, prange(y.poly())))
        return self.fit(C.chebmul(x.poly(), y.poly()), mx * y.e + my * x.e + x.e * y.e, nb)

    def o_add(self, n):
        nb = self.nbx(n) if n.kind == "backing" else 256
        return self.bi(n, lambda x, y: self.addv(x, y, nb))

    def o_sub(self, n):
        nb = self.nbx(n) if n.kind == "backing" else 256
        return self.bi(n, lambda x, y: self.addv(x, y, nb, -1))

    def o_neg(self, n):
        nb = self.nbx(n) if n.kind == "backing" else 256
        return elementwise(lambda x: self.addv(V(nb, c=0), x, nb, -1), self.form(n.ins[0]))

    def o_mul(self, n):
        nb = self.nbx(n) if n.kind == "backing" else 256
        return self.bi(n, lambda x, y: self.mulv(x, y, nb))

    def matmul2(self, a, b, nb):
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i, j in np.ndindex(*out.shape):
            acc = V(nb, c=0)
            for k in range(a.shape[1]):
                acc = self.addv(acc, self.mulv(a[i, k], b[k, j], nb), nb)
            out[i, j] = acc
        return out

    def sum_axis(self, a, ax, keep, nb):
        from .elem import axes_of
        axes = axes_of(ax, a.ndim)
        rest = [i for i in range(a.ndim) if i not in axes]
        t = a.transpose(rest + list(axes))
        shp = [a.shape[i] for i in rest]
        t = t.reshape(shp + [-1])
        out = np.empty(shp, dtype=object)
        for idx in np.ndindex(*shp):
            acc = V(nb, c=0)
            for f in t[idx]:
                acc = self.addv(acc, f, nb)
            out[idx] = acc
        if keep:
            out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return out

    def plus(self, x, y, n, nb):
        return self.addv(x, y, self.nbx(n))

    def unit(self, n):
        return 1.0

    symmetric = False       # truncation of shares by two servers errs in both directions

    def truncv(self, x, am, nb, base=2):
        """division by base**am; with rounding the result is the floor or one more"""
        d = base ** am
        if x.c is not None:
            return V(nb, c=x.c // d)
        r = self.fit(x.poly() / d, x.e / d + (1.0 if self.rounding else 0.0), nb)
        if self.rounding and r.c is None and not self.symmetric:
            a, b = x.range()
            ra, rb = r.range()
            r._r = (max(ra, math.floor(a / d)), min(rb, math.floor(b / d) + 1))
        elif not self.rounding and r.c is None and x.e == 0 and len(x.p) == 2:
            a, b = x.range()
            r._r = tuple(q // d if isinstance(q, int) and q % d == 0 else q / d for q in (a, b))
        return r

    def o_trunc(self, n):
        return elementwise(lambda x: self.truncv(x, n.params[0], self.nbx(n)), self.form(n.ins[0]))

    def o_truncate(self, n):
        am, base = n.params[:2]
        return elementwise(lambda x: self.truncv(x, int(am), self.nbx(n), int(base)), self.form(n.ins[0]))

    # ---- words
    def bw(self, n, f, fnum=None):
        nb = self.nbx(n)

        def g(x, y):
            if fnum is not None:
                r = fnum(x, y, nb)
                if r is not None:
                    return r
            kx, vx = x.bits()
            ky, vy = y.bits()
            km, kv = f(kx, vx, ky, vy)
            return word(nb, km, kv)
        return self.bi(n, g)

    def o_xor(self, n):
        return self.bw(n, lambda kx, vx, ky, vy: (kx & ky, vx ^ vy), lambda x, y, nb: x if y.c == 0 else y if x.c == 0 else None)

    def o_and(self, n):
        def num(x, y, nb):
            for a, b in ((x, y), (y, x)):
                if b.c is not None and a.c is None and a.p is not None and a.e == 0:
                    m = b.c & ((1 << nb) - 1)
                    s = m.bit_length()
                    if m == (1 << s) - 1:
                        if s == nb:
                            return a
                        km, kv = a.bits()
                        hi = ((1 << nb) - 1) & ~m
                        if km & hi == hi:
                            v = signed(kv & hi, nb)
                            lo, hi = a.range()
                            r = self.combine(a, V(nb, c=v), -1, nb)
                            if r.c is None:
                                r._r = (lo - v, hi - v)
                                r.km, r.kv = (km & m) | hi, kv & m
                            return r
            return None
        return self.bw(n, lambda kx, vx, ky, vy: ((kx & ky) | (kx & ~vx) | (ky & ~vy), vx & vy), num)

    def o_or(self, n):
        return self.bw(n, lambda kx, vx, ky, vy: ((kx & ky) | vx | vy, vx | vy))

    def o_not(self, n):
        nb = self.nbx(n)

        def f(x):
            km, kv = x.bits()
            return word(nb, km, km & ~kv)
        return elementwise(f, self.form(n.ins[0]))

    def shifts(self, n, kind):
        nb = self.nbx(n)
        full = (1 << nb) - 1
        a = self.form(n.ins[0])
        if len(n.ins) == 2:
            s = self.form(n.ins[1])
        else:
            p = n.params[0]
            if isinstance(p, tuple) and p and p[0] == "nd":
                s = np.array(p[2], dtype=object).reshape(p[1])
            else:
                s = np.array(p, dtype=object)
            s = elementwise(lambda v: V(64, c=int(v)), s)

        def one(x, k):
            if k.c is None:
                raise Undef("shift by an unknown amount")
            k = k.c
            if not 0 <= k < nb:
                raise Undef("shift by %d" % k)
            km, kv = x.bits()
            if self.symmetric and kind == "ar" and x.c is None and x.lin is not None and k:
                r = self.truncv(x, k, nb, 2)
                if r.c is None:
                    top = full & ~(full >> k) if (km >> (nb - 1)) & 1 else 0
                    r.km, r.kv = (km >> k) | top, (kv >> k) | (top if (kv >> (nb - 1)) & 1 else 0)
                return r
            if kind == "l":
                if x.c is None and x.p is not None:
                    try:
                        r = self.linear({q: w << k if isinstance(w, int) else w * 2 ** k for q, w in x.lin.items()}, x.k * 2 ** k, nb)
                        if x.e == 0 and len(x.p) == 2:
                            a, b = x.range()
                            r._r = (a << k, b << k)
                        return r
                    except Undef:
                        pass
                return word(nb, (km << k) | ((1 << k) - 1), kv << k)
            top = full & ~(full >> k)
            if kind == "lr" or (km >> (nb - 1)) & 1 and not (kv >> (nb - 1)) & 1:
                return word(nb, (km >> k) | top, kv >> k)
            if (km >> (nb - 1)) & 1:
                return word(nb, (km >> k) | top, (kv >> k) | top)
            return word(nb, km >> k, kv >> k)
        return elementwise(one, a, s)

    def o_bits(self, n):
        x = self.form(n.ins[0])
        nb = self.nbx(n.ins[0])
        k = n.params[0] if isinstance(n.params[0], int) else (n.params[1] if len(n.params) > 1 and n.params[1] else nb)
        out = np.empty(x.shape + (k,), dtype=object)
        for idx in np.ndindex(*x.shape):
            km, kv = x[idx].bits()
            for i in range(k):
                if not (km >> i) & 1:
                    raise Undef("unknown bit %d" % i)
                out[idx + (i,)] = V(self.nbx(n), c=(kv >> i) & 1)
        return out

    def const_word(self, n, f):
        nb = self.nbx(n)

        def g(x):
            km, kv = x.bits()
            if km != (1 << x.nb) - 1:
                raise Undef("%s of a word with unknown bits" % n.op)
            return V(nb, c=f(kv, x.nb))
        return elementwise(g, self.form(n.ins[0]))

    def o_bit_reverse(self, n):
        return self.const_word(n, lambda v, nb: int(bin(v)[2:].zfill(nb)[::-1], 2))

    def o_bit_gather(self, n):
        st, sd = n.params[:2]
        return self.const_word(n, lambda v, nb: sum(((v >> i) & 1) << q for q, i in enumerate(range(st, nb, sd))))

    def o_xor_indices(self, n):
        def f(v, nb):
            r = 0
            for i in range(nb):
                if (v >> i) & 1:
                    r ^= i
            return r
        return self.const_word(n, f)

    def o_msb(self, n):
        def f(x):
            km, kv = x.bits()
            if (km >> (x.nb - 1)) & 1:
                return V(self.nbx(n), c=(kv >> (x.nb - 1)) & 1)
            raise Undef("sign of %r" % x)
        return elementwise(f, self.form(n.ins[0]))

    def o_cmp_eq0(self, n):
        def f(x):
            a, b = x.range()
            if x.c is not None:
                return V(self.nbx(n), c=int(x.c == 0))
            if a > 0 or b < 0:
                return V(self.nbx(n), c=0)
            raise Undef("zero test of %r" % x)
        return elementwise(f, self.form(n.ins[0]))

    def index_array(self, n, pos=1):
        if len(n.ins) > pos:
            f = self.form(n.ins[pos])
            if any(x.c is None for x in f.reshape(-1)):
                return None
            return np.array([x.c for x in f.reshape(-1)], dtype=int).reshape(f.shape)
        return Elem.index_array(self, n, pos)

    # ---- summarised functions: node op "apx", params (name,), a bound for each is known from its own analysis
    def o_apx(self, n):
        return elementwise(lambda x: self.funs[n.params[0]](self, x, self.nbx(n), tuple(n.params[1:])), self.form(n.ins[0]))

    def wholefn(self, n, op):
        raise Undef("operation %s has no enclosure" % op)

    def fn(self, n, op, params, *fs):
        raise Undef("operation %s has no enclosure" % op)


def symbol(lo, hi, nb):
    """a ring element anywhere in lo..hi (integers)"""
    if lo == hi:
        return V(nb, c=lo)
    v = V(nb, p=np.array([(lo + hi) / 2, (hi - lo) / 2]))
    v._r = (lo, hi)
    return v


def enclose(node, tag, lo, hi, nb, rounding, funs=None, symmetric=False, extra=None):
    """list of (V of the input, V of the result) that together cover all inputs in lo..hi"""
    def ev(sym, fixed=None):
        el = Ap(nb, sym, rounding)
        el.symmetric = symmetric
        el.funs = funs or {}
        if fixed:
            el.fixed.update(fixed)
        try:
            return el, el.form(node).reshape(-1), None
        except Undef as e:
            return el, None, e
    def inputs(x):
        return extra(x, nb) if extra else {(tag, 0): x}
    x = symbol(lo, hi, nb)
    el, r, err = ev(inputs(x))
    if err is None:
        return [(x, r)]
    if not el.cuts:
        raise err
    if len(el.cuts) > 1:
        # the earliest one
        el.cuts = dict([min(el.cuts.items())])
    (n, k, y), = el.cuts.values()
    if n.shape is not None and int(np.prod([int(d) for d in n.shape])) != 1:
        raise err or Undef("bit operation on an inexact value")
    # y = a + b t within e, x = c + d t  =>  x = c + d (y - a) / b within d e / b
    c, d = x.p[0], x.p[1]
    a, b = y.p[0], y.p[1]
    ylo, yhi = y.range()
    ylo, yhi = math.floor(ylo), math.ceil(yhi)
    out = []
    cuts = [1 << i for i in range(nb - 1) if ylo < 1 << i <= yhi]
    bounds = [ylo] + cuts + [yhi + 1]
    for u, v in zip(bounds, bounds[1:]):
        if v <= u:
            continue
        ys = symbol(u, v - 1, nb)
        arr = np.empty(tuple(int(q) for q in n.shape), dtype=object)
        arr[...] = ys
        p = C.chebadd(C.chebmul([d / b], C.chebsub(ys.poly(), [a])), [c])
        xs = V(nb, p=p, e=abs(d / b) * y.e)
        el2, r2, err2 = ev(inputs(xs), {n.id: arr})
        if err2 is not None:
            raise err2
        out.append((xs, r2))
    return out
