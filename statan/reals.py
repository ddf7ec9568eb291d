"""Exact real arithmetic on symbols: polynomials with rational coefficients over
interned atoms.  Non-polynomial functions are atoms that remember their argument,
so equality is equality of canonical forms and derivatives are exact."""
from fractions import Fraction

import numpy as np

ATOMS = []          # id -> (kind, info)
INDEX = {}


def reset():
    del ATOMS[:]
    INDEX.clear()
    RELU.clear()


def intern(kind, info):
    k = (kind, info)
    n = INDEX.get(k)
    if n is None:
        n = INDEX[k] = len(ATOMS)
        ATOMS.append(k)
    return n


BITS = ("gt0", "hot")
RELU = {}           # canonical key of relu(u) -> u


def num(v):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else v
    if isinstance(v, np.generic):
        return num(v.item())
    if isinstance(v, float):
        f = Fraction(v)
        g = f.limit_denominator(10 ** 9)
        if g != f and abs(g - f) > abs(f) * Fraction(1, 10 ** 12):
            g = f
        return num(g)
    raise TypeError("not a number: %r" % (v,))


class P:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self.t == poly(o).t

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = poly(o)
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self + (-poly(o))

    def __rsub__(self, o):
        return poly(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = poly(o)
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mono(m, n)
                if k is None:
                    continue
                v = t.get(k, 0) + c * d
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return P({m: num(c) for m, c in t.items()})

    __rmul__ = __mul__

    def const(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = poly(o)
        c = o.const()
        if c is None:
            return self * fn("inv", o)
        return self * num(Fraction(1) / Fraction(c))

    def __rtruediv__(self, o):
        return poly(o) / self

    def __pow__(self, n):
        r = poly(1)
        for _ in range(n):
            r = r * self
        return r

    def __repr__(self):
        return show(self)


def mono(m, n):
    if not m:
        return n
    if not n:
        return m
    out = sorted(m + n)
    res = []
    groups = {}
    for a in out:
        k = ATOMS[a]
        if k[0] in BITS:
            if res and res[-1] == a:
                continue
            if k[0] == "hot":
                g = k[1][0]
                if groups.setdefault(g, a) != a:
                    return None
        res.append(a)
    return tuple(res)


def poly(v):
    if isinstance(v, P):
        return v
    c = num(v)
    return P({(): c} if c else {})


def var(tag, idx=()):
    return P({(intern("v", (tag, idx)),): 1})


def sym(tag, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = var(tag, i)
    return out


def arr(v):
    """numpy object array of polynomials"""
    a = np.asarray(v, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        e = a[i]
        out[i] = poly(e.item() if isinstance(e, np.ndarray) and e.ndim == 0 else e)
    return out


def fn(name, *args):
    args = tuple(poly(a) for a in args)
    if name == "inv" and args[0].const():
        return poly(num(1 / Fraction(args[0].const())))
    if name == "inv" and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if len(m) == 1 and c == 1 and ATOMS[m[0]][0] == "f" and ATOMS[m[0]][1][0] == "sqrt":
            return fn("inv_sqrt", ATOMS[m[0]][1][1][0])
    return P({(intern("f", (name, args)),): 1})


def gt0(u):
    u = poly(u)
    c = u.const()
    if c is not None:
        return poly(int(c > 0))
    base = RELU.get(u.key())
    if base is not None:
        u = base
    return P({(intern("gt0", u),): 1})


def relu(u):
    u = poly(u)
    if u.key() in RELU:
        return u
    r = u * gt0(u)
    RELU[r.key()] = u
    return r


def hots(us):
    us = tuple(poly(u) for u in us)
    if len(us) == 1:
        return [poly(1)]
    return [P({(intern("hot", (us, i)),): 1}) for i in range(len(us))]


def maximum(us):
    h = hots(us)
    r = poly(0)
    for u, b in zip(us, h):
        r = r + poly(u) * b
    return r


def softmax(us):
    us = tuple(poly(u) for u in us)
    return [P({(intern("f", ("softmax%d" % i, us)),): 1}) for i in range(len(us))]


def diff(p, a, memo=None):
    """exact derivative of p with respect to the atom a"""
    out = poly(0)
    memo = {} if memo is None else memo
    for m, c in p.t.items():
        for j, x in enumerate(m):
            d = datom(x, a, memo)
            if not d.t:
                continue
            rest = P({m[:j] + m[j + 1:]: c})
            out = out + rest * d
    return out


def datom(x, a, memo):
    if x == a:
        return poly(1)
    k = ATOMS[x]
    if k[0] == "v" or k[0] in BITS:
        return poly(0)
    if (x, a) in memo:
        return memo[(x, a)]
    name, args = k[1]
    inner = [diff(u, a, memo) for u in args]
    if not any(i.t for i in inner):
        r = poly(0)
    elif name == "sigmoid":
        s = P({(x,): 1})
        r = s * (1 - s) * inner[0]
    else:
        raise ValueError("derivative of %s" % name)
    memo[(x, a)] = r
    return r


def atom_of(p):
    (m,) = p.t
    (a,) = m
    return a


def show_atom(a):
    kind, info = ATOMS[a]
    if kind == "v":
        return "%s%s" % (info[0], list(info[1]) if info[1] else "")
    if kind == "gt0":
        return "[%s>0]" % show(info)
    if kind == "hot":
        return "[arg max=%d of %d]" % (info[1], len(info[0]))
    return "%s(%s)" % (info[0], ", ".join(show(u) for u in info[1]))


def show(p, limit=140):
    if not isinstance(p, P):
        return str(p)
    if not p.t:
        return "0"
    parts = []
    for m, c in sorted(p.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
        f = "*".join(show_atom(a) for a in m)
        parts.append(f if c == 1 and f else ("%s*%s" % (c, f) if f else str(c)))
        if sum(map(len, parts)) > limit:
            parts.append("...")
            break
    return " + ".join(parts)[:limit + 40]


def same(a, b):
    """None, or where two arrays of polynomials differ"""
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    for i in np.ndindex(*a.shape):
        if a[i] != b[i]:
            return "element %s is %s instead of %s" % (list(i), show(a[i]), show(b[i]))
    return None
