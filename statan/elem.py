"""Element-wise value domain over the IR.

Every IR node is mapped to an array whose entries are canonical forms:

  AF   integer-linear combination of monomials          (ring elements)
  BF   GF(2) polynomial whose factors are words or bits (bit-strings / bits)

Shape operations are carried out exactly on the arrays, so two differently
written but equivalent layouts obtain the same forms.  Equality of forms is
equality of the denoted values for *all* values of the atoms.  Unknown
functions stay uninterpreted (Herbrand terms).
"""
import itertools

import numpy as np

from .graph import Node
from .algebra import AF, BF, TooBig, a_add, a_const, a_scale, b_xor, fkey, mono, ONES
from . import algebra as _al

# ---------------------------------------------------------------- bit maps
_maps = {}
_maplist = []


def map_id(t):
    t = tuple(t)
    i = _maps.get(t)
    if i is None:
        i = len(_maplist)
        _maps[t] = i
        _maplist.append(t)
    return i


def compose(outer, inner):
    """bit k of outer(inner(g)) = g[inner[outer[k]]]"""
    return tuple(-1 if s < 0 else inner[s] for s in outer)


def shift_map(nb, k, kind):
    if kind == "l":
        return tuple(i - k if i - k >= 0 else -1 for i in range(nb))
    if kind == "lr":
        return tuple(i + k if i + k < nb else -1 for i in range(nb))
    return tuple(min(i + k, nb - 1) for i in range(nb))


class Undef(Exception):
    pass


WORDBITS = 64


def a_mul(x, y):
    t = {}
    if len(x.t) * len(y.t) > 60000:
        raise TooBig()
    for m1, c1 in x.t.items():
        for m2, c2 in y.t.items():
            m = merge(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    return AF(t)


def merge(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    fs = list(m1)
    for f in m2:
        if f[0] == "bit" and f in fs:
            continue
        fs.append(f)
    return mono(fs)


class W:
    """operations on word-level GF(2) polynomials of a fixed width"""

    @staticmethod
    def norm_mono(fs, nb):
        """canonicalise a product of word factors; None = zero"""
        full = (1 << nb) - 1
        sup = full
        words, reps = {}, []
        out = set()
        for f in fs:
            if f[0] == "c":
                sup &= f[1] & full
            elif f[0] == "m":
                mp = _maplist[f[1]]
                s = 0
                for i, b in enumerate(mp):
                    if b >= 0:
                        s |= 1 << i
                sup &= s
            elif f[0] == "rep":
                reps.append(f)
        if sup == 0:
            return None
        nword = 0
        for f in fs:
            if f[0] in ("c", "rep"):
                continue
            nword += 1
            if f[0] == "m":
                mp, g = _maplist[f[1]], f[2]
            else:
                mp, g = None, f
            if sup == full and mp is None:
                out.add(g)
                continue
            if mp is None:
                mp = tuple(range(nb))
            mp = tuple(b if sup >> i & 1 else -1 for i, b in enumerate(mp))
            if mp == tuple(range(nb)):
                out.add(g)
            else:
                out.add(("m", map_id(mp), g))
        out.update(reps)
        if not nword and sup != full:
            out.add(("c", sup))
        return frozenset(out)

    @staticmethod
    def mk(ms, nb):
        out = set()
        for m in ms:
            m = W.norm_mono(m, nb)
            if m is not None:
                out ^= {m}
        return BF(out)

    @staticmethod
    def const(v, nb):
        v &= (1 << nb) - 1
        if v == 0:
            return BF([])
        if v == (1 << nb) - 1:
            return BF([ONES])
        return BF([frozenset([("c", v)])])

    @staticmethod
    def and_(x, y, nb):
        if len(x.t) * len(y.t) > 60000:
            raise TooBig()
        out = set()
        for m1 in x.t:
            for m2 in y.t:
                m = W.norm_mono(m1 | m2, nb)
                if m is None:
                    continue
                # two different masks of one word: x&c1 & x&c2 handled by norm (maps restricted)
                out ^= {m}
        return BF(out)

    @staticmethod
    def mapw(x, mp, nb):
        out = set()
        cst = 0
        for i, b in enumerate(mp):
            if b >= 0:
                cst |= 1 << i
        for m in x.t:
            fs = set()
            zero = False
            if m == ONES:
                fs.add(("c", cst))
            for f in m:
                if f[0] == "c":
                    v = 0
                    for i, b in enumerate(mp):
                        if b >= 0 and f[1] >> b & 1:
                            v |= 1 << i
                    fs.add(("c", v))
                elif f[0] == "rep":
                    fs.add(f)
                    fs.add(("c", cst))
                elif f[0] == "m":
                    fs.add(("m", map_id(compose(mp, _maplist[f[1]])), f[2]))
                else:
                    fs.add(("m", map_id(mp), f))
            # all factors constants must be and-ed
            cs = [f for f in fs if f[0] == "c"]
            if len(cs) > 1:
                v = -1
                for f in cs:
                    v &= f[1]
                fs = {f for f in fs if f[0] != "c"} | {("c", v)}
            mm = W.norm_mono(fs, nb)
            if mm is not None:
                out ^= {mm}
        return BF(out)

    @staticmethod
    def bit(x, k):
        """k-th bit of a word polynomial as a bit polynomial"""
        out = set()
        for m in x.t:
            fs = set()
            zero = False
            for f in m:
                if f[0] == "c":
                    if not f[1] >> k & 1:
                        zero = True
                elif f[0] == "rep":
                    fs.add(("bit", f[1]))
                elif f[0] == "m":
                    s = _maplist[f[1]][k]
                    if s < 0:
                        zero = True
                    else:
                        fs.add(("bit", ("bitof", s, f[2])))
                else:
                    fs.add(("bit", ("bitof", k, f)))
            if not zero:
                out ^= {frozenset(fs)}
        return BF(out)

    @staticmethod
    def rep(b):
        """replicate a bit polynomial over a word"""
        return BF([frozenset(("rep", f[1]) for f in m) for m in b.t])


def bits_to_int(f):
    acc = AF({})
    for m in sorted(f.t, key=lambda m: repr(sorted(m, key=fkey))):
        p = AF({mono(list(m)): 1}) if m else a_const(1)
        acc = a_add(a_add(acc, p), a_mul(acc, p), -2)
    return acc


def is01(f):
    return all(all(g[0] == "bit" for g in m) for m in f.t)


def int_to_bits(f):
    atoms = sorted({g for m in f.t for g in m}, key=fkey)
    n = len(atoms)
    if n > 10:
        return None
    vals = {}
    for bits in range(1 << n):
        on = {atoms[i] for i in range(n) if bits >> i & 1}
        v = sum(c for m, c in f.t.items() if set(m) <= on)
        if v not in (0, 1):
            return None
        vals[bits] = v
    out = set()
    for s in range(1 << n):
        acc, sub = 0, s
        while True:
            acc ^= vals[sub]
            if sub == 0:
                break
            sub = (sub - 1) & s
        if acc:
            out.add(frozenset(atoms[i] for i in range(n) if s >> i & 1))
    return BF(out)


def toA(f, nb):
    if isinstance(f, AF):
        return f
    if not f.t:
        return AF({})
    if len(f.t) == 1:
        m = next(iter(f.t))
        if m == ONES:
            return a_const(-1)
        if len(m) == 1:
            g = next(iter(m))
            if g[0] == "A":
                return AF(dict(g[1][1]))
            if g[0] == "c":
                return a_const(g[1] - (1 << nb) if g[1] >> (nb - 1) & 1 else g[1])
            if g[0] == "m":
                mp = _maplist[g[1]]
                for k in range(1, nb):
                    if mp == shift_map(nb, k, "l"):
                        if g[2][0] == "A":
                            return a_scale(AF(dict(g[2][1][1])), 2 ** k)
                        return AF({(g[2],): 2 ** k})
                return AF({(("B", f.key()),): 1})
            if g[0] == "bit":
                return AF({(g,): 1})
            if g[0] == "rep":
                return AF({(("bit", g[1]),): -1})
            return AF({(g,): 1})
    reps = sorted({g for m in f.t for g in m if g[0] == "rep"}, key=fkey)
    if reps and len(reps) <= 10:
        c = reps[0]
        f0 = BF([m for m in f.t if c not in m])
        f1t = set(f0.t)
        for m in f.t:
            if c in m:
                f1t ^= {frozenset(m - {c})}
        a0, a1 = toA(f0, nb), toA(BF(f1t), nb)
        bit = AF({(("bit", c[1]),): 1})
        return a_add(a0, a_mul(bit, a_add(a1, a0, -1)))
    if all(all(g[0] == "bit" for g in m) for m in f.t):
        return bits_to_int(f)
    return AF({(("B", f.key()),): 1})


def toW(f, nb):
    """word polynomial of a form"""
    if isinstance(f, BF):
        return f
    if not f.t:
        return BF([])
    if len(f.t) == 1:
        (m, c), = f.t.items()
        if m == ():
            if isinstance(c, int):
                return W.const(c, nb)
        elif len(m) == 1 and isinstance(c, int):
            g = m[0]
            if g[0] == "B" and c == 1:
                return BF(g[1][1])
            if g[0] == "bit":
                if c == 1:
                    return BF([frozenset([("rep", g[1]), ("c", 1)])])
                if c == -1:
                    return BF([frozenset([("rep", g[1])])])
            elif c == 1:
                return BF([frozenset([g])])
            elif c > 0 and (c & (c - 1)) == 0 and c < (1 << nb):
                return BF([frozenset([("m", map_id(shift_map(nb, c.bit_length() - 1, "l")), g)])])
    if is01(f):
        b = int_to_bits(f)
        if b is not None:
            return W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in b.t], nb)
    return BF([frozenset([("A", f.key())])])


def bf_support(w, nb):
    """bits a word polynomial can set"""
    sup = 0
    full = (1 << nb) - 1
    for m in w.t:
        s = full
        for g in m:
            if g[0] == "c":
                s &= g[1]
            elif g[0] == "m":
                mp = _maplist[g[1]]
                q = 0
                for i, b in enumerate(mp):
                    if b >= 0:
                        q |= 1 << i
                s &= q
        sup |= s
    return sup


def word_support(f, nb):
    if isinstance(f, AF):
        if is01(f) and int_to_bits(f) is not None:
            return 1
        return bf_support(toW(f, nb), nb)
    if f.t and all(m and all(g[0] == "bit" for g in m) for m in f.t):
        return 1
    return bf_support(f, nb)


def tobit(f, nb):
    """non-zero test of a ring element, as a bit polynomial"""
    if isinstance(f, AF):
        if is01(f):
            b = int_to_bits(f)
            if b is not None:
                return b
        w = toW(f, nb)
    else:
        if f.t and all(m and all(g[0] == "bit" for g in m) for m in f.t):
            return f
        w = f
    sup = bf_support(w, nb)
    if sup == 0:
        return BF([])
    if sup & (sup - 1) == 0:
        return W.bit(w, sup.bit_length() - 1)
    return BF([frozenset([("bit", ("nz", f.key()))])])


def to_obj(shape, gen):
    a = np.empty(shape, dtype=object)
    for k, idx in enumerate(np.ndindex(*shape)):
        a[idx] = gen(k, idx)
    return a


def elementwise(fn, *arrs):
    b = np.broadcast_arrays(*arrs)
    out = np.empty(b[0].shape, dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = fn(*[x[idx] for x in b])
    return out


def unfreeze_key(k):
    if isinstance(k, tuple):
        if len(k) == 4 and k[0] == "slice":
            return slice(k[1], k[2], k[3])
        if len(k) == 3 and k[0] == "nd":
            v = np.array(k[2], dtype=int).reshape(k[1])
            return v if v.shape else int(v)
        return tuple(unfreeze_key(x) for x in k)
    return k


def conv_out(n, k, s, padding):
    if padding == "SAME":
        return -(-n // s)
    return -(-(n - k + 1) // s)


def pad_nd(a, pads, fill):
    shape = [d + p[0] + p[1] for d, p in zip(a.shape, pads)]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        src = tuple(i - p[0] for i, p in zip(idx, pads))
        if all(0 <= s < d for s, d in zip(src, a.shape)):
            out[idx] = a[src]
        else:
            out[idx] = fill
    return out


def patches_nhwc(x, kh, kw, sh, sw, padding, fill):
    """reference semantics of tf.image.extract_patches"""
    n, h, w, c = x.shape
    oh, ow = conv_out(h, kh, sh, padding), conv_out(w, kw, sw, padding)
    if padding == "SAME":
        ph = max((oh - 1) * sh + kh - h, 0)
        pw = max((ow - 1) * sw + kw - w, 0)
        x = pad_nd(x, [(0, 0), (ph // 2, ph - ph // 2), (pw // 2, pw - pw // 2), (0, 0)], fill)
    out = np.empty((n, oh, ow, kh * kw * c), dtype=object)
    for i in range(oh):
        for j in range(ow):
            blk = x[:, i * sh:i * sh + kh, j * sw:j * sw + kw, :]
            out[:, i, j, :] = blk.reshape(n, -1)
    return out


def axes_of(ax, n):
    if ax is None:
        return tuple(range(n))
    if isinstance(ax, (int, np.integer)):
        ax = (ax,)
    return tuple(a + n if a < 0 else a for a in ax)


class Elem:
    leafops = ()

    def __init__(self, nbits=64, sec_atoms=False):
        self.memo = {}
        self.nb = nbits
        self.sec_atoms = sec_atoms
        self.opaque = {}       # node id -> reason
        self.fixed = {}        # node id -> array (assumed values)
        self.alias = {}        # node id -> node it stands for
        self.hook = None

    # -------------------------------------------------------------- driver
    def form(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            if x.id in self.fixed:
                self.memo[x.id] = self.fixed[x.id]
                stack.pop()
                continue
            if x.id in self.alias:
                y = self.alias[x.id]
                if y.id in self.memo:
                    self.memo[x.id] = self.memo[y.id]
                    stack.pop()
                else:
                    stack.append(y)
                continue
            if (x.op == "sec" and self.sec_atoms) or x.op in self.leafops:
                todo = []
            else:
                todo = [i for i in x.ins if isinstance(i, Node) and i.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            r = self.step(x)
            if isinstance(r, (AF, BF)):
                z = np.empty((), dtype=object)
                z[()] = r
                r = z
            if isinstance(r, np.ndarray):
                r = self.reduce(r, x)
            self.memo[x.id] = r
            stack.pop()
        return self.memo[n.id]

    def nbits(self, n):
        if n.factory is not None and n.factory.nbits:
            return n.factory.nbits
        return self.nb

    def isbool(self, n):
        return (n.factory is not None and n.factory.name == "bool") or \
            (n.kind != "backing" and getattr(n.dtype, "path", None) == "tf.bool")

    def reduce(self, arr, n):
        if n.factory is None or n.factory.kind not in ("ring", "crt") or not n.factory.modulus or n.factory.modulus <= 2:
            return arr
        M = n.factory.modulus
        h = M // 2
        flat = arr.reshape(-1)
        for i, f in enumerate(flat):
            if isinstance(f, AF) and any(isinstance(c, int) and not -h <= c < h for c in f.t.values()):
                t = {}
                for m, c in f.t.items():
                    if isinstance(c, int):
                        c %= M
                        if c >= h:
                            c -= M
                    t[m] = c
                arr = arr.copy() if arr.base is not None or True else arr
                flat = arr.reshape(-1)
                flat[i] = AF(t)
        return arr

    # ------------------------------------------------------------- scalars
    def lit(self, v, n):
        if isinstance(v, (bool, np.bool_)):
            v = int(v)
        if isinstance(v, np.generic):
            v = v.item()
        if self.isbool(n):
            if isinstance(v, (int, float)):
                return BF([ONES]) if int(v) & 1 else BF([])
        if isinstance(v, float) and n.kind == "backing" and v == v and abs(v) != float("inf"):
            return a_const(int(v))       # conversion to the ring truncates towards zero
        if isinstance(v, (int, float)):
            return a_const(v)
        return AF({(("k", repr(v)),): 1})

    def atom(self, fac, n):
        if self.isbool(n):
            return BF([frozenset([("bit", fac)])])
        return AF({(fac,): 1})

    def fn(self, n, op, params, *fs):
        return self.atom(("fn", op, params) + tuple(f.key() for f in fs), n)

    def wholefn(self, n, op):
        keys = []
        for i in n.ins:
            if isinstance(i, Node):
                a = self.form(i)
                keys.append((a.shape, tuple(f.key() for f in a.reshape(-1))))
            else:
                keys.append(repr(i))
        if n.shape is None or None in n.shape:
            raise Undef("no shape for opaque op %s at %s" % (op, n.loc))
        fac = ("fn", op, n.params, tuple(keys))
        return to_obj(tuple(n.shape), lambda k, idx: self.atom(fac + (k,), n))

    # ------------------------------------------------------------- nodes
    def step(self, n):
        op, ins = n.op, n.ins
        if self.hook is not None:
            r = self.hook(self, n)
            if r is not None:
                return r
        m = getattr(self, "o_" + op.replace(".", "_").replace(":", "_"), None)
        if m is not None:
            return m(n)
        if op in ("identity", "value", "to_native", "tf.identity", "numpy", "tf.stop_gradient", "read_value"):
            return self.form(ins[0])
        if op in ("tensor", "constant", "variable", "tf.Variable"):
            return self.o_wrap(n)
        if op in ("const", "tf.constant"):
            return self.o_const(n)
        return self.wholefn(n, op)

    def bi(self, n, f):
        a, b = self.form(n.ins[0]), self.form(n.ins[1])
        return elementwise(f, a, b)

    def o_atom(self, n):
        return to_obj(tuple(n.shape), lambda k, idx: self.atom(("v", n.tag, k), n))

    def o_sec(self, n):
        if self.sec_atoms:
            return to_obj(tuple(n.shape), lambda k, idx: self.atom(("sec", n.id, k), n))
        return self.form(n.ins[0])

    def o_const(self, n):
        v = n.params[0]
        shape = tuple(n.shape) if n.shape is not None else ()
        if isinstance(v, tuple) and v and v[0] == "nd":
            arr = to_obj(v[1], lambda k, idx: self.lit(v[2][k], n))
            return arr
        if isinstance(v, (tuple, list)):
            a = np.array(v, dtype=object)
            return to_obj(a.shape, lambda k, idx: self.lit(a[idx], n))
        return to_obj(shape, lambda k, idx: self.lit(v, n))

    def o_tf_zeros(self, n):
        return to_obj(tuple(n.shape), lambda k, idx: self.lit(0, n))

    def o_tf_ones(self, n):
        return to_obj(tuple(n.shape), lambda k, idx: self.lit(1, n))

    def o_zeros_like(self, n):
        return to_obj(self.form(n.ins[0]).shape, lambda k, idx: self.lit(0, n))

    def o_ones_like(self, n):
        return to_obj(self.form(n.ins[0]).shape, lambda k, idx: self.lit(1, n))

    def o_wrap(self, n):
        if not n.ins:
            return self.o_const(n)
        a = self.form(n.ins[0])
        nb = self.nbits(n)
        if self.isbool(n) and not self.isbool(n.ins[0]):
            return elementwise(lambda f: tobit(f, self.nbits(n.ins[0])), a)
        if not self.isbool(n) and self.isbool(n.ins[0]):
            return elementwise(lambda f: W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in f.t], nb), a)
        if n.kind == "backing" and n.ins[0].kind != "backing":
            def ring(f):
                if isinstance(f, AF) and set(f.t) == {()} and isinstance(f.t[()], float):
                    return a_const(int(f.t[()]))
                return f
            return elementwise(ring, a)
        return a

    # arithmetic
    def o_add(self, n):
        if self.isbool(n):
            return self.bi(n, b_xor)
        nb = self.nbits(n)
        return self.bi(n, lambda x, y: a_add(toA(x, nb), toA(y, nb)))

    def o_sub(self, n):
        if self.isbool(n):
            return self.bi(n, b_xor)
        nb = self.nbits(n)
        return self.bi(n, lambda x, y: a_add(toA(x, nb), toA(y, nb), -1))

    def o_neg(self, n):
        if self.isbool(n):
            return self.form(n.ins[0])
        nb = self.nbits(n)
        return elementwise(lambda x: a_scale(toA(x, nb), -1), self.form(n.ins[0]))

    def o_mul(self, n):
        if self.isbool(n):
            return self.bi(n, lambda x, y: _al.b_and(x, y))
        nb = self.nbits(n)
        return self.bi(n, lambda x, y: a_mul(toA(x, nb), toA(y, nb)))

    def o_matmul(self, n):
        a, b = self.form(n.ins[0]), self.form(n.ins[1])
        nb = self.nbits(n)
        a = elementwise(lambda f: toA(f, nb), a)
        b = elementwise(lambda f: toA(f, nb), b)
        return self.mm(a, b)

    def mm(self, a, b):
        if a.ndim < 2 or b.ndim < 2:
            raise Undef("matmul rank")
        batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        a = np.broadcast_to(a, batch + a.shape[-2:])
        b = np.broadcast_to(b, batch + b.shape[-2:])
        out = np.empty(batch + (a.shape[-2], b.shape[-1]), dtype=object)
        for bi in np.ndindex(*batch):
            for i in range(a.shape[-2]):
                for j in range(b.shape[-1]):
                    t = {}
                    for k in range(a.shape[-1]):
                        p = a_mul(a[bi + (i, k)], b[bi + (k, j)])
                        for m, c in p.t.items():
                            t[m] = t.get(m, 0) + c
                    out[bi + (i, j)] = AF(t)
        return out

    def o_conv2d(self, n):
        """NCHW x HWIO convolution (reference semantics)"""
        x, w = self.form(n.ins[0]), self.form(n.ins[1])
        nb = self.nbits(n)
        x = elementwise(lambda f: toA(f, nb), x)
        w = elementwise(lambda f: toA(f, nb), w)
        s, padding = n.params
        s = [s, s] if isinstance(s, int) else list(s)
        if len(s) == 4:
            s = s[2:]
        kh, kw, ci, co = w.shape
        p = patches_nhwc(x.transpose(0, 2, 3, 1), kh, kw, s[0], s[1], padding, AF({}))
        nn, oh, ow, d = p.shape
        r = self.mm(p.reshape(nn * oh * ow, d), w.reshape(d, co))
        return r.reshape(nn, oh, ow, co).transpose(0, 3, 1, 2)

    # bit operations
    def b2(self, n, fbit, fword):
        if self.isbool(n):
            return self.bi(n, fbit)
        nb = self.nbits(n)
        return self.bi(n, lambda x, y: fword(toW(x, nb), toW(y, nb), nb))

    def o_xor(self, n):
        return self.b2(n, b_xor, lambda x, y, nb: b_xor(x, y))

    def o_and(self, n):
        return self.b2(n, _al.b_and, W.and_)

    def o_or(self, n):
        return self.b2(n, lambda x, y: b_xor(b_xor(x, y), _al.b_and(x, y)),
                       lambda x, y, nb: b_xor(b_xor(x, y), W.and_(x, y, nb)))

    def o_not(self, n):
        nb = self.nbits(n)
        if self.isbool(n):
            return elementwise(lambda x: BF(x.t ^ {ONES}), self.form(n.ins[0]))
        return elementwise(lambda x: BF(toW(x, nb).t ^ {ONES}), self.form(n.ins[0]))

    def shifts(self, n, kind):
        a = self.form(n.ins[0])
        nb = self.nbits(n)
        if len(n.ins) == 2:
            s = self.form(n.ins[1])
        else:
            p = n.params[0]
            if isinstance(p, tuple) and p and p[0] == "nd":
                s = np.array(p[2], dtype=object).reshape(p[1])
            elif isinstance(p, (int, tuple)):
                s = np.array(p, dtype=object)
            else:
                return self.wholefn(n, n.op)
            s = elementwise(lambda v: a_const(int(v)), s)

        def one(x, k):
            if not (isinstance(k, AF) and set(k.t) <= {()}):
                return self.fn(n, n.op, (), x, k)
            k = k.t.get((), 0)
            if not 0 <= k < nb:
                return AF({}) if kind != "ar" else W.mapw(toW(x, nb), shift_map(nb, nb - 1, "ar"), nb)
            if k == 0:
                return x
            if kind == "l" and isinstance(x, AF):
                return a_scale(x, 2 ** k)
            return W.mapw(toW(x, nb), shift_map(nb, k, kind), nb)
        return elementwise(one, a, s)

    def o_lshift(self, n):
        return self.shifts(n, "l")

    def o_lrshift(self, n):
        return self.shifts(n, "lr")

    def o_arshift(self, n):
        return self.shifts(n, "ar")

    def o_bits(self, n):
        x = self.form(n.ins[0])
        src = n.ins[0]
        nb = self.nbits(src)
        k = n.params[0] or nb

        def bit(f, i):
            if self.isbool(src):
                b = f if i == 0 else BF([])
            else:
                b = W.bit(toW(f, nb), min(i, nb - 1))
            if self.isbool(n):
                return b
            return W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in b.t], self.nbits(n))
        out = np.empty(x.shape + (k,), dtype=object)
        for idx in np.ndindex(*x.shape):
            for i in range(k):
                out[idx + (i,)] = bit(x[idx], i)
        return out

    def o_bit_gather(self, n):
        nb = self.nbits(n)
        start, stride = n.params
        mp = [-1] * nb
        for i, d in enumerate(range(start, nb, stride)):
            mp[i] = d
        mp = tuple(mp)
        return elementwise(lambda f: W.mapw(toW(f, nb), mp, nb), self.form(n.ins[0]))

    def o_bit_split_and_gather(self, n):
        nb = self.nbits(n)
        (stride,) = n.params
        x = self.form(n.ins[0])
        outs = []
        for start in range(stride):
            mp = [-1] * nb
            for i, d in enumerate(range(start, nb, stride)):
                mp[i] = d
            mp = tuple(mp)
            outs.append(elementwise(lambda f, mp=mp: W.mapw(toW(f, nb), mp, nb), x))
        return np.stack(outs, 0)

    def o_bit_reverse(self, n):
        nb = self.nbits(n)
        mp = tuple(reversed(range(nb)))
        return elementwise(lambda f: W.mapw(toW(f, nb), mp, nb), self.form(n.ins[0]))

    def o_cast(self, n):
        a = self.form(n.ins[0])
        src = n.ins[0]
        if self.isbool(n) or (self.isbool(src)):
            return self.o_wrap(n)
        nb, sb = self.nbits(n), self.nbits(src)

        def c(f):
            if isinstance(f, AF):
                if set(f.t) <= {()} or is01(f):
                    return f
                if nb <= sb:
                    return f
                return self.fn(n, "widen", (sb, nb), f)
            if nb == sb:
                return f
            if nb > sb:
                mp = tuple(i if i < sb else sb - 1 for i in range(nb))
            else:
                mp = tuple(range(nb))
            # widths differ: re-map
            sup = {g[1] for m in f.t for g in m if g[0] == "c"}
            if all(any(g[0] == "c" and g[1] < (1 << (min(sb, nb) - 1)) for g in m) for m in f.t) or \
                    all(any(g[0] == "m" and all(b < 0 for b in _maplist[g[1]][min(sb, nb) - 1:]) for g in m) for m in f.t):
                # non-negative small values keep their bits
                def adj(g):
                    if g[0] == "m":
                        t = list(_maplist[g[1]])
                        t = (t + [-1] * nb)[:nb]
                        return ("m", map_id(t), g[2])
                    return g
                return W.mk([frozenset(adj(g) for g in m) for m in f.t], nb)
            return self.fn(n, "widen", (sb, nb), f)
        return elementwise(c, a)

    def o_tf_cast(self, n):
        src = n.ins[0]
        a = self.form(src)
        dst = n.params[0]
        if dst == "tf.bool" and not self.isbool(src):
            return elementwise(lambda f: tobit(f, self.nbits(src)), a)
        if self.isbool(src) and dst != "tf.bool":
            return elementwise(lambda f: W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in f.t], self.nb), a)
        return a

    # selection / comparison
    def o_where(self, n):
        c, x, y = [self.form(i) for i in n.ins]
        nb = self.nbits(n)
        cn = n.ins[0]

        def sel(c, x, y):
            if not self.isbool(cn):
                c = tobit(c, self.nbits(cn))
            if x == y:
                return x
            if self.isbool(n):
                return b_xor(_al.b_and(c, b_xor(x, y)), y)
            if not c.t:
                return y
            if c.t == frozenset([ONES]):
                return x
            wx, wy = toW(x, nb), toW(y, nb)
            try:
                return b_xor(W.and_(W.rep(c), b_xor(wx, wy), nb), wy)
            except TooBig:
                pass
            x, y = toA(x, nb), toA(y, nb)
            try:
                b = bits_to_int(c)
                return a_add(y, a_mul(b, a_add(x, y, -1)))
            except TooBig:
                return self.fn(n, "where", (), c, x, y)
        return elementwise(sel, c, x, y)

    def cmp(self, n, op):
        nb = self.nbits(n.ins[0])

        def f(x, y):
            d = a_add(toA(x, nb), toA(y, nb), -1) if not self.isbool(n.ins[0]) else b_xor(x, y)
            if op == "equal" and isinstance(d, BF):
                b = BF(d.t ^ {ONES})
            elif not d.t and op in ("equal", "less_equal", "greater_equal"):
                b = BF([ONES])
            elif not d.t:
                b = BF([])
            elif isinstance(d, AF) and set(d.t) == {()}:
                c = d.t[()]
                r = {"equal": c == 0, "not_equal": c != 0, "less": c < 0, "greater": c > 0,
                     "less_equal": c <= 0, "greater_equal": c >= 0}[op]
                b = BF([ONES]) if r else BF([])
            elif op in ("equal", "not_equal"):
                ks = sorted([toA(x, nb).key(), toA(y, nb).key()], key=repr)
                b = BF([frozenset([("bit", ("eq", ks[0], ks[1]))])])
                if op == "not_equal":
                    b = BF(b.t ^ {ONES})
            else:
                x, y = toA(x, nb), toA(y, nb)
                if op in ("greater", "less_equal"):
                    x, y = y, x
                b = BF([frozenset([("bit", ("lt", x.key(), y.key()))])])
                if op in ("less_equal", "greater_equal"):
                    b = BF(b.t ^ {ONES})
            if self.isbool(n) or n.kind != "backing":
                return b
            return W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in b.t], self.nbits(n))
        return self.bi(n, f)

    def o_equal(self, n):
        return self.cmp(n, "equal")

    def o_not_equal(self, n):
        return self.cmp(n, "not_equal")

    def o_less(self, n):
        return self.cmp(n, "less")

    def o_greater(self, n):
        return self.cmp(n, "greater")

    def o_less_equal(self, n):
        return self.cmp(n, "less_equal")

    def o_greater_equal(self, n):
        return self.cmp(n, "greater_equal")

    # opaque elementwise functions
    def efn(self, n, op=None):
        arrs = [self.form(i) for i in n.ins]
        return elementwise(lambda *fs: self.fn(n, op or n.op, n.params, *fs), *arrs)

    def o_trunc(self, n):
        """fixed-point truncation within the supported value range: whole units of
        the result can be taken out of the argument"""
        nb = self.nbits(n)
        am = n.params[0]

        def f(x):
            x = toA(x, nb)
            c = x.t.get((), 0)
            q = 0
            if isinstance(c, int) and isinstance(am, int) and c:
                q = c >> am if c % (1 << am) == 0 else 0
                if q:
                    x = a_add(x, a_const(c), -1)
            r = self.fn(n, "trunc", n.params, x) if x.t else AF({})
            return a_add(r, a_const(q)) if q else r
        return elementwise(f, self.form(n.ins[0]))

    def o_msb(self, n):
        nb = self.nbits(n.ins[0])

        def f(x):
            b = W.bit(toW(x, nb), nb - 1)
            if self.isbool(n):
                return b
            return W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in b.t], self.nbits(n))
        return elementwise(f, self.form(n.ins[0]))

    def o_carry(self, n):
        return self.efn(n)

    o_snmsb = o_carry

    def o_cmp_eq0(self, n):
        nb = self.nbits(n.ins[0])
        return elementwise(lambda x: BF(tobit(x, nb).t ^ {ONES}), self.form(n.ins[0]))

    def o_mod(self, n):
        return self.efn(n)

    def o_div(self, n):
        a, b = self.form(n.ins[0]), self.form(n.ins[1])

        def f(x, y):
            if isinstance(y, AF) and set(y.t) == {()} and n.kind != "backing":
                return a_scale(x, 1.0 / y.t[()])
            return self.fn(n, "div", (), x, y)
        return elementwise(f, a, b)

    def o_floordiv(self, n):
        return self.efn(n)

    def o_truncate(self, n):
        return self.efn(n)

    def o_equal_zero(self, n):
        nb = self.nbits(n.ins[0])

        def f(x):
            b = tobit(x, nb) if not self.isbool(n.ins[0]) else x
            b = BF(b.t ^ {ONES})
            if self.isbool(n):
                return b
            return W.mk([frozenset([("rep", g[1]) for g in m] + [("c", 1)]) for m in b.t], self.nbits(n))
        return elementwise(f, self.form(n.ins[0]))

    # randomness
    def o_prf(self, n):
        if n.ins:
            s = self.form(n.ins[0])
            key = tuple(f.key() for f in s.reshape(-1))
        else:
            key = ("noseed", n.id)
        fname = n.factory.name if n.factory is not None else None
        return to_obj(tuple(n.shape), lambda k, idx: self.atom(("prf", key, n.params, fname, k), n))

    def o_rnd(self, n):
        return to_obj(tuple(n.shape), lambda k, idx: self.atom(("rnd", n.params, k), n))

    o_sample_uniform = o_sample_bounded = o_sample_bits = o_rnd

    def o_seed(self, n):
        return to_obj(tuple(n.shape or (2,)), lambda k, idx: AF({(("seed", n.tag, k),): 1}))

    # structure
    def o_reshape(self, n):
        sh = n.params[0]
        if isinstance(sh, tuple) and not all(isinstance(v, (int, np.integer)) for v in sh):
            if sh and sh[0] == "nd":
                sh = sh[2]
            elif n.shape is not None and None not in n.shape:
                sh = tuple(n.shape)
            else:
                raise Undef("reshape to %s" % (sh,))
        return self.form(n.ins[0]).reshape(tuple(sh) if isinstance(sh, tuple) else (sh,))

    def o_transpose(self, n):
        return self.form(n.ins[0]).transpose(n.params[0])

    def o_getitem(self, n):
        a = self.form(n.ins[0])
        if len(n.ins) == 2:
            return self.wholefn(n, "getitem")
        r = a[unfreeze_key(n.params[0])]
        if not isinstance(r, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = r
            return z
        return r

    def o_strided_slice(self, n):
        a = self.form(n.ins[0])
        args, kw = n.params
        kw = dict(kw)
        names = ("begin", "end", "strides", "begin_mask", "end_mask", "ellipsis_mask", "new_axis_mask", "shrink_axis_mask")
        vals = dict(zip(names, args))
        vals.update(kw)
        b, e = list(vals["begin"]), list(vals["end"])
        s = list(vals.get("strides") or [1] * len(b))
        bm, em, sm = vals.get("begin_mask", 0), vals.get("end_mask", 0), vals.get("shrink_axis_mask", 0)
        if vals.get("ellipsis_mask") or vals.get("new_axis_mask"):
            return self.wholefn(n, "strided_slice")
        key = []
        for i in range(len(b)):
            if sm >> i & 1:
                key.append(b[i])
            else:
                key.append(slice(None if bm >> i & 1 else b[i], None if em >> i & 1 else e[i], s[i]))
        return a[tuple(key)]

    def index_array(self, n, pos=1):
        """constant index array, or None"""
        if len(n.ins) > pos:
            f = self.form(n.ins[pos])
            if all(isinstance(x, AF) and set(x.t) <= {()} for x in f.reshape(-1)):
                return np.array([int(x.t.get((), 0)) for x in f.reshape(-1)], dtype=int).reshape(f.shape)
            return None
        v = n.params[0]
        if isinstance(v, tuple) and v and v[0] == "nd":
            return np.array(v[2]).reshape(v[1]).astype(int)
        try:
            return np.array(v).astype(int)
        except Exception:
            return None

    def o_gather(self, n):
        a = self.form(n.ins[0])
        idx = self.index_array(n)
        if idx is None:
            return self.wholefn(n, "gather")
        return np.take(a, idx, axis=n.params[1])

    def o_split(self, n):
        a = self.form(n.ins[0])
        sizes, axis, j = n.params
        if isinstance(sizes, int):
            sizes = (a.shape[axis] // sizes,) * sizes
        off = sum(sizes[:j])
        key = [slice(None)] * a.ndim
        key[axis] = slice(off, off + sizes[j])
        return a[tuple(key)]

    def o_reverse(self, n):
        a = self.form(n.ins[0])
        return np.flip(a, axes_of(n.params[0], a.ndim))

    def o_expand_dims(self, n):
        return np.expand_dims(self.form(n.ins[0]), n.params[0])

    def o_squeeze(self, n):
        a = self.form(n.ins[0])
        ax = n.params[0]
        return np.squeeze(a, tuple(ax) if isinstance(ax, tuple) else ax)

    def o_tile(self, n):
        return np.tile(self.form(n.ins[0]), n.params[0])

    def o_pad(self, n):
        return pad_nd(self.form(n.ins[0]), n.params[0], self.lit(0, n))

    def o_scatter_nd(self, n):
        a = self.form(n.ins[0])
        idx = self.index_array(n)
        if idx is None:
            return self.wholefn(n, "scatter_nd")
        out = to_obj(tuple(n.params[1]), lambda k, i: self.lit(0, n))
        nb = self.nbits(n)
        for pos in np.ndindex(*idx.shape[:-1]):
            key = tuple(idx[pos])
            sub = out[key]
            upd = a[pos]
            if isinstance(sub, np.ndarray):
                out[key] = elementwise(lambda x, y: self.plus(x, y, n, nb), sub, upd)
            else:
                out[key] = self.plus(sub, upd, n, nb)
        return out

    def plus(self, x, y, n, nb):
        return b_xor(x, y) if self.isbool(n) else a_add(toA(x, nb), toA(y, nb))

    def o_concat(self, n):
        ax = n.params[0]
        return np.concatenate([self.form(i) for i in n.ins], axis=ax)

    def o_stack(self, n):
        return np.stack([self.form(i) for i in n.ins], axis=n.params[0])

    def o_broadcast(self, n):
        return np.broadcast_to(self.form(n.ins[0]), tuple(n.params[0]))

    def sum_axis(self, a, ax, keep, nb):
        axes = axes_of(ax, a.ndim)
        rest = [i for i in range(a.ndim) if i not in axes]
        t = a.transpose(rest + list(axes))
        shp = [a.shape[i] for i in rest]
        t = t.reshape(shp + [-1])
        out = np.empty(shp, dtype=object)
        for idx in np.ndindex(*shp):
            acc = {}
            for f in t[idx]:
                for m, c in toA(f, nb).t.items():
                    acc[m] = acc.get(m, 0) + c
            out[idx] = AF(acc)
        if keep:
            out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return out

    def o_reduce_sum(self, n):
        a = self.form(n.ins[0])
        return self.sum_axis(a, n.params[0], n.params[1], self.nbits(n))

    def o_reduce_max(self, n):
        return self.wholefn(n, "reduce_max")

    def o_cumsum(self, n):
        axis, excl, rev = n.params
        a = self.form(n.ins[0])
        nb = self.nbits(n)
        axis = axis or 0
        a = np.moveaxis(a, axis, 0)
        if rev:
            a = a[::-1]
        out = np.empty(a.shape, dtype=object)
        acc = to_obj(a.shape[1:], lambda k, i: AF({}))
        for i in range(a.shape[0]):
            nxt = elementwise(lambda x, y: a_add(x, toA(y, nb)), acc, a[i])
            out[i] = acc if excl else nxt
            acc = nxt
        if rev:
            out = out[::-1]
        return np.moveaxis(out, 0, axis)

    def o_im2patches(self, n):
        (p,) = n.params
        size, strides, padding, fmt = p
        a = self.form(n.ins[0])
        if fmt == "NCHW":
            a = a.transpose(0, 2, 3, 1)
        r = patches_nhwc(a, size[0], size[1], strides[0], strides[1], padding, self.lit(0, n))
        return r.transpose(0, 3, 1, 2) if fmt == "NCHW" else r

    def o_im2col(self, n):
        (p,) = n.params
        kh, kw, s, padding = p
        s = (s, s) if isinstance(s, int) else s
        x = self.form(n.ins[0])
        c = x.shape[1]
        r = patches_nhwc(x.transpose(0, 2, 3, 1), kh, kw, s[0], s[1], padding, self.lit(0, n))
        r = r.transpose(3, 1, 2, 0).reshape(kh, kw, c, -1).transpose(2, 0, 1, 3)
        return r.reshape(c * kh * kw, -1)

    def o_patches2im(self, n):
        """reference semantics: adjoint of im2patches (SUM)"""
        (p,) = n.params
        size, strides, padding, img, cons, fmt = p
        a = self.form(n.ins[0])
        nb = self.nbits(n)
        if fmt == "NCHW":
            a = a.transpose(0, 2, 3, 1)
        bs, oh, ow, d = a.shape
        kh, kw = size
        c = d // (kh * kw)
        H, Wd = (oh - 1) * strides[0] + kh, (ow - 1) * strides[1] + kw
        out = to_obj((bs, H, Wd, c), lambda k, i: AF({}))
        for b in range(bs):
            for i in range(oh):
                for j in range(ow):
                    blk = a[b, i, j].reshape(kh, kw, c)
                    for u in range(kh):
                        for v in range(kw):
                            for q in range(c):
                                k = (b, i * strides[0] + u, j * strides[1] + v, q)
                                out[k] = a_add(out[k], toA(blk[u, v, q], nb))
        if img is not None:
            ih, iw = img
            if ih < H:
                t = (H - ih) // 2
                out = out[:, t:t + ih]
            elif ih > H:
                out = pad_nd(out, [(0, 0), (0, ih - H), (0, 0), (0, 0)], AF({}))
            if iw < Wd:
                t = (Wd - iw) // 2
                out = out[:, :, t:t + iw]
            elif iw > Wd:
                out = pad_nd(out, [(0, 0), (0, 0), (0, iw - Wd), (0, 0)], AF({}))
        if cons != "SUM":
            return self.wholefn(n, "patches2im")
        return out.transpose(0, 3, 1, 2) if fmt == "NCHW" else out

    def o_space_to_batch(self, n):
        b, pads_ = n.params
        a = self.form(n.ins[0])
        b = b[2] if b and b[0] == "nd" else b
        pads_ = np.array(pads_[2]).reshape(pads_[1]).tolist() if pads_ and pads_[0] == "nd" else pads_
        m = len(b)
        a = pad_nd(a, [(0, 0)] + [tuple(q) for q in pads_] + [(0, 0)] * (a.ndim - 1 - m), self.lit(0, n))
        sh = [a.shape[0]]
        for d, q in zip(a.shape[1:], b):
            sh += [d // q, q]
        rest = list(a.shape[1 + m:])
        r = a.reshape(sh + rest)
        perm = [2 * i + 2 for i in range(m)] + [0] + [2 * i + 1 for i in range(m)] + list(range(1 + 2 * m, 1 + 2 * m + len(rest)))
        return r.transpose(perm).reshape([a.shape[0] * int(np.prod(b))] + [d // q for d, q in zip(a.shape[1:], b)] + rest)

    def o_batch_to_space(self, n):
        b, crops = n.params
        a = self.form(n.ins[0])
        b = b[2] if b and b[0] == "nd" else b
        crops = np.array(crops[2]).reshape(crops[1]).tolist() if crops and crops[0] == "nd" else crops
        m = len(b)
        p = int(np.prod(b))
        rest = list(a.shape[1 + m:])
        r = a.reshape(list(b) + [a.shape[0] // p] + list(a.shape[1:1 + m]) + rest)
        perm = [m]
        for i in range(m):
            perm += [m + 1 + i, i]
        perm += list(range(2 * m + 1, 2 * m + 1 + len(rest)))
        r = r.transpose(perm).reshape([a.shape[0] // p] + [d * q for d, q in zip(a.shape[1:], b)] + rest)
        idx = [slice(None)] + [slice(u, d - v) for d, (u, v) in zip(r.shape[1:], crops)]
        return r[tuple(idx)]

    def o_xor_indices(self, n):
        nb = self.nbits(n)
        lg = (nb - 1).bit_length()
        pos = [[i for i in range(nb) if i >> t & 1] for t in range(lg)]
        maps = [tuple(pos[t][k] if t < lg else -1 for t in range(nb)) for k in range(len(pos[0]))] if lg else []

        def f(x):
            w = toW(x, nb)
            r = BF([])
            for mp in maps:
                r = b_xor(r, W.mapw(w, mp, nb))
            return r
        return elementwise(f, self.form(n.ins[0]))


def equal_forms(x, y, nb):
    if isinstance(x, BF) and isinstance(y, BF):
        return x == y
    if isinstance(x, AF) and isinstance(y, AF):
        return x == y
    if toA(x, nb) == toA(y, nb):
        return True
    return toW(x, nb) == toW(y, nb)


def diff(a, b, nb, modulus=None):
    """first index where two form arrays differ, or None"""
    if a.shape != b.shape:
        return ("shape", a.shape, b.shape)
    for idx in np.ndindex(*a.shape):
        if not equal_forms(a[idx], b[idx], nb):
            return (idx, a[idx], b[idx])
    return None


def leaves(f, out=None, seen=None):
    """all atoms (v, rnd, prf, seed, sec) at any depth of a form / key"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    stack = [f.key() if isinstance(f, (AF, BF)) else f]
    keep = []
    while stack:
        x = stack.pop()
        if isinstance(x, (AF, BF)):
            x = x.key()
        keep.append(x)
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x and isinstance(x[0], str) and x[0] in ("v", "rnd", "seed", "noseed", "prf", "sec") and len(x) >= 2:
                out.add(x)
                continue
            stack.extend(x)
        elif isinstance(x, frozenset):
            stack.extend(x)
    return out


def show(f):
    s = repr(f)
    return s if len(s) < 400 else s[:400] + "..."


# --------------------------------------------------------------- witnesses
class Valuation:
    """a point at which two normal forms are compared when they differ
    syntactically; only a *difference* is ever concluded from it"""

    def __init__(self, seed, bias=None):
        import random
        self.r = random.Random(seed)
        self.seed = seed
        self.env = {}
        self.bias = bias

    def atom(self, a):
        v = self.env.get(a)
        if v is None:
            import hashlib
            h = hashlib.sha256((str(self.seed) + repr_stable(a)).encode()).digest()
            v = int.from_bytes(h[:17], "big") & ((1 << 128) - 1)
            if self.seed % 3 == 1:
                v = v & 0xFFFFF if v >> 127 else -(v & 0xFFFFF)
            self.env[a] = v
        return v

    def ofkey(self, k, nb):
        return self.A(dict(k[1]), nb) if k[0] == "A" else self.B(k[1], nb)

    def factor(self, g, nb):
        t = g[0]
        M = (1 << nb) - 1
        if t == "bit":
            return self.bit(g[1])
        if t == "A":
            return self.A(dict(g[1][1]), nb) & M
        if t == "B":
            return self.B(g[1][1], nb) & M
        if t == "c":
            return g[1] & M
        if t == "rep":
            return M if self.bit(g[1]) else 0
        if t == "m":
            mp = _maplist[g[1]]
            base = self.factor(g[2], max(nb, len(mp)))
            v = 0
            for i in range(min(nb, len(mp))):
                if mp[i] >= 0 and base >> mp[i] & 1:
                    v |= 1 << i
            return v
        if t == "fn":
            if g[1] == "widen":
                sb, wb = g[2]
                v = self.ofkey(g[3], sb) & ((1 << sb) - 1)
                if v >> (sb - 1) & 1:
                    v -= 1 << sb
                return v & M
            if g[1] == "trunc" and isinstance(g[2][0], int):
                v = self.ofkey(g[3], nb) & M
                if v >> (nb - 1) & 1:
                    v -= 1 << nb
                return (v >> g[2][0]) & M
            args = tuple(self.anykey(k, nb) for k in g[3:])
            return self.atom(("fn", g[1], g[2], args)) & M
        return self.atom(g) & M

    def anykey(self, k, nb):
        if isinstance(k, tuple) and len(k) == 2 and k[0] in ("A", "B") and isinstance(k[1], frozenset):
            return self.ofkey(k, nb) & ((1 << nb) - 1)
        if isinstance(k, tuple):
            return tuple(self.anykey(x, nb) for x in k)
        return k

    def bit(self, g):
        t = g[0]
        if t == "bitof":
            return self.factor(g[2], max(WORDBITS, g[1] + 1)) >> g[1] & 1
        if t == "fn" and g[1] == "carry":
            M = (1 << (g[2][0] + 1)) - 1
            return ((self.ofkey(g[3], WORDBITS) & M) + (self.ofkey(g[4], WORDBITS) & M)) >> (g[2][0] + 1) & 1
        if t == "nz":
            return int(self.ofkey(g[1], WORDBITS) & ((1 << WORDBITS) - 1) != 0)
        if t in ("lt", "eq"):
            nb = WORDBITS
            vs = []
            for k in g[1:3]:
                v = self.ofkey(k, nb) & ((1 << nb) - 1)
                vs.append(v - (1 << nb) if v >> (nb - 1) & 1 else v)
            return int(vs[0] < vs[1]) if t == "lt" else int(vs[0] == vs[1])
        if t == "fn":
            args = tuple(self.anykey(k, WORDBITS) for k in g[3:])
            return self.atom(("fn", g[1], g[2], args)) & 1
        return self.atom(g) & 1

    mod = None

    def A(self, t, nb):
        acc = 0
        for m, c in t.items():
            if not isinstance(c, int):
                raise Undef("non-integer coefficient")
            p = c
            for g in m:
                p *= self.factor(g, nb)
            acc += p
        return acc

    def B(self, t, nb):
        acc = 0
        for m in t:
            p = (1 << nb) - 1
            for g in m:
                if g[0] == "bit":
                    p = p if self.bit(g[1]) else 0
                else:
                    p &= self.factor(g, nb)
            acc ^= p
        return acc

    def form(self, f, nb):
        return (self.A(f.t, nb) if isinstance(f, AF) else self.B(f.t, nb)) & ((1 << nb) - 1)


_rs = {}


def repr_stable(a):
    if isinstance(a, frozenset):
        return "{" + ",".join(sorted(repr_stable(x) for x in a)) + "}"
    if isinstance(a, tuple):
        return "(" + ",".join(repr_stable(x) for x in a) + ")"
    return repr(a)


def confirm(f, g, nb, isbool=False, tries=6):
    """a valuation separating two forms, or None"""
    for s in range(tries):
        v = Valuation(s)
        w = 1 if isbool else nb
        if v.form(f, w) != v.form(g, w):
            return s
    return None
