"""Share algebra: normal forms of IR nodes.

Two coupled abstract domains:
  AF  integer-linear combinations of monomials (ring Z_2^k view)
  BF  GF(2) polynomials over bit-vectors (xor/and view)
Operations outside a domain become opaque factors carrying the canonical form of
their operands, so two nodes with equal normal forms denote equal tensors for
every assignment of the atoms.
"""
from .graph import Node

STRUCT = {"reshape", "transpose", "strided_slice", "gather", "split", "reverse", "expand_dims", "squeeze",
          "tile", "scatter_nd", "getitem", "batch_to_space", "space_to_batch", "im2col", "im2patches", "pad"}
SUMLIN = {"reduce_sum", "cumsum", "patches2im"}
BITLIN = {"bit_gather", "bit_split_and_gather", "bit_reverse", "bits", "xor_indices"}
MAXTERMS = 4000


class TooBig(Exception):
    pass


_kc = {}


def fkey(f):
    """stable sort key of a factor"""
    k = _kc.get(f)
    if k is None:
        k = repr(f)
        _kc[f] = k
    return k


def mono(factors):
    return tuple(sorted(factors, key=fkey))


class AF:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}
        self._h = None
        if len(self.t) > MAXTERMS:
            raise TooBig()

    def key(self):
        if self._h is None:
            self._h = ("A", frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, AF) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "A[" + " + ".join("%s*%s" % (c, "·".join(short(f) for f in m) or "1")
                                 for m, c in sorted(self.t.items(), key=lambda x: repr(x))) + "]"


class BF:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = frozenset(t)
        if len(self.t) > MAXTERMS:
            raise TooBig()

    def key(self):
        return ("B", self.t)

    def __eq__(self, o):
        return isinstance(o, BF) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "B[" + " ^ ".join("&".join(short(f) for f in sorted(m, key=fkey)) or "~0" for m in
                                 sorted(self.t, key=lambda m: repr(sorted(m, key=fkey)))) + "]"


def short(f):
    if isinstance(f, tuple) and f:
        if f[0] == "v":
            return str(f[1])
        if f[0] == "prf":
            return "F" + str(f[1:3])
        if f[0] in ("S", "L"):
            return "%s%s(%s)" % (f[1], f[2], "·".join(short(x) for x in f[3]))
        if f[0] == "bil":
            return "%s(%s,%s)" % (f[1], "·".join(short(x) for x in f[3]), "·".join(short(x) for x in f[4]))
    return str(f)


def a_const(c):
    return AF({(): c})


def a_add(x, y, k=1):
    t = dict(x.t)
    for m, c in y.t.items():
        t[m] = t.get(m, 0) + k * c
    return AF(t)


def a_scale(x, k):
    return AF({m: c * k for m, c in x.t.items()})


def merge_mono(m1, m2):
    fs = list(m1)
    for f in m2:
        if f[0] == "bit" and f in fs:
            continue                      # bits are idempotent
        fs.append(f)
    return mono(fs)


def a_mul(x, y):
    t = {}
    if len(x.t) * len(y.t) > 40000:
        raise TooBig()
    for m1, c1 in x.t.items():
        for m2, c2 in y.t.items():
            m = merge_mono(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    return AF(t)


def a_bil(op, params, x, y):
    t = {}
    for m1, c1 in x.t.items():
        for m2, c2 in y.t.items():
            m = (("bil", op, params, m1, m2),)
            t[m] = t.get(m, 0) + c1 * c2
    return AF(t)


def b_xor(x, y):
    return BF(x.t ^ y.t)


def b_and_mono(m1, m2):
    m = m1 | m2
    cs = [f for f in m if f[0] == "c"]
    if len(cs) > 1:
        v = -1
        for f in cs:
            v &= f[1]
        m = frozenset(f for f in m if f[0] != "c")
        if v == 0:
            return None
        if v != -1:
            m = m | {("c", v)}
    return m


def b_and(x, y):
    out = set()
    if len(x.t) * len(y.t) > 40000:
        raise TooBig()
    for m1 in x.t:
        for m2 in y.t:
            m = b_and_mono(m1, m2)
            if m is None:
                continue
            out ^= {m}
    return BF(out)


ONES = frozenset()


def b_not(x):
    return BF(x.t ^ {ONES})


def b_const(c):
    if c == 0:
        return BF([])
    if c == -1:
        return BF([ONES])
    return BF([frozenset([("c", c)])])


def is_bit_factor(f):
    return f[0] in ("bit", "mask")


class Algebra:
    def __init__(self, atoms=None, nbits=64):
        self.memo = {}
        self.atoms = atoms or {}
        self.nbits = nbits

    # ---- conversions
    def toA(self, f):
        if isinstance(f, AF):
            return f
        if not f.t:
            return AF({})
        if len(f.t) == 1:
            m = next(iter(f.t))
            if m == ONES:
                return a_const(-1)
            if len(m) == 1:
                g = next(iter(m))
                if g[0] == "A":
                    return AF(dict(g[1][1]))
                if g[0] == "c":
                    return a_const(g[1])
                if g[0] == "sh" and g[1] > 0:
                    return AF({(g[2],): 2 ** g[1]})
                if g[0] == "bit":
                    return AF({(g,): 1})
                return AF({(g,): 1})
        # pure bit polynomial -> multilinear integer expansion
        if all(all(g[0] == "bit" for g in m) for m in f.t):
            return self.bits_to_int(f)
        # select pattern: cofactor on masks
        masks = sorted({g for m in f.t for g in m if g[0] == "mask"}, key=fkey)
        if masks and len(masks) <= 3:
            c = masks[0]
            f0 = BF([m for m in f.t if c not in m])
            f1t = set(f0.t)
            for m in f.t:
                if c in m:
                    f1t ^= {frozenset(m - {c})}
            a0, a1 = self.toA(f0), self.toA(BF(f1t))
            bit = self.bits_to_int(BF(c[1][1]))
            return a_add(a0, a_mul(bit, a_add(a1, a0, -1)))
        return AF({(("B", f.key()),): 1})

    def bits_to_int(self, f):
        """integer value (0/1) of a 1-bit GF(2) polynomial whose factors are bit atoms"""
        acc = AF({})
        for m in sorted(f.t, key=lambda m: repr(sorted(m, key=fkey))):
            p = AF({mono([g if g[0] == "bit" else ("bit", g) for g in m]): 1}) if m else a_const(1)
            # acc xor p = acc + p - 2 acc p
            acc = a_add(a_add(acc, p), a_mul(acc, p), -2)
        return acc

    def toB(self, f):
        if isinstance(f, BF):
            return f
        if not f.t:
            return BF([])
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if m == ():
                return b_const(c)
            if len(m) == 1:
                g = m[0]
                if c == 1:
                    if g[0] == "B":
                        return BF(g[1][1])
                    return BF([frozenset([g])])
                if c > 0 and (c & (c - 1)) == 0:
                    return BF([frozenset([("sh", c.bit_length() - 1, g)])])
        if self.is01(f):
            b = self.int_to_bits(f)
            if b is not None:
                return b
        return BF([frozenset([("A", f.key())])])

    def is01(self, f):
        return all(all(g[0] == "bit" for g in m) for m in f.t)

    def int_to_bits(self, f):
        """inverse of bits_to_int when the integer polynomial is 0/1-valued"""
        atoms = sorted({g for m in f.t for g in m}, key=fkey)
        if len(atoms) > 8:
            return None
        # evaluate on cube (constant folding of a multilinear polynomial)
        n = len(atoms)
        vals = {}
        for bits in range(1 << n):
            on = {atoms[i] for i in range(n) if bits >> i & 1}
            v = sum(c for m, c in f.t.items() if set(m) <= on)
            if v not in (0, 1):
                return None
            vals[bits] = v
        # Moebius transform
        out = set()
        for s in range(1 << n):
            acc = 0
            sub = s
            while True:
                acc ^= vals[sub]
                if sub == 0:
                    break
                sub = (sub - 1) & s
            if acc:
                out.add(frozenset(atoms[i] for i in range(n) if s >> i & 1))
        return BF(out)

    # ---- node evaluation
    def form(self, n):
        if not isinstance(n, Node):
            if isinstance(n, (int,)):
                return a_const(n)
            return AF({(("k", repr(n)),): 1})
        r = self.memo.get(n.id)
        if r is not None:
            return r
        # iterative to avoid deep recursion
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = [i for i in x.ins if isinstance(i, Node) and i.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.id] = self.reduce_mod(self.step(x), x)
            stack.pop()
        return self.memo[n.id]

    def reduce_mod(self, f, n):
        if isinstance(f, AF) and n.factory is not None and n.factory.kind == "ring" and n.factory.modulus:
            M = n.factory.modulus
            h = M // 2
            t = {}
            ch = False
            for m, c in f.t.items():
                if isinstance(c, int) and not (-h <= c < h):
                    c2 = c % M
                    if c2 >= h and M > 2:
                        c2 -= M
                    c, ch = c2, True
                t[m] = c
            if ch:
                return AF(t)
        return f

    def isbool(self, n):
        return n.factory is not None and n.factory.name == "bool"

    def lin(self, kind, op, params, f):
        """apply an element-rearranging / additive map monomial by monomial"""
        if isinstance(f, AF):
            t = {}
            for m, c in f.t.items():
                if m == () and kind == "S" and op != "pad" and op != "scatter_nd":
                    mm = ()
                else:
                    mm = ((kind, op, params, m),)
                t[mm] = t.get(mm, 0) + c
            return AF(t)
        out = set()
        for m in f.t:
            if m == ONES and op not in ("pad", "scatter_nd"):
                mm = ONES
            elif len(m) == 1:
                g = next(iter(m))
                mm = frozenset([self.push(kind, op, params, (g,))])
            else:
                mm = frozenset([(kind, op, params, mono(m))])
            out ^= {mm}
        return BF(out)

    def push(self, kind, op, params, m):
        g = m[0]
        if g[0] == "bit":
            return ("bit", (kind, op, params, (g[1],)))
        if g[0] == "c" and op not in ("pad", "scatter_nd"):
            return g
        return (kind, op, params, m)

    def step(self, n):
        op, ins = n.op, n.ins
        F = lambda i: self.form(ins[i])
        if n.id in self.atoms:
            return self.atoms[n.id]
        if op == "atom":
            if self.isbool(n):
                return BF([frozenset([("bit", ("v", n.tag))])])
            return AF({(("v", n.tag),): 1})
        if op in ("const", "tf.constant") or (op in ("tensor", "constant", "variable") and not ins):
            v = n.params[0]
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                if self.isbool(n):
                    return BF([ONES]) if v & 1 else BF([])
                return a_const(v)
            if isinstance(v, tuple) and v and v[0] == "nd":
                vals = set(v[2])
                if len(vals) == 1:
                    x = vals.pop()
                    if isinstance(x, (int, bool)):
                        return a_const(int(x))
            return AF({(("k", v),): 1})
        if op in ("identity", "value", "tensor", "constant", "variable", "to_native", "tf.identity", "numpy"):
            if op in ("tensor", "constant", "variable") and self.isbool(n) and not self.isbool(ins[0]) and \
                    ins[0].kind == "tf" and ins[0].op == "tf.cast":
                return self.tobool(self.form(ins[0]))
            return F(0)
        if op in ("add", "sub", "neg", "mul") and self.isbool(n):
            # Z_2 arithmetic
            x = self.toB(F(0))
            if op == "neg":
                return x
            y = self.toB(F(1))
            return b_xor(x, y) if op in ("add", "sub") else b_and(x, y)
        if op == "add":
            return a_add(self.toA(F(0)), self.toA(F(1)))
        if op == "sub":
            return a_add(self.toA(F(0)), self.toA(F(1)), -1)
        if op == "neg":
            return a_scale(self.toA(F(0)), -1)
        if op == "mul":
            return a_mul(self.toA(F(0)), self.toA(F(1)))
        if op in ("matmul", "conv2d"):
            return a_bil(op, n.params, self.toA(F(0)), self.toA(F(1)))
        if op == "xor":
            return b_xor(self.toB(F(0)), self.toB(F(1)))
        if op == "and":
            return b_and(self.toB(F(0)), self.toB(F(1)))
        if op == "or":
            a, b = self.toB(F(0)), self.toB(F(1))
            return b_xor(b_xor(a, b), b_and(a, b))
        if op == "not":
            return b_not(self.toB(F(0)))
        if op == "lshift" and len(ins) == 1 and isinstance(n.params[0], int):
            k = n.params[0]
            f = F(0)
            if isinstance(f, AF):
                return a_scale(f, 2 ** k)
            return self.shift("sh", k, f)
        if op in ("lrshift", "arshift") and len(ins) == 1 and isinstance(n.params[0], int):
            f = F(0)
            k = n.params[0]
            if k == 0:
                return f
            f2 = self.toB(f)
            return self.shift("lrs" if op == "lrshift" else "ars", k, f2)
        if op == "where":
            c = self.cond(ins[0])
            x, y = self.toB(F(1)), self.toB(F(2))
            if c is None:
                return AF({(("fn", "where", self.form(ins[0]).key(), x.key(), y.key()),): 1})
            if self.isbool(n):
                mask = c
            else:
                mask = BF([frozenset([("mask", c.key())])])
            return b_xor(b_and(mask, b_xor(x, y)), y)
        if op == "prf":
            s = self.toA(F(0)) if ins else AF({(("noseed", n.id),): 1})
            fac = ("prf", s.key(), n.params)
            if self.isbool(n):
                return BF([frozenset([("bit", fac)])])
            return AF({(fac,): 1})
        if op in ("sample_uniform", "sample_bounded", "sample_bits"):
            fac = ("rnd", n.params)
            if self.isbool(n):
                return BF([frozenset([("bit", fac)])])
            return AF({(fac,): 1})
        if op == "seed":
            return AF({(("seed", n.tag),): 1})
        if op in STRUCT and len(ins) == 1:
            return self.lin("S", op, n.params, F(0))
        if op in STRUCT and len(ins) == 2:
            return self.lin("S", op, n.params + (self.form(ins[1]).key(),), F(0))
        if op in SUMLIN:
            return self.lin("L", op, n.params, self.toA(F(0)))
        if op in BITLIN:
            f = self.toB(F(0))
            p = n.params
            if self.isbool(n):
                r = self.lin("S", op, p, f)
                return BF([frozenset(g if g[0] == "bit" else ("bit", g) for g in m) for m in r.t])
            return self.lin("S", op, p, f)
        if op in ("concat", "stack"):
            acc = None
            for i, x in enumerate(ins):
                f = self.form(x)
                p = n.params + (i, len(ins))
                t = self.lin_embed(op, p, f)
                if acc is None:
                    acc = t
                elif isinstance(acc, AF) and isinstance(t, AF):
                    acc = a_add(acc, t)
                else:
                    acc = b_xor(self.toB(acc), self.toB(t))
            return acc
        if op == "cast":
            f = F(0)
            src, dst = n.params
            if dst == "bool":
                return self.tobool(f)
            if src == "bool":
                return self.bits_to_int(self.toB(f)) if isinstance(f, BF) else f
            return self.lin("S", "cast", n.params, f)
        if op in ("tf.cast",):
            return F(0)
        # opaque
        args = tuple(self.form(i).key() if isinstance(i, Node) else ("k", repr(i)) for i in ins)
        fac = ("fn", op, n.params, args)
        if self.isbool(n):
            return BF([frozenset([("bit", fac)])])
        return AF({(fac,): 1})

    def lin_embed(self, op, p, f):
        if isinstance(f, AF):
            return AF({((("S", op, p, m)),): c for m, c in f.t.items()})
        out = set()
        for m in f.t:
            if all(g[0] == "bit" for g in m) and m:
                out ^= {frozenset([("bit", ("S", op, p, mono(m)))])}
            else:
                out ^= {frozenset([("S", op, p, mono(m))])}
        return BF(out)

    def shift(self, kind, k, f):
        """shift every factor (shifts distribute over xor and and)"""
        if k == 0:
            return f
        out = set()
        for m in f.t:
            if m == ONES:
                if kind == "ars":
                    mm = ONES
                else:
                    v = (((1 << self.nbits) - 1) << k) & ((1 << self.nbits) - 1) if kind == "sh" else \
                        ((1 << self.nbits) - 1) >> k
                    if v >= 1 << (self.nbits - 1):
                        v -= 1 << self.nbits
                    mm = frozenset([("c", v)])
            else:
                fs = set()
                for g in m:
                    if g[0] == "c":
                        u = g[1] & ((1 << self.nbits) - 1)
                        if kind == "sh":
                            v = (u << k) & ((1 << self.nbits) - 1)
                        elif kind == "lrs":
                            v = u >> k
                        else:
                            v = (g[1] >> k) & ((1 << self.nbits) - 1)
                        if v >= 1 << (self.nbits - 1):
                            v -= 1 << self.nbits
                        if v == 0:
                            fs = None
                            break
                        fs.add(("c", v))
                    elif g[0] == kind:
                        fs.add((kind, g[1] + k, g[2]))
                    else:
                        fs.add((kind, k, g))
                if fs is None:
                    continue
                mm = frozenset(fs)
            out ^= {mm}
        return BF(out)

    def tobool(self, f):
        """cast of a 0/1 valued ring element to a bit"""
        if isinstance(f, AF) and self.is01(f):
            b = self.int_to_bits(f)
            if b is not None:
                return b
        g = self.toB(f)
        one = ("c", 1)
        if all(one in m for m in g.t):
            # (poly & 1): the low bit of each remaining factor
            return BF([frozenset(("bit", ("lsb", x)) for x in m if x != one) for m in g.t])
        if all(all(x[0] == "bit" for x in m) for m in g.t):
            return g
        return BF([frozenset([("bit", ("nz", f.key()))])])

    def cond(self, n):
        f = self.form(n)
        if isinstance(f, AF):
            if self.is01(f):
                return self.int_to_bits(f)
            f = self.toB(f)
        if all(all(g[0] == "bit" for g in m) for m in f.t):
            return f
        return None


def atoms_of(f):
    """all leaf factors occurring (at any depth) in a form"""
    out = set()
    seen = set()

    def visit(x):
        if isinstance(x, (AF, BF)):
            visit(x.key())
            return
        if isinstance(x, tuple):
            if id(x) in seen:
                return
            seen.add(id(x))
            if x and x[0] in ("v", "rnd", "seed", "k", "noseed") and len(x) >= 2:
                out.add(x)
                return
            if x and x[0] == "prf":
                out.add(x)
                return
            for y in x:
                visit(y)
        elif isinstance(x, frozenset):
            for y in x:
                visit(y)
    visit(f)
    return out
