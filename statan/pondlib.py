"""Modular analysis of the Pond operations: two servers holding additive shares,
a crypto producer holding masks.  Same assume-guarantee scheme as lib.py."""
import numpy as np

from .aby3ops import Exp, SpecOps, nbits_of, out_loc, flat_results
from .aby3world import World
from .algebra import a_add, a_const, a_scale
from .elem import AF, BF, Elem, TooBig, Undef, Valuation, diff, leaves, show, toA
from .graph import FactoryVal, Node, ShapeVal
from .interp import AbsRaise, Incomplete, Inst, Unknown
from .lib import Judge, Lib, decide_equal, shift_terms
from .protomodel import F, freeze, matmul_shape

PO = "tf_encrypted.protocol.pond.pond:Pond."


class PondLib(Lib):
    KINDS = ("private", "public", "masked")
    PREFIX = PO
    MODULE = "protocol.pond.pond"
    CLASS = "Pond"

    def __init__(self, config="low", swap=0.0, ops=None, repo=None, choices=None):
        World.__init__(self, repo, choices)
        it = self.it
        it.models["random.random"] = lambda i, a, k: swap
        self.pm.eager = True        # one execution scope; cachecheck analyses several
        self.swap = swap
        self.pond = self.mod("protocol.pond.pond")
        self.pmod = self.mod(self.MODULE)
        self.tens = self.pond
        self.ARITH = ""
        self.BOOL = "boolean"
        cfg = config
        if config not in ("low", "high"):
            cfg = self.mod("tensor.fixed").ns[config]
        self.config = config
        self.prot = it.call(self.pmod.ns[self.CLASS], [], {"fixedpoint_config": cfg})
        fc = it.getattr(self.prot, "fixedpoint_config")
        self.nbits = it.getattr(fc, "nbits")
        self.scaling_base = it.getattr(fc, "scaling_base")
        self.bound = self.scaling_base ** (it.getattr(fc, "precision_integral") + 2 * it.getattr(fc, "precision_fractional"))
        self.bound1 = self.scaling_base ** (it.getattr(fc, "precision_integral") + it.getattr(fc, "precision_fractional"))
        self.interactive = not it.getattr(fc, "use_noninteractive_truncation")
        dev = lambda p: it.getattr(p, "device_name")
        self.servers = [dev(it.getattr(self.prot, "server_0")), dev(it.getattr(self.prot, "server_1"))]
        self.producer = dev(it.getattr(it.getattr(self.prot, "triple_source"), "producer"))
        self.factory = it.getattr(self.prot, "tensor_factory")
        it.overrides["tf_encrypted:get_protocol"] = lambda i, a, k: self.prot
        self.masks = {}
        self.start(ops)

    # ---------------------------------------------------------------- values
    def st(self, x):
        return ""

    def isp(self, x):
        return isinstance(x, Inst) and self.kind(x) in ("private", "masked")

    def shares(self, t):
        return self.it.getattr(t, "unwrapped")

    def support(self, t):
        return None

    def secret(self, t):
        if not isinstance(t, Inst):
            return t
        r = self.ideal.get(id(t))
        if r is not None:
            return r
        k = self.kind(t)
        if k == "masked":
            return self.secret(self.it.getattr(t, "unmasked"))
        sh = self.shares(t)
        return self.S.add(sh[0], sh[1]) if k == "private" else sh[0]

    def at(self, node, dev):
        return Node("identity", [node], (), kind="backing", factory=node.factory, shape=node.shape, device=dev, fn="ideal", tag="ideal")

    def _mask(self, tag, node):
        return Node("atom", (), (), kind="backing", factory=node.factory, shape=node.shape, tag=tag)

    def wrap_secret(self, node, share, scaled, factory=None, supp=None, sec=None):
        self.fresh += 1
        n = self.fresh
        sec = sec or Node("sec", [node], (), kind="backing", factory=node.factory, shape=node.shape)
        r = self._mask("~r%d.0" % n, node)
        base = [r, self.S.sub(sec, r)]
        self.sharings[n] = (base, sec, "", None)
        t = self.it.call(self.tens.ns["PondPrivateTensor"], [self.prot, self.at(base[0], self.servers[0]), self.at(base[1], self.servers[1]),
                                                             scaled], {})
        self.ideal[id(t)] = node
        self.keepalive.append(t)
        return t

    def wrap_public(self, node, scaled):
        if node.op == "atom":
            self.pubatoms.add(node.id)
        t = self.it.call(self.tens.ns["PondPublicTensor"], [self.prot, self.at(node, self.servers[0]), self.at(node, self.servers[1]), scaled], {})
        self.ideal[id(t)] = node
        self.keepalive.append(t)
        return t

    def wrap_masked(self, node, scaled):
        sec = Node("sec", [node], (), kind="backing", factory=node.factory, shape=node.shape)
        un = self.wrap_secret(node, None, scaled, sec=sec)
        n = self.fresh
        a0, a1 = self._mask("~a%d.0" % n, node), self._mask("~a%d.1" % n, node)
        a = self.S.add(a0, a1)
        alpha = self.S.sub(sec, a)
        self.masks[n] = (a0, a1, a, alpha, sec)
        d0, d1 = self.servers
        t = self.it.call(self.tens.ns["PondMaskedTensor"], [self.prot, un, self.at(a, self.producer), self.at(a0, d0), self.at(a1, d1),
                                                            self.at(alpha, d0), self.at(alpha, d1), scaled], {})
        self.ideal[id(t)] = node
        self.keepalive.append(t)
        return t

    def build(self, n, kind, share, scaled, supp):
        if kind == "masked":
            return self.wrap_masked(n, scaled)
        return Lib.build(self, n, kind, share, scaled, supp)

    def P(self, tag, shape, scaled=True, factory=None):
        return self.wrap_secret(self.atom(tag, factory or self.factory, shape), None, scaled)

    def M(self, tag, shape, scaled=True, factory=None):
        return self.wrap_masked(self.atom(tag, factory or self.factory, shape), scaled)

    def B(self, *a, **k):
        raise KeyError("no boolean sharing in Pond")

    def mk(self, k, *a):
        return {"P": self.P, "U": self.U, "M": self.M}[k](*a)

    # -------------------------------------------------------- specifications
    def trunc(self, n):
        return self.S.m(n, "truncate", self.frac, self.scaling_base)

    def samekind(self, x):
        return self.kind(x)

    def sp_negative(self, x):
        return Exp(self.kind(x), self.S.neg(self.secret(x)), self.scaled(x), None)

    def product(self, x, y, op):
        a, b, sx, sy = self.lift2(x, y)
        n = op(a, b)
        if sx and sy:
            e = Exp(self.kinds(x, y), self.trunc(n), True, None)
            e.trunc = n
            return e
        return Exp(self.kinds(x, y), n, bool(sx or sy), None)

    def sp_mul(self, x, y):
        return self.product(x, y, self.S.mul)

    sp_mul_pow2 = sp_mul_trunc2 = sp_truncate_msb0 = None

    def sp_truncate(self, x):
        e = Exp(self.kinds(x), self.trunc(self.secret(x)), self.scaled(x), None)
        e.trunc = self.secret(x)
        return e

    def sp_div(self, x, y):
        if isinstance(y, (int, float)) and not isinstance(y, bool):
            return self.product(x, 1.0 / y, self.S.mul)
        return None

    def sp_mask(self, x):
        if isinstance(x, (list, tuple)) or self.kind(x) != "private":
            return None
        return Exp("masked", self.secret(x), self.scaled(x), None)

    def sp_reveal(self, x):
        return Exp("public", self.secret(x), self.scaled(x), None)

    def sp_identity(self, x):
        return Exp(self.kind(x), self.secret(x), self.scaled(x), None)

    def sp_cumsum(self, x, axis=0, exclusive=False, reverse=False):
        return Exp(self.kinds(x), self.S.m(self.secret(x), "cumsum", axis, exclusive, reverse), self.scaled(x), None)

    def sp_reduce_sum(self, x, axis=None, keepdims=None):
        return Exp(self.kinds(x), self.S.m(self.secret(x), "reduce_sum", axis, keepdims), self.scaled(x), None)

    def sp_equal(self, x, y):
        if self.isp(x) or self.isp(y):
            return None
        a, b, sx, sy = self.lift2(x, y)
        if sx != sy:
            return None
        return Exp("public", self.S.m(a, "equal", b), False, None)

    def sp_add_n(self, xs):
        if len({bool(self.scaled(x)) for x in xs}) != 1:
            return None
        n = self.secret(xs[0])
        for x in xs[1:]:
            n = self.S.add(n, self.secret(x))
        return Exp(self.kinds(*xs), n, self.scaled(xs[0]), None)

    def sp_batch_to_space(self, x, block_shape, crops):
        return Exp(self.kinds(x), self.S.m(self.secret(x), "batch_to_space", block_shape, crops), self.scaled(x), None)

    def sp_space_to_batch(self, x, block_shape, paddings):
        return Exp(self.kinds(x), self.S.m(self.secret(x), "space_to_batch", block_shape, paddings), self.scaled(x), None)

    def sp_avgpool2d(self, x, pool_size, strides, padding):
        if not self.scaled(x):
            return None
        S = self.S
        xs = self.secret(x)
        n, c, h, w_ = xs.shape
        ph, pw = pool_size
        sh, sw = strides
        oh, ow = ((-(-h // sh), -(-w_ // sw)) if padding == "SAME" else (-(-(h - ph + 1) // sh), -(-(w_ - pw + 1) // sw)))
        p = S.m(S.m(xs, "reshape", [n * c, 1, h, w_]), "im2patches", [ph, pw], strides=list(strides), padding=padding, data_format="NHWC" if False else "NCHW")
        s = S.m(p, "reduce_sum", 1)
        s = S.m(s, "reshape", [n, c, oh, ow])
        prod = S.mul(s, self.num(1 / (ph * pw), x))
        e = Exp(self.kinds(x), self.trunc(prod), True, None)
        e.trunc = prod
        return e

    # layout keeps the kind (masked stays masked)
    def layout(self, x, mname, *a, **k):
        return Exp(self.kind(x), self.S.m(self.secret(x), mname, *a, **k), self.scaled(x), None)

    def sp_split(self, x, num_split, axis=0):
        return [Exp(self.kind(x), n, self.scaled(x), None) for n in self.S.m(self.secret(x), "split", num_split, axis=axis)]

    def sp_reshape(self, x, shape):
        return self.layout(x, "reshape", shape)

    def sp_expand_dims(self, x, axis=None):
        return self.layout(x, "expand_dims", axis)

    def joined(self, xs, axis, op):
        xs = list(xs)
        if len({(self.kind(x), bool(self.scaled(x)), self.fac(x).name) for x in xs}) != 1:
            return None
        n = self.it.call(self.pm.factory_attr(self.it, self.fac(xs[0]), op), [[self.secret(x) for x in xs]], {"axis": axis})
        return Exp(self.kind(xs[0]), n, self.scaled(xs[0]), None)

    def sp_stack(self, xs, axis=0):
        return self.joined(xs, axis, "stack")

    def sp_pad(self, x, paddings):
        if self.kind(x) == "masked":
            return None
        return Lib.sp_pad(self, x, paddings)


# drop specifications that make no sense for Pond
for _n in [n for n in dir(Lib) if n.startswith("sp_")]:
    if _n[3:] in ("less_than", "greater_than", "less_equal", "greater_equal", "equal_zero", "select", "xor", "and_", "or_", "not_", "lshift",
                  "rshift", "logical_rshift", "ppa", "a2b", "b2a", "b2a_single", "mul_ab", "bit_extract", "msb", "carry", "cast", "bits",
                  "bit_gather", "bit_split_and_gather", "bit_reverse", "expand", "scatter_nd", "tile", "reverse", "im2col", "im2patches",
                  "patches2im") and _n not in PondLib.__dict__:
        setattr(PondLib, _n, None)


# ------------------------------------------------------------------ values mod M
class ModEval:
    """evaluates canonical forms in Z_M with signed representatives; used to
    exhibit a counterexample, never to accept"""

    def __init__(self, seed, M, env=None):
        self.v = Valuation(seed)
        self.M = M
        self.env = env or {}

    def signed(self, v):
        v %= self.M
        return v - self.M if v > (self.M - 1) // 2 else v

    def atom(self, g):
        if g in self.env:
            return self.env[g]
        v = self.v.atom(g)
        if g[0] == "rnd" and len(g[1]) == 2 and isinstance(g[1][1], int):
            return v % (1 << g[1][1])
        return v % self.M

    def key(self, k):
        if k[0] == "A":
            return self.A(dict(k[1]))
        raise Undef("boolean form")

    def factor(self, g):
        if g[0] == "fn":
            if g[1] == "mod" and isinstance(g[2][0], int) and g[2][0]:
                return self.signed(self.key(g[3])) % g[2][0]
            if g[1] == "truncate":
                return self.signed(self.key(g[3])) // g[2][1] ** g[2][0]
            if g[1] == "trunc":
                return self.signed(self.key(g[3])) >> g[2][0]
            args = tuple(self.any(k) for k in g[3:])
            return self.v.atom(("fn", g[1], g[2], args)) % self.M
        if g[0] in ("B", "A", "m", "rep", "c"):
            nb = self.M.bit_length() - 1
            if self.M == 1 << nb:
                if g[0] == "B" and len(g[1][1]) == 1:
                    (m,) = g[1][1]
                    if len(m) == 1:
                        (h,) = m
                        if h[0] == "m":
                            from .elem import _maplist, shift_map
                            mp = _maplist[h[1]]
                            for am in range(1, nb):
                                if mp == shift_map(nb, am, "ar"):
                                    if h[2][0] == "A":
                                        return self.signed(self.key(h[2][1])) >> am
                                    return self.signed(self.factor(h[2])) >> am
            raise Undef("bit operation")
        return self.atom(g)

    def any(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] in ("A", "B") and isinstance(k[1], frozenset):
            return self.key(k) % self.M
        if isinstance(k, tuple):
            return tuple(self.any(x) for x in k)
        return k

    def A(self, t):
        acc = 0
        for m, c in t.items():
            if not isinstance(c, int):
                raise Undef("non-integer coefficient")
            p = c
            for g in m:
                p = p * self.factor(g) % self.M
            acc += p
        return acc % self.M

    def form(self, f):
        if isinstance(f, AF):
            return self.A(f.t)
        raise Undef("boolean form")


def mod_terms(f, s):
    """split f into  sum c_i * (w_i mod s)  and the rest"""
    parts, rest = [], {}
    for m, c in f.t.items():
        g = m[0] if len(m) == 1 else None
        if g is not None and g[0] == "fn" and g[1] == "mod" and g[2] and g[2][0] == s and g[3][0] == "A":
            parts.append((c, AF(dict(g[3][1]))))
        else:
            rest[m] = c
    return parts, AF(rest)


def trunc_terms(f, am, base, nb):
    """split f into sum c_i * floor(w_i / base^am) and the rest"""
    parts, rest = [], {}
    if base == 2:
        ps, f = shift_terms(f, am, nb)
        parts += ps
    for m, c in f.t.items():
        g = m[0] if len(m) == 1 else None
        if g is not None and g[0] == "fn" and g[1] == "truncate" and tuple(g[2]) == (am, base) and g[3][0] == "A":
            parts.append((c, AF(dict(g[3][1]))))
        else:
            rest[m] = c
    return parts, AF(rest)


def mred(f, M):
    h = M // 2
    t = {}
    for m, c in f.t.items():
        if not isinstance(c, int):
            raise Undef("non-integer coefficient")
        c %= M
        if c >= h:
            c -= M
        if c:
            t[m] = c
    return AF(t)


def bounded(f):
    """(L) if f is exactly one bounded nonnegative random value below 2^L"""
    if len(f.t) == 1:
        (m, c), = f.t.items()
        if c == 1 and len(m) == 1 and m[0][0] == "rnd" and len(m[0][1]) == 2 and isinstance(m[0][1][1], int):
            return m[0][1][1]
    return None


def decide_pond_trunc(w, el, o, x):
    """is o a truncation of x by the scaling factor (error below two units, no
    wrap-around for values within the double-precision bound)?"""
    nb = nbits_of(o)
    s = w.base
    M = x.factory.modulus
    half = (M - 1) // 2 if M % 2 else M // 2 - 1
    try:
        fo, fx = el.form(o), el.form(x)
        ft = el.form(w.trunc(x))
    except (TooBig, Undef) as e:
        return "?", str(e) or "normal form too large"
    if fo.shape != fx.shape:
        return "ne", "result has shape %s, expected %s" % (fo.shape, fx.shape)
    how = None
    cache = {}
    for idx in np.ndindex(*fo.shape):
        a, xx = fo[idx], fx[idx]
        if a == ft[idx]:
            how = "floor of the value"
            continue
        if not isinstance(a, AF):
            a = toA(a, nb)
        if not isinstance(xx, AF):
            xx = toA(xx, nb)
        try:
            r = trunc_lemma(w, a, xx, s, M, half, nb)
        except Undef as e:
            r = ("?", str(e))
        if r[0] == "eq":
            how = r[1]
            continue
        # look for a counterexample
        lv = [g for g in leaves(xx) if g[0] == "v"]
        for seed in range(24):
            ev = ModEval(seed, M)
            if seed % 3 != 2:
                for g in lv:
                    ev.env[g] = ev.v.atom(g) % 97 - 48
                if len(lv) == 1:
                    ev.env[lv[0]] = (ev.v.atom(lv[0]) % w.bound) * (-1) ** seed
            try:
                vx = ev.signed(ev.form(xx))
                if not -w.bound <= vx < w.bound:
                    continue
                vo = ev.signed(ev.form(a))
            except Undef:
                break
            if abs(vo - vx // s) > 2 and abs(vx) < w.bound:
                if r[0] == "range" or noninter_ok(r):
                    continue
                return "ne", "value %d is truncated to %d instead of about %d at element %s%s" % (
                    vx, vo, vx // s, idx, "; " + r[1] if r[1] else "")
        if r[0] == "range":
            return "ne", r[1]
        return "?", r[1]
    return "eq", how or "empty"


def noninter_ok(r):
    return False


def trunc_lemma(w, a, xx, s, M, half, nb):
    am, base = w.frac, w.scaling_base
    # the public / exact case: one floor of the value itself
    parts, rest = trunc_terms(a, am, base, nb)
    if parts and not rest.t:
        if len(parts) == 1 and parts[0][0] == 1 and mred(a_add(parts[0][1], xx, -1), M) == AF({}):
            return "eq", "floor of the value"
        if len(parts) == 2 and all(c in (1, -1) for c, _ in parts):
            tot = AF({})
            for c, q in parts:
                tot = a_add(tot, a_scale(q, c))
            if not mred(a_add(tot, xx, -1), M).t:
                # floor(u) + floor(v) with u+v = x: a wrap of the shares must not show in the result.  In the binary ring the signed
                # representatives of two random shares wrap around with complementary signs; floor(u) - floor(-v) needs the minus form.
                cs = sorted(c for c, _ in parts)
                if cs == [-1, 1] and w.bound << 20 > M:
                    return "range", "values up to %d leave less than 20 bits of headroom for the random shares in a ring of size %d" % (w.bound, M)
                if cs == [-1, 1]:
                    return "eq", "floor(u) - floor(v), u - v = value: exact up to one unit unless the shares wrap (probability |x|/modulus)"
                return "noninter", "both shares are rounded in the same direction"
    # interactive: s*a = x + (v mod s) - (u mod s) with u = v + x + const, const = 0 mod s
    f = mred(a_scale(a, s), M)
    parts, rest = mod_terms(mred(a_add(f, xx, -1), M), s)
    if len(parts) == 2 and not rest.t and sorted(c for c, _ in parts) == [-1, 1]:
        v = [q for c, q in parts if c == 1][0]
        u = [q for c, q in parts if c == -1][0]
        d = mred(a_add(a_add(u, v, -1), xx, -1), M)
        if set(d.t) <= {()}:
            c0 = d.t.get((), 0)
            if c0 % s:
                return "no", "the offset %d added before reduction is not a multiple of the scaling factor %d" % (c0, s)
            L = bounded(v)
            if L is None:
                return "no", "the mask subtracted from the revealed value is not a bounded nonnegative value: %s" % show(v)
            if c0 < w.bound:
                return "range", "values down to -%d become negative before masking (offset %d), so the revealed sum is not confined" % (w.bound, c0)
            if c0 + w.bound + (1 << L) > half:
                return "range", "value + offset + %d-bit mask can exceed half the modulus and wrap" % L
            return "eq", "x - (x mod s) up to one unit, offset %d, mask of %d bits" % (c0, L)
    return "no", "result is %s" % show(a)[:200]


class PondJudge(Judge):
    def device(self, nm, node, dev, where, what):
        d = node.device
        if isinstance(d, Unknown):
            self.rep.undecided("placement", nm, "unknown device")
        elif d != dev:
            self.rep.bad("placement", nm, "%s is produced on %s instead of %s; built in %s" % (what, d or "no particular device", dev, where))
        else:
            self.rep.ok("placement", nm)

    def headroom(self, c, nm):
        pass

    def same(self, rule, nm, a, b, msg, bits=None):
        if a.factory.kind != "crt":
            return Judge.same(self, rule, nm, a, b, msg, bits)
        rep = self.rep
        M = a.factory.modulus
        try:
            fa, fb = self.el.form(a), self.el.form(b)
        except (TooBig, Undef) as e:
            rep.undecided(rule, nm, str(e) or "normal form too large")
            return
        if fa.shape != fb.shape:
            rep.bad(rule, nm, msg("of shape %s, expected %s" % (fa.shape, fb.shape)))
            return
        for idx in np.ndindex(*fa.shape):
            x, y = fa[idx], fb[idx]
            if x == y:
                continue
            x, y = (f if isinstance(f, AF) else toA(f, 100) for f in (x, y))
            try:
                d = mred(a_add(x, y, -1), M)
                if not d.t:
                    continue
                for s in range(8):
                    if ModEval(s, M).form(d):
                        rep.bad(rule, nm, msg("%s, expected %s at element %s" % (show(x), show(y), idx)))
                        return
            except Undef as e:
                rep.undecided(rule, nm, str(e))
                return
            rep.undecided(rule, nm, "normal forms differ only syntactically: %s vs %s" % (show(x), show(y)))
            return
        rep.ok(rule, nm, show(fa.reshape(-1)[0]) if fa.size else "empty")

    def consistent(self, nm, t):
        w = self.w
        sh = w.shares(t)
        if any(not isinstance(x, Node) for x in sh):
            return
        where = out_loc(t, w)
        if w.kind(t) == "public":
            self.same("replicated", nm, sh[0], sh[1], lambda d: "public value differs between the servers: on server 0 %s; built in %s" % (d, where))
        elif w.kind(t) == "masked":
            a, a0, a1, al0, al1 = sh
            S = w.S
            self.same("masked", nm, S.add(a0, a1), a, lambda d: "mask shares add up to %s (the producer's mask); built in %s" % (d, where))
            self.same("masked", nm, al0, al1, lambda d: "the masked values of the servers differ: %s; built in %s" % (d, where))
            self.same("masked", nm, S.add(al0, a), w.secret(w.it.getattr(t, "unmasked")), lambda d: "masked value plus mask is %s; built in %s" % (d, where))

    def one(self, nm, o, e):
        w, rep = self.w, self.rep
        if not (isinstance(o, Inst) and w.ist(o)):
            rep.bad("value", nm, "result is not a protocol tensor: %r" % (o,))
            return
        kind = w.kind(o)
        where = out_loc(o, w)
        want = e.kind
        if kind != want and not (want == "private" and kind == "masked"):
            rep.bad("value", nm, "result is %s, expected %s; built in %s" % (kind, want, where))
            return
        if e.scaled is not None:
            sc = w.scaled(o)
            if isinstance(sc, Unknown):
                rep.undecided("scale", nm, "scale flag unknown")
            elif bool(sc) != bool(e.scaled):
                rep.bad("scale", nm, "result is labelled is_scaled=%s but its fixed-point exponent is %d; built in %s" % (sc, 1 if e.scaled else 0, where))
            else:
                rep.ok("scale", nm)
        sh = w.shares(o)
        if any(x.factory is not sh[0].factory for x in sh):
            rep.bad("ring", nm, "shares live in different rings: %s; built in %s" % (sorted({str(x.factory) for x in sh}), where))
            return
        rep.ok("ring", nm)
        d0, d1 = w.servers
        if kind in ("public", "private"):
            self.device(nm, sh[0], d0, where, "server 0's part")
            self.device(nm, sh[1], d1, where, "server 1's part")
        if kind == "public":
            self.same("replicated", nm, sh[0], sh[1], lambda d: "public value differs between the servers: on server 0 %s; built in %s" % (d, where))
        if kind == "masked":
            a, a0, a1, al0, al1 = sh
            for n, dv, what in ((a, w.producer, "the mask"), (a0, d0, "mask share 0"), (a1, d1, "mask share 1"), (al0, d0, "masked value on 0"),
                                (al1, d1, "masked value on 1")):
                self.device(nm, n, dv, where, what)
            un = w.it.getattr(o, "unmasked")
            self.device(nm, w.shares(un)[0], d0, where, "share 0 of the unmasked value")
            self.device(nm, w.shares(un)[1], d1, where, "share 1 of the unmasked value")
            S = w.S
            self.same("masked", nm, S.add(a0, a1), a, lambda d: "mask shares add up to %s (the producer's mask); built in %s" % (d, where))
            self.same("masked", nm, al0, al1, lambda d: "the masked values of the servers differ: %s; built in %s" % (d, where))
            self.same("masked", nm, S.add(al0, a), w.secret(o), lambda d: "masked value plus mask is %s; built in %s" % (d, where))
            if bool(w.scaled(un)) != bool(w.scaled(o)):
                rep.bad("scale", nm, "masked and unmasked value carry different scale labels; built in %s" % where)
        if e.node is None:
            return
        sec = w.secret(o)
        if getattr(e, "trunc", None) is not None and kind in ("private", "public"):
            r, d = decide_pond_trunc(w, self.el, sec, e.trunc)
            if r == "eq":
                rep.ok("value", nm, d)
            elif r == "ne":
                rep.bad("value", nm, "%s; built in %s" % (d, where))
            else:
                rep.undecided("value", nm, d)
            return
        self.same("value", nm, sec, w.fitted(e.node, sec.factory), lambda d: "result is %s; built in %s" % (d, where))
