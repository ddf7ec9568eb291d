"""Cases and tolerances of the approximated functions, and the judge (see approx.py for the domain)."""
import math

import numpy as np
from numpy.polynomial import chebyshev as C

from .algebra import atoms_of
from .aby3ops import Exp
from .approx import Ap, V, enclose, interp, prange
from .elem import Elem, TooBig, Undef
from .graph import Node
from .interp import Inst
from .lib import Judge, Lib
from .pondlib import PondJudge, PondLib

E = math.e
LOG2E = math.log2(E)


def below(n):
    seen, stack = {}, [n]
    while stack:
        q = stack.pop()
        if q.id not in seen:
            seen[q.id] = q
            stack.extend(q.ins)
    return seen.values()


class Tol:
    """allowed distance from the function value f at x: rel*|f| + units*ulp + slope*ulp*|f'(x)| + abs"""

    def __init__(self, rel=0.0, units=0.0, slope=0.0, abs=0.0, quad=0.0):
        self.rel, self.units, self.slope, self.abs, self.quad = rel, units, slope, abs, quad

    def at(self, fx, dfx, scale, x=0.0):
        """fx in units, dfx real slope"""
        return self.rel * abs(fx) + self.units + self.slope * abs(dfx) + self.abs * scale + self.quad * x * x * abs(fx)


class Recording:
    """what both protocols' libraries need for the analysis of compositions"""
    SUMMARISED = ()

    def __init__(self, *args):
        self.assembled = []
        self.now = None
        super().__init__(*args)

    def secret(self, t):
        r = super().secret(t)
        if isinstance(r, Node) and id(t) not in self.ideal:
            self.assembled.append((t, r))
        return r

    def literal(self, a):
        """the numbers of a constant TensorFlow tensor """
        if not isinstance(a, Node) or a.kind != "tf" or a.shape is None:
            return None
        try:
            f = Ap(self.nbits, {}).form(a)
            v = np.array([x.c if x.c is not None else float(x.poly()[0]) for x in f.reshape(-1) if x.c is not None or (len(x.poly()) == 1 and x.e == 0)])
        except (Undef, TooBig):
            return None
        if v.size != f.size:
            return None
        return v.reshape(f.shape)

    def intercept(self, name, args, kw):
        old, self.now = self.now, name
        try:
            return super().intercept(name, args, kw)
        finally:
            self.now = old

    def sig(self, a, out):
        v = self.literal(a) if self.now in ("add", "sub", "mul") else None
        return ("C", repr(v)) if v is not None else super().sig(a, out)

    def spec(self, name, args, kw):
        if not hasattr(self, "sp_" + name):
            return None
        args = [a if self.literal(a) is None else self.literal(a) for a in args]
        return super().spec(name, args, kw)


class ApxPond(Recording, PondLib):
    pass


class ApxLib(Recording, Lib):
    """the protocol with the approximated functions as summarised operations"""
    SUMMARISED = ("reciprocal", "exp2", "exp")

    def apx(self, x, name, params):
        n = self.secret(x)
        return Exp("private", self.S.node("apx", [n], (name,) + params, shape=n.shape), True, self.ARITH)

    def ok_arg(self, x):
        return self.isp(x) and self.st(x) == self.ARITH and self.scaled(x) is True

    def sp_reciprocal(self, x, nonsigned=False, precision=1):
        if not self.ok_arg(x) or not isinstance(precision, int):
            return None
        return self.apx(x, "reciprocal", (bool(nonsigned), precision))

    def sp_exp2(self, x, approx_type="mp-spdz", sign=None):
        if not self.ok_arg(x) or approx_type not in ("mp-spdz", "as2019") or sign not in (None, 1, -1):
            return None
        return self.apx(x, "exp2", (approx_type, sign))

    def sp_exp(self, x, approx_type="mp-spdz", sign=None):
        if not self.ok_arg(x) or approx_type not in ("mp-spdz", "as2019") or sign not in (None, 1, -1):
            return None
        return self.apx(x, "exp", (approx_type, sign))


class Approximations:
    def __init__(self, nbits, rep, tier, prefix=""):
        self.nb, self.rep, self.tier, self.pre = nbits, rep, tier, prefix
        self.w = w = ApxLib(nbits)
        self.k = w.frac
        self.scale = 2.0 ** self.k
        self.I = w.it.getattr(w.it.getattr(w.prot, "fixedpoint_config"), "precision_integral")
        # exp2 with "as2019" is documented down to -11, where it takes the reciprocal of 2^11
        self.RI = self.I + 1 if nbits == 64 else self.I
        self.thorough = tier == "thorough"
        self.tol = {
            # name: (exact arithmetic, with rounding)
            ("reciprocal", 1): (Tol(rel=2e-5, units=1, slope=1), Tol(rel=2e-5, units=12, slope=8)),
            ("reciprocal", 2): (Tol(rel=2e-5, units=1, slope=1), Tol(rel=2e-5, units=32, slope=16)),
            ("exp2", "mp-spdz"): (Tol(rel=6e-5, units=2) if nbits == 64 else Tol(rel=3e-5, units=2), Tol(rel=2e-4, units=2) if nbits == 64 else Tol(rel=3e-5, units=2)),
            ("exp2", "as2019"): (Tol(rel=1e-4, units=3), Tol(rel=3e-4, units=20) if nbits == 64 else Tol(rel=1e-4, units=20)),
        }
        self.functions_ = {"reciprocal": self.f_recip, "exp2": self.f_exp2, "exp": self.f_exp}

    # ------------------------------------------------ summarised functions
    def fun(self, el, x, nb, f, df, tol, lo, hi, params):
        """V for f applied to x, tolerance of its own analysis included"""
        k = self.k
        s = 2.0 ** k
        a, b = x.range()
        if a < lo or b > hi:
            raise Undef("argument in [%g, %g] leaves the supported range" % (a / s, b / s))
        if x.c is not None:
            v = f(x.c / s) * s
            return V(nb, p=np.array([v]), e=tol.at(v, df(x.c / s), s, x.c / s))
        g = interp(lambda t: f(float(C.chebval(t, x.poly())) / s) * s)
        fm = max(abs(f(a / s)), abs(f(b / s))) * s
        dm = max(abs(df(a / s)), abs(df(b / s)))
        e = tol.at(fm, dm, s, max(abs(a), abs(b)) / s) + dm * x.e
        return el.fit(g, e, nb)

    def f_recip(self, el, x, nb, params):
        ns, prec = params
        t = self.tol[("reciprocal", prec)][1 if el.rounding else 0]
        a, b = x.range()
        m = 2.0 ** (self.k + self.RI)
        d = self.recip_dom() * self.scale
        if a > 0:
            return self.fun(el, x, nb, lambda v: 1 / v, lambda v: 1 / v / v, t, d, m - 1, params)
        if ns:
            raise Undef("nonsigned reciprocal of a negative value")
        return self.fun(el, x, nb, lambda v: 1 / v, lambda v: 1 / v / v, t, 1 - m, -d, params)

    def f_exp2(self, el, x, nb, params):
        ty, sign = params
        t = self.tol[("exp2", ty)][1 if el.rounding else 0]
        s = 2 ** self.k
        lo, hi = self.exp2_dom(ty)
        lo, hi = lo * s, hi * s
        if sign == 1:
            lo = 0
        if sign == -1 and ty == "mp-spdz":
            hi = -1
        a, b = x.range()
        if b > hi and math.floor(b) <= hi:
            b = hi
            x = V(x.nb, lin=x.lin, k=x.k)
            x._r = (a, hi)
        return self.fun(el, x, nb, lambda v: 2.0 ** v, lambda v: 2.0 ** v * math.log(2), t, lo, hi, params)

    def f_exp(self, el, x, nb, params):
        ty, sign = params
        y = el.addv(el.mulv(x, V(nb, c=int(LOG2E * 2 ** self.k)), nb), V(nb, c=0), nb)
        if y.c is not None:
            y = V(nb, c=y.c >> self.k)
        else:
            y = el.truncv(y, self.k, nb)
        return self.f_exp2(el, y, nb, params)

    def recip_dom(self):
        return 2.0 ** -8 if self.nb == 64 else 2.0 ** -16

    def exp2_dom(self, ty):
        return (-self.k - 1, self.I - 1) if ty == "mp-spdz" else (-11, 7) if self.nb == 64 else (-15, 15)

    # ------------------------------------------------ deciding one case
    def ir(self, name, *args, **kw):
        """the value of a function of symbolic inputs, None if it cannot be obtained (reported)"""
        w, rep = self.w, self.rep
        c = w.root(name, *args, **kw)
        nm = self.pre + c.label
        if c.status == "raise":
            rep.bad("total", nm, "raises %s at %s" % (c.why, getattr(c.why, "loc", None)))
            return None, nm
        if c.status != "ok":
            rep.undecided("total", nm, str(c.why))
            return None, nm
        rep.ok("total", nm)
        if w.kind(c.result) == "private" and w.scaled(c.result) is not True:
            rep.bad("scale", nm, "the result is not labelled as a fixed-point number")
            return None, nm
        rep.ok("scale", nm)
        node = w.secret(c.result)
        self.tag = w.secret(c.inputs[0]).tag
        self.recipe[node.id] = (name, [w.secret(a) if isinstance(a, Inst) else a for a in args], kw)
        # tensors assembled from shares inside the function: their value may not depend on the masks
        asm = {n.id for _, n in w.assembled}
        seen, stack = set(), [node]
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.id in asm and any(q.op == "atom" and str(q.tag).startswith("~r") for q in below(n)):
                try:
                    dep = any("~r" in repr(q) for x in np.asarray(w.el.form(n), dtype=object).reshape(-1) for q in atoms_of(x))
                except (TooBig, Undef) as e:
                    rep.undecided("total", nm, "a tensor assembled from shares: %s" % e)
                    return None, nm
                if dep:
                    rep.undecided("total", nm, "the value of a tensor assembled from shares depends on the masks")
                    return None, nm
                continue
            if n.op == "atom" and str(n.tag).startswith("~r"):
                rep.undecided("total", nm, "the result depends on a mask")
                return None, nm
            stack.extend(n.ins)
        return node, nm

    def case(self, nm, node, tag, lo, hi, f, df, tols, extra=None, index=0, size=None):
        """|value - f| within both tolerances for every input lo..hi (integers)"""
        s = self.scale
        for rounding, tol in ((False, tols[0]), (True, tols[1])):
            nm2 = "%s, x in %g..%g%s" % (nm, lo / s, hi / s, "" if rounding else ", exact arithmetic")
            st, why = self.decide(node, lo, hi, rounding, f, df, tol, extra, index, size, 4)
            if st == "ok":
                self.rep.ok("approx", nm2, why)
            elif st == "bad":
                self.rep.bad("approx", nm2, why)
            else:
                self.rep.undecided("approx", nm2, why)

    def decide(self, node, lo, hi, rounding, f, df, tol, extra, index, size, depth):
        s = self.scale
        why = None
        worst = 0.0
        try:
            for x, r in enclose(node, self.tag, lo, hi, self.nb, rounding, self.funs(), self.symmetric, extra):
                if size is not None and len(r) != size:
                    return "bad", "the result has %d elements instead of %d" % (len(r), size)
                y = r[index]
                if not y.num():
                    why = "the result is not known as a number"
                    break
                v, low, at = self.compare(x, y, f, df, tol, s, lo, hi)
                worst = max(worst, v)
                if low > 1:
                    return "bad", "at x=%.9g the result %s is %.6g times the allowed distance from %.9g" % (at[0], at[1], low, at[2])
                if v > 1:
                    why = "distance bound %.3g times the tolerance" % v
        except Undef as e:
            why = str(e)
        if why is None:
            return "ok", "distance at most %.2g of the tolerance" % worst
        if depth and hi - lo > 16:
            m = (lo + hi) // 2
            out = [self.decide(node, a, b, rounding, f, df, tol, extra, index, size, depth - 1) for a, b in ((lo, m), (m + 1, hi))]
            for q in ("bad", "undecided"):
                for o in out:
                    if o[0] == q:
                        return o
            return out[0]
        if rounding:
            bad = self.concrete(node, lo, hi, f, df, tol, extra, index)
            if bad:
                return "bad", bad
        return "undecided", why

    def funs(self):
        return self.functions_

    def compare(self, x, y, f, df, tol, s, lo, hi):
        """(upper bound of distance/tolerance, lower bound, witness)"""
        p = x.poly()
        if len(p) > 2:
            raise Undef("input not linear")
        lo_, hi_ = lo / s, hi / s

        def X(t):
            return min(max(float(C.chebval(t, p)) / s, lo_), hi_)
        xe = 0.0
        if len(p) == 1:
            g = np.array([f(X(0)) * s])
        else:
            g = interp(lambda t: f(float(C.chebval(t, p)) / s) * s)
        pts = np.linspace(-1, 1, 33)
        sl = [abs(df(X(t))) for t in pts]
        fv = [abs(f(X(t))) * s for t in pts]
        xe = x.e * max(sl) * 1.2 if x.e else 0.0
        d = C.chebsub(y.poly(), g)
        a, b = prange(d)
        tmin = min(tol.at(q, z, s, X(t)) for q, z, t in zip(fv, sl, pts))
        up = (max(abs(a), abs(b)) + y.e + xe) / tmin if tmin else (0 if max(abs(a), abs(b)) + y.e + xe == 0 else 1e9)
        low, at = 0.0, None
        for t, q, z in zip(pts, fv, sl):
            dv = abs(float(C.chebval(t, d))) - y.e - xe
            tt = tol.at(q, z, s, X(t)) * 1.0000001 + 1e-9
            if dv / tt > low:
                low, at = dv / tt, (X(t), "%.9g" % (float(C.chebval(t, y.poly())) / s), f(X(t)))
        return up, low, at

    def concrete(self, node, lo, hi, f, df, tol, extra, index):
        """could not be bounded: is there an input for which the value itself is wrong?"""
        s = self.scale
        plain = self.plain(node)
        if plain is None:
            return None
        for q in sorted({lo, hi, (lo + hi) // 2, min(lo + 1, hi), max(hi - 1, lo), lo + (hi - lo) // 3, lo + 3 * (hi - lo) // 4}):
            try:
                (x, r), = enclose(plain, self.tag, q, q, self.nb, True, self.funs(), self.symmetric, extra)
            except (Undef, ValueError):
                continue
            y = r[index]
            if not y.num():
                continue
            v = f(q / s) * s
            t = tol.at(v, df(q / s), s, q / s) * 1.0000001 + 1e-6
            yv = y.c if y.c is not None else float(C.chebval(0, y.poly()))
            if abs(yv - v) - y.e > t:
                return "at x=%.9g the result is %.9g, the function value %.9g" % (q / s, yv / s, v / s)
        return None

    def plain(self, node):
        """the same value with nothing summarised"""
        if not any(n.op == "apx" for n in below(node)):
            return node
        if node.id not in self.plains:
            name, args, kw = self.recipe[node.id]
            w = ApxLib(self.nb)
            w.inline |= set(w.SUMMARISED)
            w.pm.eager = True
            a = [w.P("x", tuple(w_.shape)) if isinstance(w_, Node) else w_ for w_ in args]
            c = w.root(name, *a, **kw)
            n = None
            if c.status == "ok":
                n = w.secret(c.result)
            self.plains[node.id] = n
            self.keep.append((w, node))
        return self.plains[node.id]

    # ------------------------------------------------ the functions
    JUDGE = Judge
    symmetric = False
    plains, recipe, keep = {}, {}, []
    PARTS = {"division": ("recip", "inv_sqrt"), "powers": ("sigmoid", "log", "powers", "public", "relu", "shapes"), "exponential": ("exp2", "exp"), "softmax": ("softmax", "rows")}

    def run(self, part):
        for q in self.PARTS[part]:
            getattr(self, "c_" + q)()
        w, rep = self.w, self.rep
        J = self.JUDGE(w, rep, self.pre)
        for c in w.order:
            if not hasattr(w, "sp_" + c.name) or c.name in w.SUMMARISED or c.status != "ok":
                J.handed(c, self.pre + c.label)
                continue
            J.context(c)
        rep.functions |= set(w.it.visited)
        rep.contexts = len(w.order)

    def split(self, lo, hi, n):
        """n consecutive integer sub-ranges"""
        q = [lo + (hi - lo + 1) * i // n for i in range(n + 1)]
        return [(a, b - 1) for a, b in zip(q, q[1:]) if b > a]

    def P(self, shape=(1,), tag="x"):
        return self.w.P(tag, shape)

    def octaves(self, dom, top, signs=(1,), n=4):
        k = self.k
        j = int(math.log2(dom * 2 ** k))
        step = 1 if self.nb == 64 or self.thorough else 3
        js = list(range(j, top, step))
        if js[-1] != top - 1:
            js.append(top - 1)
        for j in js:
            for a, b in self.split(2 ** j, 2 ** (j + 1) - (1 if j < top - 1 else 9), n):
                for sg in signs:
                    yield (a, b) if sg > 0 else (-b, -a)

    def c_recip(self):
        for kw, signs in (({}, (1, -1)), ({"nonsigned": True}, (1,)), ({"precision": 2}, (1, -1)), ({"nonsigned": True, "precision": 2}, (1,))):
            node, nm = self.ir("reciprocal", self.P(), **kw)
            if node is None:
                continue
            for lo, hi in self.octaves(self.recip_dom(), self.k + self.RI, signs):
                self.case(nm, node, "x", lo, hi, lambda v: 1 / v, lambda v: 1 / v / v, self.tol[("reciprocal", kw.get("precision", 1))])

    def c_inv_sqrt(self):
        for kw in ({}, {"precision": 2}):
            node, nm = self.ir("inv_sqrt", self.P(), **kw)
            if node is None:
                continue
            t = self.tol_isq()
            for lo, hi in self.octaves(2.0 ** -8, self.k + self.I):
                self.case(nm, node, "x", lo, hi, lambda v: v ** -.5, lambda v: .5 * v ** -1.5, t)

    def tol_isq(self):
        return (Tol(rel=3e-4), Tol(rel=1e-3, units=4)) if self.nb == 64 else (Tol(rel=1e-4), Tol(rel=1e-4, units=4))

    def c_exp2(self):
        s = 1 << self.k
        f, df = (lambda v: 2.0 ** v), (lambda v: 2.0 ** v * math.log(2))
        node, nm = self.ir("exp2_pade", self.P())
        if node is not None:
            for lo, hi in self.split(0, s - 1, 4):
                self.case(nm, node, "x", lo, hi, f, df, self.tol[("exp2", "mp-spdz")])
        for ty in ("mp-spdz", "as2019"):
            lo, hi = self.exp2_dom(ty)
            for sign in (None, 1, -1):
                node, nm = self.ir("exp2", self.P(), approx_type=ty, sign=sign)
                if node is None:
                    continue
                r = range(lo, hi)
                if self.nb == 128 and not self.thorough:
                    r = [i for i in r if i in (lo, -2, -1, 0, 1, hi - 1) or i % 4 == 0]
                for i in r:
                    if sign == 1 and i < 0 or sign == -1 and i >= 0:
                        continue
                    for a, b in self.split(i * s, (i + 1) * s - 1, 2):
                        if ty == "as2019" and i < 0:
                            a, b = a + 1, min(b + 1, -1)        # this variant works on -x
                        self.case(nm, node, "x", a, b, f, df, self.tol[("exp2", ty)])

    def c_exp(self):
        s = 1 << self.k
        f = df = math.exp
        for ty in ("mp-spdz", "as2019"):
            lo, hi = self.exp2_dom(ty)
            lo, hi = int(lo / LOG2E), int(hi / LOG2E)
            for sign in (None, 1, -1):
                node, nm = self.ir("exp", self.P(), approx_type=ty, sign=sign)
                if node is None:
                    continue
                for i in range(lo, hi):
                    if sign == 1 and i < 0 or sign == -1 and i >= 0:
                        continue
                    b = (i + 1) * s - 1
                    self.case(nm, node, "x", i * s, b, f, df, self.tol_exp(ty))
        node, nm = self.ir("exp", self.P(), approx_type="infinity")
        if node is not None:
            t = Tol(abs=.004, units=300), Tol(abs=.004, units=300)
            for i in range(-12, 0):
                self.case(nm, node, "x", i * s, (i + 1) * s, f, df, t)

    def tol_exp(self, ty):
        # (rounding of the constant and of one truncation in the exponent x*log2(e))
        if ty == "as2019":
            return (Tol(rel=5e-4, units=8), Tol(rel=1.2e-3, units=30)) if self.nb == 64 else (Tol(rel=3e-4, units=8), Tol(rel=3e-4, units=30))
        # the exponent x*log2(e) carries the rounding of the constant and of one truncation
        if self.nb == 64:
            return Tol(rel=5e-4, units=3), Tol(rel=8e-4, units=3)
        return Tol(rel=1e-4, units=4), Tol(rel=1e-4, units=6)

    def c_sigmoid(self):
        s = 1 << self.k
        f = lambda v: 1 / (1 + math.exp(-v))
        df = lambda v: f(v) * (1 - f(v))
        for ty, cut, tol in (("3_piecewise_linear", (-2.5, 2.5), .077), ("5_piecewise_linear", (-4, -1.5, 1.5, 4), .0415)):
            node, nm = self.ir("sigmoid", self.P(), approx_type=ty)
            if node is None:
                continue
            b = [int(c * s) for c in (-20,) + cut]
            e = [int(c * s) for c in cut + (20,)]
            for lo, hi in zip(b, e):
                for p, q in self.split(lo + 1, hi, 2):
                    self.case(nm, node, "x", p, q, f, df, (Tol(abs=tol, units=2), Tol(abs=tol + .001, units=4)))

    def c_shapes(self):
        """larger tensors: every element gets its own function value"""
        s = 1 << self.k
        sig = lambda v: 1 / (1 + math.exp(-v))
        ln2 = math.log(2)
        jobs = [("reciprocal", (), {}, lambda v: 1 / v, lambda v: 1 / v / v, self.tol[("reciprocal", 1)], (1.25, 1.5), (-3.0, 0.3, 700.0)),
                ("inv_sqrt", (), {}, lambda v: v ** -.5, lambda v: .5 * v ** -1.5, self.tol_isq(), (1.25, 1.5), (3.0, 0.3, 700.0)),
                ("exp2", (), {}, lambda v: 2.0 ** v, lambda v: 2.0 ** v * ln2, self.tol[("exp2", "mp-spdz")], (1.25, 1.5), (-3.5, 0.25, -9.0)),
                ("exp2", (), {"approx_type": "as2019"}, lambda v: 2.0 ** v, lambda v: 2.0 ** v * ln2, self.tol[("exp2", "as2019")], (1.25, 1.5), (-3.5, 0.25, -1.75)),
                ("exp", (), {}, math.exp, math.exp, self.tol_exp("mp-spdz"), (1.25, 1.5), (-3.5, 0.25, -7.0)),
                ("sigmoid", (), {}, sig, lambda v: .25, (Tol(abs=.042), Tol(abs=.042)), (1.75, 2.5), (-1.0, 9.0, -6.0)),
                ("log", (), {}, math.log, lambda v: 1 / v, (Tol(abs=.026), Tol(abs=.04)), (.5, .75), (.3, 1.0, 1.25)),
                ("polynomial", ([0.5, -1.5, 0.25],), {}, lambda v: .5 - 1.5 * v + .25 * v * v, lambda v: 3, (Tol(units=40), Tol(units=60)), (1.25, 1.5), (-3.0, 0.5, 2.0)),
                ("relu", (), {}, lambda v: max(v, 0.0), lambda v: 1.0, (Tol(units=.5), Tol(units=.5)), (1.25, 1.5), (-3.0, 0.5, -2.0))]
        for name, args, kw, f, df, tols, (lo, hi), rest in jobs:
            tols = (tols[1], tols[1])        # constant elements are floored in either arithmetic
            for shape in ((4,), (2, 2), (1, 2, 2)):
                node, nm = self.ir(name, self.P(shape), *args, **kw)
                if node is None:
                    continue

                def extra(x, nb):
                    d = {(self.tag, 0): x}
                    d.update({(self.tag, i + 1): V(nb, c=int(v * s)) for i, v in enumerate(rest)})
                    return d
                self.case(nm, node, "x", int(lo * s), int(hi * s) - 1, f, df, tols, extra=extra, size=4)
                for i, v in enumerate(rest):
                    self.case(nm, node, "x", int(lo * s), int(hi * s) - 1, lambda t, v=v: f(v), lambda t, v=v: df(v), tols, extra=extra, index=i + 1, size=4)
        # a product along an axis
        for shape, ax, kd in (((3,), 0, False), ((2, 2), 1, True), ((2, 2), 0, False)):
            node, nm = self.ir("prod", self.P(shape), axis=ax, keepdims=kd)
            if node is None:
                continue
            vals = [1.5, -2.25, 0.75, 3.0][:int(np.prod(shape))]

            def extra(x, nb):
                d = {(self.tag, i): V(nb, c=int(v * s)) for i, v in enumerate(vals)}
                d[(self.tag, 0)] = x
                return d
            v = np.array(vals).reshape(shape)
            one = np.prod(v, axis=ax).reshape(-1)
            v[(0,) * len(shape)] = 1.0
            first = np.prod(v, axis=ax).reshape(-1)[0]
            for i, q in enumerate(one):
                if i == 0:
                    self.case(nm, node, "x", s, 2 * s, lambda t: t * first, lambda t: abs(first), (Tol(units=1), Tol(units=20)), extra=extra)
                else:
                    self.case(nm, node, "x", s, 2 * s, lambda t, q=q: q, lambda t: 0.0, (Tol(units=1), Tol(units=20)), extra=extra, index=i)

    def c_public(self):
        s = 1 << self.k
        for name, f, df in (("sqrt", math.sqrt, lambda v: .5 / math.sqrt(v)), ("reciprocal", lambda v: 1 / v, lambda v: 1 / v / v)):
            node, nm = self.ir(name, self.w.U("x", (1,)))
            if node is None:
                continue
            for j in range(self.k - 6, self.k + 8, 2):
                for lo, hi in self.split(2 ** j, 2 ** (j + 1) - 1, 2):
                    self.case(nm, node, "x", lo, hi, f, df, (Tol(rel=1e-12, units=2), Tol(rel=1e-12, units=2)))

    def c_relu(self):
        s = 1 << self.k
        node, nm = self.ir("relu", self.P())
        if node is not None:
            for lo, hi in ((-1000 * s, -1), (0, 0), (1, 1000 * s)):
                t = Tol(units=.5)
                self.case(nm, node, "x", lo, hi, lambda v: max(v, 0.0), lambda v: 1.0, (t, t))

    def c_log(self):
        s = 1 << self.k
        node, nm = self.ir("log", self.P())
        if node is not None:
            for lo, hi in self.split(int(.25 * s), int(1.4 * s), 6):
                self.case(nm, node, "x", lo, hi, math.log, lambda v: 1 / v, (Tol(abs=.026), Tol(abs=.06)))

    def c_powers(self):
        s = 1 << self.k
        top = 4 if self.nb == 64 else 16

        def poly(c):
            return (lambda v: sum(a * v ** i for i, a in enumerate(c))), (lambda v: sum(i * a * v ** (i - 1) for i, a in enumerate(c) if i))
        jobs = [("pow", (p,), [poly([0] * p + [1])]) for p in (1, 2, 3, 5, 8)[:5 if self.thorough else 4]]
        for c in ([0.5, 1.5, -0.25], [2, 0, 3], [0, 1], [-1.5], [1, -2, 0, 0.5], [0, 0, 1, 1]):
            jobs.append(("polynomial", (c,), [poly(c)]))
        mc = [[1.0, 2.0], [0.5, -0.25, 0.125], [3.0]]
        jobs.append(("multi_polynomial", (mc,), [poly(c) for c in mc]))
        for name, args, fs in jobs:
            node, nm = self.ir(name, self.P(), *args)
            if node is None:
                continue
            for i, (f, df) in enumerate(fs):
                for lo, hi in self.split(-top * s, top * s, 4):
                    m = max(top, 1)
                    deg = args[0] if name == "pow" else max(len(c) for c in (args[0] if name == "multi_polynomial" else [args[0]])) - 1
                    g = 40 * (m ** max(deg - 1, 0)) * deg + 12
                    self.case("%s[%d]" % (nm, i) if len(fs) > 1 else nm, node, "x", lo, hi, f, df,
                              (Tol(units=4 * m ** deg + 1), Tol(units=g)), index=i)
        cc = ((-2.0, 1.0), ((1.5, 0.5), (0.25, -1.0, 0.5), (2.0,)))
        node, nm = self.ir("polynomial_piecewise", self.P(), *cc)
        if node is not None:
            for (lo, hi), c in zip(((-4, -2), (-2, 1), (1, 4)), cc[1]):
                f, df = poly(c)
                for a, b in self.split(lo * s + 1, hi * s, 2):
                    self.case(nm, node, "x", a, b, f, df, (Tol(units=40), Tol(units=100)))

    def c_rows(self):
        """softmax of a matrix works row by row"""
        s = int(self.scale)
        self.w.pm.eager = True
        node, nm = self.ir("softmax", self.P((2, 3)))
        self.w.pm.eager = None
        if node is None:
            return
        rest = [2.0, 0.5, 0.25, 3.0, -1.0]

        def extra(x, nb):
            d = {(self.tag, i + 1): V(nb, c=int(v * s)) for i, v in enumerate(rest)}
            d[(self.tag, 0)] = x
            return d
        for idx in range(6):
            def f(v, idx=idx):
                row = ([v] + rest)[idx // 3 * 3:idx // 3 * 3 + 3]
                return math.exp(row[idx % 3]) / sum(math.exp(q) for q in row)
            self.case("%s, element %d" % (nm, idx), node, "x", s, 3 * s // 2, f, lambda v: .5,
                      (Tol(abs=3e-3), Tol(abs=3e-3)) if self.nb == 64 else (Tol(abs=3e-4), Tol(abs=4e-4)), extra=extra, index=idx, size=6)

    def c_softmax(self):
        s = 1 << self.k
        k = self.k
        gaps = ([0], [1], [5], [0, 2], [1, 1], [9, 1])
        for mm in ("network", "tree"):
            for ty in ("mp-spdz",) + (("as2019",) if self.nb == 128 else ()):
                for g in gaps[:6 if mm == "network" else 3]:
                    n = len(g) + 2
                    kw = {"approx_type": ty}
                    if mm != "network":
                        kw["max_method"] = mm
                    self.w.pm.eager = True
                    node, nm = self.ir("softmax", self.P((n,)), **kw)
                    self.w.pm.eager = None
                    if node is None:
                        continue
                    # element 0 is the largest, element 1 lies x below it, the others at fixed gaps
                    for i in range(0, 8 if ty != "as2019" else 4):
                        def extra(x, nb, g=g):
                            base = V(nb, c=0) if x.c is not None else V(nb, p=np.array([0.0, 0.0]), e=4.0 * s)
                            el = Ap(nb, {})
                            d = {(self.tag, 0): base, (self.tag, 1): el.combine(base, x, -1, nb)}
                            for j, v in enumerate(g):
                                d[(self.tag, 2 + j)] = el.combine(base, V(nb, c=int(v * s)), -1, nb)
                            return d
                        for idx in range(n):
                            def f(v, idx=idx, g=g):
                                den = 1 + math.exp(-v) + sum(math.exp(-q) for q in g)
                                num = 1 if idx == 0 else math.exp(-v) if idx == 1 else math.exp(-g[idx - 2])
                                return num / den

                            def df(v, f=f):
                                return (f(v + 1e-4) - f(v - 1e-4)) / 2e-4
                            for lo, hi in self.split(i * s + (i == 0), (i + 1) * s - 1, 1):
                                self.case("%s, gaps %s, element %d" % (nm, g, idx), node, "x", lo, hi, f, df,
                                          (Tol(abs=2e-3), Tol(abs=3e-3)) if self.nb == 64 else (Tol(abs=3e-4), Tol(abs=4e-4)), extra=extra, index=idx)


class PondApproximations(Approximations):
    """Pond evaluates fixed polynomials; they are claimed where they approximate"""
    JUDGE = PondJudge
    symmetric = True
    PARTS = {"polynomials": ("sigmoid", "relu", "tanh", "log", "public")}

    def __init__(self, cfg, rep, tier, prefix):
        self.rep, self.tier, self.pre, self.cfg = rep, tier, prefix, cfg
        self.w = w = ApxPond(cfg)
        self.k = w.frac
        self.scale = float(w.scaling_base) ** w.frac
        self.nb = 64 if w.factory.kind != "crt" else 96
        self.thorough = tier == "thorough"

    def funs(self):
        return {}

    def go(self, name, lo, hi, n, f, df, tols):
        node, nm = self.ir(name, self.P())
        if node is not None:
            s = int(self.scale)
            for a, b in self.split(int(lo * s), int(hi * s), n):
                self.case(nm, node, "x", a, b, f, df, tols)

    def c_sigmoid(self):
        f = lambda v: 1 / (1 + math.exp(-v))
        df = lambda v: f(v) * (1 - f(v))
        self.go("sigmoid", -3, 3, 6, f, df, (Tol(abs=.025), Tol(abs=.04)))
        # here the coefficients of x^7 and x^9, which vanish in fixed point, begin to be missed
        self.go("sigmoid", -4, -3, 2, f, df, (Tol(abs=.03), Tol(abs=.04)))
        self.go("sigmoid", 3, 4, 2, f, df, (Tol(abs=.03), Tol(abs=.04)))

    def c_relu(self):
        self.go("relu", -6, 6, 8, lambda v: max(v, 0.0), lambda v: 1.0, (Tol(abs=.445), Tol(abs=.45)))

    def c_tanh(self):
        self.go("tanh", -2.5, 2.5, 10, math.tanh, lambda v: 1 - math.tanh(v) ** 2, (Tol(abs=.0535), Tol(abs=.06)))

    def c_log(self):
        self.go("log", .25, 1.4, 8, math.log, lambda v: 1 / v, (Tol(abs=.026), Tol(abs=.06)))
