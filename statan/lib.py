"""Modular (assume-guarantee) analysis of the ABY3 operations.

Every public protocol operation has an ideal specification `sp_<op>`.  When the
analysed program calls such an operation, the operation's real body is analysed
once per calling context on fresh, arbitrary inputs, compared with the ideal
specification, and the caller continues with the ideal result.  Every context
reached from the roots is therefore an obligation of its own.
"""
import numpy as np

from .aby3ops import AB, Exp, SpecOps, nbits_of, out_loc, flat_results
from .aby3world import ABY3World
from .bv import BVDomain, BVElem, bv_diff, valuation
from .elem import word_support, AF, BF, Elem, TooBig, Undef, confirm, diff, leaves, show, toA, toW
from .graph import FactoryVal, Node, ShapeVal, broadcast
from .interp import AbsRaise, Incomplete, Inst, PASS, Unknown, Ext, EnumMember
from .protomodel import F, freeze

ELEMENTWISE = {"add", "sub", "negative", "mul", "square", "mul_pow2", "xor", "and_", "or_", "not_", "lshift", "rshift",
               "logical_rshift", "ppa", "a2b", "b2a", "b2a_single", "mul_ab", "bit_extract", "msb", "carry", "cast",
               "bit_gather", "bit_reverse", "less_than", "less_equal", "greater_than", "greater_equal", "equal",
               "equal_zero", "select", "maximum", "cmp_swap", "relu", "relu_with_cmp", "truncate"}


class Cx:
    """one calling context and its verdict"""

    def __init__(self, name, label):
        self.name, self.label = name, label
        self.status = None          # ok | raise | undecided
        self.meta = None
        self.why = None
        self.nodes = []
        self.inputs = []
        self.result = None
        self.exps = None
        self.path = ()
        self.handed = []            # tensors built here and passed to another operation
        self.calls = []             # (operation, secret of first argument) of nested operations
        self.rtype = None


class Lib(ABY3World):
    KINDS = ("private", "public")
    PREFIX = AB

    def __init__(self, nbits=64, choices=None, repo=None, ops=None, keep_nodes=False):
        ABY3World.__init__(self, repo=repo, nbits=nbits, choices=choices)
        self.start(ops)

    def start(self, ops):
        nbits = self.nbits
        self.S = SpecOps(self)
        self.setup_nodes = list(self.it.created)
        fc = self.it.getattr(self.prot, "fixedpoint_config")
        self.frac = self.it.getattr(fc, "precision_fractional")
        self.base = self.it.getattr(fc, "scaling_base") ** self.frac
        self.fresh = 0
        self.sharings = {}      # number -> (share nodes, secret, kind, support)
        self.pubatoms = set()   # tags of public values
        self.ideal = {}
        self.supp = {}
        self.el = Elem(nbits)
        self.keepalive = []
        self.cx = {}
        self.order = []
        self.busy = []
        self.bypass = None
        self.on_verified = None
        self.inline = set()
        self.stackpath = []
        self.cur = []
        names = ops if ops is not None else [n[3:] for n in dir(self) if n.startswith("sp_")]
        for n in names:
            self.it.overrides[self.PREFIX + n] = lambda i, a, k, n=n: self.intercept(n, a, k)

    # --------------------------------------------------------------- values
    def isp(self, x):
        return isinstance(x, Inst) and self.kind(x) == "private"

    def ist(self, x):
        return isinstance(x, Inst) and x.cls.lookup("dispatch_id")[0] is not None or \
            (isinstance(x, Inst) and "dispatch_id" in x.attrs)

    def kind(self, x):
        return self.it.getattr(x, "dispatch_id")

    def st(self, x):
        return self.it.getattr(x, "share_type")

    def scaled(self, x):
        return self.it.getattr(x, "is_scaled")

    def backing(self, x):
        sh = self.shares(x)
        n = sh[0]
        return n[0] if isinstance(n, (list, tuple)) else n

    def fac(self, x):
        return self.backing(x).factory

    def secret(self, t):
        if not isinstance(t, Inst):
            return t
        r = self.ideal.get(id(t))
        if r is not None:
            return r
        S = self.S
        if self.kind(t) == "private":
            sh = self.shares(t)
            op = S.add if self.st(t) == self.ARITH else S.xor
            r = op(op(sh[0][0], sh[1][0]), sh[2][0])
        else:
            r = self.shares(t)[0]
        return r

    def masked(self, n, supp):
        return n if supp is None else self.S.and_(n, self.S.const(supp, n))

    def wrap_secret(self, node, share, scaled, factory=None, supp=None):
        """a sharing of `node` with arbitrary masks; supp restricts every share to the given bits"""
        f = factory or node.factory
        self.fresh += 1
        n = self.fresh
        sec = Node("sec", [node], (), kind="backing", factory=f, shape=node.shape)
        a = [Node("atom", (), (), kind="backing", factory=f, shape=node.shape, tag="~r%d.%d" % (n, i)) for i in range(2)]
        S = self.S
        a = [self.masked(x, supp) for x in a]
        op = S.sub if share == self.ARITH else S.xor
        base = [a[0], a[1], op(op(sec, a[0]), a[1])]
        self.sharings[n] = (base, sec, share, supp)
        sh = [[None, None] for _ in range(3)]
        for i in range(3):
            for j in range(2):
                sh[i][j] = Node("identity", [base[(i + j) % 3]], (), kind="backing", factory=f, shape=node.shape,
                                device=self.servers[i], fn="ideal", tag="ideal")
        t = self.it.call(self.tens.ns["ABY3PrivateTensor"], [self.prot, sh, scaled, share], {})
        self.ideal[id(t)] = node
        if supp is not None:
            self.supp[id(t)] = supp
        self.keepalive.append(t)
        return t

    def wrap_public(self, node, scaled):
        if node.op == "atom":
            self.pubatoms.add(node.id)
        vs = [Node("identity", [node], (), kind="backing", factory=node.factory, shape=node.shape, device=self.servers[i],
                   fn="ideal", tag="ideal") for i in range(3)]
        t = self.it.call(self.tens.ns["ABY3PublicTensor"], [self.prot, vs, scaled], {})
        self.ideal[id(t)] = node
        self.keepalive.append(t)
        return t

    def P(self, tag, shape, scaled=True, factory=None, share=None):
        f = factory or self.factory
        return self.wrap_secret(self.atom(tag, f, shape), share or self.ARITH, scaled)

    def B(self, tag, shape, scaled=False, factory=None):
        return self.P(tag, shape, scaled, factory, self.BOOL)

    def U(self, tag, shape, scaled=True, factory=None):
        return self.wrap_public(self.atom(tag, factory or self.factory, shape), scaled)

    # ------------------------------------------------------------- contexts
    def sig(self, a, out):
        if isinstance(a, Inst):
            if not self.ist(a):
                raise KeyError("object argument")
            b = self.backing(a)
            if b.shape is None or None in b.shape or not isinstance(b.factory, FactoryVal):
                raise KeyError("shape unknown")
            k = self.kind(a)
            if k not in self.KINDS:
                raise KeyError("kind %s" % k)
            sc = self.scaled(a)
            if isinstance(sc, Unknown):
                raise KeyError("scale unknown")
            s = ("T", k, self.st(a) if k == "private" else None, bool(sc), b.factory.name, tuple(b.shape), self.supp.get(id(a)),
                 self.pubconst(a) if k == "public" else None)
            out.append(s)
            return s
        if isinstance(a, (list, tuple)) and any(isinstance(x, (Inst, Node)) for x in a):
            return ("L",) + tuple(self.sig(x, out) for x in a)
        if isinstance(a, FactoryVal):
            return ("F", a.name)
        if isinstance(a, (Node, Unknown)):
            raise KeyError("raw tensor argument")
        if isinstance(a, (int, float, str, bool, type(None), slice, np.generic, np.ndarray, list, tuple, ShapeVal, dict)):
            return ("V", type(a).__name__, repr(a))
        if isinstance(a, (EnumMember, Ext)):
            return ("X", repr(a))
        raise KeyError("argument %r" % (a,))

    def label(self, name, args, kw):
        def one(a):
            if isinstance(a, Inst) and self.ist(a):
                b = self.backing(a)
                k = self.kind(a)
                if k == "public" and self.pubconst(a) is not None:
                    return "public %s%s=%s" % (b.factory.name, list(b.shape), self.pubconst(a))
                return "%s%s %s%s" % (k, (" " + self.st(a)) if k == "private" and self.st(a) else "",
                                      b.factory.name + str(list(b.shape)) + ("&%d" % self.supp[id(a)] if id(a) in self.supp else ""), " scaled" if self.scaled(a) is True else "")
            if isinstance(a, (list, tuple)) and any(isinstance(x, Inst) for x in a):
                return "[" + ", ".join(one(x) for x in a) + "]"
            if isinstance(a, FactoryVal):
                return a.name
            if isinstance(a, Node):
                return "tf%s" % list(a.shape or ())
            return repr(a).replace("\n", "")
        return "%s(%s)" % (name, ", ".join([one(a) for a in args] + ["%s=%s" % (k, one(v)) for k, v in kw.items()]))

    SMALL = 3

    def shrink(self, name, sigs):
        """small representative dimensions for elementwise operations"""
        if name not in ELEMENTWISE:
            return None
        m = {}
        for s in sigs:
            for d in s[5]:
                if d > self.SMALL and d not in m:
                    m[d] = None
        if not m:
            return None
        used = {d for s in sigs for d in s[5]}
        free = [c for c in (2, 3) if c not in used] or [3]
        for i, d in enumerate(sorted(m)):
            m[d] = free[i % len(free)]
        return m

    def pubconst(self, a):
        """the literal a public tensor is known to hold (only single literals are kept)"""
        try:
            f = self.el.form(self.backing(a)).reshape(-1)
        except (Undef, TooBig):
            return None
        if not len(f) or any(x != f[0] for x in f[1:]):
            return None
        f = f[0]
        if isinstance(f, BF) and not f.t:
            return 0
        if isinstance(f, AF) and set(f.t) <= {()}:
            return f.t.get((), 0)
        return None

    def fresh_like(self, a, cnt, m):
        if isinstance(a, Inst) and self.kind(a) == "public" and self.pubconst(a) is not None:
            b = self.backing(a)
            sh = tuple((m or {}).get(d, d) for d in b.shape)
            if sh == tuple(b.shape):
                return a
            return self.wrap_public(self.S.const(np.full(sh, self.pubconst(a), dtype=object), b), self.scaled(a))
        if isinstance(a, Inst):
            b = self.backing(a)
            shape = tuple((m or {}).get(d, d) for d in b.shape)
            cnt[0] += 1
            tag = "abcdefgh"[cnt[0] - 1] if cnt[0] <= 8 else "i%d" % cnt[0]
            sc = self.scaled(a)
            if self.kind(a) != "public":
                sp = self.supp.get(id(a))
                if self.kind(a) != "private":
                    return self.build(self.atom(tag, b.factory, shape), self.kind(a), None, sc, None)
                return self.wrap_secret(self.masked(self.atom(tag, b.factory, shape), sp), self.st(a), sc, supp=sp)
            return self.wrap_public(self.atom(tag, b.factory, shape), sc)
        if isinstance(a, (list, tuple)):
            r = [self.fresh_like(x, cnt, m) for x in a]
            return r if isinstance(a, list) else tuple(r)
        return a

    def intercept(self, name, args, kw):
        it = self.it
        if self.bypass == name:
            self.bypass = None
            return PASS
        if name in self.inline:
            return PASS
        args = args[1:]
        if self.cur and args and isinstance(args[0], Inst) and name in ("truncate_msb0",) and self.isp(args[0]):
            self.cur[-1].calls.append((name, self.secret(args[0])))
        try:
            sigs = []
            m = None
            sg = (tuple(self.sig(a, sigs) for a in args), tuple(sorted((k, self.sig(v, sigs)) for k, v in kw.items())))
        except KeyError:
            return PASS
        if self.cur:
            for t in flat_results(list(args) + list(kw.values())):
                if isinstance(t, Inst) and id(t) not in self.ideal and all(t is not q for _, q in self.cur[-1].handed):
                    self.cur[-1].handed.append((name, t))
        key = (name, repr(sg))
        if key not in self.cx:
            try:
                exps = self.spec(name, args, kw)
            except (AbsRaise, Incomplete, Undef, KeyError, AssertionError, ValueError, TypeError, IndexError, AttributeError):
                exps = None
            if exps is None:
                return PASS
            m = self.shrink(name, sigs)
            if m:
                cnt = [0]
                fargs = [self.fresh_like(a, cnt, m) for a in args]
                fkw = {k: self.fresh_like(v, cnt, m) for k, v in kw.items()}
                s2 = []
                sg2 = (tuple(self.sig(a, s2) for a in fargs), tuple(sorted((k, self.sig(v, s2)) for k, v in fkw.items())))
                key2 = (name, repr(sg2))
                if key2 not in self.cx:
                    self.verify(name, fargs, fkw, key2)
                self.cx[key] = self.cx[key2]
            else:
                self.verify(name, args, kw, key)
        c = self.cx[key]
        if c.status != "ok" or c.meta is None:
            return PASS
        exps = self.spec(name, args, kw)
        if exps is None:
            return PASS
        lst = exps if isinstance(exps, list) else [exps]
        outs = []
        for e, (kind, scaled, share, fac, supp) in zip(lst, c.meta):
            outs.append(self.build(self.fitted(e.node, fac), kind, share, scaled, supp))
        if c.rtype is None:
            return outs[0]
        return outs if c.rtype is list else tuple(outs)

    def build(self, n, kind, share, scaled, supp):
        """an ideal result tensor"""
        if kind == "private":
            return self.wrap_secret(n, share, scaled, supp=supp)
        return self.wrap_public(n, scaled)

    def support(self, t):
        """1 if every share of a boolean-shared word is 0/1"""
        if not self.isp(t) or self.st(t) != self.BOOL or self.fac(t).name == "bool":
            return None
        try:
            for row in self.shares(t):
                for n in row:
                    for f in self.el.form(n).reshape(-1):
                        if word_support(f, self.fac(t).nbits) & ~1:
                            return None
        except (TooBig, Undef):
            return None
        return 1

    def fitted(self, n, fac):
        """a single-bit specification read in the ring the operation answers in"""
        if n.factory is not fac and isinstance(n.factory, FactoryVal) and n.factory.name == "bool":
            return self.S.cast(n, fac)
        return n

    def spec(self, name, args, kw):
        fn = getattr(self, "sp_" + name)
        it = self.it
        cr, it.created = it.created, []
        try:
            return fn(*args, **kw)
        finally:
            it.created = cr

    def verify(self, name, args, kw, key):
        it = self.it
        c = Cx(name, self.label(name, args, kw))
        self.cx[key] = c
        self.order.append(c)
        cnt = [0]
        fargs = [self.fresh_like(a, cnt, None) for a in args]
        fkw = {k: self.fresh_like(v, cnt, None) for k, v in kw.items()}
        self.run(c, lambda: it.call(it.getattr(self.prot, name), fargs, fkw), name, lambda: self.spec(name, fargs, fkw),
                 fargs + list(fkw.values()))
        return c

    def run(self, c, thunk, name, spec, inputs):
        it = self.it
        saved = (it.created, it.device, self.bypass, it.loc)
        it.created = []
        it.device = None
        c.path = tuple(self.stackpath)
        self.stackpath.append(c.label)
        self.cur.append(c)
        pos = it.choice_pos
        depth = len(it.fstack)
        try:
            self.bypass = name
            try:
                res = thunk()
                c.result = res
                if it.choice_pos != pos:
                    c.status, c.why = "undecided", "branches on a value the analysis does not know: %s" % (it.choice_log[-1],)
                else:
                    c.status = "ok"
            except AbsRaise as e:
                c.status, c.why = "raise", e
                if it.choice_pos != pos:
                    c.status, c.why = "undecided", "raise under unknown branch: %s" % e
            except Incomplete as e:
                c.status, c.why = "undecided", str(e)
            except RecursionError:
                c.status, c.why = "undecided", "recursion"
            c.nodes = it.created
            c.inputs = flat_results(inputs)
        finally:
            it.created, it.device, self.bypass, it.loc = saved
            del it.fstack[depth:]
            self.stackpath.pop()
            self.cur.pop()
        if c.status == "ok":
            try:
                c.exps = spec()
                c.exps = c.exps if isinstance(c.exps, list) else ([c.exps] if c.exps is not None else None)
            except (AbsRaise, Incomplete, Undef) as e:
                c.status, c.why = "undecided", "specification: %s" % e
                return
            r = c.result
            c.rtype = type(r) if isinstance(r, (list, tuple)) else None
            outs = flat_results(r)
            try:
                c.meta = [(self.kind(o), self.scaled(o), self.st(o) if self.isp(o) else None, self.fac(o),
                           self.support(o)) for o in outs]
                if c.exps is not None and len(c.exps) != len(outs):
                    c.meta = None
            except Exception:
                c.meta = None

    def root(self, name, *args, **kw):
        """analyse one root context given concrete abstract inputs"""
        try:
            s = []
            key = (name, repr((tuple(self.sig(a, s) for a in args), tuple(sorted((k, self.sig(v, s)) for k, v in kw.items())))))
        except KeyError as e:
            key = (name, "root", len(self.order))
        if key in self.cx:
            return self.cx[key]
        return self.verify(name, args, kw, key)

    # ------------------------------------------------------ specifications
    def num(self, v, like):
        """encode a literal the way fixed-point encoding is defined: v * 2^f, truncated"""
        sc = self.scaled(like)
        f = self.fac(like)
        a = np.array(v, dtype=object)
        if sc:
            a = np.array([int(float(x) * self.base) for x in a.reshape(-1)], dtype=object).reshape(a.shape)
        else:
            a = np.array([int(x) for x in a.reshape(-1)], dtype=object).reshape(a.shape)
        return Node("const", (), (freeze(a) if a.shape else a.item(),), kind="backing", factory=f, shape=ShapeVal(a.shape))

    def lift2(self, x, y):
        raw = (int, float, np.ndarray)
        if isinstance(x, raw) and not isinstance(x, bool):
            return self.num(x, y), self.secret(y), self.scaled(y), self.scaled(y)
        if isinstance(y, raw) and not isinstance(y, bool):
            return self.secret(x), self.num(y, x), self.scaled(x), self.scaled(x)
        return self.secret(x), self.secret(y), self.scaled(x), self.scaled(y)

    def kinds(self, *ts):
        return "private" if any(self.isp(t) for t in ts) else "public"

    def share(self, *ts):
        for t in ts:
            if self.isp(t):
                return self.st(t)
        return None

    def allarith(self, *ts):
        return all(self.st(t) == self.ARITH for t in ts if self.isp(t))

    def allbool(self, *ts):
        return all(self.st(t) == self.BOOL for t in ts if self.isp(t))

    def addsub(self, x, y, op):
        if not self.allarith(x, y):
            return None
        a, b, sx, sy = self.lift2(x, y)
        if sx != sy:
            return None
        return Exp(self.kinds(x, y), op(a, b), sx, self.share(x, y))

    def sp_add(self, x, y):
        return self.addsub(x, y, self.S.add)

    def sp_sub(self, x, y):
        return self.addsub(x, y, self.S.sub)

    def sp_negative(self, x):
        if not self.allarith(x):
            return None
        return Exp(self.kinds(x), self.S.neg(self.secret(x)), self.scaled(x), self.share(x))

    def product(self, x, y, op):
        if not self.allarith(x, y):
            return None
        a, b, sx, sy = self.lift2(x, y)
        n = op(a, b)
        if sx and sy:
            e = Exp(self.kinds(x, y), self.S.trunc(n), True, self.share(x, y))
            e.trunc = (n, self.frac, False)
            return e
        return Exp(self.kinds(x, y), n, bool(sx or sy), self.share(x, y))

    def sp_mul(self, x, y):
        for a, b in ((x, y), (y, x)):
            if isinstance(b, (int, float)) and not isinstance(b, bool):
                l = np.log2(abs(b)) if b > 0 else 0.5
                if l == int(l):
                    return self.sp_mul_pow2(a, int(l))
        if isinstance(y, Inst) and self.isp(y) and self.st(y) == self.BOOL:
            return self.sp_mul_ab(x, y) if self.fac(y).name == "bool" else None
        return self.product(x, y, self.S.mul)

    def sp_square(self, x):
        return self.product(x, x, self.S.mul)

    def sp_mul_pow2(self, x, exponent):
        if not isinstance(x, Inst) or not self.allarith(x):
            return None
        if exponent == 0:
            return Exp(self.kinds(x), self.secret(x), self.scaled(x), self.share(x))
        if exponent < 0:
            n = self.S.trunc(self.secret(x), -exponent)
        else:
            xs = self.secret(x)
            n = self.S.mul(xs, self.S.const(2 ** exponent, xs))
        return Exp(self.kinds(x), n, self.scaled(x), self.share(x))

    def sp_matmul(self, x, y):
        return self.product(x, y, self.S.matmul)

    def sp_conv2d(self, x, w, strides, padding):
        return self.product(x, w, lambda a, b: self.S.m(a, "conv2d", b, strides=strides, padding=padding))

    def sp_reduce_sum(self, x, axis=None, keepdims=False):
        if not self.allarith(x):
            return None
        return self.layout(x, "reduce_sum", axis=axis, keepdims=keepdims)

    def sp_truncate(self, x, method="heuristic", amount=None):
        if not self.allarith(x):
            return None
        e = Exp(self.kinds(x), self.S.trunc(self.secret(x), amount), self.scaled(x), self.share(x))
        e.trunc = (self.secret(x), self.frac if amount is None else amount, False)
        return e

    def sp_truncate_msb0(self, x, method="secureq8", amount=None):
        if not self.isp(x) or not self.allarith(x):
            return None
        e = self.sp_truncate(x, amount=amount)
        e.trunc = (self.secret(x), self.frac if amount is None else amount, True)
        return e

    def sp_mul_trunc2(self, x, y):
        if not self.isp(x) or not self.isp(y):
            return None
        return self.product(x, y, self.S.mul)

    # boolean ----------------------------------------------------------
    def boolop(self, x, y, op):
        if not self.allbool(x, y):
            return None
        ts = [t for t in (x, y) if isinstance(t, Inst)]
        like = ts[0]

        def val(t):
            if isinstance(t, Inst):
                return self.secret(t)
            f = self.fac(like)
            v = int(t)
            if self.scaled(like) and f.name != "bool":
                raise KeyError("scaled literal")
            return Node("const", (), (v,), kind="backing", factory=f, shape=ShapeVal(()))
        return Exp(self.kinds(x, y), op(val(x), val(y)), None, self.share(x, y))

    def sp_xor(self, x, y):
        return self.boolop(x, y, self.S.xor)

    def sp_and_(self, x, y):
        return self.boolop(x, y, self.S.and_)

    def sp_or_(self, x, y):
        return self.boolop(x, y, self.S.or_)

    def sp_not_(self, x):
        if not self.allbool(x):
            return None
        return Exp(self.kinds(x), self.S.not_(self.secret(x)), self.scaled(x), self.share(x))

    def sp_lshift(self, x, steps):
        if isinstance(steps, (Inst, Node)) or not isinstance(x, Inst):
            return None
        xs = self.secret(x)
        if self.allarith(x):
            n = self.S.mul(xs, self.S.const(2 ** steps, xs))
        else:
            n = self.S.m(xs, "left_shift", steps)
        return Exp(self.kinds(x), n, self.scaled(x), self.share(x))

    def sp_rshift(self, x, steps):
        if not self.allbool(x) or isinstance(steps, (Inst, Node)):
            return None
        return Exp(self.kinds(x), self.S.m(self.secret(x), "right_shift", steps), self.scaled(x), self.share(x))

    def sp_logical_rshift(self, x, steps):
        if not self.allbool(x) or isinstance(steps, (Inst, Node)):
            return None
        return Exp(self.kinds(x), self.S.m(self.secret(x), "logical_rshift", steps), self.scaled(x), self.share(x))

    # conversions --------------------------------------------------------
    def lowbits(self, n, nbits, full):
        if nbits is None or nbits >= full:
            return n
        return self.S.and_(n, self.S.const((1 << nbits) - 1, n))

    def sp_ppa(self, x, y, n_bits=None, topology="kogge_stone"):
        if not (self.isp(x) and self.isp(y)) or not self.allbool(x, y):
            return None
        f = self.fac(x)
        n = self.S.add(self.secret(x), self.secret(y))
        full = f.nbits
        if n_bits is not None and topology == "sklansky":
            e = Exp("private", n, None, self.BOOL)
            e.bits = n_bits
        else:
            e = Exp("private", self.lowbits(n, n_bits, full), None, self.BOOL)
        e.domain = "bv"
        return e

    def sp_a2b(self, x, nbits=None):
        if not (self.isp(x) and self.allarith(x)):
            return None
        return Exp("private", self.lowbits(self.secret(x), nbits, self.fac(x).nbits), self.scaled(x), self.BOOL)

    def sp_b2a(self, x, nbits=None, method="ppa"):
        if not (self.isp(x) and self.allbool(x)):
            return None
        f = self.fac(x)
        if f.name == "bool":
            return None
        n = self.secret(x)
        if nbits is not None and nbits < f.nbits:
            n = self.lowbits(n, nbits, f.nbits)
        e = Exp("private", n, self.scaled(x), self.ARITH)
        e.domain = "bits"
        return e

    def sp_b2a_single(self, x):
        if not (self.isp(x) and self.allbool(x)) or self.fac(x).name != "bool":
            return None
        return Exp("private", self.S.cast(self.secret(x), self.factory), None, self.ARITH)

    def sp_mul_ab(self, x, y):
        if not isinstance(y, Inst) or not self.isp(y) or not self.allbool(y) or self.fac(y).name != "bool" or not isinstance(x, Inst):
            return None
        if self.isp(x) and not self.allarith(x):
            return None
        f = self.fac(x)
        return Exp("private", self.S.mul(self.secret(x), self.S.cast(self.secret(y), f)), self.scaled(x), self.ARITH)

    def getbit(self, n, i, f):
        if f.name == "bool":
            return n
        z = self.S.m(n, "logical_rshift", i) if i else n
        z = self.S.and_(z, self.S.const(1, z))
        return self.S.cast(z, F["bool"])

    def sp_bit_extract(self, x, i):
        if not self.isp(x):
            return None
        f = self.fac(x)
        if f.name == "bool":
            return None
        if i == f.nbits - 1:
            return self.sp_msb(x)
        e = Exp("private", self.getbit(self.secret(x), i, f), False, self.BOOL)
        e.domain = "bits"
        return e

    def sp_msb(self, x):
        if not self.isp(x) or self.fac(x).name == "bool":
            return None
        e = Exp("private", self.S.msb(self.secret(x)), False, self.BOOL)
        e.domain = "bits"
        return e

    def sp_carry(self, x, y, pos=None):
        if not self.allbool(x, y) or not (self.isp(x) or self.isp(y)):
            return None
        f = self.fac(x)
        if f.name == "bool":
            return None
        pos = f.nbits - 1 if pos is None else pos
        if pos < 0:
            return None
        e = Exp("private", self.S.node("carry", [self.secret(x), self.secret(y)], (pos,), factory=F["bool"],
                                       shape=broadcast(self.secret(x).shape, self.secret(y).shape)), False, self.BOOL)
        e.domain = "bv"
        return e

    def sp_cast(self, x, factory):
        if self.isp(x) and not self.allbool(x):
            return None
        if factory.name == "bool" and self.fac(x).name != "bool" and self.supp.get(id(x)) != 1:
            return None      # only meaningful for words known to be 0/1; analysed in the caller's context
        return Exp(self.kinds(x), self.S.cast(self.secret(x), factory), self.scaled(x), self.share(x), factory)

    def sp_bits(self, x, bitsize=None):
        if not self.isp(x) or not self.allbool(x):
            return None
        return Exp("private", self.S.m(self.secret(x), "bits", F["bool"], bitsize), None, self.BOOL)

    def sp_bit_gather(self, x, start, stride):
        return Exp(self.kinds(x), self.S.m(self.secret(x), "bit_gather", start, stride), None, self.share(x)) if self.allbool(x) else None

    def sp_bit_split_and_gather(self, x, stride):
        return Exp(self.kinds(x), self.S.m(self.secret(x), "bit_split_and_gather", stride), None, self.share(x)) if self.allbool(x) else None

    def sp_xor_indices(self, x):
        return Exp(self.kinds(x), self.S.m(self.secret(x), "xor_indices"), None, self.share(x)) if self.allbool(x) else None

    def sp_bit_reverse(self, x):
        return Exp(self.kinds(x), self.S.m(self.secret(x), "bit_reverse"), None, self.share(x)) if self.allbool(x) else None

    # comparison ---------------------------------------------------------
    def less(self, x, y, negate):
        if not self.allarith(x, y) or not (self.isp(x) or self.isp(y)):
            return None
        a, b, sx, sy = self.lift2(x, y)
        if sx != sy:
            return None
        n = self.S.msb(self.S.sub(a, b))
        if negate:
            n = self.S.not_(n)
        return Exp("private", n, False, self.BOOL)

    def sp_less_than(self, x, y):
        return self.less(x, y, False)

    def sp_greater_than(self, x, y):
        return self.less(y, x, False)

    def sp_less_equal(self, x, y):
        return self.less(y, x, True)

    def sp_greater_equal(self, x, y):
        return self.less(x, y, True)

    def sp_equal(self, x, y):
        if not self.allarith(x, y) or not (self.isp(x) or self.isp(y)):
            return None
        a, b, sx, sy = self.lift2(x, y)
        if sx != sy:
            return None
        e = Exp("private", self.S.node("cmp_eq0", [self.S.sub(a, b)], (), factory=F["bool"]), False, self.BOOL)
        return e

    def sp_equal_zero(self, x):
        if not self.isp(x) or not self.allarith(x):
            return None
        return Exp("private", self.S.node("cmp_eq0", [self.secret(x)], (), factory=F["bool"]), False, self.BOOL)

    def sp_select(self, choice_bit, x, y):
        c = choice_bit
        if not isinstance(c, Inst) or not self.isp(c) or not self.allbool(c) or self.fac(c).name != "bool":
            return None
        a, b, sx, sy = self.lift2(x, y)
        if sx != sy or not isinstance(a, Node) or not isinstance(b, Node):
            return None
        ts = [t for t in (x, y) if isinstance(t, Inst)]
        if any(self.fac(t).name == "bool" for t in ts) or not self.allarith(*ts):
            if not self.allbool(*ts):
                return None
            S = self.S
            return Exp("private", S.xor(S.and_(S.xor(a, b), self.secret(c)), a), None, self.BOOL) if a.factory.name == "bool" else None
        S = self.S
        return Exp("private", S.add(S.mul(S.sub(b, a), S.cast(self.secret(c), a.factory)), a), sx, self.ARITH)

    def sp_add_n(self, xs):
        if len({(self.kind(x), self.share(x), bool(self.scaled(x))) for x in xs}) != 1 or not self.allarith(*xs):
            return None
        n = self.secret(xs[0])
        for x in xs[1:]:
            n = self.S.add(n, self.secret(x))
        return Exp(self.kinds(*xs), n, self.scaled(xs[0]), self.share(*xs))

    # layout ---------------------------------------------------------------
    def sp_expand(self, x, stride):
        xs = self.secret(x)
        h, w_ = xs.shape[:2]
        # zero-interleaved along the first two axes
        idx = np.array([[[i * stride, j * stride] for j in range(w_)] for i in range(h)])
        sh = ((h - 1) * stride + 1, (w_ - 1) * stride + 1) + tuple(xs.shape[2:])
        return Exp(self.kinds(x), self.S.node("scatter_nd", [xs], (freeze(idx), sh), shape=ShapeVal(sh)), self.scaled(x), self.share(x))

    def sp_scatter_nd(self, indices, updates, shape):
        if not isinstance(indices, np.ndarray):
            return None
        sh = tuple(int(v) for v in shape)
        return Exp(self.kinds(updates), self.S.node("scatter_nd", [self.secret(updates)], (freeze(indices), sh), shape=ShapeVal(sh)),
                   self.scaled(updates), self.share(updates))

    def layout(self, x, mname, *a, **k):
        return Exp(self.kinds(x), self.S.m(self.secret(x), mname, *a, **k), self.scaled(x), self.share(x))

    def sp_transpose(self, x, perm=None):
        return self.layout(x, "transpose", perm)

    def sp_reshape(self, x, axe):
        return self.layout(x, "reshape", axe)

    def sp_expand_dims(self, x, axis):
        return self.layout(x, "expand_dims", axis)

    def sp_squeeze(self, x, axis=None):
        return self.layout(x, "squeeze", axis)

    def sp_strided_slice(self, x, *args, **kw):
        return self.layout(x, "strided_slice", args, kw)

    def sp_indexer(self, x, slc):
        return self.layout(x, "__getitem__", slc)

    def sp_gather(self, x, indices, axis=0):
        if isinstance(indices, (Inst, Node)):
            return None
        return self.layout(x, "gather", indices, axis=axis)

    def sp_tile(self, x, multiples):
        return self.layout(x, "tile", multiples)

    def sp_reverse(self, x, axis):
        return self.layout(x, "reverse", axis)

    def sp_im2col(self, x, h_filter, w_filter, strides, padding):
        return self.layout(x, "im2col", h_filter, w_filter, strides, padding)

    def sp_im2patches(self, x, patch_size, strides=[1, 1], padding="SAME", data_format="NCHW"):
        return self.layout(x, "im2patches", patch_size, strides=strides, padding=padding, data_format=data_format)

    def sp_patches2im(self, x, patch_size, strides=[1, 1], padding="SAME", img_size=None, consolidation="SUM", data_format="NCHW"):
        return self.layout(x, "patches2im", patch_size, strides=strides, padding=padding, img_size=img_size,
                           consolidation=consolidation, data_format=data_format)

    def sp_split(self, x, num_split, axis=0):
        ns = self.S.m(self.secret(x), "split", num_split, axis=axis)
        return [Exp(self.kinds(x), n, self.scaled(x), self.share(x)) for n in ns]

    def joined(self, xs, axis, op):
        xs = list(xs)
        if len({(self.kind(x), self.share(x), bool(self.scaled(x)), self.fac(x).name) for x in xs}) != 1:
            return None
        f = self.fac(xs[0])
        n = self.it.call(self.pm.factory_attr(self.it, f, op), [[self.secret(x) for x in xs]], {"axis": axis})
        return Exp(self.kinds(*xs), n, self.scaled(xs[0]), self.share(*xs))

    def sp_concat(self, xs, axis):
        return self.joined(xs, axis, "concat")

    def sp_stack(self, xs, axis):
        return self.joined(xs, axis, "stack")

    def sp_pad(self, x, paddings):
        p = tuple(tuple(int(v) for v in q) for q in paddings)
        xs = self.secret(x)
        shape = ShapeVal(tuple(d + a + b for d, (a, b) in zip(xs.shape, p)))
        return Exp(self.kinds(x), self.S.node("pad", [xs], (p,), shape=shape), self.scaled(x), self.share(x))


# ------------------------------------------------------------------ judging
class Judge:
    """decides the obligations of analysed contexts"""

    def __init__(self, w, rep, prefix=""):
        self.w, self.rep, self.prefix = w, rep, prefix
        self.el = w.el
        from . import elem as _e
        _e.WORDBITS = w.nbits

    def context(self, c, may_raise=False):
        rep, nm = self.rep, self.prefix + c.label
        if c.path:
            via = " (reached from %s)" % c.path[0]
        else:
            via = ""
        if c.status == "raise":
            if not may_raise:
                rep.bad("total", nm, "raises %s at %s%s" % (c.why, getattr(c.why, "loc", None), via))
            return
        if c.status != "ok":
            rep.undecided("total", nm, "%s%s" % (c.why, via))
            return
        self.handed(c, nm)
        if c.exps is None:
            return
        outs = flat_results(c.result)
        if len(outs) != len(c.exps):
            rep.bad("value", nm, "returns %d tensors, expected %d" % (len(outs), len(c.exps)))
            return
        rep.ok("total", nm)
        if c.name == "truncate" and c.calls:
            self.headroom(c, nm)
        for i, (o, e) in enumerate(zip(outs, c.exps)):
            self.one(nm if len(outs) == 1 else "%s[%d]" % (nm, i), o, e)

    def handed(self, c, nm):
        """tensors assembled from parts and handed to another operation must be what that operation assumes"""
        for op, t in c.handed:
            if self.w.ist(t):
                self.consistent("%s -> %s" % (nm, op), t)

    def consistent(self, nm, t):
        w = self.w
        sh = w.shares(t)
        flat = [x for row in sh for x in (row if isinstance(row, (list, tuple)) else [row])]
        if any(not isinstance(x, Node) for x in flat):
            return
        where = out_loc(t, w)
        if w.kind(t) == "public":
            for i in (1, 2):
                self.same("replicated", nm, sh[0], sh[i], lambda d: "public value differs between server 0 and server %d: %s; built in %s" % (i, d, where))
        elif w.kind(t) == "private":
            for i in range(3):
                self.same("replicated", nm, sh[i][1], sh[(i + 1) % 3][0], lambda d: "the two copies of share %d differ: %s; built in %s" % ((i + 1) % 3, d, where))

    def headroom(self, c, nm):
        """inputs in the supported range must reach the positive-only truncation with a zero sign bit"""
        x = c.exps[0].trunc[0]
        for op, arg in c.calls:
            try:
                dom = BVDomain()
                be = BVElem(dom, self.w.nbits)
                fx, fa = be.form(x).reshape(-1), be.form(arg).reshape(-1)
                if len(fx) != len(fa):
                    raise Undef("argument layout")
                bad = None
                for u, v in zip(fx, fa):
                    inrange = dom.m.NOT(dom.m.XOR(u.b[-1], u.b[-2]))
                    t = dom.m.AND(inrange, v.b[-1])
                    if t:
                        bad = valuation(dom, dom.m.witness(t))
                if bad:
                    self.rep.bad("headroom", nm, "value %s within the supported range reaches %s with the sign bit set" % (bad, op))
                else:
                    self.rep.ok("headroom", nm)
            except (Undef, TooBig) as e:
                self.rep.undecided("headroom", nm, str(e))

    def device(self, nm, node, i, where):
        d = node.device
        if isinstance(d, Unknown):
            self.rep.undecided("placement", nm, "unknown device")
        elif d != self.w.servers[i]:
            self.rep.bad("placement", nm, "share of server %d is produced on %s; built in %s" % (i, d or "no particular device", where))
        else:
            self.rep.ok("placement", nm)

    def one(self, nm, o, e):
        w, rep = self.w, self.rep
        if not (isinstance(o, Inst) and w.ist(o)):
            rep.bad("value", nm, "result is not a protocol tensor: %r" % (o,))
            return
        kind = w.kind(o)
        where = out_loc(o, w)
        if kind != e.kind:
            rep.bad("value", nm, "result is %s, expected %s; built in %s" % (kind, e.kind, where))
            return
        if e.share is not None and kind == "private":
            if w.st(o) != e.share:
                rep.bad("sharetype", nm, "result is labelled %s but is %s; built in %s" % (w.st(o), e.share, where))
            else:
                rep.ok("sharetype", nm)
        if e.scaled is not None:
            sc = w.scaled(o)
            if isinstance(sc, Unknown):
                rep.undecided("scale", nm, "scale flag unknown")
            elif bool(sc) != bool(e.scaled):
                rep.bad("scale", nm, "result is labelled is_scaled=%s but its fixed-point exponent is %d; built in %s" % (
                    sc, 1 if e.scaled else 0, where))
            else:
                rep.ok("scale", nm)
        sh = w.shares(o)
        flat = [x for row in sh for x in (row if isinstance(row, (list, tuple)) else [row])]
        odd = [x for x in flat if not isinstance(x, Node)]
        if odd:
            rep.undecided("value", nm, "share is %r; built in %s" % (odd[0], where))
            return
        if any(x.factory is not flat[0].factory for x in flat):
            rep.bad("ring", nm, "shares live in different rings: %s; built in %s" % (sorted({str(x.factory) for x in flat}), where))
            return
        if e.factory is not None:
            if flat[0].factory is not e.factory:
                rep.bad("ring", nm, "result lives in %r, expected %r; built in %s" % (flat[0].factory, e.factory, where))
            else:
                rep.ok("ring", nm)
        if kind == "public":
            for i in range(3):
                self.device(nm, sh[i], i, where)
            for i in (1, 2):
                self.same("replicated", nm, sh[0], sh[i], lambda d: "public value differs between server 0 and server %d: %s; built in %s" % (
                    i, d, where))
        else:
            for i in range(3):
                for j in range(2):
                    self.device(nm, sh[i][j], i, where)
            for i in range(3):
                self.same("replicated", nm, sh[i][1], sh[(i + 1) % 3][0],
                          lambda d: "server %d's second share differs from server %d's first share: %s; built in %s" % (
                              i, (i + 1) % 3, d, where))
        if e.node is None:
            return
        if getattr(e, "trunc", None) is not None and kind == "private":
            r, d = decide_trunc(self.el, w.secret(o), e.node, *e.trunc)
            if r == "eq":
                rep.ok("value", nm, d)
            elif r == "ne":
                rep.bad("value", nm, "%s; built in %s" % (d, where))
            else:
                rep.undecided("value", nm, d)
            return
        self.same("value", nm, w.secret(o), w.fitted(e.node, flat[0].factory), lambda d: "result is %s; built in %s" % (d, where), bits=getattr(e, "bits", None))

    def same(self, rule, nm, a, b, msg, bits=None):
        """equality of two IR values, decided"""
        rep = self.rep
        r, d = decide_equal(self.el, a, b, self.w.nbits, bits)
        if r == "eq":
            rep.ok(rule, nm, d)
        elif r == "ne":
            rep.bad(rule, nm, msg(d))
        else:
            rep.undecided(rule, nm, d)


def shift_terms(f, am, nb):
    """split a form into arithmetic shifts by am and the rest: ([(coef, arg form)], rest)"""
    from .elem import _maplist, shift_map
    from .algebra import a_add
    parts, rest = [], {}
    for m, c in f.t.items():
        g = m[0] if len(m) == 1 else None
        arg = None
        if g is not None and g[0] == "fn" and g[1] == "trunc" and g[2][0] == am:
            k = g[3]
            arg = AF(dict(k[1])) if k[0] == "A" else toA(BF(k[1]), nb)
        elif g is not None and g[0] == "B":
            ms = g[1][1]
            mp = shift_map(nb, am, "ar")
            inner = set()
            ok = True
            for mm in ms:
                fs = set()
                for h in mm:
                    if h[0] == "m" and _maplist[h[1]] == mp:
                        fs.add(h[2])
                    else:
                        ok = False
                inner.add(frozenset(fs))
            if ok:
                arg = toA(BF(inner), nb)
        if arg is None:
            rest[m] = c
        else:
            parts.append((c, arg))
    return parts, AF(rest)


def decide_trunc(el, o, ideal, x, am, msb0):
    """does o equal x >> am up to the stated rounding error?"""
    from .algebra import a_add, a_scale
    nb = nbits_of(o)
    try:
        fo, fi, fx = el.form(o), el.form(ideal), el.form(x)
    except (TooBig, Undef) as e:
        return "?", str(e) or "normal form too large"
    if fo.shape != fi.shape:
        return "ne", "result has shape %s, expected %s" % (fo.shape, fi.shape)
    n = 0
    how = "equal normal forms"
    for idx in np.ndindex(*fo.shape):
        a, b, xx = toA(fo[idx], nb), toA(fi[idx], nb), toA(fx[idx], nb)
        if a == b:
            continue
        n += 1
        if n > 3:
            continue
        # lemma: additive parts shifted separately (error < number of parts, if the parts do not wrap)
        parts, rest = shift_terms(a, am, nb)
        if parts and not rest.t and all(c == 1 for c, _ in parts):
            tot = AF({})
            for c, w in parts:
                tot = a_add(tot, w)
            if diff(np.array([tot], dtype=object), np.array([xx], dtype=object), nb) is None:
                how = "sum of %d separately shifted additive parts of the value" % len(parts)
                continue
        try:
            dom = BVDomain()
            if msb0:
                for m in xx.t:
                    if len(m) == 1 and len(xx.t) == 1:
                        dom.assumed[m[0]] = {nb - 1: 0}
            vo, vx = dom.arith(a, nb), dom.arith(xx, nb)
            d = dom.sub(vo, dom.ashr(vx, am))
            good = 0
            for k in (-1, 0, 1):
                z = dom.nonzero(dom.xor(d, dom.const(k, nb)))
                good = dom.m.OR(good, dom.m.NOT(z))
            bad = dom.m.NOT(good)
            if bad:
                wit = dom.m.witness(bad)
                return "ne", "result is not within one unit of the shifted value at element %s, e.g. for %s" % (idx, valuation(dom, wit))
            how = "within one unit for every value (decision diagram)"
        except (TooBig, RecursionError):
            # fall back: refute at a point
            pts = [confirm(a, b, nb, False)]
            if pts[0] is not None and not msb0 and not parts:
                return "ne", "result %s, expected %s" % (show(a), show(b))
            return "?", "decision diagram too large"
        except Undef as e:
            return "?", str(e)
    return "eq", how


def decide_equal(el, a, b, nbits, bits=None):
    """('eq'|'ne'|'?', explanation)"""
    nb = nbits_of(a)
    isb = el.isbool(a)
    mism = None
    why = None
    try:
        fa, fb = el.form(a), el.form(b)
        if fa.shape != fb.shape:
            return "ne", "of shape %s, expected %s" % (fa.shape, fb.shape)
        d = diff(fa, fb, nb)
        if d is None:
            return "eq", (show(fa.reshape(-1)[0]) if fa.size else "empty")
        mism = d
    except TooBig:
        why = "polynomial normal form too large"
    except Undef as e:
        why = str(e)
    if mism is not None and bits is None:
        # canonical decision diagrams of the residual forms
        try:
            dom = BVDomain()
            w_ = 1 if isb else nb
            n_ = 0
            bad = None
            for idx in np.ndindex(*fa.shape):
                x, y = fa[idx], fb[idx]
                if x == y:
                    continue
                if len(leaves(x) | leaves(y)) > 14:
                    raise TooBig()
                n_ += 1
                if n_ > 4:
                    break
                dom = BVDomain()
                u, v = dom.form(x, w_), dom.form(y, w_)
                if u != v:
                    bad = (idx, x, y)
                    break
            if bad is None:
                return "eq", "equal decision diagrams of the normal forms"
            mism = bad
        except (TooBig, RecursionError, Undef) as e:
            pass
    # canonical decision diagrams
    try:
        dom = BVDomain()
        be = BVElem(dom, nbits)
        xa, xb = be.form(a), be.form(b)
        if xa.shape != xb.shape:
            return "ne", "of shape %s, expected %s" % (xa.shape, xb.shape)
        if bits is not None:
            cut = lambda v: type(v)(v.b[:bits])
            xa = np.vectorize(cut, otypes=[object])(xa)
            xb = np.vectorize(cut, otypes=[object])(xb)
        d = bv_diff(dom, xa, xb)
        if d is None:
            return "eq", "equal decision diagrams (%d nodes)" % len(dom.m.var)
        return "ne", "wrong in bit %s of element %s for %s" % (d[1], d[0], d[2])
    except (TooBig, RecursionError):
        why = why or "decision diagram too large"
    except Undef as e:
        why = why or str(e)
    if mism is not None:
        try:
            s = confirm(mism[1], mism[2], nb, isb)
        except Undef as e:
            return "?", str(e)
        if s is not None:
            return "ne", "%s, expected %s at element %s" % (show(mism[1]), show(mism[2]), mism[0])
        return "?", "normal forms differ syntactically but not at any tried point: %s vs %s" % (show(mism[1]), show(mism[2]))
    return "?", why
