"""ABY3 obligations: every protocol operation, in every calling context of the
table below, is extracted into the IR and compared with its plaintext meaning.
"""
import numpy as np

from .aby3world import ABY3World
from .elem import AF, BF, Elem, TooBig, Undef, diff, leaves, show, toA, toW
from .graph import FactoryVal, Node, ShapeVal
from .interp import AbsRaise, Incomplete, Inst, Unknown
from .protomodel import F

AB = "tf_encrypted.protocol.aby3.aby3:ABY3."


class Case:
    def __init__(self, name, inputs, call, spec, **kw):
        self.name = name
        self.inputs = inputs
        self.call = call
        self.spec = spec
        self.kw = kw


class Exp:
    """expected result"""

    def __init__(self, kind, node, scaled=None, share=None, factory=None):
        self.kind, self.node, self.scaled, self.share, self.factory = kind, node, scaled, share, factory


class SpecOps:
    """plaintext operations, written over IR nodes"""

    def __init__(self, w):
        self.w = w
        self.it = w.it

    def m(self, x, name, *a, **k):
        it = self.it
        d, it.device = it.device, None
        cr, it.created = it.created, []          # specification nodes are not part of the analysed program
        try:
            return it.node_method(it, x, name, list(a), k)
        finally:
            it.device, it.created = d, cr

    def add(self, x, y): return self.m(x, "add", y)
    def sub(self, x, y): return self.m(x, "sub", y)
    def mul(self, x, y): return self.m(x, "mul", y)
    def matmul(self, x, y): return self.m(x, "matmul", y)
    def neg(self, x): return self.m(x, "negative")
    def xor(self, x, y): return self.m(x, "bitwise_xor", y)
    def and_(self, x, y): return self.m(x, "bitwise_and", y)
    def or_(self, x, y): return self.m(x, "bitwise_or", y)
    def not_(self, x): return self.m(x, "invert")

    def node(self, op, ins, params=(), like=None, shape=None, factory=None):
        x = like or ins[0]
        return Node(op, ins, params, kind="backing", factory=factory or x.factory, shape=shape if shape is not None else x.shape)

    def trunc(self, x, amount=None):
        return self.node("trunc", [x], (self.w.frac if amount is None else amount,))

    def const(self, v, like):
        v = np.asarray(v)
        from .protomodel import freeze
        return Node("const", (), (freeze(v) if v.shape else v.item(),), kind="backing", factory=like.factory, shape=ShapeVal(v.shape))

    def msb(self, x, factory=None):
        return self.node("msb", [x], (), factory=factory or F["bool"])

    def cast(self, x, f):
        return self.m(x, "cast", f)


class ABY3Ops(ABY3World):
    def __init__(self, nbits=64, choices=None, summaries=("truncate",), repo=None):
        ABY3World.__init__(self, repo=repo, nbits=nbits, choices=choices)
        self.S = SpecOps(self)
        fc = self.it.getattr(self.prot, "fixedpoint_config")
        self.frac = self.it.getattr(fc, "precision_fractional")
        self.base = self.it.getattr(fc, "scaling_factor") if False else 2 ** self.frac
        self.fresh = 0
        self.summarised = []
        for s in summaries:
            self.summarise(s)

    # ---- inputs
    def secret(self, t):
        """IR node denoting the value an abstract tensor stands for"""
        if not isinstance(t, Inst):
            return t
        S = self.S
        if self.it.getattr(t, "dispatch_id") == "private":
            sh = self.shares(t)
            op = S.add if self.it.getattr(t, "share_type") == self.ARITH else S.xor
            return op(op(sh[0][0], sh[1][0]), sh[2][0])
        return self.shares(t)[0]

    def wrap_secret(self, node, share, scaled, factory=None):
        """private tensor with fresh shares of the value `node`"""
        f = factory or node.factory
        self.fresh += 1
        n = self.fresh
        sec = Node("sec", [node], (), kind="backing", factory=f, shape=node.shape)
        a = [Node("atom", (), (), kind="backing", factory=f, shape=node.shape, tag="r%d.%d" % (n, i), device=self.servers[i]) for i in range(2)]
        S = self.S
        op = S.sub if share == self.ARITH else S.xor
        third = op(op(sec, a[0]), a[1])
        base = [a[0], a[1], third]
        sh = [[None, None] for _ in range(3)]
        for i in range(3):
            for j in range(2):
                sh[i][j] = Node("identity", [base[(i + j) % 3]], (), kind="backing", factory=f, shape=node.shape,
                                device=self.servers[i], fn="summary", tag="summary")
        return self.it.call(self.tens.ns["ABY3PrivateTensor"], [self.prot, sh, scaled, share], {})

    def wrap_public(self, node, scaled):
        vs = [Node("identity", [node], (), kind="backing", factory=node.factory, shape=node.shape, device=self.servers[i]) for i in range(3)]
        return self.it.call(self.tens.ns["ABY3PublicTensor"], [self.prot, vs, scaled], {})

    # ---- summaries (assume-guarantee; each summarised operation has its own obligations)
    def summarise(self, name):
        ov = self.it.overrides
        fn = getattr(self, "sum_" + name)
        ov[AB + name] = lambda i, a, k, fn=fn: fn(*a[1:], **k)

    def isp(self, x):
        return isinstance(x, Inst) and self.it.getattr(x, "dispatch_id") == "private"

    def st(self, x):
        return self.it.getattr(x, "share_type")

    def scaled(self, x):
        return self.it.getattr(x, "is_scaled")

    def sum_truncate(self, x, method="heuristic", amount=None):
        amt = self.frac if amount is None else amount
        node = self.S.trunc(self.secret(x), amt)
        self.summarised.append(("truncate", x, node))
        if self.isp(x):
            return self.wrap_secret(node, self.st(x), self.scaled(x))
        return self.wrap_public(node, self.scaled(x))

    def pm_(self, name):
        return self.it.getattr(self.prot, name)

    def op(self, name, *a, **k):
        return self.it.call(self.pm_(name), list(a), k)


def call_case(w, case):
    """interpret the operation; returns ('ok', result) / ('raise', AbsRaise) / ('undecided', why)"""
    it = w.it
    try:
        ins = case.inputs(w)
        w.case_inputs = ins
        w.created0 = len(it.created)
        w.events0 = len(it.events)
        pos = it.choice_pos
        res = case.call(w, *ins)
        if it.choice_pos != pos:
            return "undecided", "branches on a value the analysis does not know: %s" % (it.choice_log[-1],)
        return "ok", res
    except AbsRaise as e:
        if it.choice_pos != pos:
            return "undecided", "raise under unknown branch: %s" % e
        return "raise", e
    except Incomplete as e:
        return "undecided", str(e)
    except RecursionError:
        return "undecided", "recursion"


def flat_results(r):
    if isinstance(r, (list, tuple)):
        out = []
        for x in r:
            out += flat_results(x)
        return out
    return [r]


def out_loc(t, w):
    try:
        sh = w.shares(t)
        n = sh[0]
        while isinstance(n, (list, tuple)):
            n = n[0]
        return "%s (%s)" % (n.fn, ":".join(map(str, n.loc)) if n.loc else "?")
    except Exception:
        return "?"


def judge(w, case, result, rep, prefix=""):
    """compare the produced tensors with the specification"""
    name = prefix + case.name
    it = w.it
    exps = case.spec(w.S, *[x for x in w.case_inputs])
    exps = exps if isinstance(exps, list) else [exps]
    outs = flat_results(result)
    if len(outs) != len(exps):
        rep.bad("value", name, "operation returns %d tensors, expected %d" % (len(outs), len(exps)))
        return
    el = Elem(w.nbits)
    for i, (o, e) in enumerate(zip(outs, exps)):
        nm = name if len(outs) == 1 else "%s[%d]" % (name, i)
        judge_one(w, el, nm, o, e, rep)


def nbits_of(n):
    return n.factory.nbits if n.factory is not None else 64


def judge_one(w, el, nm, o, e, rep):
    it = w.it
    if not isinstance(o, Inst):
        rep.bad("value", nm, "result is not a protocol tensor: %r" % (o,))
        return
    kind = it.getattr(o, "dispatch_id")
    where = out_loc(o, w)
    if kind != e.kind:
        rep.bad("value", nm, "result is %s, expected %s; built in %s" % (kind, e.kind, where))
        return
    if e.share is not None and kind == "private":
        st = w.st(o)
        if st != e.share:
            rep.bad("sharetype", nm, "result is labelled %s but is %s; built in %s" % (st, e.share, where))
        else:
            rep.ok("sharetype", nm)
    sc = w.scaled(o)
    if e.scaled is not None:
        if isinstance(sc, Unknown):
            rep.undecided("scale", nm, "scale flag unknown")
        elif bool(sc) != e.scaled:
            rep.bad("scale", nm, "result is labelled is_scaled=%s but its fixed-point exponent is %d; built in %s" % (sc, 1 if e.scaled else 0, where))
        else:
            rep.ok("scale", nm)
    sh = w.shares(o)
    try:
        if kind == "public":
            forms = [el.form(x) for x in sh]
            nb = nbits_of(sh[0])
            for i in range(3):
                check_device(w, nm, sh[i], i, rep, where)
            for i in (1, 2):
                d = diff(forms[0], forms[i], nb)
                if d is not None:
                    rep.bad("replicated", nm, "public value differs between server 0 and server %d at %s; built in %s" % (i, show(d), where))
                else:
                    rep.ok("replicated", nm)
            got = forms[0]
        else:
            fs = [[el.form(x) for x in row] for row in sh]
            nb = nbits_of(sh[0][0])
            for i in range(3):
                for j in range(2):
                    check_device(w, nm, sh[i][j], i, rep, where)
            for i in range(3):
                d = diff(fs[i][1], fs[(i + 1) % 3][0], nb)
                if d is not None:
                    rep.bad("replicated", nm, "server %d's second share differs from server %d's first share: %s; built in %s" % (
                        i, (i + 1) % 3, show(d), where))
                else:
                    rep.ok("replicated", nm)
            got = el.form(w.secret(o))
        want = el.form(e.node)
        d = diff(got, want, nb)
        if d is not None:
            rep.bad("value", nm, "shares reconstruct to %s, expected %s at element %s; built in %s" % (
                show(d[1]), show(d[2]), d[0], where))
        else:
            rep.ok("value", nm, show(got.reshape(-1)[0]) if got.size else "empty")
        if e.factory is not None:
            x = sh[0] if kind == "public" else sh[0][0]
            if x.factory is not e.factory:
                rep.bad("ring", nm, "result lives in %r, expected %r; built in %s" % (x.factory, e.factory, where))
            else:
                rep.ok("ring", nm)
    except TooBig:
        rep.undecided("value", nm, "normal form too large")
    except Undef as ex:
        rep.undecided("value", nm, str(ex))


def check_device(w, nm, node, i, rep, where):
    d = node.device
    if isinstance(d, Unknown):
        rep.undecided("placement", nm, "unknown device")
    elif d != w.servers[i]:
        rep.bad("placement", nm, "share of server %d is produced on %s; built in %s" % (i, d or "no particular device", where))
    else:
        rep.ok("placement", nm)


# ------------------------------------------------------------------ the table
def P(tag, shape=(2, 3), scaled=True, factory=None):
    return lambda w: w.private(tag, shape, w.ARITH, scaled, factory)


def Bo(tag, shape=(2, 3), scaled=False, factory=None):
    return lambda w: w.private(tag, shape, w.BOOL, scaled, factory)


def U(tag, shape=(2, 3), scaled=True, factory=None):
    return lambda w: w.public(tag, shape, scaled, factory)


def ins(*fs):
    return lambda w: [f(w) if callable(f) else f for f in fs]


def spec_of(kind, f, scaled=None, share=None, factory=None):
    """f receives secrets"""
    def s(S, *xs):
        w = S.w
        return Exp(kind, f(S, *[w.secret(x) for x in xs]), scaled, w.ARITH if share == "A" else (w.BOOL if share == "B" else None), factory)
    return s


def op_call(name, *extra, **kw):
    return lambda w, *xs: w.op(name, *xs, *extra, **kw)


def kindname(f):
    return {"P": "private", "U": "public"}[f]


BINSHAPES = [((2, 3), (2, 3)), ((2, 3), (1, 3)), ((1, 3), (2, 3)), ((3,), (2, 3)), ((2, 3), ())]


def linear_cases(tier):
    out = []

    def bop(op, kx, ky, sx, sy, shx, shy, fn, share="A", okscale=None, mkx=P, mky=P):
        kind = "public" if kx == "U" and ky == "U" else "private"
        fx = U if kx == "U" else mkx
        fy = U if ky == "U" else mky
        nm = "%s(%s %s%s, %s %s%s)" % (op, kindname(kx), list(shx), " scaled" if sx else "", kindname(ky), list(shy), " scaled" if sy else "")
        if share == "B":
            nm += " boolean"
        out.append(Case(nm, ins(fx("x", shx, sx), fy("y", shy, sy)), op_call(op),
                        spec_of(kind, fn, okscale, share if kind == "private" else None)))

    shapes = BINSHAPES if tier == "thorough" else BINSHAPES[:3]
    for kx, ky in (("P", "P"), ("P", "U"), ("U", "P"), ("U", "U")):
        for shx, shy in shapes:
            for s in (True, False):
                bop("add", kx, ky, s, s, shx, shy, lambda S, x, y: S.add(x, y), okscale=s)
                bop("sub", kx, ky, s, s, shx, shy, lambda S, x, y: S.sub(x, y), okscale=s)
            for sx in (True, False):
                for sy in (True, False):
                    bop("mul", kx, ky, sx, sy, shx, shy,
                        (lambda S, x, y: S.trunc(S.mul(x, y))) if sx and sy else (lambda S, x, y: S.mul(x, y)),
                        okscale=sx or sy)
    for kx, ky in (("P", "P"), ("P", "U"), ("U", "P")):
        for sx in (True, False):
            for sy in (True, False):
                for shx, shy in [((2, 3), (3, 2)), ((2, 2, 3), (2, 3, 1)), ((2, 1, 2), (2, 2))][: 3 if tier == "thorough" else 2]:
                    bop("matmul", kx, ky, sx, sy, shx, shy,
                        (lambda S, x, y: S.trunc(S.matmul(x, y))) if sx and sy else (lambda S, x, y: S.matmul(x, y)),
                        okscale=sx or sy)
                for pad, st in (("SAME", [1, 1]), ("VALID", [2, 1])):
                    nm = "conv2d(%s%s, %s%s) %s %s" % (kindname(kx), " scaled" if sx else "", kindname(ky), " scaled" if sy else "", pad, st)
                    fx, fy = (U if kx == "U" else P), (U if ky == "U" else P)

                    def cf(S, x, y, pad=pad, st=st, sx=sx, sy=sy):
                        c = S.m(x, "conv2d", y, strides=st, padding=pad)
                        return S.trunc(c) if sx and sy else c
                    out.append(Case(nm, ins(fx("x", (1, 2, 4, 3), sx), fy("y", (2, 2, 2, 1), sy)),
                                    op_call("conv2d", st, pad), spec_of("private", cf, sx or sy, "A")))
    for k, mk in (("P", P), ("U", U)):
        for s in (True, False):
            kind = kindname(k) if k == "P" else "public"
            kd = "private" if k == "P" else "public"
            out.append(Case("negative(%s%s)" % (kd, " scaled" if s else ""), ins(mk("x", (2, 3), s)), op_call("negative"),
                            spec_of(kd, lambda S, x: S.neg(x), s, "A" if k == "P" else None)))
            out.append(Case("square(%s%s)" % (kd, " scaled" if s else ""), ins(mk("x", (2, 3), s)), op_call("square"),
                            spec_of(kd, (lambda S, x: S.trunc(S.mul(x, x))) if s else (lambda S, x: S.mul(x, x)), s, "A" if k == "P" else None)))
            for ax, kdim in ((None, False), (0, False), (1, True), (-1, False), ([0, 1], False)):
                out.append(Case("reduce_sum(%s%s) axis=%s keepdims=%s" % (kd, " scaled" if s else "", ax, kdim), ins(mk("x", (2, 3), s)),
                                op_call("reduce_sum", axis=ax, keepdims=kdim),
                                spec_of(kd, lambda S, x, ax=ax, kdim=kdim: S.m(x, "reduce_sum", ax, kdim), s, "A" if k == "P" else None)))
    for s in (True, False):
        out.append(Case("add_n(3 private%s)" % (" scaled" if s else ""), ins(P("x", (2,), s), P("y", (2,), s), P("z", (2,), s)),
                        lambda w, *xs: w.op("add_n", list(xs)),
                        spec_of("private", lambda S, x, y, z: S.add(S.add(x, y), z), s, "A")))
    return out


def bool_cases(tier):
    out = []
    fs = [None, F["bool"]] + ([F["int8"]] if tier == "thorough" else [])
    shapes = BINSHAPES if tier == "thorough" else BINSHAPES[:3]
    for f in fs:
        fn = f.name if f else "default"
        for shx, shy in shapes:
            for op, sp in (("xor", lambda S, x, y: S.xor(x, y)), ("and_", lambda S, x, y: S.and_(x, y)), ("or_", lambda S, x, y: S.or_(x, y))):
                for kx, ky in (("P", "P"), ("P", "U"), ("U", "P"), ("U", "U")):
                    if op == "or_" and (kx, ky) != ("P", "P"):
                        continue
                    if op == "and_" and (kx, ky) == ("U", "U"):
                        continue
                    fx, fy = (U if kx == "U" else Bo), (U if ky == "U" else Bo)
                    kind = "public" if (kx, ky) == ("U", "U") else "private"
                    out.append(Case("%s(%s %s, %s %s) boolean %s" % (op, kindname(kx), list(shx), kindname(ky), list(shy), fn),
                                    ins(fx("x", shx, False, f), fy("y", shy, False, f)), op_call(op),
                                    spec_of(kind, sp, False, "B" if kind == "private" else None, f)))
        out.append(Case("not_(private) boolean %s" % fn, ins(Bo("x", (2, 3), False, f)), op_call("not_"),
                        spec_of("private", lambda S, x: S.not_(x), False, "B", f)))
        if f is None or f.name != "bool":
            for st in (1, 5):
                for op, m in (("lshift", "left_shift"), ("rshift", "right_shift"), ("logical_rshift", "logical_rshift")):
                    out.append(Case("%s(private boolean %s, %d)" % (op, fn, st), ins(Bo("x", (2,), False, f)), op_call(op, st),
                                    spec_of("private", lambda S, x, m=m, st=st: S.m(x, m, st), False, "B", f)))
    for st in (1, 5):
        out.append(Case("lshift(private arithmetic, %d)" % st, ins(P("x", (2,))), op_call("lshift", st),
                        spec_of("private", lambda S, x, st=st: S.m(x, "left_shift", st), True, "A")))
        out.append(Case("rshift(public, %d)" % st, ins(U("x", (2,))), op_call("rshift", st),
                        spec_of("public", lambda S, x, st=st: S.m(x, "right_shift", st), True)))
    for st, sd in ((0, 2), (1, 2)):
        out.append(Case("bit_gather(private boolean) %d/%d" % (st, sd), ins(Bo("x", (2,))), op_call("bit_gather", st, sd),
                        spec_of("private", lambda S, x, st=st, sd=sd: S.m(x, "bit_gather", st, sd), False, "B")))
    out.append(Case("bit_split_and_gather(private boolean)", ins(Bo("x", (2,))), op_call("bit_split_and_gather", 2),
                    spec_of("private", lambda S, x: S.m(x, "bit_split_and_gather", 2), False, "B")))
    return out


def struct_cases(tier):
    out = []

    def add(op, shape, args, kw, mname, margs, mkw=None, kinds=("P", "B", "U")):
        for k in kinds:
            for s in ((True, False) if k != "B" else (False,)):
                mk = {"P": P, "B": Bo, "U": U}[k]
                kd = "public" if k == "U" else "private"
                sh = {"P": "A", "B": "B", "U": None}[k]
                nm = "%s(%s%s %s) %s" % (op, {"P": "private", "B": "boolean private", "U": "public"}[k], " scaled" if s else "", list(shape), args or kw)
                out.append(Case(nm, ins(mk("x", shape, s)), op_call(op, *args, **kw),
                                spec_of(kd, lambda S, x: S.m(x, mname, *margs, **(mkw or {})), s, sh)))
    for perm in (None, [1, 0, 2], [2, 0, 1]):
        add("transpose", (2, 3, 2), (perm,), {}, "transpose", (perm,))
    add("reshape", (2, 3), ([3, 2],), {}, "reshape", ([3, 2],))
    add("reshape", (2, 3), ([-1],), {}, "reshape", ([-1],))
    for ax in (0, 1, -1):
        add("expand_dims", (2, 3), (ax,), {}, "expand_dims", (ax,))
    add("squeeze", (2, 1, 3, 1), (None,), {}, "squeeze", (None,))
    add("squeeze", (2, 1, 3, 1), ([1],), {}, "squeeze", ([1],))
    add("strided_slice", (3, 4), ([0, 1], [3, 4], [2, 1]), {}, "strided_slice", (([0, 1], [3, 4], [2, 1]), {}))
    for key in (slice(1, None), (slice(None), 1), 0, (slice(None, None, 2), slice(1, 3))):
        add("indexer", (3, 4), (key,), {}, "__getitem__", (key,))
    for idx, ax in (([2, 0], 0), ([1, 1, 0], 1)):
        add("gather", (3, 2), (np.array(idx),), {"axis": ax}, "gather", (np.array(idx),), {"axis": ax})
    add("tile", (2, 3), ([2, 1],), {}, "tile", ([2, 1],))
    add("tile", (2, 3), ([1, 2],), {}, "tile", ([1, 2],))
    add("reverse", (2, 3), ([1],), {}, "reverse", ([1],), kinds=("P", "B"))
    add("reverse", (2, 3), ([0],), {}, "reverse", ([0],), kinds=("P", "B"))
    for pad, st in (("SAME", [1, 1]), ("VALID", [2, 1])):
        add("im2col", (1, 2, 4, 3), (2, 2, st, pad), {}, "im2col", (2, 2, st, pad), kinds=("P", "U"))
        add("im2patches", (1, 2, 4, 3), ((2, 2),), {"strides": st, "padding": pad}, "im2patches", ((2, 2),), {"strides": st, "padding": pad}, kinds=("P",))
    # split
    for k in ("P", "B", "U"):
        for num, ax in ((2, 0), (3, 1)):
            mk = {"P": P, "B": Bo, "U": U}[k]
            kd = "public" if k == "U" else "private"
            s = k != "B"

            def sp(S, x, num=num, ax=ax, kd=kd, k=k, s=s):
                w = S.w
                return [Exp(kd, n, s, {"P": w.ARITH, "B": w.BOOL, "U": None}[k]) for n in S.m(w.secret(x), "split", num, axis=ax)]
            out.append(Case("split(%s) %d axis %d" % (k, num, ax), ins(mk("x", (4, 3), s)), op_call("split", num, axis=ax), sp))
    # concat / stack
    for k in ("P", "B", "U"):
        mk = {"P": P, "B": Bo, "U": U}[k]
        kd = "public" if k == "U" else "private"
        s = k != "B"
        for op, axes in (("concat", (0, 1, -1)), ("stack", (0, 1, 2, -1))):
            for ax in axes:
                shy = (2, 3)
                if op == "concat":
                    shy = (1, 3) if ax == 0 else (2, 1)

                def sp(S, x, y, op=op, ax=ax, kd=kd, k=k, s=s):
                    w = S.w
                    n = w.it.call(w.it.getattr(w.secret(x).factory, op) if False else w.pm.factory_attr(w.it, w.secret(x).factory, op),
                                  [[w.secret(x), w.secret(y)]], {"axis": ax})
                    return Exp(kd, n, s, {"P": w.ARITH, "B": w.BOOL, "U": None}[k])
                out.append(Case("%s(%s) axis %d" % (op, k, ax), ins(mk("x", (2, 3), s), mk("y", shy, s)),
                                lambda w, x, y, op=op, ax=ax: w.op(op, [x, y], axis=ax), sp))
    # pad
    for k in ("P", "B", "U"):
        mk = {"P": P, "B": Bo, "U": U}[k]
        kd = "public" if k == "U" else "private"
        s = k != "B"

        def sp(S, x, kd=kd, k=k, s=s):
            w = S.w
            xs = w.secret(x)
            return Exp(kd, S.node("pad", [xs], (((1, 2), (0, 1)),)), s, {"P": w.ARITH, "B": w.BOOL, "U": None}[k])
        out.append(Case("pad(%s)" % k, ins(mk("x", (2, 3), s)), op_call("pad", [[1, 2], [0, 1]]), sp))
    # expand
    def spx(S, x):
        w = S.w
        xs = w.secret(x)
        idx = np.array([[[2 * i, 2 * j] for j in range(3)] for i in range(2)])
        from .protomodel import freeze
        return Exp("private", S.node("scatter_nd", [xs], (freeze(idx), (3, 5))), True, w.ARITH)
    out.append(Case("expand(private scaled) stride 2", ins(P("x", (2, 3))), op_call("expand", 2), spx))

    def spsc(S, x):
        w = S.w
        from .protomodel import freeze
        return Exp("private", S.node("scatter_nd", [w.secret(x)], (freeze(np.array([[1], [3]])), (4, 3))), True, w.ARITH)
    out.append(Case("scatter_nd(private)", ins(P("x", (2, 3))), lambda w, x: w.op("scatter_nd", np.array([[1], [3]]), x, (4, 3)), spsc))
    for pad, st, img in (("VALID", [1, 1], None), ("SAME", [1, 1], (3, 3)), ("VALID", [2, 2], (5, 5))):
        def spp(S, x, pad=pad, st=st, img=img):
            w = S.w
            return Exp("private", S.m(w.secret(x), "patches2im", (2, 2), strides=st, padding=pad, img_size=img), True, w.ARITH)
        out.append(Case("patches2im(private) %s %s %s" % (pad, st, img), ins(P("x", (1, 8, 3, 3) if pad == "SAME" else (1, 8, 2, 2))),
                        lambda w, x, pad=pad, st=st, img=img: w.op("patches2im", x, (2, 2), strides=st, padding=pad, img_size=img), spp))
    return out
