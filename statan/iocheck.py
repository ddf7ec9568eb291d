"""Data entering and leaving the protocols: inputs, constants, variables,
outputs, local computations, (de)serialisation, files and queues.

Floating-point values are exact rationals: an input is X / s for an arbitrary
ring value X and the scaling factor s, so the round trip is decided as equality
of polynomials with rational coefficients.
"""
from fractions import Fraction

import numpy as np

from .aby3ops import Exp, flat_results
from .algebra import a_const, a_scale
from .elem import AF, BF, Elem, TooBig, Undef, elementwise, leaves, show
from .graph import Node, ShapeVal
from .interp import AbsRaise, Builtin, Ext, ExtObj, GenVal, Incomplete, Inst, Unknown
from .lib import Cx, Judge, Lib
from .pondlib import PondJudge, PondLib
from .pondprivacy import PondPrivacy
from .privacy import Privacy, where
from .protomodel import DT, F, freeze

F64 = Ext("tf.float64")
WIDE = {"tf.int64", "tf.float64"}


def dst(p):
    return getattr(p, "path", p if isinstance(p, str) else str(p))


class RealElem(Elem):
    ints = frozenset(WIDE)

    def lit(self, v, n):
        if isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, float) and n.kind != "backing" and v == v and abs(v) != float("inf"):
            return a_const(Fraction(v))
        return Elem.lit(self, v, n)

    def reduce(self, arr, n):
        flat = arr.reshape(-1)
        for i, f in enumerate(flat):
            if isinstance(f, AF) and any(isinstance(c, Fraction) and c.denominator == 1 for c in f.t.values()):
                arr = arr.copy()
                flat = arr.reshape(-1)
                flat[i] = AF({m: int(c) if isinstance(c, Fraction) and c.denominator == 1 else c for m, c in f.t.items()})
        return Elem.reduce(self, arr, n)

    def rounded(self, f, n, what):
        if isinstance(f, AF) and any(not isinstance(c, int) for c in f.t.values()):
            if set(f.t) <= {()}:
                return a_const(int(f.t.get((), 0)))
            return self.fn(n, what, (), f)
        return f

    def o_tf_cast(self, n):
        d = dst(n.params[0])
        a = Elem.o_tf_cast(self, n)
        if d == "tf.bool" or self.isbool(n.ins[0]):
            return a
        if d in ("tf.float32", "tf.float16", "tf.bfloat16"):
            return elementwise(lambda f: f if isinstance(f, AF) and set(f.t) <= {()} else self.fn(n, "round to " + d, (), f), a)
        if d.startswith("tf.int") or d.startswith("tf.uint"):
            if d not in self.ints:
                return elementwise(lambda f: self.fn(n, "wrap to " + d, (), f), a)
            return elementwise(lambda f: self.rounded(f, n, "truncate"), a)
        return a

    def o_wrap(self, n):
        a = Elem.o_wrap(self, n)
        return elementwise(lambda f: self.rounded(f, n, "truncate"), a)

    def o_div(self, n):
        if n.kind == "backing":
            return Elem.o_div(self, n)
        a, b = self.form(n.ins[0]), self.form(n.ins[1])

        def f(x, y):
            if isinstance(x, BF):
                from .elem import toA
                x = toA(x, self.nbits(n))
            if isinstance(y, AF) and set(y.t) == {()}:
                return a_scale(x, Fraction(1) / Fraction(y.t[()]))
            return self.fn(n, "div", (), x, y)
        return elementwise(f, a, b)

    def halves(self, n, name, f):
        """one of the two int64 words that make up an int128 element"""
        if not hasattr(self, "words"):
            self.words = {}
        r = self.fn(n, name, (), f)
        self.words[r.key()] = (name, f)
        return r

    def o_words(self, n):
        a = self.form(n.ins[0])
        out = np.empty(a.shape + (2,), dtype=object)
        for idx in np.ndindex(*a.shape):
            out[idx + (0,)] = self.halves(n, "low word", a[idx])
            out[idx + (1,)] = self.halves(n, "high word", a[idx])
        return out

    def o_join(self, n):
        a = self.form(n.ins[0])
        if a.ndim < 1 or a.shape[-1] != 2:
            raise Undef("int128 from words of shape %s" % (a.shape,))
        out = np.empty(a.shape[:-1], dtype=object)
        words = getattr(self, "words", {})
        for idx in np.ndindex(*out.shape):
            lo, hi = words.get(a[idx + (0,)].key()), words.get(a[idx + (1,)].key())
            if lo and hi and lo[0] == "low word" and hi[0] == "high word" and lo[1] == hi[1]:
                out[idx] = lo[1]
            else:
                out[idx] = self.fn(n, "join", (), a[idx + (0,)], a[idx + (1,)])
        return out

    def o_batch(self, n):
        """a mini-batch: some selection of rows fixed by the public pipeline parameters"""
        a = self.form(n.ins[0])
        rows, size = a.shape[0], n.params[1]
        rnd = np.random.RandomState(abs(hash(repr(n.params))) % (2 ** 31))
        return a[rnd.randint(0, rows, size)]

    def o_ext_tf_math_round(self, n):
        a = self.form(n.ins[0])
        return elementwise(lambda f: self.rounded(f, n, "round"), a)


for _nm in ("ext_tf_round", "ext_tf_floor", "ext_tf_math_floor", "ext_tf_math_rint"):
    setattr(RealElem, "o_" + _nm, RealElem.o_ext_tf_math_round)


class IOMixin:
    """harness shared by both protocols"""

    def io_setup(self):
        it = self.it
        self.el = RealElem(self.nbits)
        self.el.ints = frozenset(WIDE | {dst(self.factory.native)})
        it.gen_limit = 3
        self.players = dict(self.players)
        self.seen = []              # (device, received values) of player functions
        self.cases = []
        self.opaque_tf()
        self.words()

    def words(self):
        """the raw representation of int128: pairs of int64 words"""
        pm, it = self.pm, self.it
        attr, fcall = pm.node_attr, pm.factory_call

        def node_attr(i, x, name):
            if name == "value" and x.kind == "backing" and x.factory is not None and x.factory.name == "int128":
                return pm.mk("words", [x], (), kind="tf", shape=ShapeVal(tuple(x.shape) + (2,)), device=x.device, dtype=Ext("tf.int64"))
            return attr(i, x, name)

        def factory_call(f, name, a, k):
            if f.name == "int128" and name == "tensor" and isinstance(a[0], Node) and a[0].kind != "backing":
                enc = pm.arg(a, k, 1, "encode", True)
                if enc is False:
                    if not len(a[0].shape) or a[0].shape[-1] != 2:
                        it.fail("AssertionError", "int128 from words of shape %s" % (a[0].shape,))
                    return pm.mk("join", [a[0]], (), kind="backing", factory=f, shape=ShapeVal(tuple(a[0].shape)[:-1]))
            return fcall(f, name, a, k)
        it.node_attr = node_attr
        pm.factory_call = factory_call

    def opaque_tf(self):
        M = self.it.models
        M["tf.math.round"] = M["tf.round"] = lambda i, a, k: i.node("ext:tf.math.round", [a[0]], (), kind="tf", shape=a[0].shape, dtype=a[0].dtype)

    # ---- values
    def raw(self, tag, shape, scaled, factory=None):
        """a player's plaintext: the rational X / s, or the integer X"""
        it = self.it
        b = factory is not None and factory.name == "bool"
        a = it.node("atom", (), (), kind="tf", shape=ShapeVal(shape), dtype=Ext("tf.bool") if b else (F64 if scaled else Ext("tf.int64")), tag=tag)
        if not scaled:
            return a
        c = it.node("const", (), (self.base,), kind="tf", shape=ShapeVal(()))
        return it.node("div", [a, c], (), kind="tf", shape=ShapeVal(shape), dtype=F64)

    def giver(self, outs, hook=None):
        """a player function without arguments returning fresh plaintexts"""
        def fn(i, a, k):
            self.seen.append((i.device, list(a)))
            r = [self.raw(*o) for o in outs] if isinstance(outs, list) else self.raw(*outs)
            return r
        return Builtin("inputter", fn)

    def taker(self, then=None):
        def fn(i, a, k):
            self.seen.append((i.device, list(a)))
            return then(i, *a) if then else None
        return Builtin("outputter", fn)

    def case(self, label, thunk, exps=None, inputs=(), entitled=None, check=None, kind="io"):
        c = Cx(kind, label)
        c.entitled = entitled or {}
        c.check = check
        self.seen = []
        ev = len(self.it.events)
        self.run(c, thunk, None, lambda: exps() if callable(exps) else exps, list(inputs))
        c.seen = self.seen
        c.events = self.it.events[ev:]
        self.order.append(c)
        self.cases.append(c)
        self.cx[("io", len(self.cx))] = c
        return c

    def meth(self, name, *a, **k):
        return self.it.call(self.it.getattr(self.prot, name), list(a), k)

    def sub(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), k)


class IOABY3(IOMixin, Lib):
    pass


class IOPond(IOMixin, PondLib):
    pass


class IOPriv:
    CLIENT = "/client"

    def elem(self, p, opaque):
        new = (p, opaque) not in self.els
        el = self.base.elem(self, p, opaque)
        if new:
            # same domain with exact rationals
            r = RealElem(self.w.nbits, sec_atoms=opaque)
            r.alias, r.done, r.ints = el.alias, el.done, self.w.el.ints
            self.els[(p, opaque)] = r
            return r
        return el

    def context(self, c, skip=()):
        touched = []
        for n in c.nodes:
            if n.device is None:
                touched.append(n)
                n.device = self.CLIENT
        self.cur = c
        try:
            self.base.context(self, c, skip)
        finally:
            for n in touched:
                n.device = None

    def known_tag(self, pub, p):
        f = self.base.known_tag(self, pub, p)
        d = dict(self.parties)[p]
        mine = self.cur.entitled.get(d, ())
        return lambda tag: f(tag) or tag in mine

    def secret_dep(self, n):
        mine = set()
        dev = self.dev
        tags = self.cur.entitled.get(dev, ())
        for k, (base, sec, share, supp) in self.w.sharings.items():
            if sec.ins[0].tag in tags:
                mine.add("~r%d." % k)
        pub = set()
        for x in self.cur.inputs:
            if self.w.ist(x) and self.w.kind(x) == "public":
                pub |= {a[1] for f in self.w.el.form(self.w.backing(x)).reshape(-1) for a in leaves(f) if a[0] == "v"}
        for f in self.w.el.form(n).reshape(-1):
            for a in leaves(f):
                if a[0] == "v" and a[1] not in tags and a[1] not in pub and not any(a[1].startswith(m) for m in mine):
                    return True
        return False


class _Per(dict):
    pass


class IOPrivacyABY3(IOPriv, Privacy):
    base = Privacy


class IOPrivacyPond(IOPriv, PondPrivacy):
    base = PondPrivacy


def judge(w, rep, prefix, J, Q):
    for c in w.cases:
        nm = prefix + c.label
        J.context(c)
        if c.status == "ok" and c.check is not None:
            try:
                c.check(w, J, rep, nm, c)
            except (TooBig, Undef) as e:
                rep.undecided("value", nm, str(e) or "normal form too large")
        if c.status == "ok":
            Q.context(c)
    rep.functions |= set(w.it.visited)
    rep.contexts = len(w.cases)
    return rep


def same_real(w, a, b):
    """None if equal else a description"""
    fa, fb = w.el.form(a), w.el.form(b)
    if fa.shape != fb.shape:
        return "shape %s instead of %s" % (fa.shape, fb.shape)
    nb = w.nbits
    from .elem import toA
    for idx in np.ndindex(*fa.shape):
        x, y = fa[idx], fb[idx]
        if x == y:
            continue
        x = toA(x, nb) if isinstance(x, BF) else x
        y = toA(y, nb) if isinstance(y, BF) else y
        if x == y:
            continue
        return "%s instead of %s at element %s" % (show(x), show(y), idx)
    return None


def received(args, dev):
    """the player function got exactly these plaintexts, on its own device"""
    def check(w, J, rep, nm, c):
        if len(c.seen) != 1:
            rep.bad("value", nm, "the player's function is called %d times" % len(c.seen))
            return
        d, got = c.seen[0]
        if d != dev:
            rep.bad("placed", nm, "the player's function runs on %s instead of %s" % (d or "no particular device", dev))
        else:
            rep.ok("placed", nm)
        if args is None:
            return
        if len(got) != len(args):
            rep.bad("value", nm, "the player's function receives %d values instead of %d" % (len(got), len(args)))
            return
        for g, (tag, shape, scaled, fac) in zip(got, args):
            if not isinstance(g, Node):
                rep.bad("value", nm, "the player receives %r" % (g,))
                continue
            want = w.raw(tag, shape, scaled, fac)
            d = same_real(w, g, want)
            if d is None:
                rep.ok("value", nm)
            else:
                rep.bad("value", nm, "the player receives %s (%s)" % (d, where(g)))
            if g.device != dev:
                rep.bad("placed", nm, "the plaintext is put together on %s instead of %s (%s)" % (g.device or "no particular device", dev, where(g)))
            else:
                rep.ok("placed", nm)
    return check


def both(*cs):
    def check(*a):
        for c in cs:
            c(*a)
    return check


def ndcheck(values, scaled, bound=None):
    """literal data: every stored element within one unit of the value"""
    def check(w, J, rep, nm, c):
        for o, v in zip(flat_results(c.result), values):
            f = w.el.form(w.secret(o))
            v = np.asarray(v, dtype=object)
            if f.shape != v.shape:
                rep.bad("value", nm, "has shape %s instead of %s" % (f.shape, v.shape))
                continue
            M = w.fac(o).modulus or (1 << w.fac(o).nbits)
            for idx in np.ndindex(*v.shape):
                x = f[idx]
                k = M
                if w.fac(o).name == "bool":
                    from .elem import ONES
                    got = 1 if isinstance(x, BF) and x.t == {ONES} else (0 if isinstance(x, BF) and not x.t else None)
                    k = 2
                else:
                    if isinstance(x, BF):
                        from .elem import toA
                        x = toA(x, w.fac(o).nbits)
                    got = x.t.get((), 0) if isinstance(x, AF) and set(x.t) <= {()} else None
                if got is None:
                    rep.bad("value", nm, "element %s holds %s instead of %s" % (idx, show(x), v[idx]))
                    break
                want = Fraction(v[idx]) * (w.base if scaled else 1)
                d = (Fraction(got) - want) % k
                d = min(d, k - d)
                if d >= 1 or (not scaled and d):
                    rep.bad("value", nm, "element %s of %s is encoded as %s, expected %s" % (idx, v[idx], got, float(want)))
                    break
            else:
                rep.ok("value", nm)
            if w.kind(o) == "private":
                hidden(w, rep, nm, o)
    return check


def hidden(w, rep, nm, o):
    """a variable's plaintext initial value is not visible in what one server holds"""
    sh = w.shares(o)
    for i, own in enumerate(sh):
        own = list(own) if isinstance(own, (list, tuple)) else [own]
        own = own + ([w.S.add(own[0], own[1]) if w.st(o) == w.ARITH else w.S.xor(own[0], own[1])] if len(own) == 2 else [])
        for n in own:
            if any(not any(a[0] in ("rnd", "prf") for a in leaves(f)) for f in w.el.form(n).reshape(-1)):
                rep.bad("leak", nm, "server %d can compute the initial value: its share has no random mask (%s)" % (i, where(n)))
                return
    rep.ok("leak", nm)


def assigned(var, val, shares):
    """every part of the variable receives the matching part of the value, once, on its own server"""
    def check(w, J, rep, nm, c):
        evs = [e for e in c.events if e[0] == "assign"]
        for what, target, value, dev in shares():
            mine = [e for e in evs if e[1] is target]
            if len(mine) != 1:
                rep.bad("value", nm, "%s is assigned %d times" % (what, len(mine)))
                continue
            _, _, v, d, loc = mine[0]
            if d != dev:
                rep.bad("placed", nm, "%s is assigned on %s instead of %s (%s)" % (what, d or "no particular device", dev, loc))
            else:
                rep.ok("placed", nm)
            if not isinstance(v, Node):
                rep.bad("value", nm, "%s receives %r" % (what, v))
                continue
            x = same_real(w, v, value)
            if x is None:
                rep.ok("value", nm)
            else:
                rep.bad("value", nm, "%s receives %s (%s)" % (what, x, loc))
    return check


# ------------------------------------------------------------- outside world
def install_files(w):
    """TFRecord files and tf.data pipelines as lists of records"""
    it = w.it
    w.files = {}

    def write(i, a, k):
        fn, rec = a[0], a[1]
        ap = a[2] if len(a) > 2 else k.get("append", True)
        if not isinstance(ap, bool):
            raise Incomplete("append flag %r" % (ap,), i.loc)
        key = (i.device, fn)
        if not ap:
            w.files[key] = []
        n = i.node("identity", [rec], (), kind="tf", shape=rec.shape)
        w.files.setdefault(key, []).append(n)
        return None
    it.overrides["tf_encrypted.operations.dataset.write_record:write_record"] = write
    same = lambda i, a, k: i.node("identity", [a[0]], (), kind="tf", shape=a[0].shape, dtype=a[0].dtype)
    it.models["tf.io.serialize_tensor"] = same

    def parse(i, a, k):
        d = dst(a[1] if len(a) > 1 else k.get("out_type"))
        if d != "tf.int64":
            i.fail("InvalidArgumentError", "type mismatch between parsed tensor (int64) and dtype %s" % d)
        return same(i, a, k)
    it.models["tf.io.parse_tensor"] = parse

    def ds(items, seq=None):
        o = ExtObj("tf.data.Dataset")
        o.attrs["items"] = items

        def m_map(i, a, k):
            return ds([i.call(a[0], [x], {}) for x in items])

        def m_batch(i, a, k):
            n = a[0] if a else k["batch_size"]
            if not isinstance(n, int) or n < 1:
                i.fail("InvalidArgumentError", "batch size %r" % (n,))
            out = []
            for j in range(0, len(items), n):
                g = items[j:j + n]
                out.append(i.node("stack", g, (0,), kind="tf", shape=ShapeVal((len(g),) + tuple(g[0].shape))))
            return ds(out)

        def m_repeat(i, a, k):
            return ds(items * 4)
        o.attrs["map"] = Builtin("map", m_map)
        o.attrs["batch"] = Builtin("batch", m_batch)
        o.attrs["repeat"] = Builtin("repeat", m_repeat)
        o.attrs["prefetch"] = Builtin("prefetch", lambda i, a, k: o)
        o.attrs["iter"] = items
        return o

    def record(i, a, k):
        names = a[0] if a else k["filenames"]
        names = [names] if isinstance(names, str) else list(names)
        items = []
        for n in names:
            r = w.files.get((i.device, n))
            if r is None:
                i.fail("NotFoundError", "%s; no such file on %s" % (n, i.device))
            items += [i.node("identity", [x], (), kind="tf", shape=x.shape) for x in r]
        return ds(items)
    it.models["tf.data.TFRecordDataset"] = record

    def slices(i, a, k):
        src = a[0]
        def pipe(params):
            o = ExtObj("tf.data.Dataset")
            o.attrs["repeat"] = Builtin("repeat", lambda i2, a2, k2: pipe(params + ("repeat",)))
            o.attrs["shuffle"] = Builtin("shuffle", lambda i2, a2, k2: pipe(params + (("shuffle", freeze(tuple(a2)), freeze(k2)),)))
            o.attrs["prefetch"] = Builtin("prefetch", lambda i2, a2, k2: o)

            def batch(i2, a2, k2):
                n = a2[0] if a2 else k2["batch_size"]
                b = pipe(params + (("batch", n),))
                b.attrs["size"] = n
                return b
            o.attrs["batch"] = Builtin("batch", batch)
            o.attrs["params"] = params
            o.attrs["src"] = src
            return o
        return pipe(())
    it.models["tf.data.Dataset.from_tensor_slices"] = slices

    def iterator(i, a, k):
        d = a[0]
        o = ExtObj("Iterator")
        n = d.attrs.get("size", 1)

        def nxt(i2, a2, k2):
            s = d.attrs["src"]
            return i2.node("batch", [s], (repr(d.attrs["params"]), n), kind="tf", shape=ShapeVal((n,) + tuple(s.shape[1:])))
        o.attrs["get_next"] = Builtin("get_next", nxt)
        return o
    it.models["tf.compat.v1.data.make_initializable_iterator"] = iterator
    it.models["np.random.randint"] = lambda i, a, k: 12345


def install_queues(w):
    w.queues = {}
    n = [0]

    def q(i, a, k):
        name = k.get("shared_name", a[4] if len(a) > 4 else None)
        cap = k.get("capacity", a[0] if a else None)
        dts = k.get("dtypes", a[1] if len(a) > 1 else None)
        shs = k.get("shapes", a[2] if len(a) > 2 else None)
        if name is None:
            n[0] += 1
            name = ("anonymous", n[0])
        o = ExtObj("queue")
        dev = i.device
        store = w.queues.setdefault((dev, name), [])

        def enq(i2, a2, k2):
            v = a2[0]
            if isinstance(v, (list, tuple)) and len(v) == 1:
                v = v[0]
            if len(store) >= cap:
                raise Incomplete("queue full", i2.loc)
            x = i2.node("identity", [v], (), kind="tf", shape=v.shape, device=dev)
            store.append(x)
            return None

        def deq(i2, a2, k2):
            if not store:
                raise Incomplete("dequeue from an empty queue blocks", i2.loc)
            x = store.pop(0)
            return i2.node("identity", [x], (), kind="tf", shape=x.shape, device=dev)
        o.attrs["enqueue"] = Builtin("enqueue", enq)
        o.attrs["dequeue"] = Builtin("dequeue", deq)
        o.attrs["size"] = Builtin("size", lambda i2, a2, k2: len(store))
        return o
    w.pond.ns["TFFIFOQueue"] = Builtin("TFFIFOQueue", q)
    w.it.models["tf.group"] = lambda i, a, k: None


def owner(w, exp, dev, pl):
    """a data owner's batches: each element of each batch, in order"""
    it = w.it
    cls = it.load("tf_encrypted.player.data_owner").ns["DataOwner"]
    ns = it.load("tf_encrypted").ns
    ns["define_private_input"] = it.getattr(w.prot, "define_private_input")
    nxt = lambda g: it.call(it.builtins["next"], [g], {})

    def pairs():
        b = Builtin("batches", lambda i, a, k: GenVal([[w.raw("x%d" % j, (2, 2), True), w.raw("y%d" % j, (2, 1), True)] for j in range(3)]))
        o = it.call(cls, [pl, b], {})
        g = w.sub(o, "provide_data")
        return [v for _ in range(3) for v in it.iterate(nxt(g))]

    def single():
        b = Builtin("batches", lambda i, a, k: GenVal([w.raw("x%d" % j, (2, 2), True) for j in range(3)]))
        o = it.call(cls, [w.player(pl), b], {})
        g = w.sub(o, "provide_data")
        return [nxt(g) for _ in range(3)]
    tags = {t + str(j) for t in "xy" for j in range(3)}
    w.case("DataOwner with labelled batches", pairs, [exp(t + str(j), (2, 2) if t == "x" else (2, 1), True) for j in range(3) for t in "xy"],
           entitled={dev(pl): tags})
    w.case("DataOwner with batches", single, [exp("x%d" % j, (2, 2), True) for j in range(3)], entitled={dev(pl): tags})


# -------------------------------------------------------------------- routes
def aby3_routes(w, tier):
    it, prot = w.it, w.prot
    A, B = w.ARITH, w.BOOL
    P3 = ["alice"] + [it.getattr(s, "name") for s in it.getattr(prot, "servers")]
    dev = lambda p: it.getattr(w.player(p), "device_name")
    fac = lambda f: f or w.factory
    boolf = F["bool"]
    shapes = [(2, 2), (), (3,)] if tier == "thorough" else [(2,), ()]

    def exp(tag, shape, scaled, share, f=None, kind="private"):
        return Exp(kind, w.atom(tag, fac(f), shape), scaled, share if kind == "private" else None, fac(f))

    # private inputs
    for pl in P3:
        for share in (A, B):
            for scaled in (True, False):
                for sh in shapes:
                    w.case("define_private_input(%s, %s, scaling=%s, %s)" % (pl, list(sh), scaled, share),
                           lambda: w.meth("define_private_input", pl, w.giver(("in", sh, scaled)), apply_scaling=scaled, share_type=share),
                           [exp("in", sh, scaled, share)], entitled={dev(pl): {"in"}}, check=received(None, dev(pl)))
        w.case("define_private_input(%s, bool)" % pl,
               lambda: w.meth("define_private_input", pl, w.giver(("in", (2,), False, boolf)), apply_scaling=False, share_type=B, factory=boolf),
               [exp("in", (2,), False, B, boolf)], entitled={dev(pl): {"in"}}, check=received(None, dev(pl)))
        w.case("define_private_input(%s, two tensors)" % pl,
               lambda: w.meth("define_private_input", pl, w.giver([("in", (2,), True), ("jn", (3,), True)])),
               [exp("in", (2,), True, A), exp("jn", (3,), True, A)], entitled={dev(pl): {"in", "jn"}})
        w.case("define_private_input(player object)",
               lambda: w.meth("define_private_input", w.player(pl), w.giver(("in", (2,), True))),
               [exp("in", (2,), True, A)], entitled={dev(pl): {"in"}}, check=received(None, dev(pl)))
        # public inputs
        for scaled in (True, False):
            w.case("define_public_input(%s, scaling=%s)" % (pl, scaled),
                   lambda: w.meth("define_public_input", pl, w.giver(("in", (2,), scaled)), apply_scaling=scaled),
                   [exp("in", (2,), scaled, None, kind="public")], entitled={d: {"in"} for d in [dev(pl)] + w.servers}, check=received(None, dev(pl)))
        w.case("define_public_input(%s, two tensors)" % pl,
               lambda: w.meth("define_public_input", pl, w.giver([("in", (2,), True), ("jn", (3,), True)])),
               [exp("in", (2,), True, None, kind="public"), exp("jn", (3,), True, None, kind="public")],
               entitled={d: {"in", "jn"} for d in [dev(pl)] + w.servers})
        # outputs
        for scaled in (True, False):
            for sh in shapes:
                for what, x in (("private", w.P("x", sh, scaled)), ("boolean", w.B("x", sh, scaled)), ("public", w.U("x", sh, scaled))):
                    w.case("define_output(%s, %s %s, scaled=%s)" % (pl, what, list(sh), scaled),
                           lambda x=x: w.meth("define_output", pl, x, w.taker()), None, [x], {dev(pl): {"x"}},
                           received([("x", sh, scaled, None)], dev(pl)))
        b = w.B("x", (2,), False, boolf)
        w.case("define_output(%s, bool)" % pl, lambda: w.meth("define_output", pl, [b], w.taker()), None, [b], {dev(pl): {"x"}},
               received([("x", (2,), False, boolf)], dev(pl)))
        x, y, z = w.P("x", (2,), True), w.B("y", (3,), False), w.U("z", (2,), True)
        w.case("define_output(%s, several)" % pl, lambda: w.meth("define_output", pl, [x, y, z], w.taker()), None, [x, y, z],
               {dev(pl): {"x", "y", "z"}}, received([("x", (2,), True, None), ("y", (3,), False, None), ("z", (2,), True, None)], dev(pl)))
        # local computation
        for sa, so in ((True, True), (False, False), (True, False), (False, True)):
            for share in (A, B):
                for src in ((A, B) if sa == so else (A,)):
                    x = w.P("x", (2,), sa, share=src)
                    # the player hands back a value related to what it got: itself, when the scales agree
                    def fn(i, v):
                        if sa == so:
                            return v
                        return w.raw("out", (2,), so)
                    tag = "x" if sa == so else "out"
                    w.case("define_local_computation(%s, %s scaled=%s -> %s scaled=%s)" % (pl, src, sa, share, so),
                           lambda: w.meth("define_local_computation", pl, w.taker(fn), [x], apply_scaling=so, share_type=share),
                           [exp(tag, (2,), so, share)], [x], {dev(pl): {"x", "out"}}, received([("x", (2,), sa, None)], dev(pl)))

        def deco(**kw):
            f = it.call(it.getattr(prot, "local_computation"), [pl], kw)
            return it.call(f, [w.taker(lambda i, v: v)], {})
        for share in (A, B):
            x = w.P("x", (2,), True)
            w.case("local_computation(%s) decorator, %s" % (pl, share), lambda: it.call(deco(share_type=share), [x], {}),
                   [exp("x", (2,), True, share)], [x], {dev(pl): {"x"}}, received([("x", (2,), True, None)], dev(pl)))
        w.case("local_computation(%s) decorator, unscaled input" % pl, lambda: it.call(it.call(
            it.call(it.getattr(prot, "local_computation"), [pl], {"apply_scaling": False}), [w.giver(("in", (2,), False))], {}), [], {}),
            [exp("in", (2,), False, A)], [], {dev(pl): {"in"}}, received(None, dev(pl)))

    # constants and variables
    fs = [w.factory] + ([F["int64"], F["int32"], F["int8"]] if w.nbits == 64 else [F["int64"]])
    data = [np.array([[1.5, -2.25], [0.1, -1000.7]]), np.array([3.0]), np.array([1, -2, 3]), np.array([0.5], dtype=np.float32), np.array([[7]], dtype=np.int32),
            np.array(2.5), np.array([40000, -40000], dtype=np.int32), np.array([100], dtype=np.int8), np.array([0.1], dtype=object)]
    for v in data:
        lab = "%s%s" % (v.dtype, list(v.shape))
        for scaled in (True, False):
            if not scaled and v.dtype.kind in "fO":
                continue
            w.case("define_constant(%s, scaling=%s)" % (lab, scaled), lambda: w.meth("define_constant", v, apply_scaling=scaled),
                   [Exp("public", None, scaled, None, w.factory)], check=ndcheck([v], scaled))
            w.case("define_public_variable(%s, scaling=%s)" % (lab, scaled), lambda: w.meth("define_public_variable", v, apply_scaling=scaled),
                   [Exp("public", None, scaled, None, w.factory)], check=ndcheck([v], scaled))
            for share in (A, B):
                w.case("define_private_variable(%s, scaling=%s, %s)" % (lab, scaled, share),
                       lambda: w.meth("define_private_variable", v, apply_scaling=scaled, share_type=share),
                       [Exp("private", None, scaled, share, w.factory)], check=ndcheck([v], scaled))
    for v in (3, -2, 0.75, 0.1, -1000.7):
        for scaled in (True, False):
            if scaled or isinstance(v, int):
                w.case("define_constant(%r, scaling=%s)" % (v, scaled), lambda: w.meth("define_constant", v, apply_scaling=scaled),
                       [Exp("public", None, scaled, None, w.factory)], check=ndcheck([np.array(v)], scaled))
    for f in fs + [boolf]:
        v = np.array([1, 0, 1])
        w.case("define_constant(factory %s)" % f.name, lambda: w.meth("define_constant", v, apply_scaling=False, factory=f),
               [Exp("public", None, False, None, f)], check=ndcheck([v], False))
        w.case("define_public_variable(factory %s)" % f.name, lambda: w.meth("define_public_variable", v, apply_scaling=False, factory=f),
               [Exp("public", None, False, None, f)], check=ndcheck([v], False))
        w.case("define_private_variable(factory %s)" % f.name, lambda: w.meth("define_private_variable", v, apply_scaling=False, factory=f, share_type=B),
               [Exp("private", None, False, B, f)], check=ndcheck([v], False))
    for scaled in (True, False):
        for sh in shapes:
            w.case("define_constant(tensor %s, scaling=%s)" % (list(sh), scaled), lambda: w.meth("define_constant", w.raw("in", sh, scaled), apply_scaling=scaled),
                   [exp("in", sh, scaled, None, kind="public")], entitled={d: {"in"} for d in w.servers + ["/client"]})
            w.case("define_public_variable(tensor %s, scaling=%s)" % (list(sh), scaled),
                   lambda: w.meth("define_public_variable", w.raw("in", sh, scaled), apply_scaling=scaled),
                   [exp("in", sh, scaled, None, kind="public")], entitled={d: {"in"} for d in w.servers + ["/client"]})
            u = w.U("x", sh, scaled)
            w.case("define_public_variable(public %s, scaling=%s)" % (list(sh), scaled),
                   lambda: w.meth("define_public_variable", u, apply_scaling=scaled), [exp("x", sh, scaled, None, kind="public")], [u])
            for share in (A, B):
                w.case("define_private_variable(tensor %s, scaling=%s, %s)" % (list(sh), scaled, share),
                       lambda: w.meth("define_private_variable", w.raw("in", sh, scaled), apply_scaling=scaled, share_type=share),
                       [exp("in", sh, scaled, share)], entitled={"/client": {"in"}})
                x = w.P("x", sh, scaled, share=share)
                w.case("define_private_variable(private %s, scaling=%s, %s)" % (list(sh), scaled, share),
                       lambda: w.meth("define_private_variable", x, apply_scaling=scaled, share_type=share), [exp("x", sh, scaled, share)], [x])

                def rv():
                    return w.sub(w.meth("define_private_variable", x, apply_scaling=scaled, share_type=share), "read_value")
                w.case("private variable %s read_value, scaling=%s, %s" % (list(sh), scaled, share), rv, [exp("x", sh, scaled, share)], [x])

                def asg():
                    v = w.meth("define_private_variable", x, apply_scaling=scaled, share_type=share)
                    y = w.P("y", sh, scaled, share=share)
                    del w.it.events[:]
                    w.pair = (v, y)
                    w.meth("assign", v, y)
                    return None

                def parts():
                    v, y = w.pairs
                    return [("share [%d][%d]" % (i, j), w.shares(v)[i][j], w.shares(y)[i][j], w.servers[i]) for i in range(3) for j in range(2)]
                c = w.case("assign(private %s, scaling=%s, %s)" % (list(sh), scaled, share), asg, None, [x])
                c.events = list(w.it.events)
                pr = getattr(w, "pair", None)

                def chk(w2, J, rep, nm, c2, pr=pr, parts=parts):
                    w2.pairs = pr
                    assigned(None, None, parts)(w2, J, rep, nm, c2)
                c.check = chk
            w.case("public variable %s read_value, scaling=%s" % (list(sh), scaled),
                   lambda: w.sub(w.meth("define_public_variable", u, apply_scaling=scaled), "read_value"), [exp("x", sh, scaled, None, kind="public")], [u])

            def asgp():
                v = w.meth("define_public_variable", u, apply_scaling=scaled)
                y = w.U("y", sh, scaled)
                del w.it.events[:]
                w.pair = (v, y)
                w.meth("assign", v, y)
                return None
            c = w.case("assign(public %s, scaling=%s)" % (list(sh), scaled), asgp, None, [u])
            c.events = list(w.it.events)
            pr = getattr(w, "pair", None)
            c.check = lambda w2, J, rep, nm, c2, pr=pr: assigned(None, None, lambda: [
                ("value on server %d" % i, w2.shares(pr[0])[i], w2.shares(pr[1])[i], w2.servers[i]) for i in range(3)])(w2, J, rep, nm, c2)

    # serialisation between functions
    for f in fs + [boolf]:
        for scaled in ((True, False) if f is w.factory else (False,)):
            for what, x in (("private", w.P("x", (2,), scaled, f)), ("boolean", w.B("x", (2,), scaled, f)), ("public", w.U("x", (2,), scaled, f))):
                if f is boolf and what == "private":
                    continue
                sh_ = {"private": A, "boolean": B}.get(what)
                w.case("from_bone(bone) of %s %s, scaled=%s" % (what, f.name, scaled), lambda: w.meth("from_bone", it.getattr(x, "bone")),
                       [exp("x", (2,), scaled, sh_, f, "public" if what == "public" else "private")], [x])
                if what == "public":
                    w.case("to_native of public %s, scaled=%s" % (f.name, scaled), lambda: w.taker().fn(it, [w.sub(x, "to_native")], {}), None, [x],
                           check=lambda w2, J, rep, nm, c, f=f, scaled=scaled: plain(w2, rep, nm, c, "x", (2,), scaled, f))

    owner(w, lambda t, sh, s: exp(t, sh, s, A), dev, "alice")
    # files
    install_files(w)
    for scaled in (True,):
        x, y = w.P("x", (4, 2), scaled), w.P("y", (4, 2), scaled)

        def wr(append=False):
            w.files.clear()
            w.sub(x, "write", "/data/a")
            w.meth("write", y, "/data/b")
            g = w.meth("read", ["/data/a", "/data/b"], 4, [4, 2])
            return [it.call(it.builtins["next"], [g], {}), it.call(it.builtins["next"], [g], {}), it.call(it.builtins["next"], [g], {})]
        w.case("read(write(x), write(y))", wr, [exp("x", (4, 2), True, A), exp("y", (4, 2), True, A), exp("x", (4, 2), True, A)], [x, y])

        def wa():
            w.files.clear()
            w.meth("write", x, "/data/a", append=True)
            w.meth("write", y, "/data/a", append=True)
            g = w.meth("read", "/data/a", 4, [4, 2])
            return [it.call(it.builtins["next"], [g], {}), it.call(it.builtins["next"], [g], {})]
        w.case("read(appended records)", wa, [exp("x", (4, 2), True, A), exp("y", (4, 2), True, A)], [x, y])

        def wo():
            w.files.clear()
            w.meth("write", x, "/data/a")
            w.meth("write", y, "/data/a")
            g = w.meth("read", "/data/a", 4, [4, 2], 2)
            return [it.call(it.builtins["next"], [g], {})]
        w.case("read(overwritten record)", wo, [exp("y", (4, 2), True, A)], [x, y])

        def wk():
            w.files.clear()
            w.meth("write", x, "/data/a")
            s = [4, 2]
            w.meth("read", "/data/a", 4, s)
            g = w.meth("read", "/data/a", 4, s)
            return [it.call(it.builtins["next"], [g], {})]
        w.case("read twice with one shape list", wk, [exp("x", (4, 2), True, A)], [x])


def rows(x):
    """each reconstructed row is a row of the tensor"""
    def check(w, J, rep, nm, c):
        o = flat_results(c.result)[0]
        a, b = w.el.form(w.secret(o)), w.el.form(w.secret(x))
        if a.shape[1:] != b.shape[1:]:
            rep.bad("value", nm, "batch has shape %s" % (a.shape,))
            return
        src = {tuple(f.key() for f in r.reshape(-1)) for r in b}
        for r in a:
            if tuple(f.key() for f in r.reshape(-1)) not in src:
                rep.bad("value", nm, "a row of the batch is not a row of the tensor: %s" % show(r.reshape(-1)[0]))
                return
        rep.ok("value", nm)
    return check


def plain(w, rep, nm, c, tag, shape, scaled, f):
    got = c.seen[0][1][0]
    d = same_real(w, got, w.raw(tag, shape, scaled, f)) if isinstance(got, Node) else "%r" % (got,)
    if d is None:
        rep.ok("value", nm)
    else:
        rep.bad("value", nm, "decodes to %s" % d)


def run_aby3(nbits, rep, tier):
    w = IOABY3(nbits)
    w.io_setup()
    aby3_routes(w, tier)
    pre = "" if nbits == 64 else "[%d-bit] " % nbits
    J = Judge(w, rep, pre)
    J.el = w.el
    return judge(w, rep, pre, J, IOPrivacyABY3(w, rep, pre))


def pond_routes(w, tier):
    it, prot = w.it, w.prot
    nm = lambda a: it.getattr(a, "name")
    players = ["alice", nm(it.getattr(prot, "server_0")), nm(it.getattr(prot, "server_1")), nm(it.getattr(it.getattr(prot, "triple_source"), "producer"))]
    dev = lambda p: it.getattr(w.player(p), "device_name")
    shapes = [(2, 2), (), (3,)] if tier == "thorough" else [(2,), ()]
    small = w.nbits != 100
    pubs = lambda *t: {d: set(t) for d in w.servers}

    def exp(tag, shape, scaled, kind="private"):
        return Exp(kind, w.atom(tag, w.factory, shape), scaled, "", w.factory)

    for pl in players:
        for scaled in (True, False):
            for sh in shapes:
                for masked in (False, True):
                    w.case("define_private_input(%s, %s, scaling=%s, masked=%s)" % (pl, list(sh), scaled, masked),
                           lambda: w.meth("define_private_input", pl, w.giver(("in", sh, scaled)), apply_scaling=scaled, masked=masked),
                           [exp("in", sh, scaled, "masked" if masked else "private")], entitled={dev(pl): {"in"}}, check=received(None, dev(pl)))
                w.case("define_public_input(%s, %s, scaling=%s)" % (pl, list(sh), scaled),
                       lambda: w.meth("define_public_input", pl, w.giver(("in", sh, scaled)), apply_scaling=scaled),
                       [exp("in", sh, scaled, "public")], entitled={dev(pl): {"in"}, **pubs("in")}, check=received(None, dev(pl)))
                for what, x in (("private", w.P("x", sh, scaled)), ("public", w.U("x", sh, scaled)), ("masked", w.M("x", sh, scaled))):
                    if pl == players[3]:
                        continue        # the producer knows the masks: handing it outputs is the user's decision
                    w.case("define_output(%s, %s %s, scaled=%s)" % (pl, what, list(sh), scaled),
                           lambda x=x: w.meth("define_output", pl, x, w.taker()), None, [x], {dev(pl): {"x"}},
                           received([("x", sh, scaled, None)], dev(pl)))
        two = lambda m: [exp("in", (2,), True, m), exp("jn", (3,), True, m)]
        w.case("define_private_input(%s, two tensors)" % pl, lambda: w.meth("define_private_input", w.player(pl), w.giver([("in", (2,), True), ("jn", (3,), True)])),
               two("private"), entitled={dev(pl): {"in", "jn"}})
        w.case("define_private_input(%s, two masked tensors)" % pl,
               lambda: w.meth("define_private_input", pl, w.giver([("in", (2,), True), ("jn", (3,), True)]), masked=True),
               two("masked"), entitled={dev(pl): {"in", "jn"}})
        w.case("define_public_input(%s, two tensors)" % pl, lambda: w.meth("define_public_input", w.player(pl), w.giver([("in", (2,), True), ("jn", (3,), True)])),
               two("public"), entitled={dev(pl): {"in", "jn"}, **pubs("in", "jn")})
        if pl == players[3]:
            continue
        x, y, z = w.P("x", (2,), True), w.M("y", (3,), False), w.U("z", (2,), True)
        w.case("define_output(%s, several)" % pl, lambda: w.meth("define_output", pl, [x, y, z], w.taker()), None, [x, y, z],
               {dev(pl): {"x", "y", "z"}}, received([("x", (2,), True, None), ("y", (3,), False, None), ("z", (2,), True, None)], dev(pl)))
        for sa, so in ((True, True), (False, False), (True, False), (False, True)):
            for k in "PUM":
                x = w.mk(k, "x", (2,), sa)

                def fn(i, v):
                    return v if sa == so else w.raw("out", (2,), so)
                tag = "x" if sa == so else "out"
                w.case("define_local_computation(%s, %s scaled=%s -> scaled=%s)" % (pl, k, sa, so),
                       lambda: w.meth("define_local_computation", pl, w.taker(fn), [x], apply_scaling=so),
                       [exp(tag, (2,), so)], [x], {dev(pl): {"x", "out"}}, received([("x", (2,), sa, None)], dev(pl)))
        x = w.P("x", (2,), True)
        w.case("local_computation(%s) decorator" % pl, lambda: it.call(it.call(it.call(it.getattr(prot, "local_computation"), [pl], {}), [w.taker(lambda i, v: v)], {}),
                                                                       [x], {}), [exp("x", (2,), True)], [x], {dev(pl): {"x"}}, received([("x", (2,), True, None)], dev(pl)))
        w.case("local_computation(%s) decorator, masked unscaled input" % pl, lambda: it.call(it.call(
            it.call(it.getattr(prot, "local_computation"), [pl], {"apply_scaling": False, "masked": True}), [w.giver(("in", (2,), False))], {}), [], {}),
            [exp("in", (2,), False, "masked")], [], {dev(pl): {"in"}}, received(None, dev(pl)))

    data = [np.array([[1.5, -2.25], [0.1, -100.7]]), np.array([3.0]), np.array([1, -2, 3]), np.array([0.5], dtype=np.float32), np.array([[7]], dtype=np.int32),
            np.array(2.5), np.array([100], dtype=np.int8)]
    for v in data:
        lab = "%s%s" % (v.dtype, list(v.shape))
        for scaled in (True, False):
            if not scaled and v.dtype.kind == "f":
                continue
            for name, kind in (("define_constant", "public"), ("define_public_variable", "public"), ("define_private_variable", "private")):
                w.case("%s(%s, scaling=%s)" % (name, lab, scaled), lambda: w.meth(name, v, apply_scaling=scaled),
                       [Exp(kind, None, scaled, "", w.factory)], check=ndcheck([v], scaled))
    for scaled in (True, False):
        for sh in shapes:
            raw = lambda: w.raw("in", sh, scaled)
            w.case("define_public_variable(tensor %s, scaling=%s)" % (list(sh), scaled), lambda: w.meth("define_public_variable", raw(), apply_scaling=scaled),
                   [exp("in", sh, scaled, "public")], entitled={"/client": {"in"}, **pubs("in")})
            w.case("define_private_variable(tensor %s, scaling=%s)" % (list(sh), scaled), lambda: w.meth("define_private_variable", raw(), apply_scaling=scaled),
                   [exp("in", sh, scaled)], entitled={"/client": {"in"}})
            u, x = w.U("x", sh, scaled), w.P("x", sh, scaled)
            w.case("define_public_variable(public %s, scaling=%s)" % (list(sh), scaled), lambda: w.meth("define_public_variable", u, apply_scaling=scaled),
                   [exp("x", sh, scaled, "public")], [u])
            w.case("define_private_variable(public %s, scaling=%s)" % (list(sh), scaled), lambda: w.meth("define_private_variable", u, apply_scaling=scaled),
                   [exp("x", sh, scaled)], [u])
            w.case("define_private_variable(private %s, scaling=%s)" % (list(sh), scaled), lambda: w.meth("define_private_variable", x, apply_scaling=scaled),
                   [exp("x", sh, scaled)], [x])
            w.case("public variable %s read_value, scaling=%s" % (list(sh), scaled),
                   lambda: w.sub(w.meth("define_public_variable", u, apply_scaling=scaled), "read_value"), [exp("x", sh, scaled, "public")], [u])
            w.case("private variable %s read_value, scaling=%s" % (list(sh), scaled),
                   lambda: w.sub(w.meth("define_private_variable", x, apply_scaling=scaled), "read_value"), [exp("x", sh, scaled)], [x])

            def mvar():
                m = w.meth("mask", w.meth("define_private_variable", x, apply_scaling=scaled))
                return m
            w.case("masked private variable %s, scaling=%s" % (list(sh), scaled), mvar, [exp("x", sh, scaled, "masked")], [x])
            for kind, src in (("private", x), ("public", u)):
                def asg():
                    v = w.meth("define_%s_variable" % kind, src, apply_scaling=scaled)
                    y = w.P("y", sh, scaled) if kind == "private" else w.U("y", sh, scaled)
                    del w.it.events[:]
                    w.pair = (v, y)
                    w.meth("assign", v, y)
                    return None
                w.pair = None
                c = w.case("assign(%s %s, scaling=%s)" % (kind, list(sh), scaled), asg, None, [src])
                c.events = list(w.it.events)
                c.check = lambda w2, J, rep, nm, c2, pr=w.pair: assigned(None, None, lambda: [
                    ("part %d" % i, w2.shares(pr[0])[i], w2.shares(pr[1])[i], w2.servers[i]) for i in range(2)])(w2, J, rep, nm, c2)
            if small:
                for what, t in (("private", x), ("public", u), ("masked", w.M("x", sh, scaled))):
                    w.case("from_bone(bone) of %s %s, scaled=%s" % (what, list(sh), scaled), lambda t=t: w.meth("from_bone", it.getattr(t, "bone")),
                           [exp("x", sh, scaled, what)], [t])
            w.case("to_native of public %s, scaled=%s" % (list(sh), scaled), lambda: w.taker().fn(it, [w.sub(u, "to_native")], {}), None, [u],
                   check=lambda w2, J, rep, nm, c, sh=sh, scaled=scaled: plain(w2, rep, nm, c, "x", sh, scaled, None))

    owner(w, exp, dev, "alice")
    if not small:
        return
    install_queues(w)
    qcls = lambda name, sh=(2,), cap=10: w.meth("fifo_queue", cap, ShapeVal(sh), name)

    def fifo():
        w.queues.clear()
        q, r = qcls("a"), qcls("a")
        other = qcls("b")
        for t in ("x", "y", "z"):
            w.sub(q, "enqueue", w.P(t, (2,), True))
        w.sub(other, "enqueue", w.P("o", (2,), True))
        return [w.sub(r, "dequeue"), w.sub(q, "dequeue"), w.sub(other, "dequeue"), w.sub(r, "dequeue")]
    w.case("fifo queues with shared names", fifo, [exp(t, (2,), True) for t in ("x", "y", "o", "z")])

    def anon():
        w.queues.clear()
        q, r = qcls(None), qcls(None)
        w.sub(q, "enqueue", w.P("x", (2,), True))
        w.sub(r, "enqueue", w.P("y", (2,), True))
        return [w.sub(q, "dequeue"), w.sub(r, "dequeue")]
    w.case("fifo queues without names", anon, [exp("x", (2,), True), exp("y", (2,), True)])


def run_pond(cfg, rep, tier):
    pre = "[%s] " % cfg
    for swap in ((0.0, 0.9) if tier == "thorough" else (0.9,)):
        w = IOPond(cfg, swap)
        w.io_setup()
        pond_routes(w, tier)
        J = PondJudge(w, rep, pre)
        J.el = w.el
        judge(w, rep, pre, J, IOPrivacyPond(w, rep, pre))
    return rep
