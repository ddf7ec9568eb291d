"""View analysis: what each server receives, and whether it is masked.

For a server p the *messages* of an operation are the values that flow along an
IR edge into a node executed by p from a node executed elsewhere.  All values are
expressed in p's own knowledge: its two shares of every (input or intermediate)
sharing are free symbols known to p, the third share is the secret minus those.
The rule: after removing, one by one, every message hidden by a full-range mask
that p cannot compute and that hides nothing else (one-time pad), the remaining
messages must not depend on any secret.
"""
import itertools

from .algebra import a_add, a_scale
from .elem import AF, BF, Elem, ONES, TooBig, Undef, leaves, show
from .graph import Node
from .interp import Unknown

DISCLOSES = {"reveal"}


def seeds_in(n, memo):
    """seed tags a tensor node carries (not through a generator call)"""
    r = memo.get(n.id)
    if r is None:
        if n.op == "seed":
            r = frozenset([n.tag])
        elif n.op in ("prf", "prf_bounded"):
            r = frozenset()
        else:
            r = frozenset()
            for i in n.ins:
                if isinstance(i, Node):
                    r |= seeds_in(i, memo)
        memo[n.id] = r
    return r


def seed_knowledge(nodes, know, memo):
    """which device gets to compute with which seeds"""
    for n in nodes:
        d = n.device
        if not isinstance(d, str):
            continue
        if n.op == "seed":
            know.setdefault(d, set()).add(n.tag)
        for i in n.ins:
            if isinstance(i, Node) and i.op not in ("prf", "prf_bounded"):
                t = seeds_in(i, memo)
                if t:
                    know.setdefault(d, set()).update(t)
    return know


def prf_seeds(atom):
    return {x[1] for x in leaves(atom[1]) if x[0] == "seed"}


class View:
    def __init__(self, known_tag, seeds, rnd_dev, party, pub=()):
        self.known_tag, self.seeds, self.rnd_dev, self.party = known_tag, seeds, rnd_dev, party
        self.cache = {}

    def known(self, a):
        r = self.cache.get(a)
        if r is None:
            r = self.cache[a] = self._known(a)
        return r

    def _known(self, a):
        if a[0] == "v":
            return self.known_tag(a[1])
        if a[0] == "seed":
            return a[1] in self.seeds
        if a[0] == "prf":
            return prf_seeds(a) <= self.seeds
        if a[0] == "rnd":
            return self.rnd_dev.get(a[1][0]) == self.party
        return False

    def allknown(self, x):
        return all(self.known(a) for a in leaves(x))

    def narrow(self, a):
        """a random value too small to hide anything"""
        return False

    def pad(self, a):
        """a full-range mask the party cannot compute"""
        if a[0] not in ("prf", "rnd") or self.known(a):
            return False
        p = a[2] if a[0] == "prf" else a[1][1:]
        return len(p) == 2 and p[0] in (None, ("None",)) and p[1] in (None, ("None",))


def base_of(g):
    """mask atom a boolean factor is an unmodified view of"""
    return g[1] if g[0] == "bit" else g


def inner(g):
    """form inside a conversion factor, or None"""
    if g[0] == "B" and isinstance(g[1], tuple) and g[1] and g[1][0] == "B":
        return BF(g[1][1])
    if g[0] == "A" and isinstance(g[1], tuple) and g[1] and g[1][0] == "A":
        return AF(dict(g[1][1]))
    return None


def strip(f, view):
    """what the message tells beyond values the party already has"""
    for _ in range(6):
        if isinstance(f, AF):
            t = {m: c for m, c in f.t.items() if not view.allknown(("x", m))}
            if len(t) != len(f.t):
                f = AF(t)
            if len(t) == 1:
                (m, c), = t.items()
                if len(m) == 1 and c in (1, -1):
                    g = inner(m[0])
                    if g is not None:
                        f = g
                        continue
            return f
        t = frozenset(m for m in f.t if not view.allknown(("x", m)))
        if len(t) != len(f.t):
            f = BF(t)
        if len(t) == 1:
            m, = t
            if len(m) == 1:
                g = inner(next(iter(m)))
                if g is not None:
                    f = g
                    continue
        return f
    return f


def pads(f, view, depth=0):
    """mask atoms that occur exactly once in f, through bijections only, over the full range"""
    out = []
    if isinstance(f, AF):
        monos = [(m[0], m) for m, c in f.t.items() if len(m) == 1 and c in (1, -1)]
    else:
        monos = [(base_of(next(iter(m))), m) for m in f.t if len(m) == 1]
    for g, m in monos:
        if not isinstance(g, tuple):
            continue
        if view.pad(g):
            cand = [g]
        elif depth < 2 and inner(g) is not None:
            cand = pads(inner(g), view, depth + 1)
        else:
            continue
        for a in cand:
            if all(a not in leaves(("x", mm)) for mm in f.t if mm != m):
                out.append(a)
    return out


def eliminate(f, g, atom):
    """f with the mask `atom` replaced using g; None if not possible"""
    if isinstance(f, AF) and isinstance(g, AF):
        m = (atom,)
        if m not in f.t or m not in g.t or abs(g.t[m]) != 1:
            return None
        if any(atom in leaves(("x", mm)) for mm in f.t if mm != m):
            return None
        return a_add(f, a_scale(g, -f.t[m] * g.t[m]))
    if isinstance(f, BF) and isinstance(g, BF):
        for m in (frozenset([atom]), frozenset([("bit", atom)])):
            if m in f.t and m in g.t:
                if any(atom in leaves(("x", mm)) for mm in f.t if mm != m):
                    return None
                return BF(f.t ^ g.t)
    return None


def subst(f, g, v):
    """boolean form with the factor g replaced by all-zeros / all-ones"""
    if not isinstance(f, BF):
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if len(m) == 1 and m[0][0] == "B":
                return subst(BF(m[0][1][1]), g, v)
        return f
    acc = frozenset()
    for m in f.t:
        if g in m:
            if not v:
                continue
            m = m - {g}
            m = frozenset(m) or ONES
        acc = acc ^ {m}
    return BF(acc)


def split_factors(todo, view):
    """known boolean factors that select between unknown values"""
    out = []
    for f, n, lv in todo:
        t = f.t
        if isinstance(f, AF) and len(t) == 1:
            (m, c), = t.items()
            if len(m) == 1 and m[0][0] == "B":
                t = m[0][1][1]
            else:
                continue
        elif isinstance(f, AF):
            continue
        for m in t:
            for g in m:
                if g[0] in ("rep", "bit", "m") and g not in out and view.allknown(g) and leaves(g) and not view.allknown(("x", m)):
                    out.append(g)
    return out


def components(todo):
    """messages that share no unknown symbol are independent"""
    par = list(range(len(todo)))

    def find(i):
        while par[i] != i:
            par[i] = par[par[i]]
            i = par[i]
        return i
    first = {}
    for j, (f, n, lv) in enumerate(todo):
        for a in lv:
            if a in first:
                par[find(j)] = find(first[a])
            else:
                first[a] = j
    groups = {}
    for j, t in enumerate(todo):
        groups.setdefault(find(j), []).append(t)
    return list(groups.values())


def solve(todo, view, depth=0):
    """todo: [form, node, unknown leaves]; returns [(verdict, form, node, secrets)]"""
    def prep(ts):
        out = []
        for f, n, lv in ts:
            f = strip(f, view)
            lv = {a for a in leaves(f) if not view.known(a)}
            if lv:
                out.append([f, n, lv])
        return out
    todo = prep(todo)
    while todo:
        occ = {}
        for j, (f, n, lv) in enumerate(todo):
            for a in lv:
                occ.setdefault(a, []).append(j)
        drop = set()
        for j, (f, n, lv) in enumerate(todo):
            if any(occ[g] == [j] for g in pads(f, view)):
                drop.add(j)
        if drop:
            todo = [t for j, t in enumerate(todo) if j not in drop]
            continue
        hit = False
        for j, (f, n, lv) in enumerate(todo):
            for g in pads(f, view):
                subs = [(i, eliminate(todo[i][0], f, g)) for i in occ[g] if i != j]
                if subs and all(s is not None for _, s in subs):
                    for i, s in subs:
                        todo[i] = [s, todo[i][1], {a for a in leaves(s) if not view.known(a)}]
                    todo.pop(j)
                    hit = True
                    break
            if hit:
                break
        if hit:
            todo = prep(todo)
            continue
        break
    if not todo:
        return []
    # case split on choice bits the party knows
    if depth < 3:
        gs = split_factors(todo, view)
        if gs:
            worst = []
            for v in (0, 1):
                t2 = []
                for f, n, lv in todo:
                    s = subst(f, gs[0], v)
                    t2.append([s, n, {a for a in leaves(s) if not view.known(a)}])
                r = solve(t2, view, depth + 1)
                for x in r:
                    worst.append(x)
            return worst
    out = []
    for f, n, lv in todo:
        sec = [a for a in lv if a[0] in ("v", "sec")]
        if not sec:
            continue
        masks = [a for a in lv if a[0] in ("prf", "rnd") and not view.narrow(a)]
        out.append(("leak" if not masks else "weak", f, n, sec))
    return out


def party_elem(w, p, opaque=False):
    el = Elem(w.nbits, sec_atoms=opaque)
    return el


class Privacy:
    View = View

    def __init__(self, w, rep, prefix=""):
        self.w, self.rep, self.prefix = w, rep, prefix
        self.parties = list(enumerate(w.servers))
        self.els = {}
        self.know = {}
        memo = {}
        seed_knowledge(w.setup_nodes, self.know, memo)
        for c in w.order:
            seed_knowledge(c.nodes, self.know, memo)
        self.messages = 0

    def elem(self, p, opaque):
        k = (p, opaque)
        el = self.els.get(k)
        if el is None:
            el = Elem(self.w.nbits, sec_atoms=opaque)
            self.els[k] = el
            el.done = set()
        w = self.w
        S = w.S
        for n, (base, sec, share, supp) in w.sharings.items():
            if n in el.done:
                continue
            el.done.add(n)
            op = S.sub if share == w.ARITH else S.xor
            a = {}
            for i in (p, (p + 1) % 3):
                a[i] = w.masked(Node("atom", (), (), kind="backing", factory=sec.factory, shape=sec.shape, tag="~r%d.%d" % (n, i)), supp)
            d = (p + 2) % 3
            a[d] = op(op(sec, a[p]), a[(p + 1) % 3])
            for i in range(3):
                el.alias[base[i].id] = a[i]
        return el

    def known_tag(self, pub, p):
        def f(tag):
            return tag.startswith("~r") or tag in pub
        return f

    def context(self, c, skip=DISCLOSES):
        w, rep, nm = self.w, self.rep, self.prefix + c.label
        if c.status != "ok":
            if c.status != "raise":
                rep.undecided("leak", nm, c.why)
            return
        if c.name in skip:
            return
        per = {d: {} for _, d in self.parties}
        self.partydevs = set(per)
        for n in c.nodes:
            for i in n.ins:
                if not isinstance(i, Node) or i.op == "seed":
                    continue
                sd, dd = i.device, n.device
                if dd is None and sd in per:
                    if n.kind == "backing" or n.op.startswith("tf."):
                        self.loose(c, nm, i, n)
                    continue
                if dd in per and sd is not None and sd != dd and not isinstance(sd, Unknown):
                    per[dd].setdefault(i.id, (i, n))
                elif isinstance(dd, str) and dd not in self.partydevs and isinstance(sd, str) and sd != dd:
                    per.setdefault("other " + dd, {}).setdefault(i.id, (i, n))
        if not getattr(c, "loose", False):
            rep.ok("placed", nm)
        pub = set()
        for x in c.inputs:
            if w.ist(x) and w.kind(x) == "public":
                try:
                    pub |= {a[1] for f in w.el.form(w.backing(x)).reshape(-1) for a in leaves(f) if a[0] == "v"}
                except (TooBig, Undef):
                    pass
        rnd_dev = {n.params[0]: n.device for n in c.nodes if n.op in ("sample_uniform", "sample_bounded", "sample_bits")}
        for p, d in self.parties:
            if not per[d]:
                rep.ok("leak", nm + " -> " + self.pname(p))
                continue
            self.party(c, nm, p, d, per[d], pub, rnd_dev)
        for d in per:
            if d.startswith("other "):
                self.dev = d[6:]
                for i, n in per[d].values():
                    if self.secret_dep(i):
                        rep.bad("leak", nm, "%s receives a value that depends on private data (%s)" % (d[6:], where(n)))

    def pname(self, p):
        return "server %d" % p

    def secret_dep(self, n):
        try:
            return any(a[0] in ("v", "sec") and not (a[0] == "v" and a[1] in ()) for f in self.w.el.form(n).reshape(-1) for a in leaves(f))
        except (TooBig, Undef):
            return False

    def loose(self, c, nm, i, n):
        try:
            f = self.w.el.form(i)
        except (TooBig, Undef):
            return
        if any(leaves(x) for x in f.reshape(-1)):
            self.rep.bad("placed", nm, "an operation on a share (%s) is pinned to no player: %s" % (n.op, where(n)))
            c.loose = True

    def party(self, c, nm, p, d, msgs, pub, rnd_dev):
        rep = self.rep
        label = nm + " -> " + self.pname(p)
        view = self.View(self.known_tag(pub, p), self.know.get(d, set()), rnd_dev, d)
        first = None
        for opaque in (False, True):
            el = self.elem(p, opaque)
            todo, und, seen = [], None, set()
            for i, n in msgs.values():
                try:
                    arr = el.form(i)
                except (TooBig, Undef) as e:
                    und = str(e) or "normal form too large"
                    continue
                if not hasattr(arr, "reshape"):
                    continue
                for f in arr.reshape(-1):
                    k = f.key()
                    if k in seen:
                        continue
                    seen.add(k)
                    lv = {a for a in leaves(f) if not view.known(a)}
                    if lv:
                        todo.append([f, n, lv])
            out = []
            for g in components(todo):
                out += solve(g, view)
            if not opaque:
                first = (out, und, len(seen))
                if und is None and (not out or any(o[0] == "leak" for o in out)):
                    break
            elif und is None and not out:
                first = (out, None, len(seen))     # hidden even without looking inside intermediate results
        out, und, k = first
        self.messages += k
        leak = [o for o in out if o[0] == "leak"]
        weak = [o for o in out if o[0] == "weak"]
        if leak:
            v, f, n, sec = leak[0]
            rep.bad("leak", label, "receives %s, which is not hidden by any mask unknown to it, and so learns about %s (%s)" % (
                show(f)[:300], sorted({str(a[1]) for a in sec})[:3], where(n)))
        elif weak:
            v, f, n, sec = weak[0]
            rep.undecided("leak", label, "masking not linear: %s (%s)" % (show(f)[:300], where(n)))
        elif und:
            rep.undecided("leak", label, und)
        else:
            rep.ok("leak", label, "%d message elements, all masked" % k)


def where(n):
    return "%s %s" % (n.fn or "", "%s:%s" % n.loc if isinstance(n.loc, tuple) else n.loc)
