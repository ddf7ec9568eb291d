"""Analysis jobs.  Each job inspects /repo's current source and returns a Report;
properties (props.py) pick jobs and rules."""
import sys
import traceback

from .report import Report

JOBS = {}


def job(name):
    def deco(f):
        JOBS[name] = f
        return f
    return deco


def family(fam, nbits):
    def run(tier):
        from . import roots
        from .lib import Judge, Lib
        rep = Report("-", tier)
        w = Lib(nbits)
        getattr(roots, fam)(w, tier)
        J = Judge(w, rep, "" if nbits == 64 else "[%d-bit] " % nbits)
        for c in w.order:
            J.context(c)
        rep.functions |= {q for q in w.it.visited}
        rep.contexts = len(w.order)
        return rep
    return run


for _f in ("arithmetic", "boolean", "conversion", "truncation", "comparison", "layout"):
    for _n in (64, 128):
        JOBS["aby3.%s.%d" % (_f, _n)] = family(_f, _n)


def privacy(nbits):
    def run(tier):
        from . import roots
        from .lib import Lib
        from .privacy import Privacy
        rep = Report("-", tier)
        w = Lib(nbits)
        for fam in ("arithmetic", "boolean", "conversion", "truncation", "comparison", "layout"):
            getattr(roots, fam)(w, tier)
        from . import order as O
        O.sel_roots(O.Orders(w, Report("-", tier)), tier)
        P = Privacy(w, rep, "" if nbits == 64 else "[%d-bit] " % nbits)
        for c in w.order:
            P.context(c)
        rep.functions |= {q for q in w.it.visited}
        rep.contexts = len(w.order)
        rep.extra = {"messages": P.messages}
        return rep
    return run


for _n in (64, 128):
    JOBS["aby3.privacy.%d" % _n] = privacy(_n)


def order(nbits):
    def run(tier):
        from . import order as O
        from .lib import Judge, Lib
        rep = Report("-", tier)
        w = Lib(nbits)
        pre = "" if nbits == 64 else "[%d-bit] " % nbits
        o = O.Orders(w, rep, pre)
        O.sel_roots(o, tier)
        J = Judge(w, rep, pre)
        for c in w.order:
            if not getattr(c, "judged", False):
                J.context(c)
        rep.functions |= {q for q in w.it.visited}
        rep.contexts = len(w.order)
        rep.extra = {"orderings_checked": o.cases}
        return rep
    return run


for _n in (64, 128):
    JOBS["aby3.order.%d" % _n] = order(_n)


def fresh(nbits):
    def run(tier):
        from . import fresh as F
        rep = Report("-", tier)
        F.run(rep, nbits, "" if nbits == 64 else "[%d-bit] " % nbits)
        if nbits == 64:
            F.reexecution(rep)
        return rep
    return run


for _n in (64, 128):
    JOBS["aby3.fresh.%d" % _n] = fresh(_n)


# ------------------------------------------------------------------ Pond
def pond_family(fam, cfg):
    def run(tier):
        from . import pondroots
        from .pondlib import PondJudge, PondLib
        rep = Report("-", tier)
        rep.contexts = 0
        for swap in ((0.0, 0.9) if tier == "thorough" or fam == "arithmetic" else (0.0,)):
            w = PondLib(cfg, swap)
            getattr(pondroots, fam)(w, tier)
            J = PondJudge(w, rep, "[%s%s] " % (cfg, ", shares swapped" if swap else ""))
            for c in w.order:
                J.context(c)
            rep.functions |= set(w.it.visited)
            rep.contexts += len(w.order)
        return rep
    return run


def pond_privacy(cfg):
    def run(tier):
        from . import pondroots
        from .pondlib import PondLib
        from .pondprivacy import PondPrivacy, run_history
        rep = Report("-", tier)
        rep.contexts = 0
        msgs = 0
        for swap in (0.0, 0.9):
            pre = "[%s%s] " % (cfg, ", shares swapped" if swap else "")
            w = PondLib(cfg, swap)
            pondroots.arithmetic(w, tier)
            pondroots.layout(w, tier)
            Q = PondPrivacy(w, rep, pre)
            for c in w.order:
                Q.context(c)
            rep.functions |= set(w.it.visited)
            rep.contexts += len(w.order)
            msgs += Q.messages
            run_history(cfg, rep, pre, swap)
        rep.extra = {"messages": msgs}
        return rep
    return run


CFGS = ("low", "high", "fixed64_ni", "fixed100_ni")
for _c in CFGS:
    for _f in ("arithmetic", "layout"):
        JOBS["pond.%s.%s" % (_f, _c)] = pond_family(_f, _c)
    JOBS["pond.privacy.%s" % _c] = pond_privacy(_c)


def cache(which):
    def run(tier):
        from . import cachecheck as C
        rep = Report("-", tier)
        if which == "graphs":
            C.graph_scopes(rep)
        elif which == "aby3":
            C.aby3(rep)
        else:
            C.pond(rep, which, "[pond %s] " % which)
        return rep
    return run


for _c in ("aby3", "low", "high", "graphs"):
    JOBS["cache.%s" % _c] = cache(_c)


def tensor(which):
    def run(tier):
        from . import tens as T
        rep = Report("-", tier)
        w = T.Tensors()
        if which in ("int8", "int16", "int32", "int64"):
            T.native(w, rep, which, tier)
        elif which == "sampling":
            for cls, sec in ((None, True), (T.Insecure, False)):
                w = w if cls is None else cls()
                for n in ("bool", "int8", "int16", "int32", "int64", "int128"):
                    if n != "int128" or sec:
                        T.sampling(w, rep, n, w.facs[n], T.F[n], sec)
                T.sampling(w, rep, "prime 37", w.prime, T.F["int32"], sec, 37)
                rep.functions |= {q for q in w.it.visited}
        else:
            getattr(T, which)(w, rep, tier=tier)
        rep.functions |= {q for q in w.it.visited}
        rep.contexts = len(rep.ok_) + len(rep.bad_)
        return rep
    return run


for _c in ("bool", "int8", "int16", "int32", "int64", "int128", "sampling"):
    JOBS["tensor.%s" % _c] = tensor("boolean" if _c == "bool" else _c)


def run_job(name, tier):
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        try:
            out.append(JOBS[name](tier))
        except BaseException:
            r = Report("-", tier)
            r.undecided("job", name, "analysis did not complete: " + traceback.format_exc()[-1500:])
            out.append(r)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    r = out[0]
    return {"ok": r.ok_, "bad": r.bad_, "und": r.und_, "functions": r.functions, "rules": r.rules, "samples": r.samples,
            "contexts": getattr(r, "contexts", 0), "extra": r.extra}


def io_aby3(nbits):
    def run(tier):
        from . import iocheck
        return iocheck.run_aby3(nbits, Report("-", tier), tier)
    return run


for _n in (64, 128):
    JOBS["io.aby3.%d" % _n] = io_aby3(_n)


def io_pond(cfg):
    def run(tier):
        from . import iocheck
        return iocheck.run_pond(cfg, Report("-", tier), tier)
    return run


for _c in ("low", "high", "fixed64_ni", "fixed100_ni"):
    JOBS["io.pond.%s" % _c] = io_pond(_c)


def securenn(cfg, part):
    def run(tier):
        from . import snn
        return getattr(snn, "run_" + part)(cfg, tier, Report("-", tier))
    return run


for _c in ("low", "high"):
    for _p in ("sign", "select"):
        JOBS["securenn.%s.%s" % (_p, _c)] = securenn(_c, _p)


def _keras(name):
    def run(tier):
        from . import kerasroots
        return getattr(kerasroots, name)(tier)
    return run


for _k in ("forward", "backward", "training"):
    JOBS["keras." + _k] = _keras(_k)


def _convert(name):
    def run(tier):
        from . import convcheck
        return getattr(convcheck, name)(tier)
    return run


for _k in ("forward", "backward"):
    JOBS["convert." + _k] = _convert(_k)


def approx(nbits, part):
    def run(tier):
        from .apxcheck import Approximations
        rep = Report("-", tier)
        Approximations(nbits, rep, tier, "" if nbits == 64 else "[%d-bit] " % nbits).run(part)
        return rep
    return run


for _n in (64, 128):
    for _p in ("division", "powers", "exponential", "softmax"):
        JOBS["aby3.approx.%s.%d" % (_p, _n)] = approx(_n, _p)


def pond_approx(cfg):
    def run(tier):
        from .apxcheck import PondApproximations
        rep = Report("-", tier)
        PondApproximations(cfg, rep, tier, "[%s] " % cfg).run("polynomials")
        return rep
    return run


for _c in ("low", "high", "fixed64_ni", "fixed100_ni"):
    JOBS["pond.approx.%s" % _c] = pond_approx(_c)
