"""Root contexts per ABY3 operation family: which kinds, shapes, rings, scales
and parameters each public operation is analysed for.  Values stay arbitrary."""
import numpy as np

from .protomodel import F

BIN = [((2, 3), (2, 3)), ((2, 3), (1, 3)), ((1, 3), (2, 3)), ((3,), (2, 3)), ((2, 3), ()), ((2, 1), (1, 3))]


def mk(w, k, tag, shape, scaled=True, factory=None):
    if k == "P":
        return w.P(tag, shape, scaled, factory)
    if k == "B":
        return w.B(tag, shape, scaled, factory)
    return w.U(tag, shape, scaled, factory)


def arithmetic(w, tier):
    R = w.root
    full = tier == "thorough"
    shapes = BIN if full else BIN[:5]
    for kx, ky in (("P", "P"), ("P", "U"), ("U", "P"), ("U", "U")):
        for shx, shy in shapes:
            big = tuple(np.broadcast_shapes(shx, shy))
            grows = (kx, ky) in (("P", "U"), ("U", "P")) and (shx if kx == "P" else shy) != big
            for s in (True, False):
                for op in ("add", "sub"):
                    if grows:
                        continue     # rejected loudly: a public operand may not enlarge a private one
                    R(op, mk(w, kx, "x", shx, s), mk(w, ky, "y", shy, s))
            for sx in (True, False):
                for sy in (True, False):
                    R("mul", mk(w, kx, "x", shx, sx), mk(w, ky, "y", shy, sy))
    for sx in (True, False):
        for sy in (True, False):
            R("mul_trunc2", w.P("x", (2, 3), sx), w.P("y", (2, 3), sy))
            for kx, ky in (("P", "P"), ("P", "U"), ("U", "P")):
                for shx, shy in [((2, 3), (3, 2)), ((1, 3), (3, 1)), ((2, 2, 3), (2, 3, 1)), ((2, 1, 2), (2, 2))]:
                    R("matmul", mk(w, kx, "x", shx, sx), mk(w, ky, "y", shy, sy))
                for pad, st in (("SAME", [1, 1]), ("VALID", [2, 1]), ("SAME", [2, 2]), ("VALID", [1, 1]))[:4 if full else 3]:
                    R("conv2d", mk(w, kx, "x", (1, 2, 4, 3), sx), mk(w, ky, "y", (2, 2, 2, 1), sy), st, pad)
    for k in ("P", "U"):
        for s in (True, False):
            x = lambda sh=(2, 3): mk(w, k, "x", sh, s)
            R("negative", x())
            R("square", x())
            for ax, kd in ((None, False), (0, False), (1, True), (-1, False), ([0, 1], False), (None, True)):
                R("reduce_sum", x(), axis=ax, keepdims=kd)
            R("reduce_sum", x((2, 3, 2)), axis=1, keepdims=False)
            for lit in (3, 1, -2, 0, 2, 8, 2.5, 0.25, -1.5, 0.75) if s else (3, 1, -2, 0, 2, 8):
                for op in ("add", "sub", "mul"):
                    R(op, x((2,)), lit)
                    R(op, lit, x((2,)))
            for e in (1, 3, -1, -4):
                R("mul_pow2", x((2,)), e)
    for s in (True, False):
        R("add_n", [w.P("x", (2,), s), w.P("y", (2,), s), w.P("z", (2,), s)])
        R("lshift", w.P("x", (2,), s), 3)
        R("lshift", w.P("x", (2,), s), 1)


def boolean(w, tier):
    R = w.root
    fs = [None, F["bool"], F["int8"]] + ([F["int16"], F["int32"]] if tier == "thorough" else [])
    shapes = BIN if tier == "thorough" else BIN[:4]
    for f in fs:
        for shx, shy in shapes:
            for op in ("xor", "and_", "or_"):
                for kx, ky in (("B", "B"), ("B", "U"), ("U", "B"), ("U", "U")):
                    if op == "or_" and (kx, ky) != ("B", "B"):
                        continue
                    if op == "and_" and (kx, ky) == ("U", "U"):
                        continue
                    R(op, mk(w, kx, "x", shx, False, f), mk(w, ky, "y", shy, False, f))
        R("not_", w.B("x", (2, 3), False, f))
        if f is None or f.name != "bool":
            nb = f.nbits if f else w.nbits
            for st in (1, 5, nb - 1):
                for op in ("lshift", "rshift", "logical_rshift"):
                    R(op, w.B("x", (2,), False, f), st)
    for st in (1, 5):
        R("rshift", w.U("x", (2,), True), st)
    for s in (True, False):
        for st, sd in ((0, 2), (1, 2), (0, 4), (3, 4)):
            R("bit_gather", w.B("x", (2,), s), st, sd)
        for sd in (2, 4):
            R("bit_split_and_gather", w.B("x", (2,), s), sd)
        R("bit_reverse", w.B("x", (2,), s))
        R("xor_indices", w.B("x", (2,), s))
        R("bits", w.B("x", (2,), s))
        R("bits", w.B("x", (2,), s), bitsize=5)
        for f in ("int8", "int16", "int32"):
            R("cast", w.B("x", (2,), s), F[f])
        R("cast", w.B("x", (2,), False, F["bool"]), w.factory)
        R("cast", w.B("x", (2,), False, F["bool"]), F["int8"])


def conversion(w, tier):
    R = w.root
    nb = w.nbits
    full = tier == "thorough"
    for s in (True, False):
        R("a2b", w.P("x", (2,), s))
        R("b2a", w.B("x", (2,), s))
    for n in (1, 5, 8, 20, nb - 1, nb) if full else (6, 13, nb // 2):
        R("a2b", w.P("x", (1,)), nbits=n)
        R("b2a", w.B("x", (1,)), nbits=n)
        R("ppa", w.B("x", (1,)), w.B("y", (1,)), n_bits=n)
        R("ppa", w.B("x", (1,)), w.B("y", (1,)), n_bits=n, topology="sklansky")
    R("b2a", w.B("x", (2,)), method="single")
    R("b2a", w.B("x", (1,)), nbits=6, method="single")
    R("b2a_single", w.B("x", (2,), False, F["bool"]))
    for t in ("sklansky", "kogge_stone"):
        R("ppa", w.B("x", (2,)), w.B("y", (2,)), topology=t)
    for kx in "PU":
        for s in (True, False):
            R("mul_ab", mk(w, kx, "x", (2, 3), s), w.B("y", (2, 3), False, F["bool"]))
            R("mul", mk(w, kx, "x", (2, 3), s), w.B("y", (2, 3), False, F["bool"]))
    for i in ((0, 1, 2, 5, 13, 30, nb - 2, nb - 1) if full else (0, 1, 5, 30, nb - 2, nb - 1)):
        R("bit_extract", w.P("x", (1,)), i)
        R("bit_extract", w.B("x", (1,)), i)
    for s in (True, False):
        R("msb", w.P("x", (2,), s))
        R("msb", w.B("x", (2,), s))
    for p in (None, 0, 3, 6, nb - 2):
        R("carry", w.B("x", (1,)), w.B("y", (1,)), pos=p)
        if p in (6, nb - 2):
            continue     # shifting a public word is not supported (loud TypeError)
        R("carry", w.U("x", (1,), False), w.B("y", (1,)), pos=p)
        R("carry", w.B("x", (1,)), w.U("y", (1,), False), pos=p)


def truncation(w, tier):
    R = w.root
    ams = (None, 1, 7, 13, 20) if tier == "thorough" else (None, 1, 7)
    for s in (True, False):
        for a in ams:
            R("truncate", w.P("x", (2,), s), amount=a)
            R("truncate", w.P("x", (2,), s), method="local", amount=a)
            R("truncate", w.U("x", (2,), s), method="local", amount=a)
            R("truncate_msb0", w.P("x", (2,), s), method="secureq8", amount=a)
            R("truncate_msb0", w.P("x", (2,), s), method="cheetah", amount=a)
    R("truncate", w.P("x", (2, 3)))
    R("mul_trunc2", w.P("x", (2, 3)), w.P("y", (2, 3)))
    R("mul", w.P("x", (2, 3)), w.P("y", (2, 3)))
    R("mul", w.P("x", (2, 3)), w.U("y", (2, 3)))
    R("mul", w.U("x", (2, 3)), w.P("y", (2, 3)))
    R("mul", w.U("x", (2, 3)), w.U("y", (2, 3)))
    R("square", w.P("x", (2, 3)))
    R("matmul", w.P("x", (2, 3)), w.P("y", (3, 2)))
    R("mul_pow2", w.P("x", (2,)), -3)


def comparison(w, tier):
    R = w.root
    for s in (True, False):
        for op in ("less_than", "less_equal", "greater_than", "greater_equal", "equal"):
            for kx, ky in (("P", "P"), ("P", "U"), ("U", "P")):
                R(op, mk(w, kx, "x", (2,), s), mk(w, ky, "y", (2,), s))
            R(op, w.P("x", (2, 3), s), w.U("y", (3,), s))
            R(op, w.P("x", (2,), s), 0)
            R(op, w.P("x", (2,), s), 3)
        R("equal_zero", w.P("x", (2,), s))


def layout(w, tier):
    R = w.root
    full = tier == "thorough"

    def each(op, shape, *a, kinds="PBU", **k):
        for kk in kinds:
            for s in (True, False) if kk != "B" else (False, True):
                R(op, mk(w, kk, "x", shape, s), *a, **k)
        if "B" in kinds:
            R(op, w.B("x", shape, False, F["bool"]), *a, **k)
    for perm in (None, [1, 0, 2], [2, 0, 1], [0, 2, 1]):
        each("transpose", (2, 3, 2), perm)
    each("transpose", (2, 3))
    for sh, to in (((2, 3), [3, 2]), ((2, 3), [-1]), ((2, 3, 2), [2, -1]), ((6,), [1, 2, 3])):
        each("reshape", sh, to)
    for ax in (0, 1, 2, -1):
        each("expand_dims", (2, 3), ax)
    each("squeeze", (2, 1, 3, 1), None)
    each("squeeze", (2, 1, 3, 1), [1])
    each("squeeze", (2, 1, 3, 1), [3])
    each("strided_slice", (3, 4), [0, 1], [3, 4], [2, 1])
    each("strided_slice", (3, 4), [1, 0], [3, 3])
    for key in (slice(1, None), (slice(None), 1), 0, -1, (slice(None, None, 2), slice(1, 3)), (Ellipsis, 1), (slice(None), slice(None, -1))):
        if key == (Ellipsis, 1) and w.nbits == 128:
            continue
        each("indexer", (3, 4), key)
    for idx, ax in (([2, 0], 0), ([1, 1, 0], 1)):
        each("gather", (3, 2), np.array(idx), axis=ax)
    each("gather", (3, 2), np.array([[0, 2], [1, 1]]), axis=0)
    for m in ([2, 1], [1, 2], [2, 3]):
        each("tile", (2, 3), m)
    for ax in ([1], [0], [0, 1]):
        each("reverse", (2, 3), ax, kinds="PB")
    for pad, st in (("SAME", [1, 1]), ("VALID", [2, 1]), ("VALID", [1, 2]), ("SAME", [2, 2])):
        each("im2col", (1, 2, 4, 3), 2, 2, st, pad, kinds="PU")
        each("im2patches", (1, 2, 4, 3), (2, 2), strides=st, padding=pad, kinds="P")
    each("im2patches", (2, 2, 4, 3), (2, 1), strides=[2, 1], padding="VALID", kinds="P")
    for num, ax in ((2, 0), (3, 1), ([1, 3], 0), (3, -1)):
        each("split", (4, 3), num, axis=ax)
    for kk in "PBU":
        for s in (True, False):
            for ax in (0, 1, -1):
                R("concat", [mk(w, kk, "x", (2, 3), s), mk(w, kk, "y", (1, 3) if ax == 0 else (2, 1), s)], axis=ax)
            R("concat", [mk(w, kk, t, (1, 2), s) for t in "xyz"], axis=0)
            for ax in (0, 1, 2) + ((-1,) if w.nbits != 128 else ()):
                R("stack", [mk(w, kk, "x", (2, 3), s), mk(w, kk, "y", (2, 3), s)], axis=ax)
            R("stack", [mk(w, kk, t, (2,), s) for t in "xyz"], axis=0)
            R("pad", mk(w, kk, "x", (2, 3), s), [[1, 2], [0, 1]])
            R("pad", mk(w, kk, "x", (2, 3), s), [[0, 0], [2, 1]])
    for st in (2, 3):
        R("expand", w.P("x", (2, 3, 2)), st)
        R("expand", w.P("x", (2, 3)), st)
    R("scatter_nd", np.array([[1], [3]]), w.P("x", (2, 3)), [4, 3])
    R("scatter_nd", np.array([[0, 1], [2, 2]]), w.P("x", (2,)), [3, 3])
    for pad, st, img in (("VALID", [1, 1], None), ("SAME", [1, 1], (3, 3)), ("VALID", [2, 2], (5, 5)), ("VALID", [2, 2], (4, 4))):
        R("patches2im", w.P("x", (1, 8, 3, 3) if pad == "SAME" else (1, 8, 2, 2)), (2, 2), strides=st, padding=pad, img_size=img)
