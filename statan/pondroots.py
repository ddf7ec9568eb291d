"""Root contexts of the Pond operations."""
import numpy as np

BIN = [((2, 3), (2, 3)), ((2, 3), (1, 3)), ((3,), (2, 3)), ((2, 3), ()), ((2, 1), (1, 3)), ((), (2, 3))]
KK = [(a, b) for a in "UPM" for b in "UPM"]


def grows(kx, ky, shx, shy):
    """a public operand whose shape enlarges a shared one is rejected by the code"""
    out = np.broadcast_shapes(shx, shy)
    return (kx == "U" and ky != "U" and out != shy) or (ky == "U" and kx != "U" and out != shx)


def arithmetic(w, tier):
    R, mk = w.root, w.mk
    full = tier == "thorough"
    shapes = BIN if full else BIN[:5]
    for kx, ky in KK:
        for shx, shy in shapes:
            for s in (True, False):
                for op in ("add", "sub"):
                    if grows(kx, ky, shx, shy):
                        continue
                    R(op, mk(kx, "x", shx, s), mk(ky, "y", shy, s))
            for sx in (True, False):
                for sy in (True, False):
                    R("mul", mk(kx, "x", shx, sx), mk(ky, "y", shy, sy))
        for sx in (True, False):
            for sy in (True, False):
                for shx, shy in [((2, 3), (3, 2)), ((1, 3), (3, 1))]:
                    R("matmul", mk(kx, "x", shx, sx), mk(ky, "y", shy, sy))
                if (kx, ky) in (("U", "U"), ("P", "P"), ("P", "M"), ("M", "P"), ("M", "M")):
                    for pad, st in (("SAME", 1), ("VALID", 2), ("VALID", 1))[:3 if full else 2]:
                        R("conv2d", mk(kx, "x", (1, 2, 4, 3), sx), mk(ky, "y", (2, 2, 2, 1), sy), st, pad)
    for k in "UPM":
        for s in (True, False):
            x = lambda sh=(2, 3): mk(k, "x", sh, s)
            R("negative", x())
            R("square", x())
            for ax, kd in ((None, None), (0, None), (1, True), (-1, False), ([0, 1], None), (None, True)):
                R("reduce_sum", x(), axis=ax, keepdims=kd)
            R("reduce_sum", x((2, 3, 2)), axis=1, keepdims=False)
            for ax in (0, 1):
                for ex in (False, True):
                    for rv in (False, True):
                        R("cumsum", x(), axis=ax, exclusive=ex, reverse=rv)
            for lit in (3, 1, -2, 0, 2, 2.5, 0.25, -1.5) if s else (3, 1, -2, 0):
                for op in ("add", "sub", "mul"):
                    R(op, x((2,)), lit)
                    R(op, lit, x((2,)))
            if s:
                for lit in (2, 4.0, 0.5, -3):
                    R("div", x((2,)), lit)
            R("add_n", [x((2,)), mk(k, "y", (2,), s), mk("P", "z", (2,), s)])
            if k == "P":
                R("mask", x())
            if k != "U":
                R("reveal", x())
            if k != "M":
                R("identity", x())
            R("truncate", mk(k, "x", (2,), True))
    for s in (True, False):
        for shx, shy in BIN[:4]:
            R("equal", w.U("x", shx, s), w.U("y", shy, s))
    for k in "UPM":
        for ps, st, pad, sh in (((2, 2), (2, 2), "VALID", (1, 2, 4, 4)), ((2, 2), (1, 1), "VALID", (1, 2, 3, 4)), ((2, 3), (2, 1), "VALID", (2, 1, 4, 5)),
                                ((2, 2), (2, 2), "SAME", (1, 1, 3, 3)), ((3, 3), (3, 3), "VALID", (1, 1, 3, 6)), ((2, 2), (1, 2), "SAME", (1, 2, 3, 4))):
            R("avgpool2d", mk(k, "x", sh, True), ps, st, pad)


def layout(w, tier):
    R, mk = w.root, w.mk
    for k in "UPM":
        for s in (True, False):
            x = lambda sh=(2, 3): mk(k, "x", sh, s)
            R("transpose", x())
            for p in ([1, 0], [0, 1]):
                R("transpose", x(), perm=p)
            for p in ([2, 0, 1], [0, 2, 1], [1, 2, 0]):
                R("transpose", x((2, 3, 4)), perm=p)
            for sh in ([3, 2], [6], [-1], [1, 2, -1]):
                R("reshape", x(), sh)
            for ax in (0, 1, 2, -1, -2):
                R("expand_dims", x(), axis=ax)
            R("squeeze", x((2, 1, 3)))
            R("squeeze", x((1, 2, 1)))
            R("squeeze", x((1, 2, 1)), axis=[0])
            R("squeeze", x((1, 2, 1)), axis=[2])
            R("squeeze", x((2, 1, 3)), axis=[1])
            for a in (([0, 0], [1, 2]), ([0, 1], [2, 3], [1, 1]), ([0, 0], [2, 3], [1, 2])):
                R("strided_slice", x(), *a)
            R("strided_slice", x(), [0, 1], [2, 3], strides=[1, 2])
            for idx, ax in (([0], 0), ([1, 0], 0), ([2, 0], 1), ([0, 0, 1], -1)):
                R("gather", x(), idx, axis=ax)
            for n, ax in ((2, 0), (3, 1), ([1, 2], 1), ([1, 1], 0), (2, -2)):
                R("split", x(), n, axis=ax)
            for ax in (0, 1, 2):
                R("stack", [x(), mk(k, "y", (2, 3), s)], axis=ax)
            R("stack", [x(), mk(k, "y", (2, 3), s), mk(k, "z", (2, 3), s)])
            for ax, shy in ((0, (1, 3)), (1, (2, 2)), (-1, (2, 1))):
                R("concat", [x(), mk(k, "y", shy, s)], ax)
            for sl in (0, -1, slice(None, 1), slice(0, None, 2), (slice(None), 1), (1, slice(1, None)), (Ellipsis, 0), (slice(None), slice(None, None, 2)), None):
                if sl is None:
                    continue
                R("indexer", x(), sl)
            if k != "M":
                for p in ([[0, 0], [1, 1]], [[1, 0], [0, 2]], [[2, 1], [0, 0]], [[0, 0], [0, 0]]):
                    R("pad", x(), p)
            R("space_to_batch", x((1, 4, 2, 1)), [2, 1], [[0, 0], [0, 0]])
            R("space_to_batch", x((1, 3, 2, 2)), [2, 2], [[0, 1], [1, 1]])
            R("batch_to_space", x((4, 1, 2, 1)), [2, 2], [[0, 0], [0, 1]])
            R("batch_to_space", x((4, 2, 1, 1)), [2, 1], [[1, 0], [0, 0]])
