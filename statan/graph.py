"""Dataflow IR extracted from the graph-building Python source.

The library under analysis is a *graph builder*: its Python code, given tensors,
lays out TensorFlow operations pinned to devices.  The abstract interpreter
(`interp.py`) replaces every tensor by a `Node` of this IR; analyses then run
over the IR (no tensor is ever computed).
"""
import itertools

_ids = itertools.count()


class ShapeVal(tuple):
    """Abstract tf.TensorShape (entries: int or None)."""
    __slots__ = ()

    def __repr__(self):
        return "Shape" + tuple.__repr__(self)


class FactoryVal:
    """Abstract tensor factory: identified by ring name."""

    def __init__(self, name, nbits, native, modulus=None, kind="ring"):
        self.name = name
        self.nbits = nbits
        self.native = native          # Ext dtype
        self.modulus = modulus
        self.kind = kind

    def __repr__(self):
        return "factory<%s>" % self.name


class Node:
    __slots__ = ("id", "op", "ins", "params", "device", "loc", "kind", "factory",
                 "shape", "dtype", "tag", "fn", "phase")

    def __init__(self, op, ins=(), params=(), device=None, loc=None, kind="backing",
                 factory=None, shape=None, dtype=None, tag=None, fn=None):
        self.id = next(_ids)
        self.op = op
        self.ins = tuple(ins)
        self.params = params
        self.device = device
        self.loc = loc
        self.kind = kind        # 'backing' (AbstractTensor) | 'tf' | 'np'
        self.factory = factory
        self.shape = shape
        self.dtype = dtype
        self.tag = tag
        self.fn = fn
        self.phase = None

    def __repr__(self):
        return "<%s#%d %s@%s>" % (self.kind, self.id, self.op, self.device)


def broadcast(a, b):
    if a is None or b is None:
        return None
    a, b = list(a), list(b)
    n = max(len(a), len(b))
    a = [1] * (n - len(a)) + a
    b = [1] * (n - len(b)) + b
    out = []
    for x, y in zip(a, b):
        if x is None or y is None:
            out.append(x if y is None else (y if y != 1 else None))
            if x is not None and x == 1:
                out[-1] = None
        elif x == y:
            out.append(x)
        elif x == 1:
            out.append(y)
        elif y == 1:
            out.append(x)
        else:
            raise ShapeMismatch("cannot broadcast %s with %s" % (a, b))
    return ShapeVal(out)


class ShapeMismatch(Exception):
    pass


def walk(nodes):
    """All nodes reachable backwards, inputs first."""
    seen, order = set(), []
    stack = [(n, False) for n in reversed(list(nodes))]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for i in n.ins:
            if isinstance(i, Node) and i.id not in seen:
                stack.append((i, False))
    return order
