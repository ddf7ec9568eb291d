"""Builds an abstract ABY3 world: three servers, three further players."""
import ast

from . import protomodel
from .graph import Node, ShapeVal, FactoryVal
from .interp import *
from .protomodel import DT, F, ProtoModel

import os
REPO = os.environ.get("STATAN_REPO", "/repo")
_trees = {}


class World:
    CACHE = False           # analyse with the library's own result cache in force

    def __init__(self, repo=None, choices=None):
        it = self.it = Interp(repo or REPO)
        it.choices = choices if choices is not None else []
        self.pm = ProtoModel(it)
        ov = it.overrides
        T = "tf_encrypted.tensor."
        ov[T + "native:native_factory"] = self._native
        ov[T + "boolfactory:bool_factory"] = lambda i, a, k: F["bool"]
        ov[T + "int128:int128_factory"] = lambda i, a, k: F["int128"]
        ov[T + "int100:crt_factory"] = self._crt
        ov["tf_encrypted.tensor.fixed:_validate_fixedpoint_config"] = lambda i, a, k: True
        S = "tf_encrypted.operations.secure_random.secure_random:"
        ov[S + "secure_seed"] = self._seed
        ov[S + "supports_seeded_randomness"] = lambda i, a, k: True
        ov["tf_encrypted.config:get_config"] = self._config
        if not self.CACHE:
            it.decorator_overrides["tf_encrypted.protocol.protocol:memoize"] = lambda i, f: f
        self.seedn = 0
        self.players = {}
        self.cfg = None
        self.configure()
        it.load("tf_encrypted")

    def configure(self):
        pass

    def _native(self, i, a, k):
        for f in F.values():
            if f.native is a[0] and f.kind == "ring" and f.name != "int128":
                return f
        return Unknown("native_factory")

    def _crt(self, i, a, k):
        ms = a[1] if len(a) > 1 else k.get("MODULI")
        if isinstance(ms, (list, tuple)) and all(isinstance(m, int) for m in ms):
            M = 1
            for m in ms:
                M *= m
            F["int100"].modulus = M
            F["int100"].moduli = tuple(ms)
        return F["int100"]

    def _seed(self, i, a, k):
        self.seedn += 1
        n = i.node("seed", (), (), kind="tf", shape=ShapeVal((2,)), tag="s%d" % self.seedn)
        i.events.append(("seed", n, None, i.device, i.loc))
        return n

    def _config(self, i, a, k):
        if self.cfg is None:
            c = ExtObj("Config")
            c.attrs["debug"] = False
            c.attrs["get_player"] = Builtin("get_player", lambda i2, a2, k2: self.player(a2[0] if a2 else k2["name"]))
            c.attrs["players"] = []
            self.cfg = c
        return self.cfg

    def player(self, name):
        if isinstance(name, Inst):
            return name
        p = self.players.get(name)
        if p is None:
            pc = self.it.load("tf_encrypted.player.player").ns["Player"]
            p = Inst(pc)
            p.attrs.update(name=name, index=len(self.players), device_name="/" + str(name), host=None)
            self.players[name] = p
        return p

    # ------------------------------------------------------------------
    def mod(self, name):
        return self.it.load("tf_encrypted." + name)

    def call(self, f, *a, **k):
        return self.it.call(f, list(a), k)

    def atom(self, tag, factory, shape, device=None, kind="backing"):
        n = Node("atom", (), (), device=device, kind=kind, factory=factory,
                 shape=None if shape is None else ShapeVal(shape), tag=tag)
        return n


class ABY3World(World):
    def __init__(self, repo=None, nbits=64, choices=None):
        World.__init__(self, repo, choices)
        it = self.it
        self.aby3 = self.mod("protocol.aby3.aby3")
        self.tens = self.mod("protocol.aby3.aby3_tensors")
        ST = self.tens.ns["ShareType"]
        self.ARITH = ST.ns["ARITHMETIC"]
        self.BOOL = ST.ns["BOOLEAN"]
        cfgname = "low" if nbits == 64 else "high"
        self.prot = it.call(self.aby3.ns["ABY3"], [], {"fixedpoint_config": cfgname})
        self.nbits = nbits
        self.servers = [it.getattr(s, "device_name") for s in it.getattr(self.prot, "servers")]
        self.factory = it.getattr(self.prot, "default_factory")
        tfe = it.modules["tf_encrypted"]
        ov = it.overrides
        ov["tf_encrypted:get_protocol"] = lambda i, a, k: self.prot

    def private(self, tag, shape, share_type=None, scaled=True, factory=None):
        f = factory or self.factory
        st = share_type or self.ARITH
        sh = [[None, None] for _ in range(3)]
        for i in range(3):
            for j in range(2):
                sh[i][j] = self.atom("%s%d" % (tag, (i + j) % 3), f, shape, self.servers[i])
        return self.it.call(self.tens.ns["ABY3PrivateTensor"], [self.prot, sh, scaled, st], {})

    def public(self, tag, shape, scaled=True, factory=None):
        f = factory or self.factory
        vs = [self.atom(tag, f, shape, self.servers[i]) for i in range(3)]
        return self.it.call(self.tens.ns["ABY3PublicTensor"], [self.prot, vs, scaled], {})

    def shares(self, t):
        return self.it.getattr(t, "unwrapped")
