"""Shape contexts: what an argument of an analysis root points to."""
import random
from . import sym as S
from .sym import *
from .engine import Ctx, Ptr, NULL


class Obj:
    """handle on one tensor argument: its dims and its data base"""

    def __init__(self, name, dims):
        self.name, self.dims = name, [P(d) for d in dims]
        self.data = ('obj', name + '.data')
        self.shape = ('obj', name + '.shape')
        self.base = ('obj', name)

    def at(self, *ix):
        """element at the row-major position"""
        assert len(ix) == len(self.dims)
        o = ZERO
        for i, d in zip(ix, self.dims):
            o = o * d + P(i)
        return A(atom('ld', self.data, o * 4, 4))

    def off(self, *ix):
        o = ZERO
        for i, d in zip(ix, self.dims):
            o = o * d + P(i)
        return o * 4

    @property
    def count(self):
        o = ONE
        for d in self.dims:
            o = o * d
        return o


def fields(mod):
    return (mod.field('Tensor', 'num_dimensions_', 0), mod.field('Tensor', 'shape_', 8),
            mod.field('Tensor', 'data_', 16), mod.field('Tensor', 'num_elements_', 24))


class Case:
    """one analysis: a root, a context, tensors"""

    def __init__(self, mod, root, label=''):
        self.mod, self.root, self.label = mod, root, label
        self.fn = mod.fn(root)
        self.ctx = Ctx()
        self.facts = S.Facts()
        S.set_facts(self.facts)
        self.argi = {}
        for a in self.fn.args:
            self.argi[a.get('n') or a['i']] = a['i']
        self.objs = {}
        self.arrays = {}

    def set(self, name, v):
        self.ctx.args[self.argi[name]] = v

    def dim(self, name, lo=1):
        s = sym(name)
        self.facts.lo[single_atom(s)] = lo
        self.facts.memo.clear()
        return s

    def tensor(self, arg, dims, name=None):
        name = name or arg
        o = Obj(name, dims)
        nd, sh, da, ne = fields(self.mod)
        m = self.ctx.mem.setdefault(o.base, {})
        m[nd] = P(len(dims))
        m[sh] = Ptr(o.shape)
        m[da] = Ptr(o.data)
        m[ne] = o.count
        self.ctx.mem[o.shape] = {4 * i: d for i, d in enumerate(o.dims)}
        self.ctx.size[o.base] = P(32)
        self.ctx.size[o.shape] = P(4 * len(dims))
        self.ctx.size[o.data] = o.count * 4
        if arg is not None:
            self.set(arg, Ptr(o.base))
        self.objs[name] = o
        return o

    def array(self, arg, vals):
        b = ('obj', arg)
        self.ctx.mem[b] = {4 * i: P(v) for i, v in enumerate(vals)}
        self.ctx.size[b] = P(4 * len(vals))
        self.set(arg, Ptr(b))
        self.arrays[arg] = b
        return b

    def null(self, arg):
        self.set(arg, NULL)

    def sample(self, gen, n=40, seed=1):
        """gen(rng) -> {symbol: int}: concrete shapes allowed by the contract"""
        rng = random.Random(seed)
        for _ in range(n * 20):
            if len(self.facts.points) >= n:
                break
            self.facts.add_point(gen(rng))
        assert len(self.facts.points) >= n // 2, 'no sample shapes for %s' % self.root
