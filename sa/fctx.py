"""Contexts with known shapes for the data-flow analysis (flow.py)."""
from .flow import *
from .ctx import fields
from . import term as X


class Ten:
    """a tensor argument: descriptor object, shape object, data object"""

    def __init__(self, name, dims, body, shape, data):
        self.name, self.dims, self.body, self.shape, self.data = name, list(dims), body, shape, data

    def off(self, *ix):
        o = 0
        for i, d in zip(ix, self.dims):
            o = o * d + i
        return 4 * o

    def at(self, *ix):
        """initial element"""
        assert len(ix) == len(self.dims) and all(0 <= i < d for i, d in zip(ix, self.dims)), (ix, self.dims)
        return X.inp(self.data.lazy, self.off(*ix))

    @property
    def count(self):
        n = 1
        for d in self.dims:
            n *= d
        return n

    def flat(self, i):
        return X.inp(self.data.lazy, 4 * i)


def make_tensor(mod, name, dims):
    """descriptor, shape and data of a tensor with unknown data"""
    nd, sh, da, ne = fields(mod)
    n = 1
    for d in dims:
        n *= d
    shape = Obj(name + '.shape', 'arg', 4 * len(dims), init={4 * i: d for i, d in enumerate(dims)})
    data = Obj(name + '.data', 'arg', 4 * n, lazy=name + '.data')
    body = Obj(name, 'arg', 32, init={nd: len(dims), sh: Pt(shape), da: Pt(data), ne: n})
    return Ten(name, dims, body, shape, data)


def known_layout(mod):
    return {n for n, o in mod.types.get('Tensor', [])} == {'num_dimensions_', 'shape_', 'data_', 'num_elements_'}


def memory(flow):
    """{object: {offset: (size, value)}} after a run"""
    out = {}
    for lay in flow.layers:
        for o, m in lay.items():
            out.setdefault(o, {}).update(m)
    return out


def data_pointer(lib, t, layers=None):
    """address of element 0, asked of the accessor"""
    q = Flow(lib, 'E_Tensor__blob')
    for a in q.fn.args:
        q.args[a['i']] = t if a['t'] == 'ptr' else 0
    if layers is not None:
        q.layers = layers
    q.run()
    if type(q.ret) is not Pt or type(q.ret.f) is not int:
        raise Undecided('address of the data of a tensor')
    return q.ret


def built_tensor(lib, name, dims):
    """a tensor as its constructor leaves it, with unknown data (for layouts other than the usual one)"""
    q = Flow(lib, 'E_Tensor__new%d' % len(dims))
    for a, d in zip(q.fn.args, dims):
        q.args[a['i']] = d
    q.run()
    if q.dead or type(q.ret) is not Pt or q.undecided:
        raise Undecided('construction of a tensor')
    mem = memory(q)
    p = data_pointer(lib, q.ret, q.layers)
    if p.f != 0 or p.o.size is None:
        raise Undecided('data of a tensor inside another object')
    for o, m in mem.items():
        if o.kind != 'new':
            continue
        o.kind = 'arg'
        if o is p.o:
            o.init, o.lazy = None, name + '.data'
            o.grans = set()
            continue
        o.init = {}
        for f, (s, v) in m.items():
            if v is KILL:
                raise Undecided('construction of a tensor')
            if f != '*':
                o.init[f] = v
    p.o.name = name + '.data'
    q.ret.o.name = name
    return Ten(name, dims, q.ret.o, q.ret.o, p.o)


class FCase:
    def __init__(self, lib, root, label='', steps=3000000):
        self.lib, self.root, self.label = lib, root, label
        self.flow = Flow(lib, root, steps)
        self.argi = {}
        for a in self.flow.fn.args:
            self.argi[a.get('n') or a['i']] = a['i']
        self.t = {}
        self.arr = {}
        if 'name' in self.argi:
            # the name argument: a std::string this analysis does not look into
            s = Obj('name', 'ext', 32)
            self.set('name', Pt(s))

    def set(self, n, v):
        if n not in self.argi:
            raise Undecided('no parameter %s in %s' % (n, self.root))
        self.flow.args[self.argi[n]] = v

    def tensor(self, n, dims, arg=True):
        t = make_tensor(self.lib.mod, n, dims) if known_layout(self.lib.mod) else built_tensor(self.lib, n, dims)
        self.t[n] = t
        if arg:
            self.set(n, Pt(t.body))
        return t

    def array(self, n, vals):
        o = Obj(n, 'arg', 4 * len(vals), init={4 * i: v for i, v in enumerate(vals)})
        self.arr[n] = o
        self.set(n, Pt(o))
        return o

    def null(self, n):
        self.set(n, NULL)

    def scalar(self, n, v):
        """a known floating-point parameter"""
        self.set(n, X.const(v) if type(v) is float else v)

    def run(self):
        return self.flow.run()

    def final(self, t, i):
        """value number of element i of tensor t after the run"""
        c = self.flow.cell(t.data, 4 * i)
        if c is None:
            return t.flat(i)
        s, v = c
        if v is KILL or s != 4:
            return X.mk('opq', 'untracked')
        return self.flow.coerce(v, 'float')


def value_diffs(pairs, profiles=None, seeds=(0, 1)):
    """pairs: [(label, got, want)]; returns (n_identical, n_agree, n_unknown, first difference or None)"""
    ident = agree = unknown = 0
    todo = []
    for lab, g, w in pairs:
        if g is w:
            ident += 1
        elif X.leaves(g, ('opq', 'global')):
            unknown += 1
        elif X.leaves(g, ('undef',)):
            far = any(type(x.a[0]) is str and x.a[0].startswith('outside ') for x in X.leaves(g, ('undef',)))
            return ident, agree, unknown, (lab, g, w, None, None, 'reads memory outside of its object' if far else 'reads memory that was never set')
        else:
            todo.append((lab, g, w))
    bad = None
    if todo:
        decided = {}
        for p in profiles or X.PROFILES:
            for s in seeds:
                e = X.Eval(p, s)
                for i, (lab, g, w) in enumerate(todo):
                    a, b = e(g), e(w)
                    if a is None or b is None:
                        continue
                    decided[i] = True
                    if X.differ(a, b, X.ATOL.get(p, 1e-9)) and bad is None:
                        bad = (lab, g, w, a, b, '%s data' % p)
                if bad:
                    return ident, agree, unknown, bad
        agree += len(decided)
        unknown += len(todo) - len(decided)
        if bad is None:
            bad = guided([todo[i] for i in sorted(decided)])
    return ident, agree, unknown, bad


def atoms(t, seen, out):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is not X.T or x.id in seen:
            continue
        seen.add(x.id)
        if x.k in ('lt', 'le', 'eq') and all(type(y) is X.T and not y.cond for y in x.a):
            out.append(x)
        st.extend(x.a)


def guided(todo, limit=24):
    """terms that agree on the sample valuations: valuations at the border of every condition only one of the two contains"""
    if len(todo) > limit:
        todo = todo[:limit // 2] + todo[len(todo) // 2:len(todo) // 2 + limit // 4] + todo[-limit // 4:]
    for lab, g, w in todo:
        mine, theirs = [], []
        atoms(g, set(), mine)
        atoms(w, set(), theirs)
        both = {x.id for x in mine} & {x.id for x in theirs}
        for c in [x for x in mine + theirs if x.id not in both][:6]:
            ls = sorted((x for x in set(X.leaves(c, ('in',))) if type(x.a[0]) is str and not x.a[0].startswith(('byte:', 'text:'))), key=lambda x: x.id)
            if not ls or X.leaves(c, ('opq', 'undef', 'global')):
                continue
            for leaf in ls[:2] + ls[-1:]:
                def at(v, *ts):
                    e = X.Eval('normal', 0)
                    if v is not None:
                        e.inputs[(leaf.a[0], leaf.a[1])] = v
                    r = [e(t) for t in ts]
                    return e, r

                def d(v):
                    e, (a, b) = at(v, *c.a)
                    return None if a is None or b is None or a != a or b != b else a - b
                e, _ = at(None, leaf)
                x0 = e.data(*leaf.a[:2])
                d0, d1 = d(x0), d(x0 + 1)
                if d0 is None or d1 is None or d0 == d1 or abs(d0) > 1e30 or abs(d1) > 1e30:
                    continue
                x = x0 - d0 / (d1 - d0)
                for y in (round(x, 6), x):
                    if d(y) == 0:
                        x = y
                        break
                dx = d(x)
                if dx is None or abs(dx) > 1e-6 * max(1, abs(d0)):
                    continue
                h = 1e-3 * max(1.0, abs(x))
                for v in (x, x + h, x - h):
                    if X._pos(leaf.a[0]) and v < 0:
                        continue
                    _, (a, b) = at(v, g, w)
                    if a is not None and b is not None and X.differ(a, b, 1e-6):
                        return (lab, g, w, a, b, 'data where %s is %.7g' % (X.show(leaf), v))
    return None
