"""Data-flow analysis of one analysis root in a context in which the shapes are
known: integers and addresses are propagated as constants, data as value
numbers (term.py).  A branch on data is not followed path by path: both arms are
analysed up to their join, and the memories and registers are merged there
(gated values).  Nothing of the library is executed.

The result is a memory of value numbers plus the events of the analysis:
accesses outside an object, use of unset or released memory, allocation and
release, stores, calls that stop the program."""
import struct
import re
from . import term as X
from .term import T
from .engine import PURE, ALLOC_NEW, FREE, DIE, ftype, ibits

EXIT = -1


class Undecided(Exception):
    pass


class Obj:
    __slots__ = ('name', 'kind', 'size', 'init', 'lazy', 'seq', 'ins', 'akind', 'grans')
    count = 0

    def __init__(self, name, kind, size, init=None, lazy=None):
        self.name, self.kind, self.size, self.init, self.lazy = name, kind, size, init, lazy
        Obj.count += 1
        self.seq = Obj.count
        self.ins = None
        self.akind = None
        self.grans = set()

    def __repr__(self):
        return self.name


class Pt:
    __slots__ = ('o', 'f')

    def __init__(self, o, f=0):
        self.o, self.f = o, f

    def __repr__(self):
        return '&%s+%s' % (self.o.name, self.f)


class PS:
    """conditional pointer"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


NULLO = Obj('null', 'null', 0)
NULL = Pt(NULLO, 0)


def psel(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is Pt and type(b) is Pt and a.o is b.o and a.f == b.f:
        return a
    return PS(c, a, b)


def ispt(v):
    return type(v) is Pt or type(v) is PS


def merge(c, a, b):
    if a is b:
        return a
    if ispt(a) or ispt(b):
        if not (ispt(a) and ispt(b)):
            if a == 0 and type(a) is int:
                a = NULL
            elif b == 0 and type(b) is int:
                b = NULL
            else:
                return X.mk('opq', 'ptrmix')
        return psel(c, a, b)
    if type(a) is tuple or type(b) is tuple:
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return tuple(merge(c, x, y) for x, y in zip(a, b))
        return X.mk('opq', 'agg')
    if type(a) is int and type(b) is int and a == b:
        return a
    return X.sel(c, a, b)


class Event:
    __slots__ = ('kind', 'ins', 'data', 'pc', 'n')

    def __init__(self, kind, ins, data, pc, n):
        self.kind, self.ins, self.data, self.pc, self.n = kind, ins, data, pc, n

    def __repr__(self):
        return '%s %s %s %s' % (self.kind, self.ins.where() if self.ins else '', self.data, 'if ' + X.show(self.pc) if self.pc is not True else '')


class Lib:
    """decoded form of the roots of one module (shared by all contexts)"""

    def __init__(self, mod):
        self.mod = mod
        self.dec = {}

    def root(self, name):
        if name not in self.dec:
            self.dec[name] = Decoded(self.mod.fn(name))
        return self.dec[name]


class Decoded:
    def __init__(self, fn):
        self.fn = fn
        self.code = {}
        self.phis = {}
        for b in fn.order:
            ins = fn.blocks[b]
            self.phis[b] = [(i, {x['b']: x['v'] for x in i.d['in']}) for i in ins if i.op == 'phi']
            self.code[b] = [(i, i.d) for i in ins if i.op != 'phi']
        self._pdom()
        self.phi_ids = None
        self.consts = set()
        self.fconsts = set()

    def _pdom(self):
        """immediate postdominators over blocks that can still return"""
        fn = self.fn
        live = fn.live
        succ = {b: [s for s in fn.succ[b] if s in live] for b in fn.order if b in live}
        for b in succ:
            if fn.blocks[b][-1].op == 'ret':
                succ[b] = [EXIT]
        pred = {b: [] for b in list(succ) + [EXIT]}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        order, seen = [], set()
        st = [(EXIT, iter(pred[EXIT]))]
        seen.add(EXIT)
        while st:
            x, it = st[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    st.append((p, iter(pred[p])))
                    break
            else:
                order.append(x)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        ip = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                n = None
                for s in succ.get(b, []):
                    if s in ip:
                        if n is None:
                            n = s
                        else:
                            a, c = s, n
                            while a != c:
                                while num[a] > num[c]:
                                    a = ip[a]
                                while num[c] > num[a]:
                                    c = ip[c]
                            n = a
                if n is not None and ip.get(b) != n:
                    ip[b] = n
                    ch = True
        self.ipdom = ip
        self._again = {}

    def again(self, b, j):
        """values that may be computed anew on the way from b to j and are still in use afterwards: definitions that dominate j"""
        k = (b, j)
        if k not in self._again:
            fn, out = self.fn, []
            if j != EXIT and fn.loops:
                seen, st = set(), list(fn.succ[b])
                while st:
                    x = st.pop()
                    if x == j or x in seen or x not in fn.live:
                        continue
                    seen.add(x)
                    st.extend(fn.succ[x])
                for x in seen:
                    if fn.dominates(x, j):
                        out.extend(i.i for i in fn.blocks[x] if i.t != 'void')
            self._again[k] = out
        return self._again[k]


F32 = struct.Struct('<f')
I32 = struct.Struct('<I')
F64 = struct.Struct('<d')
I64 = struct.Struct('<Q')
UNSET = object()
KILL = object()
_float = float.fromhex


class Flow:
    def __init__(self, lib, root, steps=3000000):
        self.lib = lib
        self.watch = None
        self.changed = False
        self.d = lib.root(root)
        self.fn = self.d.fn
        self.mod = lib.mod
        self.layers = [{}]
        self.env = {}
        self.pc = []
        self.events = []
        self.undecided = []
        self.steps = steps
        self.memory = 1 << 46         # a larger allocation fails
        self.args = {}
        self.globals = {}
        self.stores = {}       # Obj -> {ins id: (ins, pc)}
        self.freed = {}
        self.nload = self.nstore = 0
        self.blocks_seen = set()
        self.ret = None
        self.returned = False
        self.dead = False
        self.uninit = {}
        self.evn = 0
        self.hooks = {}
        self.start_state = False
        self.nans = False
        self.nesting = 60
        self.locals = []

    # --------------------------------------------------------------- driver
    def run(self):
        fn = self.fn
        for a in fn.args:
            i = a['i']
            if i in self.args:
                self.env[i] = self.args[i]
            elif a['t'] == 'ptr':
                self.env[i] = Pt(Obj(a.get('n') or 'arg%d' % i, 'ext', None))
            elif ftype(a['t']):
                self.env[i] = X.inp(a.get('n') or 'arg%d' % i, 0)
            else:
                self.env[i] = X.mk('in', a.get('n') or 'arg%d' % i, 0)
        try:
            r = self.walk(fn.entry, None, EXIT)
            if r is None:
                self.dead = True
            else:
                self.ret = r[1]
                self.returned = True
        except Undecided as e:
            self.und(str(e))
            self.aborted = True
        except RecursionError:
            self.und('nesting of data-dependent branches')
        return self

    def und(self, why, ins=None):
        k = (why, ins.where() if ins else None)
        if k not in self.undecided:
            self.undecided.append(k)

    def cond(self):
        c = True
        for x in self.pc:
            c = X.c_and(c, x)
        return c

    def ev(self, kind, ins, data):
        self.evn += 1
        self.events.append(Event(kind, ins, data, self.cond(), self.evn))

    def walk(self, b, prev, stop):
        """analyse from b up to (not including) stop; returns (pred block, ret) or None if no way leads there"""
        env, code, phis = self.env, self.d.code, self.d.phis
        while True:
            if b == stop:
                return (prev, None)
            self.blocks_seen.add(b)
            ph = phis[b]
            if self.steps < 0 and self.endless(b, ph, prev):
                return None
            if ph and prev is not None:
                if len(ph) == 1:
                    i, m = ph[0]
                    env[i.i] = self.val(m[prev]) if prev in m else X.mk('opq', 'phi')
                else:
                    vs = [self.val(m[prev]) if prev in m else X.mk('opq', 'phi') for i, m in ph]
                    for (i, m), v in zip(ph, vs):
                        env[i.i] = v
            r = self.body(b)
            if r == 'stop':
                return None
            # terminator
            ins, d = code[b][-1]
            if ins.op == 'ret':
                ops = d.get('ops') or []
                return (b, self.val(ops[0]) if ops else None)
            if ins.op == 'unreachable':
                return None
            if ins.op == 'br':
                ss = d['succ']
                if 'cond' not in d:
                    prev, b = b, ss[0]
                    continue
                c = self.bool(self.val(d['cond']))
                if c is True:
                    prev, b = b, ss[0]
                    continue
                if c is False:
                    prev, b = b, ss[1]
                    continue
                r = self.fork(b, [(c, ss[0]), (X.c_not(c), ss[1])], stop)
            elif ins.op == 'switch':
                v = self.val(d['cond'])
                if type(v) is int:
                    t = d['default']
                    for cv, cb in d['cases']:
                        if self.wrapcmp(cv, v):
                            t = cb
                            break
                    prev, b = b, t
                    continue
                arms, rest = [], True
                w = 32
                for cv, cb in d['cases']:
                    c = self.icmp_t('eq', w, v, cv & 0xffffffff)
                    arms.append((X.c_and(rest, c), cb))
                    rest = X.c_and(rest, X.c_not(c))
                arms.append((rest, d['default']))
                r = self.fork(b, arms, stop)
            else:
                raise Undecided('terminator ' + ins.op)
            if r is None:
                return None
            if r[0] == 'ret':
                return r[1]
            b = r[1]
            prev = None
            # phi values were set by the fork

    def endless(self, b, ph, prev):
        """after the step budget: does the analysis come back to a loop header in the very state it had there before?"""
        if self.watch is None:
            self.watch = {}
        if not ph or b not in self.fn.loops or self.pc:
            return False
        st = (prev, self.evn, [self.val(m[prev]) if prev in m else None for i, m in ph], [(k, self.env.get(k)) for k in self.phi_ids() if k in self.env])
        old = self.watch.get(b)
        if old is None or self.changed:
            if self.changed:
                self.watch.clear()
            self.changed = False
            self.watch[b] = [1, 1, st]
            return False
        old[0] += 1
        if len(old[2][3]) == len(st[3]) and all(self.same(x, y) for x, y in zip(old[2][2] + [v for _, v in old[2][3]], st[2] + [v for _, v in st[3]])) and \
                old[2][0] == prev and old[2][1] == self.evn and [k for k, _ in old[2][3]] == [k for k, _ in st[3]]:
            ins = self.d.code[b][-1][0]
            self.ev('endless', ins, 'the loop comes back to the state it had before')
            self.aborted = True
            raise Undecided('endless loop')
        if old[0] >= 2 * old[1]:
            old[1] = old[0]
            old[2] = st
        return False

    @staticmethod
    def same(x, y):
        return x is y or type(x) is int and type(y) is int and x == y or type(x) is Pt and type(y) is Pt and x.o is y.o and type(x.f) is int and x.f == y.f

    def phi_ids(self):
        if self.d.phi_ids is None:
            self.d.phi_ids = [i.i for b in self.fn.order for i in self.fn.blocks[b] if i.op == 'phi']
        return self.d.phi_ids

    @staticmethod
    def wrapcmp(cv, v):
        return cv == v or (cv < 0 and (cv & 0xffffffff) == v) or (cv & 0xffffffffffffffff) == v or (cv & 0xff) == v and cv < 0

    def fork(self, b, arms, stop):
        j = self.d.ipdom.get(b, EXIT)
        if len(self.pc) > self.nesting:
            raise Undecided('nesting of data-dependent branches')
        for c, t in arms:
            if type(c) is T and X.leaves(c, ('undef',)):
                self.ev('uninit-branch', self.d.code[b][-1][0], X.show(c))
        res = []
        again = self.d.again(b, j)
        old = [self.env.get(i, UNSET) for i in again]
        for c, t in arms:
            if c is False:
                continue
            for i, v in zip(again, old):
                self.env[i] = v
            self.layers.append({})
            self.pc.append(c)
            fz = dict(self.freed)
            try:
                if t == j:
                    r = (b, None)
                elif t not in self.fn.live:
                    r = self.walk(t, b, -2)
                else:
                    r = self.walk(t, b, j)
            finally:
                self.pc.pop()
                lay = self.layers.pop()
            fz2, self.freed = self.freed, fz
            if r is not None:
                pv = None
                if j != EXIT:
                    p0 = r[0]
                    if p0 is not None:
                        pv = [self.val(m[p0]) if p0 in m else X.mk('opq', 'phi') for i, m in self.d.phis[j]]
                    else:
                        pv = [self.env.get(i.i) for i, m in self.d.phis[j]]
                    pv += [self.env.get(i) for i in again]
                res.append((c, r, lay, pv, fz2))
        if not res:
            return None
        # merge, last arm is the default
        c, r, lay, pv, fz = res[-1]
        ret = r[1]
        for c2, r2, lay2, pv2, fz2 in reversed(res[:-1]):
            lay = self.merge_layers(c2, lay2, lay)
            if pv is not None:
                pv = [merge(c2, x, y) for x, y in zip(pv2, pv)]
            if j == EXIT and ret is not None:
                ret = merge(c2, r2[1], ret)
            for k in fz2:
                if k not in fz:
                    fz = dict(fz)
                    fz[k] = 'maybe'
            for k in list(fz):
                if k not in fz2 and fz[k] != 'maybe':
                    fz = dict(fz)
                    fz[k] = 'maybe'
        self.freed = fz
        top = self.layers[-1]
        for o, m in lay.items():
            top.setdefault(o, {}).update(m)
        if j == EXIT:
            return ('ret', (b, ret))
        for i, v in zip([i.i for i, m in self.d.phis[j]] + again, pv):
            self.env[i] = v
        return ('at', j)

    def merge_layers(self, c, a, b):
        out = {}
        for o in set(a) | set(b):
            ma, mb = a.get(o, {}), b.get(o, {})
            r = {}
            for f in set(ma) | set(mb):
                ca = ma.get(f)
                cb = mb.get(f)
                if ca is None:
                    ca = self.below(o, f, cb)
                if cb is None:
                    cb = self.below(o, f, ca)
                if ca is cb:
                    r[f] = ca
                elif ca is None or cb is None or ca[1] is KILL or cb[1] is KILL:
                    r[f] = (ca or cb)[0], KILL
                elif ca[0] != cb[0]:
                    r[f] = (ca[0], KILL)
                else:
                    r[f] = (ca[0], merge(c, ca[1], cb[1]))
            out[o] = r
        return out

    def below(self, o, f, other):
        if f == '*':
            return None
        cell = self.cell(o, f)
        if cell is not None:
            return cell
        v = self.initial(o, f, other[0], 'float' if type(other[1]) is T else 'i%d' % (8 * other[0]) if type(other[1]) is int else 'ptr', None)
        return (other[0], v)

    # ---------------------------------------------------------------- values
    def val(self, o):
        k = o['k']
        if k == 'v':
            v = self.env.get(o['i'])
            if v is None:
                return X.mk('opq', 'unset%d' % o['i'])
            return v
        if k == 'int':
            c = o.get('c')
            if c is None:
                w = o['w']
                c = o['c'] = (int(o['v']) != 0) if w == 1 else int(o['v']) & ((1 << w) - 1)
            return c
        if k == 'fp':
            c = o.get('c')
            if type(c) is not T or X.T.tab.get(('c', (type(c.a[0]).__name__, c.a[0]))) is not c:
                s = o['v']
                c = X.const(float(s) if s in ('inf', '-inf', 'nan') else float.fromhex(s))
                o['c'] = c
            return c
        if k == 'null':
            return NULL
        if k == 'zero':
            return 0
        if k == 'global':
            return Pt(self.gobj(o['n']))
        if k == 'func':
            return Pt(self.gobj('@' + o['n']))
        if k == 'constgep':
            p = self.val(o['b'])
            return Pt(p.o, p.f + o['off'])
        if k == 'undef':
            return X.mk('undef', 'poison')
        return X.mk('opq', o.get('v', 'const'))

    def gobj(self, n):
        o = self.globals.get(n)
        if o is None:
            g = self.mod.globals.get(n, {})
            o = Obj('global ' + n, 'global' if n[0] != '@' else 'func', g.get('size'))
            self.globals[n] = o
        return o

    def gdata(self, o):
        return self.mod.globals.get(o.name[7:], {})

    def callable(self, name):
        """body of a function that stays a call (whole-program flows only)"""
        return None

    def enter(self, d, ops, ins):
        raise Undecided('call at ' + ins.where())

    def bool(self, v):
        if v is True or v is False:
            return v
        if type(v) is int:
            return v & 1 == 1
        if type(v) is T:
            if v.cond:
                return v
            if v.k == 'c':
                return int(v.a[0]) & 1 == 1
            return X.c_not(X.eq(v, 0))
        return X.mk('opq', 'boolptr', cond=True)

    # ---------------------------------------------------------------- memory
    def cell(self, o, f):
        for lay in reversed(self.layers):
            m = lay.get(o)
            if m is not None:
                c = m.get(f)
                if c is not None:
                    return c
                if '*' in m:
                    return (0, KILL)
        return None

    def access(self, kind, p, size, ins):
        o, f = p.o, p.f
        if o.kind == 'null':
            self.ev('null', ins, kind)
            return False
        if type(f) is not int:
            self.und('address depends on data', ins)
            return False
        if o.size is not None and (f < 0 or f + size > o.size):
            self.ev('oob', ins, (kind, o, f, size))
            return False
        if o in self.freed:
            self.ev('use-after-free' if self.freed[o] != 'maybe' else 'maybe-use-after-free', ins, (kind, o, f))
        return True

    def load(self, p, size, ty, ins):
        if type(p) is PS:
            self.pc.append(p.c)
            a = self.load(p.a, size, ty, ins)
            self.pc[-1] = X.c_not(p.c)
            b = self.load(p.b, size, ty, ins)
            self.pc.pop()
            return merge(p.c, a, b)
        if type(p) is not Pt:
            if type(p) is int:
                if p == 0:
                    self.ev('null', ins, 'load')
                return self.opq(ty, ins)
            self.und('address depends on data', ins)
            return self.opq(ty, ins)
        self.nload += 1
        if not self.access('load', p, size, ins):
            if ty in ('float', 'double') and type(p.f) is int:
                return X.mk('undef', 'outside ' + str(p.o.name), p.f)
            return self.opq(ty, ins)
        o, f = p.o, p.f
        c = self.cell(o, f)
        if c is None and len(o.grans) > 0 and (len(o.grans) > 1 or size not in o.grans):
            c = self.assemble(o, f, size)
        if c is None:
            return self.coerce(self.initial(o, f, size, ty, ins), ty)
        s, v = c
        if v is KILL:
            self.und('value of memory not tracked', ins)
            return self.opq(ty, ins)
        if s != size:
            c = self.assemble(o, f, size)
            if c is None or c[1] is KILL:
                self.und('access of mixed width', ins)
                return self.opq(ty, ins)
            v = c[1]
        return self.coerce(v, ty)

    def assemble(self, o, f, size):
        """integer value of `size` bytes put together from cells of other widths"""
        by = []
        i = f
        while i < f + size:
            hit = None
            for s in (1, 2, 4, 8):
                for st in range(i - s + 1, i + 1):
                    c = self.cell(o, st)
                    if c is not None and c[0] == s and c[1] is not KILL:
                        hit = (st, c)
                        break
                if hit:
                    break
            if hit is None:
                return None
            st, (s, v) = hit
            if type(v) is T and v.k == 'c' and s in (4, 8):
                x = v.a[0]
                try:
                    v = I32.unpack(F32.pack(x))[0] if s == 4 else I64.unpack(F64.pack(x))[0]
                except (OverflowError, struct.error):
                    return None
            if v is True or v is False:
                v = int(v)
            if type(v) is not int:
                return (size, KILL)
            by.append((v >> (8 * (i - st))) & 255)
            i += 1
        r = 0
        for k, x in enumerate(by):
            r |= x << (8 * k)
        return (size, r)

    def coerce(self, v, ty):
        if ty == 'ptr':
            if ispt(v):
                return v
            if type(v) is int and v == 0:
                return NULL
            return Pt(Obj('unknown', 'ext', None)) if type(v) is T else v
        if ftype(ty):
            if type(v) is int:
                if v == 0:
                    return X.const(0)
                try:
                    return X.const(F32.unpack(I32.pack(v))[0] if ty == 'float' else F64.unpack(I64.pack(v))[0])
                except struct.error:
                    return X.mk('opq', 'bits')
            if type(v) is T and v.k == 'bits':
                return v.a[0]
            return v if type(v) is T else X.mk('opq', 'fp')
        if ty == 'i1':
            return self.bool(v)
        w = ibits(ty)
        if w:
            if type(v) is int:
                return v & ((1 << w) - 1)
            if v is True or v is False:
                return int(v)
            if type(v) is T and v.k == 'c' and type(v.a[0]) is float:
                try:
                    return I32.unpack(F32.pack(v.a[0]))[0] if w == 32 else I64.unpack(F64.pack(v.a[0]))[0]
                except (struct.error, OverflowError):
                    return X.mk('opq', 'bits')
        return v

    def opq(self, ty, ins):
        if ty == 'ptr':
            return Pt(Obj('unknown', 'ext', None))
        return X.mk('opq', ins.i if ins else 0, cond=(ty == 'i1'))

    def initial(self, o, f, size, ty, ins):
        if o.init is not None and f in o.init:
            return o.init[f]
        if o.lazy:
            if size == 4 or ftype(ty):
                return X.inp(o.lazy, f)
            if size == 8 and f % 8 == 0 and ty != 'ptr':
                return X.mk('pair', o.lazy, f)
        if o.kind in ('alloca', 'new'):
            if ins is not None:
                self.uninit.setdefault((o, f), ins)
            if ty == 'ptr':
                q = Obj('uninitialised pointer', 'ext', None)
                self.ev('uninit-ptr', ins, (o, f))
                return Pt(q)
            return X.mk('undef', o.name, f)
        if o.kind == 'global':
            g = self.gdata(o)
            if g.get('const') or self.start_state:
                if 'hex' in g:
                    raw = g.get('raw')
                    if raw is None:
                        raw = g['raw'] = bytes.fromhex(g['hex'])
                    if 0 <= f and f + size <= len(raw):
                        if size == 8 and 'ptrs' in g:
                            for k, n, off in g['ptrs']:
                                if k == f:
                                    q = self.gobj(n)
                                    return Pt(q, off)
                        if ty == 'float':
                            return X.const(F32.unpack(raw[f:f + 4])[0])
                        if ty == 'double':
                            return X.const(F64.unpack(raw[f:f + 8])[0])
                        v = int.from_bytes(raw[f:f + size], 'little')
                        return v
            else:
                if ty != 'ptr':
                    return X.mk('global', o.name, f, cond=(ty == 'i1'))
        if ty == 'ptr':
            return Pt(Obj('*%s+%s' % (o.name, f), 'ext', None))
        return X.mk('in', o.name, f, cond=(ty == 'i1'))

    def store(self, p, v, size, ins):
        if type(p) is PS:
            for c, q in ((p.c, p.a), (X.c_not(p.c), p.b)):
                if type(q) is Pt and q.o.kind != 'null' and type(q.f) is int:
                    self.pc.append(c)
                    old = self.load(q, size, 'float' if type(v) is T else 'ptr' if ispt(v) else 'i%d' % (8 * size), ins)
                    self.store(q, merge(c, v, old), size, ins)
                    self.pc.pop()
                else:
                    self.pc.append(c)
                    self.store(q, v, size, ins)
                    self.pc.pop()
            return
        if type(p) is not Pt:
            if p == 0 and type(p) is int:
                self.ev('null', ins, 'store')
                return
            raise Undecided('store through an address that depends on data at ' + ins.where())
        self.nstore += 1
        o = p.o
        st = self.stores.get(o)
        if st is None:
            st = self.stores[o] = {}
        if ins.i not in st:
            st[ins.i] = (ins, self.cond())
        if not self.access('store', p, size, ins):
            if type(p.f) is not int:
                raise Undecided('store through an address that depends on data at ' + ins.where())
            return
        f = p.f
        lay = self.layers[-1]
        m = lay.get(o)
        if m is None:
            m = lay[o] = {}
        g = o.grans
        if size not in g:
            g.add(size)
        if len(g) > 1:
            # widths mixed on this object: split what the new cell overlaps
            self.split(o, f, size, m)
        if self.steps < 0 and not self.changed:
            c = self.cell(o, f)
            if c is None or c[0] != size or not self.same(c[1], v):
                self.changed = True
        m[f] = (size, v)

    def split(self, o, f, size, m):
        mx = max(o.grans)
        for st in range(f - mx + 1, f + size):
            c = self.cell(o, st)
            if c is None or (st == f and c[0] == size):
                continue
            if c[0] and st + c[0] > f:
                s, v = c
                if s == 1:
                    continue
                iv = v if type(v) is int else None
                if iv is None and type(v) is T and v.k == 'c' and v.a[0] == 0:
                    iv = 0
                for k in range(s):
                    if not f <= st + k < f + size or st + k == st:
                        m[st + k] = (1, (iv >> (8 * k)) & 255 if iv is not None else KILL)
                o.grans.add(1)

    def copy(self, dst, src, n, ins):
        if type(n) is not int:
            self.und('copy of a size that depends on data', ins)
            self.kill(dst)
            return
        if n == 0:
            return
        if type(dst) is PS or type(src) is PS:
            if type(dst) is PS:
                c, a, b = dst.c, (dst.a, src), (dst.b, src)
            else:
                c, a, b = src.c, (dst, src.a), (dst, src.b)
            raise Undecided('copy through a data-dependent pointer')
        if type(dst) is not Pt or type(src) is not Pt:
            raise Undecided('copy through an unknown pointer at ' + ins.where())
        ok = self.access('copy-src', src, n, ins)
        st = self.stores.setdefault(dst.o, {})
        st.setdefault(ins.i, (ins, self.cond()))
        ok2 = self.access('copy-dst', dst, n, ins)
        if not ok or not ok2:
            if type(src.f) is not int or type(dst.f) is not int:
                raise Undecided('copy through an address that depends on data')
            # analyse the part inside both objects
            if src.o.kind == 'null' or dst.o.kind == 'null':
                return
            lim = n
            for q in (src, dst):
                if q.o.size is not None:
                    lim = min(lim, q.o.size - q.f)
            n = lim
            if n <= 0 or src.f < 0 or dst.f < 0:
                return
        vals = []
        i = 0
        so = src.o
        while i < n:
            c = self.cell(so, src.f + i)
            if c is not None and c[0] and i + c[0] <= n:
                vals.append((i, c[0], c[1]))
                i += c[0]
                continue
            if c is not None and c[0] == 0:
                vals.append((i, 0, KILL))
                break
            if so.init and (src.f + i) in so.init:
                v = so.init[src.f + i]
                s = 8 if ispt(v) else so.init.get('esz', 4)
                if i + s <= n:
                    vals.append((i, s, v))
                    i += s
                    continue
            if so.lazy and n - i >= 4 and (src.f + i) % 4 == 0:
                vals.append((i, 4, X.inp(so.lazy, src.f + i)))
                i += 4
                continue
            if so.kind in ('alloca', 'new') and so.grans == {8} and n - i >= 8:
                vals.append((i, 8, X.mk('undef', so.name, src.f + i)))
                i += 8
                continue
            s = 4 if n - i >= 4 and (src.f + i) % 4 == 0 else 1
            if so.kind in ('alloca', 'new'):
                self.uninit.setdefault((so, src.f + i), ins)
                vals.append((i, s, X.mk('undef', so.name, src.f + i)))
            else:
                vals.append((i, s, self.initial(so, src.f + i, s, 'float' if s == 4 and not so.kind == 'global' else 'i%d' % (8 * s), ins)))
            i += s
        lay = self.layers[-1]
        m = lay.setdefault(dst.o, {})
        for i, s, v in vals:
            if s == 0:
                self.kill(dst)
                return
            dst.o.grans.add(s)
            if len(dst.o.grans) > 1:
                self.split(dst.o, dst.f + i, s, m)
            m[dst.f + i] = (s, v)

    def fill(self, dst, byte, n, ins):
        if type(n) is not int or type(dst) is not Pt:
            raise Undecided('fill with unknown extent at ' + ins.where())
        if n == 0:
            return
        st = self.stores.setdefault(dst.o, {})
        st.setdefault(ins.i, (ins, self.cond()))
        if not self.access('fill', dst, n, ins):
            return
        if type(byte) is not int:
            self.kill(dst)
            return
        byte &= 255
        s = 4 if n % 4 == 0 and dst.f % 4 == 0 else 1
        v = int.from_bytes(bytes([byte]) * s, 'little')
        m = self.layers[-1].setdefault(dst.o, {})
        dst.o.grans.add(s)
        for i in range(0, n, s):
            if len(dst.o.grans) > 1:
                self.split(dst.o, dst.f + i, s, m)
            m[dst.f + i] = (s, v)

    def kill(self, p):
        if type(p) is PS:
            self.kill(p.a)
            self.kill(p.b)
        elif type(p) is Pt and p.o.kind not in ('null', 'func', 'ext'):
            self.layers[-1][p.o] = {'*': (0, KILL)}

    # ---------------------------------------------------------- instructions
    def body(self, b):
        env = self.env
        code = self.d.code[b]
        self.steps -= len(code)
        if self.steps < -6000000 or self.steps < -200000 and not self.watch:
            raise Undecided('step budget')
        for ins, d in code[:-1]:
            m = DISPATCH.get(ins.op)
            if m is None:
                raise Undecided('instruction %s at %s' % (ins.op, ins.where()))
            v = m(self, ins, d)
            if v is STOP:
                return 'stop'
            env[ins.i] = v
        return None

    def icmp_t(self, pred, w, a, b):
        if a is True or a is False:
            a = int(a)
        if b is True or b is False:
            b = int(b)
        if type(a) is int and type(b) is int:
            return X.icmp(pred, w, a, b)
        for x, y in ((a, b), (b, a)):
            if type(y) is int and type(x) is T and x.k == 'sel' and x.a[1].k == 'c' and x.a[2].k == 'c':
                p = pred if x is a else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(pred[1:], None)
                if x is not a and p is not None:
                    p = pred[0] + p
                elif x is not a:
                    p = pred
                t = X.icmp(p, w, int(x.a[1].a[0]), y)
                e = X.icmp(p, w, int(x.a[2].a[0]), y)
                return X.sel(x.a[0], t, e)
        if type(a) is T and a.cond or type(b) is T and b.cond:
            a2, b2 = self.bool(a), self.bool(b)
            e = X.c_or(X.c_and(a2, b2), X.c_and(X.c_not(a2), X.c_not(b2)))
            if pred == 'eq':
                return e
            if pred == 'ne':
                return X.c_not(e)
        if a is b:
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        r = range_cmp(pred, w, a, b)
        if r is not None:
            return r
        if pred == 'ne':
            return X.c_not(self.icmp_t('eq', w, a, b))
        return X.mk('icmp', pred, w, X.lift(a), X.lift(b), cond=True)


def urange(v, depth=0):
    """bounds of an unsigned integer value that is known to be small, or None"""
    if type(v) is int:
        return v, v
    if type(v) is not T or depth > 8:
        return None
    if v.k == 'in' and type(v.a[0]) is str:
        if v.a[0].startswith('byte:'):
            return 0, 255
        if v.a[0].startswith('text:'):
            return 32, 126
        return None
    if v.k == 'c' and type(v.a[0]) is int and v.a[0] >= 0:
        return v.a[0], v.a[0]
    if v.k == 'iop':
        a = urange(v.a[2], depth + 1)
        b = urange(v.a[3], depth + 1)
        if v.a[0] == 'and':
            h = [x[1] for x in (a, b) if x]
            return (0, min(h)) if h else None
        if v.a[0] == 'add' and a and b and a[1] + b[1] < 1 << 31:
            return a[0] + b[0], a[1] + b[1]
        if v.a[0] == 'mul' and a and b and a[1] * b[1] < 1 << 31:
            return a[0] * b[0], a[1] * b[1]
        if v.a[0] == 'lshr' and a and b and b[0] == b[1]:
            return a[0] >> b[0], a[1] >> b[0]
        return None
    if v.k == 'sel':
        a, b = urange(v.a[1], depth + 1), urange(v.a[2], depth + 1)
        return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
    return None


def range_cmp(pred, w, a, b):
    x, y = urange(a), urange(b)
    if x is None or y is None:
        return None
    if pred[0] == 's':
        h = 1 << (w - 1)
        if type(a) is int:
            x = (a - (1 << w) if a >= h else a,) * 2
        if type(b) is int:
            y = (b - (1 << w) if b >= h else b,) * 2
        if x[1] >= h or y[1] >= h:
            return None
    lo, hi = x[1] < y[0], x[0] > y[1]
    if pred == 'eq':
        return False if lo or hi else None
    if pred == 'ne':
        return True if lo or hi else None
    r = pred[1:]
    if r == 'lt':
        return True if lo else False if x[0] >= y[1] else None
    if r == 'ge':
        return False if lo else True if x[0] >= y[1] else None
    if r == 'gt':
        return True if hi else False if x[1] <= y[0] else None
    return False if hi else True if x[1] <= y[0] else None


STOP = object()
DISPATCH = {}


def op(*names):
    def deco(f):
        for n in names:
            DISPATCH[n] = f
        return f
    return deco


def num(self, v):
    """float operand"""
    if type(v) is T:
        return v
    if type(v) is int:
        return X.const(v)
    if v is True or v is False:
        return X.const(int(v))
    return X.mk('opq', 'num')


@op('fadd')
def _(self, ins, d):
    o = d['ops']
    return X.add(num(self, self.val(o[0])), num(self, self.val(o[1])))


@op('fsub')
def _(self, ins, d):
    o = d['ops']
    return X.sub(num(self, self.val(o[0])), num(self, self.val(o[1])))


@op('fmul')
def _(self, ins, d):
    o = d['ops']
    return X.mul(num(self, self.val(o[0])), num(self, self.val(o[1])))


@op('fdiv')
def _(self, ins, d):
    o = d['ops']
    return X.div(num(self, self.val(o[0])), num(self, self.val(o[1])))


@op('fneg')
def _(self, ins, d):
    return X.neg(num(self, self.val(d['ops'][0])))


@op('frem')
def _(self, ins, d):
    o = d['ops']
    return X.fn('frem', num(self, self.val(o[0])), num(self, self.val(o[1])))


@op('fpext', 'fptrunc')
def _(self, ins, d):
    return num(self, self.val(d['ops'][0]))


@op('fcmp')
def _(self, ins, d):
    a, b = (num(self, self.val(x)) for x in d['ops'])
    p = d['pred']
    if self.nans and p in ('ord', 'uno', 'ueq', 'one'):
        u = X.c_or(X.fpclass(a, 3), X.fpclass(b, 3))
        if p == 'ord' or p == 'uno':
            return X.c_not(u) if p == 'ord' else u
        return X.c_or(u, X.eq(a, b)) if p == 'ueq' else X.c_and(X.c_not(u), X.c_not(X.eq(a, b)))
    if p == 'true' or p == 'ord':
        return True
    if p == 'false' or p == 'uno':
        return False
    return {'ogt': lambda: X.lt(b, a), 'olt': lambda: X.lt(a, b), 'oge': lambda: X.le(b, a), 'ole': lambda: X.le(a, b),
            'ult': lambda: X.c_not(X.le(b, a)), 'ugt': lambda: X.c_not(X.le(a, b)),
            'ule': lambda: X.c_not(X.lt(b, a)), 'uge': lambda: X.c_not(X.lt(a, b)),
            'oeq': lambda: X.eq(a, b), 'une': lambda: X.c_not(X.eq(a, b)), 'ueq': lambda: X.eq(a, b),
            'one': lambda: X.c_not(X.eq(a, b))}[p]()


def _arith(name):
    def f(self, ins, d):
        o = d['ops']
        a, b = self.val(o[0]), self.val(o[1])
        w = d.get('_w')
        if w is None:
            w = d['_w'] = ibits(ins.t) or 0
        if type(a) is int and type(b) is int:
            if name == 'add':
                return (a + b) & ((1 << w) - 1)
            if name == 'sub':
                return (a - b) & ((1 << w) - 1)
            if name == 'mul':
                return (a * b) & ((1 << w) - 1)
            r = X.iop(name, w, a, b)
            if r is None:
                self.ev('div0' if 'div' in name or 'rem' in name else 'shift', ins, (a, b))
                return X.mk('undef', 'arith')
            return r
        if w == 1:
            a, b = self.bool(a), self.bool(b)
            if name == 'and':
                return X.c_and(a, b)
            if name == 'or':
                return X.c_or(a, b)
            if name in ('xor', 'add', 'sub'):
                return X.c_or(X.c_and(a, X.c_not(b)), X.c_and(X.c_not(a), b))
        if a is True or a is False:
            a = int(a)
        if b is True or b is False:
            b = int(b)
        if type(a) is Pt or type(b) is Pt:
            # pointer differences and integer forms of pointers
            if name == 'sub' and type(a) is Pt and type(b) is Pt and a.o is b.o:
                return (a.f - b.f) & ((1 << w) - 1)
            if name == 'sub' and type(a) is Pt and type(b) is int:
                return Pt(a.o, a.f - X.iop('sext', w, b, 0))
            if name == 'add':
                p, q = (a, b) if type(a) is Pt else (b, a)
                if type(q) is int:
                    return Pt(p.o, p.f + X.iop('sext', w, q, 0))
            return X.mk('opq', 'ptrarith')
        if ispt(a) or ispt(b) or type(a) is tuple or type(b) is tuple:
            return X.mk('opq', 'ptrarith')
        if type(b) is int:
            if b == 0 and name in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 1 and name in ('mul', 'udiv', 'sdiv'):
                return a
            if b == 0 and name in ('mul', 'and'):
                return 0
            if name == 'and' and b & (b + 1) == 0:
                r = urange(a)
                if r is not None and r[1] <= b:
                    return a
        if type(a) is int and a == 0 and name in ('add', 'or', 'xor'):
            return b
        # conditional integers stay conditional
        for x, y, left in ((a, b, True), (b, a, False)):
            if type(x) is T and x.k == 'sel' and type(y) is int and x.a[1].k == 'c' and x.a[2].k == 'c':
                t = [X.iop(name, w, *((int(z.a[0]), y) if left else (y, int(z.a[0])))) for z in x.a[1:]]
                if None not in t:
                    return X.sel(x.a[0], X.const(t[0]), X.const(t[1]))
        return X.mk('iop', name, w, X.lift(a), X.lift(b))
    return f


for _n in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
    DISPATCH[_n] = _arith(_n)


@op('icmp')
def _(self, ins, d):
    a, b = (self.val(x) for x in d['ops'])
    p = d['pred']
    w = d.get('_w')
    if w is None:
        w = d['_w'] = ibits(d.get('ot', 'i64')) or 64
    if type(a) is int and type(b) is int:
        return X.icmp(p, w, a, b)
    if ispt(a) or ispt(b):
        return self.ptrcmp(p, a, b, ins)
    return self.icmp_t(p, w, a, b)


def ptrcmp(self, p, a, b, ins):
    if type(a) is int:
        a = NULL if a == 0 else Pt(Obj('int', 'ext', None), a)
    if type(b) is int:
        b = NULL if b == 0 else Pt(Obj('int', 'ext', None), b)
    if type(a) is PS:
        x, y = ptrcmp(self, p, a.a, b, ins), ptrcmp(self, p, a.b, b, ins)
        return X.c_or(X.c_and(a.c, x), X.c_and(X.c_not(a.c), y))
    if type(b) is PS:
        x, y = ptrcmp(self, p, a, b.a, ins), ptrcmp(self, p, a, b.b, ins)
        return X.c_or(X.c_and(b.c, x), X.c_and(X.c_not(b.c), y))
    if type(a) is not Pt or type(b) is not Pt:
        return X.mk('opq', 'ptrcmp', ins.i, cond=True)
    if a.o is b.o:
        if type(a.f) is int and type(b.f) is int:
            return X.icmp(p if p in ('eq', 'ne') else 's' + p[1:], 64, a.f, b.f)
        return X.mk('opq', 'ptrcmp', ins.i, cond=True)
    if 'ext' in (a.o.kind, b.o.kind):
        return X.mk('opq', 'ptrcmp', a.o.name, b.o.name, cond=True) if p == 'eq' else \
            X.c_not(X.mk('opq', 'ptrcmp', a.o.name, b.o.name, cond=True)) if p == 'ne' else X.mk('opq', 'ptrcmp', ins.i, cond=True)
    if p == 'eq':
        return False
    if p == 'ne':
        return True
    # ordering of different objects: by allocation, only for termination tests
    return X.mk('opq', 'ptrcmp', ins.i, cond=True)


Flow.ptrcmp = ptrcmp


@op('alloca')
def _(self, ins, d):
    n = self.val(d['ops'][0])
    o = Obj('local@%s' % ins.where(), 'alloca', n * d['esz'] if type(n) is int else None)
    o.ins = ins
    self.locals.append(o)
    return Pt(o)


@op('getelementptr')
def _(self, ins, d):
    p = self.val(d['ops'][0])
    if not d.get('gepok'):
        raise Undecided('address computation at ' + ins.where())
    off = d['coff']
    for v in d['var']:
        x = self.val(v['v'])
        if type(x) is int:
            w = v.get('_w')
            if w is None:
                o = v['v']
                w = 64
                if o['k'] == 'v':
                    df = self.fn.defs.get(o['i'])
                    t = df.t if df is not None else next((a['t'] for a in self.fn.args if a['i'] == o['i']), 'i64')
                    w = ibits(t) or 64
                v['_w'] = w
            if x >> (w - 1):
                x -= 1 << w
            off += x * v['s']
        elif x is True or x is False:
            off += (-1 if x else 0) * v['s']
        else:
            if type(x) is T and x.k == 'sel' and x.a[1].k == 'c' and x.a[2].k == 'c':
                rest = dict(d, var=[])
                r = [padd(p, off + int(z.a[0]) * v['s']) for z in x.a[1:]]
                if len(d['var']) == 1:
                    return psel(x.a[0], r[0], r[1])
            self.und('address depends on data', ins)
            return Pt(Obj('unknown', 'ext', None))
    return padd(p, off)


def padd(p, off):
    if type(p) is Pt:
        if off == 0:
            return p
        return Pt(p.o, p.f + off)
    if type(p) is PS:
        return PS(p.c, padd(p.a, off), padd(p.b, off))
    if type(p) is int:
        return Pt(NULLO, off) if p == 0 else Pt(Obj('int', 'ext', None), p)
    return Pt(Obj('unknown', 'ext', None))


@op('load')
def _(self, ins, d):
    return self.load(self.val(d['ops'][0]), d['sz'], ins.t, ins)


@op('store')
def _(self, ins, d):
    o = d['ops']
    v = self.val(o[0])
    if v is True or v is False:
        v = int(v)
    self.store(self.val(o[1]), v, d['sz'], ins)
    return None


@op('zext')
def _(self, ins, d):
    v = self.val(d['ops'][0])
    if v is True or v is False:
        return int(v)
    if type(v) is T and v.cond:
        return X.sel(v, X.const(1), X.const(0))
    return v


@op('sext')
def _(self, ins, d):
    v = self.val(d['ops'][0])
    w = ibits(ins.t)
    M = (1 << w) - 1
    if v is True or v is False:
        return M if v else 0
    s = ibits(d['st'])
    if type(v) is int:
        return (v - (1 << s) if v >> (s - 1) else v) & M
    if type(v) is T and v.cond:
        return X.sel(v, X.const(M), X.const(0))
    if type(v) is T:
        r = urange(v)
        if r is not None and r[1] < 1 << (s - 1):
            return v
        return X.mk('iop', 'sext', s, v, X.const(0))
    return v


@op('trunc')
def _(self, ins, d):
    v = self.val(d['ops'][0])
    w = ibits(ins.t)
    if type(v) is int:
        return (v & 1 == 1) if w == 1 else v & ((1 << w) - 1)
    if w == 1:
        return self.bool(v)
    if type(v) is T:
        if v.k == 'sel' and v.a[1].k == 'c' and v.a[2].k == 'c':
            return X.sel(v.a[0], X.const(int(v.a[1].a[0]) & ((1 << w) - 1)), X.const(int(v.a[2].a[0]) & ((1 << w) - 1)))
        r = urange(v)
        if r is not None and r[1] < 1 << w:
            return v
        return X.mk('iop', 'and', 64, v, X.const((1 << w) - 1))
    return v


@op('uitofp', 'sitofp')
def _(self, ins, d):
    v = self.val(d['ops'][0])
    w = ibits(d['st'])
    if v is True or v is False:
        return X.const(int(v) if ins.op == 'uitofp' else -int(v))
    if type(v) is int:
        if ins.op == 'sitofp' and v >> (w - 1):
            v -= 1 << w
        return X.const(float(v))
    if type(v) is T and v.cond:
        return X.sel(v, X.const(1), X.const(0))
    if type(v) is T and v.k == 'sel' and v.a[1].k == 'c' and v.a[2].k == 'c':
        return v
    if type(v) is T:
        r = urange(v)
        if r is not None and r[1] < 1 << (w - 1):
            return X.mk('itofp', 64, False, v)
        return X.mk('itofp', w, ins.op == 'sitofp', v)
    return X.mk('opq', 'itofp')


@op('fptoui', 'fptosi')
def _(self, ins, d):
    v = num(self, self.val(d['ops'][0]))
    w = ibits(ins.t)
    if v.k == 'c' and v.a[0] == v.a[0] and abs(v.a[0]) < 2 ** 62:
        return int(v.a[0]) & ((1 << w) - 1)
    if v.k == 'itofp':
        return v.a[2]
    return X.mk('fptoi', w, v)


@op('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast')
def _(self, ins, d):
    v = self.val(d['ops'][0])
    if ins.op == 'bitcast':
        return self.coerce(v, ins.t)
    if ins.op == 'inttoptr' and type(v) is int:
        return NULL if v == 0 else Pt(Obj('int', 'ext', None), v)
    return v


@op('select')
def _(self, ins, d):
    c = self.bool(self.val(d['ops'][0]))
    if c is True:
        return self.val(d['ops'][1])
    if c is False:
        return self.val(d['ops'][2])
    return merge(c, self.val(d['ops'][1]), self.val(d['ops'][2]))


@op('extractvalue')
def _(self, ins, d):
    v = self.val(d['ops'][0])
    if type(v) is tuple and d['idx'][0] < len(v):
        return v[d['idx'][0]]
    return self.opq(ins.t, ins)


@op('insertvalue')
def _(self, ins, d):
    return X.mk('opq', 'insertvalue')


@op('fence')
def _(self, ins, d):
    return None


def benign(c, dm):
    return ('ostream' in dm or 'std::allocator<char>::' in dm or 'std::endl' in dm or 'std::flush' in dm or 'std::ios_base' in dm or
            c in ('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fflush', 'perror', 'putc', 'fwrite', '__cxa_atexit',
                  'assert', 'strlen', 'getenv', '__cxa_free_exception', '_ZSt9terminatev_'))


@op('call')
def _(self, ins, d):
    c = d.get('callee')
    ops = d.get('ops', [])
    if c is None:
        p = self.val(d['indirect']) if d.get('indirect') else None
        n = p.o.name[8:] if type(p) is Pt and p.o.kind == 'func' and p.f == 0 else None
        if n is not None and (n in self.hooks or self.callable(n)):
            c = n
        else:
            raise Undecided('indirect call at ' + ins.where())
    h = self.hooks.get(c)
    if h is not None:
        return h(self, ins, d)
    e = self.callable(c)
    if e is not None:
        return self.enter(e, ops, ins)
    if c in PURE:
        n = PURE[c]
        vs = [num(self, self.val(o)) for o in ops[:2 if n == 'pow' else 1]]
        if n == 'abs' and not ftype(ins.t):
            w = ibits(ins.t)
            v = self.val(ops[0])
            if type(v) is int:
                return (1 << w) - v if v >> (w - 1) else v
            return X.mk('opq', 'iabs')
        return X.fn(n, *vs)
    if c.startswith('llvm.'):
        return intrinsic(self, c, ins, d, ops)
    if c in ALLOC_NEW or c in ('malloc', 'calloc', 'realloc', 'aligned_alloc'):
        n = self.val(ops[1 if c in ('aligned_alloc', 'realloc') else 0])
        if c == 'calloc':
            n = n * self.val(ops[1])
        if type(n) is not int:
            self.und('allocation of a size that depends on data', ins)
            n = None
        elif n > self.memory:
            if c in ALLOC_NEW and not c.endswith('nothrow_t'):
                self.ev('die', ins, ('bad_alloc', 1))
                return STOP
            return NULL
        o = Obj('new@%s' % ins.where(), 'new', n)
        o.ins = ins
        o.akind = 'malloc' if c in ('malloc', 'calloc', 'aligned_alloc', 'realloc') else 'new[]' if c.startswith('_Zna') else 'new'
        self.ev('alloc', ins, o)
        if c == 'calloc':
            self.fill(Pt(o), 0, n, ins)
        if c == 'realloc':
            p = self.val(ops[0])
            if type(p) is not Pt:
                raise Undecided('realloc of an unknown pointer at ' + ins.where())
            if p.o.kind != 'null':
                if n is None or p.o.size is None:
                    raise Undecided('realloc of an unknown size')
                if p.o not in self.freed and min(n, p.o.size):
                    self.copy(Pt(o), p, min(n, p.o.size), ins)
                free(self, p, 'free', ins)
        return Pt(o)
    if c in FREE:
        free(self, self.val(ops[0]), FREE[c], ins)
        return None
    if c in DIE or c.startswith('_ZSt') and '__throw' in c or c == '__cxa_throw' or d.get('noret'):
        self.ev('die', ins, (c, self.val(ops[0]) if c in ('exit', '_exit', 'quick_exit') and ops else 1))
        return STOP
    if c in ('memcpy', 'memmove'):
        p = self.val(ops[0])
        self.copy(p, self.val(ops[1]), self.val(ops[2]), ins)
        return p
    if c == 'memset':
        p = self.val(ops[0])
        self.fill(p, self.val(ops[1]), self.val(ops[2]), ins)
        return p
    dm = d.get('dem', '')
    if c in ('memcmp', 'bcmp'):
        a, b, n = (self.val(o) for o in ops[:3])
        if type(n) is int and type(a) is Pt and type(b) is Pt:
            ok1 = n == 0 or self.access('load', a, n, ins)
            ok2 = n == 0 or self.access('load', b, n, ins)
            if n == 0:
                return 0
            if ok1 and ok2:
                same = True
                for i in range(n - n % 4, n):
                    x = self.load(Pt(a.o, a.f + i), 1, 'i8', ins)
                    y = self.load(Pt(b.o, b.f + i), 1, 'i8', ins)
                    same = X.c_and(same, self.icmp_t('eq', 8, x, y) if type(x) is int or type(y) is int else X.eq(X.lift(x), X.lift(y)))
                for i in range(0, n - n % 4, 4):
                    x = self.load(Pt(a.o, a.f + i), 4, 'float' if a.o.lazy else 'i32', ins)
                    y = self.load(Pt(b.o, b.f + i), 4, 'float' if b.o.lazy else 'i32', ins)
                    e = self.icmp_t('eq', 32, x, y) if type(x) is int or type(y) is int else X.eq(X.lift(x), X.lift(y))
                    same = X.c_and(same, e)
                if same is True:
                    return 0
                if same is False:
                    return 1
                return X.sel(same, X.const(0), X.const(1))
        return X.mk('opq', 'memcmp', ins.i)
    if benign(c, dm):
        return self.opq(ins.t, ins) if ins.t != 'void' else None
    if 'basic_string' in dm or 'std::__cxx11' in dm or 'to_string' in dm or 'std::to_chars' in dm or 'std::char_traits' in dm:
        for o in ops:
            if o['k'] == 'v':
                p = self.val(o)
                if type(p) is Pt and p.o.kind in ('alloca', 'new'):
                    string_touch(self, p)
        self.ev('string', ins, dm)
        return self.opq(ins.t, ins) if ins.t != 'void' else None
    args = [self.val(o) for o in ops]
    self.ev('call', ins, (c, args))
    self.und('call of ' + (dm or c), ins)
    if not d.get('ro'):
        for a in args:
            self.kill(a)
    return self.opq(ins.t, ins) if ins.t != 'void' else None


def string_touch(self, p):
    m = self.layers[-1].setdefault(p.o, {})
    p.o.grans.add(8)
    for o in range(0, 32, 8):
        if p.o.size is not None and p.f + o + 8 > p.o.size:
            break
        m[p.f + o] = (8, X.mk('opq', 'string'))


def free(self, p, kind, ins):
    if type(p) is PS:
        for c, q in ((p.c, p.a), (X.c_not(p.c), p.b)):
            self.pc.append(c)
            free(self, q, kind, ins)
            self.pc.pop()
        return
    if type(p) is int or (type(p) is Pt and p.o.kind == 'null'):
        return
    if type(p) is not Pt:
        self.und('release of an unknown pointer', ins)
        return
    o = p.o
    if o.kind == 'ext' and o.name in ('unknown',):
        self.und('release of an unknown pointer', ins)
        return
    self.ev('free', ins, (o, p.f, kind))
    if o in self.freed:
        self.ev('double-free' if self.freed[o] != 'maybe' else 'maybe-double-free', ins, o)
    elif o.kind in ('alloca', 'global'):
        self.ev('bad-free', ins, o)
    elif o.kind == 'new':
        if p.f != 0:
            self.ev('bad-free', ins, o)
        elif o.akind != {'free': 'malloc', 'delete': 'new', 'delete[]': 'new[]'}[kind]:
            self.ev('mismatched-free', ins, (o, o.akind, kind))
    self.freed[o] = 'yes'


def intrinsic(self, c, ins, d, ops):
    if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
        self.copy(self.val(ops[0]), self.val(ops[1]), self.val(ops[2]), ins)
        return None
    if c.startswith('llvm.memset'):
        self.fill(self.val(ops[0]), self.val(ops[1]), self.val(ops[2]), ins)
        return None
    if '.with.overflow' in c:
        a, b = self.val(ops[0]), self.val(ops[1])
        w = int(re.search(r'\.i(\d+)', c).group(1))
        if type(a) is int and type(b) is int:
            M = (1 << w) - 1
            if '.s' in c.split('with')[0]:
                f = lambda x: x - (1 << w) if x >> (w - 1) else x
                a, b = f(a), f(b)
                r = a * b if 'mul' in c else a + b if 'add' in c else a - b
                return (r & M, not -(1 << (w - 1)) <= r < (1 << (w - 1)))
            r = a * b if 'mul' in c else a + b if 'add' in c else a - b
            return (r & M, not 0 <= r <= M)
        self.und('size computation depends on data', ins)
        return (X.mk('opq', 'ovf'), False)
    if re.match(r'llvm\.(umax|umin|smax|smin)', c):
        a, b = self.val(ops[0]), self.val(ops[1])
        w = ibits(ins.t) or 32
        k = ('u' if c[5] == 'u' else 's')
        lt = self.icmp_t(k + 'lt', w, a, b)
        return merge(lt, b if 'max' in c else a, a if 'max' in c else b) if type(lt) is T else \
            ((b if lt else a) if 'max' in c else (a if lt else b))
    if c.startswith(('llvm.maxnum', 'llvm.maximum')):
        return X.maximum(num(self, self.val(ops[0])), num(self, self.val(ops[1])))
    if c.startswith(('llvm.minnum', 'llvm.minimum')):
        return X.minimum(num(self, self.val(ops[0])), num(self, self.val(ops[1])))
    if c.startswith('llvm.abs'):
        v = self.val(ops[0])
        w = ibits(ins.t)
        if type(v) is int:
            return (1 << w) - v if v >> (w - 1) else v
        return X.mk('opq', 'iabs')
    if c.startswith('llvm.fmuladd') or c.startswith('llvm.fma'):
        a, b, e = (num(self, self.val(o)) for o in ops)
        return X.add(X.mul(a, b), e)
    if c.startswith('llvm.copysign'):
        a, b = (num(self, self.val(o)) for o in ops)
        return X.sel(X.lt(b, X.const(0)), X.neg(X.fn('abs', a)), X.fn('abs', a))
    if c.startswith('llvm.bswap'):
        v = self.val(ops[0])
        w = ibits(ins.t)
        if type(v) is int:
            return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
        return X.fn('bswap%d' % w, v)
    if c.startswith('llvm.objectsize'):
        return (1 << (ibits(ins.t) or 64)) - 1
    if c.startswith('llvm.stacksave'):
        return Pt(Obj('stack', 'ext', None))
    if c.startswith(('llvm.assume', 'llvm.stackrestore', 'llvm.lifetime', 'llvm.invariant', 'llvm.prefetch')):
        return None
    if c.startswith('llvm.trap'):
        self.ev('die', ins, (c, 1))
        return STOP
    if c.startswith('llvm.expect') or c.startswith('llvm.launder') or c.startswith('llvm.strip'):
        return self.val(ops[0])
    if c.startswith('llvm.is.constant'):
        return False
    if c.startswith('llvm.rint') or c.startswith('llvm.nearbyint'):
        return X.fn('rint', num(self, self.val(ops[0])))
    if c.startswith('llvm.trunc'):
        return X.fn('trunc', num(self, self.val(ops[0])))
    if c.startswith('llvm.fshl'):
        a, b, s = (self.val(o) for o in ops)
        w = ibits(ins.t)
        if type(a) is int and type(b) is int and type(s) is int:
            s %= w
            return ((a << s) | (b >> (w - s))) & ((1 << w) - 1) if s else a
        return X.mk('opq', 'fshl', ins.i)
    if c.startswith('llvm.is.fpclass'):
        v, mask = num(self, self.val(ops[0])), self.val(ops[1])
        return X.fpclass(v, mask & 1023) if type(mask) is int else X.mk('opq', 'fpclass', ins.i, cond=True)
    raise Undecided('intrinsic %s at %s' % (c, ins.where()))
