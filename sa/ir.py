"""Loading of the extracted IR; control-flow graph, dominators, loops."""
import json


class Ins:
    __slots__ = ('i', 'op', 't', 'd', 'block')

    def __init__(self, d, b):
        self.i, self.op, self.t, self.d, self.block = d['i'], d['op'], d['t'], d, b

    def where(self):
        f = self.d.get('file', '?')
        for pre in ('/repo/',):
            if f.startswith(pre):
                f = f[len(pre):]
        return '%s:%s' % (f, self.d.get('line', '?'))

    def fn(self):
        return self.d.get('fn', '?')

    def __repr__(self):
        return '%%%d=%s@%s' % (self.i, self.op, self.where())


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.latches = []
        self.parent = None
        self.children = []
        self.depth = 0


class Fn:
    def __init__(self, d, mod):
        self.name = d['name']
        self.mod = mod
        self.args = d['args']
        self.blocks = {}
        self.order = []
        for b in d['blocks']:
            self.blocks[b['b']] = [Ins(x, b['b']) for x in b['ins']]
            self.order.append(b['b'])
        self.entry = self.order[0]
        self.defs = {i.i: i for b in self.blocks.values() for i in b}
        self.succ, self.pred = {}, {b: [] for b in self.order}
        for b in self.order:
            self.succ[b] = self._succs(self.blocks[b][-1]) if self.blocks[b] else []
        # blocks that can only end in abort/exit
        live = {b for b in self.order if self.blocks[b] and self.blocks[b][-1].op == 'ret'}
        rp = {b: set() for b in self.order}
        for b in self.order:
            for s in self.succ[b]:
                rp[s].add(b)
        work = list(live)
        while work:
            x = work.pop()
            for p in rp[x]:
                if p not in live:
                    live.add(p)
                    work.append(p)
        # blocks of loops without exit stay dead
        self.live = live
        for b in self.order:
            for s in self.succ[b]:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        self._reach()
        self._dom()
        self._loops()

    @staticmethod
    def _succs(t):
        if t.op == 'br':
            out = []
            for s in t.d['succ']:
                if s not in out:
                    out.append(s)
            return out
        if t.op == 'switch':
            out = [t.d['default']]
            for v, b in t.d['cases']:
                if b not in out:
                    out.append(b)
            return out
        return []

    def _reach(self):
        seen, st, post = set(), [(self.entry, iter(self.succ[self.entry]))], []
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}

    def _dom(self):
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while self.rpon[a] > self.rpon[c]:
                            a = idom[a]
                        while self.rpon[c] > self.rpon[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def _loops(self):
        loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.rpon and self.rpon[s] <= self.rpon[b]:
                    if self.dominates(s, b):
                        L = loops.setdefault(s, Loop(s))
                        L.latches.append(b)
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in L.blocks:
                                continue
                            L.blocks.add(x)
                            st.extend(p for p in self.pred[x] if p in self.rpon)
                    else:
                        self.irreducible = True
        ls = sorted(loops.values(), key=lambda L: len(L.blocks))
        for i, L in enumerate(ls):
            for M in ls[i + 1:]:
                if L.header in M.blocks and M is not L:
                    L.parent = M
                    M.children.append(L)
                    break
        for L in ls:
            d, p = 1, L.parent
            while p:
                d += 1
                p = p.parent
            L.depth = d
        self.loops = loops
        self.inner = {}
        for b in self.rpo:
            best = None
            for L in ls:
                if b in L.blocks:
                    best = L
                    break
            self.inner[b] = best


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {}
        for f in d['functions']:
            self.fns[f['name']] = f
        self.cache = {}
        self.globals = d['globals']
        self.types = d['types']
        self.calls = d['calls']
        self.where = d['where']
        self.vtables = d['vtables']

    def fn(self, name):
        if name not in self.cache:
            if name not in self.fns:
                raise KeyError('analysis root %s is missing' % name)
            self.cache[name] = Fn(self.fns[name], self)
        return self.cache[name]

    def field(self, cls, name, default):
        for n, o in self.types.get(cls, []):
            if n == name:
                return o
        return default
