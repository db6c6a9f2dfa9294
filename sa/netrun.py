"""Whole-program flow of a generated network: the functions of the network's unit and of the library are entered where they are called, virtual
calls through the table the object's constructor stored."""
from .flow import *
from .flow import STOP
from . import term as X


class NetFlow(Flow):
    DEPTH = 60

    def __init__(self, lib, libs, root, steps=30000000):
        """lib: the module of the network; libs: further modules in which names are looked up"""
        self.libs = [lib] + list(libs)
        self.cur = lib
        super().__init__(lib, root, steps)
        self.start_state = True
        self.depth = 0
        self.found = {}
        self.gd = {}
        self.entered = set()

    def lookup(self, n):
        if n not in self.found:
            r = None
            names = [n] + [n.replace(a, b) for a, b in (('C1E', 'C2E'), ('D1E', 'D2E')) if a in n]
            for k in names:
                for L in self.libs:
                    if k in L.mod.fns:
                        r = (L, L.root(k))
                        break
                if r:
                    break
            self.found[n] = r
        return self.found[n]

    def callable(self, n):
        return self.lookup(n)

    def enter(self, e, ops, ins):
        if self.depth >= self.DEPTH:
            raise Undecided('depth of calls at ' + ins.where())
        L, d = e
        vals = [self.val(o) for o in ops]
        sv = (self.d, self.fn, self.env, self.mod, self.cur, self.locals)
        self.d, self.fn, self.env, self.mod, self.cur, self.locals = d, d.fn, {}, L.mod, L, []
        self.entered.add(d.fn.name)
        for a, v in zip(d.fn.args, vals):
            self.env[a['i']] = v
        self.depth += 1
        try:
            r = self.walk(d.fn.entry, None, EXIT)
            for o in self.locals:
                self.freed[o] = 'yes'
        finally:
            self.depth -= 1
            self.d, self.fn, self.env, self.mod, self.cur, self.locals = sv
        if r is None:
            return STOP
        return r[1]

    def gobj(self, n):
        key = (id(self.mod), n) if n.startswith('.') else n
        o = self.globals.get(key)
        if o is None:
            g = {}
            if n[0] != '@':
                for L in ([self.cur] if n.startswith('.') else self.libs):
                    h = L.mod.globals.get(n)
                    if h and ('hex' in h or not g):
                        g = h
                        if 'hex' in h:
                            break
            o = Obj('global ' + n, 'global' if n[0] != '@' else 'func', g.get('size'))
            self.globals[key] = o
            self.gd[o] = g
        return o

    def gdata(self, o):
        return self.gd.get(o, {})
