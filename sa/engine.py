"""Value-flow engine: turns one analysis root (SSA, everything inlined) into a
closed-form summary: which locations it writes under which condition with
which value, which storage it obtains and gives back, where it aborts, and the
bound obligations of every access.  Loops are summarised from their recurrences
(induction variables, sums, maxima, memory accumulation); what is outside this
fragment is reported as incomplete, never guessed."""
import re
from . import sym as S
from .sym import *
from . import fold


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=ZERO):
        self.base, self.off = base, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off is o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return '&%s+%s' % (base_str(self.base), self.off)


class PSel:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PSel) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return '(%s ? %s : %s)' % (self.c, self.a, self.b)


NULLB = ('null',)
NULL = Ptr(NULLB)


def psel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    return PSel(c, a, b)


def vsel(c, a, b):
    if a is b:
        return a
    if isinstance(a, Cond) or isinstance(b, Cond):
        if not (isinstance(a, Cond) and isinstance(b, Cond)):
            a, b = to_cond(a), to_cond(b)
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, (Ptr, PSel)) or isinstance(b, (Ptr, PSel)):
        return psel(c, to_ptr(a), to_ptr(b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return A(atom('opq', ('agg',)))
    return mk_sel(c, a, b)


def to_cond(v):
    if isinstance(v, Cond):
        return v
    if isinstance(v, Poly):
        c = v.const()
        if c is not None:
            return B(c % 2 == 1)
        a = single_atom(v)
        if a is not None and a.kind == 'b2i':
            return a.args[0]
        return c_not(eq0(v))
    return opaque_cond(('opq', repr(v)))


def to_ptr(v):
    if isinstance(v, (Ptr, PSel)):
        return v
    if v is ZERO:
        return NULL
    return Ptr(('opq', v))


def b2i(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return A(atom('sel', c, ONE, ZERO, isint=True))


def subst_base(b, m):
    if isinstance(b, tuple):
        return tuple(subst_base(x, m) for x in b)
    if isinstance(b, Poly):
        return subst(b, m)
    if isinstance(b, Cond):
        return subst_c(b, m)
    return b


def base_free(b):
    fr = set()
    if isinstance(b, tuple):
        for x in b:
            fr |= base_free(x)
    elif isinstance(b, (Poly, Cond)):
        fr |= b.free
    return fr


def subst_v(v, m):
    if isinstance(v, Poly):
        return subst(v, m)
    if isinstance(v, Cond):
        return subst_c(v, m)
    if isinstance(v, Ptr):
        return Ptr(subst_base(v.base, m), subst(v.off, m))
    if isinstance(v, PSel):
        return psel(subst_c(v.c, m), subst_v(v.a, m), subst_v(v.b, m))
    if isinstance(v, tuple):
        return tuple(subst_v(x, m) for x in v)
    return v


def free_v(v):
    if isinstance(v, (Poly, Cond)):
        return v.free
    if isinstance(v, Ptr):
        return base_free(v.base) | v.off.free
    if isinstance(v, PSel):
        return v.c.free | free_v(v.a) | free_v(v.b)
    if isinstance(v, tuple):
        r = set()
        for x in v:
            r |= free_v(x)
        return r
    return frozenset()


def has_opaque(v):
    """does the value depend on something the engine gave up on?"""
    return _opq(v, {})


def _opq(v, memo):
    if isinstance(v, Poly):
        r = memo.get(v)
        if r is None:
            r = any(_opq_atom(a, memo) for a in v.atoms())
            memo[v] = r
        return r
    if isinstance(v, Cond):
        r = memo.get(v)
        if r is None:
            if v.kind == 'op':
                r = _opq(v.arg, memo) or v.arg[:1] == ('opq',)
            elif v.kind in ('and', 'or'):
                r = any(_opq(x, memo) for x in v.arg)
            elif v.kind == 'ex':
                r = _opq(v.arg[1], memo) or _opq(v.arg[2], memo)
            else:
                r = _opq(v.arg, memo)
            memo[v] = r
        return r
    if isinstance(v, Ptr):
        return _opq(v.base, memo) or _opq(v.off, memo)
    if isinstance(v, PSel):
        return _opq(v.c, memo) or _opq(v.a, memo) or _opq(v.b, memo)
    if isinstance(v, (tuple, frozenset)):
        if v and v[:1] == ('opq',) if isinstance(v, tuple) else False:
            return True
        return any(_opq(x, memo) for x in v)
    if isinstance(v, Atom):
        return _opq_atom(v, memo)
    return False


def _opq_atom(a, memo):
    if a.kind in ('opq', 'carry', 'undef'):
        return True
    if a.kind == 'sym':
        return isinstance(a.args[0], str) and a.args[0].startswith('phi@')
    return any(_opq(x, memo) for x in a.args)


class Upd:
    __slots__ = ('guard', 'iters', 'base', 'off', 'size', 'val', 'ins', 'kind', 'seq')

    def __init__(self, guard, iters, base, off, size, val, ins, kind='store'):
        self.guard, self.iters, self.base, self.off = guard, iters, base, off
        self.size, self.val, self.ins, self.kind = size, val, ins, kind
        self.seq = 0

    def __repr__(self):
        return '[%s] %s[%s] := %s  if %s  for %s' % (
            self.kind, base_str(self.base), self.off, self.val, self.guard, self.iters)


class Event:
    __slots__ = ('kind', 'guard', 'ins', 'data', 'order')

    def __init__(self, kind, guard, ins, data=None):
        self.kind, self.guard, self.ins, self.data = kind, guard, ins, data

    def __repr__(self):
        return '<%s %s if %s at %s>' % (self.kind, self.data, self.guard, self.ins and self.ins.where())


class LoopItem:
    __slots__ = ('k', 'n', 'items', 'ins')

    def __init__(self, k, n, items, ins):
        self.k, self.n, self.items, self.ins = k, n, items, ins


class Oblig:
    """an access: base[off .. off+size) must lie inside the object"""
    __slots__ = ('kind', 'base', 'off', 'size', 'pc', 'ins', 'iters')

    def __init__(self, kind, base, off, size, pc, ins, iters):
        self.kind, self.base, self.off, self.size = kind, base, off, size
        self.pc, self.ins, self.iters = pc, ins, iters


class Frame:
    def __init__(self, loop, k=None, pc=TRUE):
        self.loop, self.k, self.pc = loop, k, pc
        self.upds = {}
        self.trace = []
        self.prev = None
        self.seen_prev = set()
        self.allocs = set()
        self.tag = None
        self.obl = []

    def add(self, u):
        self.upds.setdefault(u.base, []).append(u)
        self.trace.append(u)


class Incomplete(Exception):
    pass


PURE = {
    'exp': 'exp', 'expf': 'exp', 'expl': 'exp', 'llvm.exp.f32': 'exp', 'llvm.exp.f64': 'exp', 'llvm.exp.f80': 'exp',
    'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'sqrtl': 'sqrt', 'llvm.sqrt.f32': 'sqrt', 'llvm.sqrt.f64': 'sqrt',
    'pow': 'pow', 'powf': 'pow', 'powl': 'pow', 'llvm.pow.f32': 'pow', 'llvm.pow.f64': 'pow',
    'tanh': 'tanh', 'tanhf': 'tanh', 'tanhl': 'tanh', 'log': 'log', 'logf': 'log', 'logl': 'log',
    'llvm.log.f32': 'log', 'llvm.log.f64': 'log',
    'fabs': 'abs', 'fabsf': 'abs', 'fabsl': 'abs', 'llvm.fabs.f32': 'abs', 'llvm.fabs.f64': 'abs', 'llvm.fabs.f80': 'abs',
    'abs': 'abs', 'labs': 'abs',
    'floor': 'floor', 'floorf': 'floor', 'ceil': 'ceil', 'ceilf': 'ceil', 'round': 'round', 'roundf': 'round',
    'llvm.floor.f32': 'floor', 'llvm.ceil.f32': 'ceil', 'llvm.floor.f64': 'floor', 'llvm.ceil.f64': 'ceil',
    'lround': 'round', 'lroundf': 'round', 'exp2': 'exp2', 'exp2f': 'exp2', 'cosh': 'cosh', 'sinh': 'sinh',
    'llvm.exp2.f32': 'exp2', 'sinhf': 'sinh', 'coshf': 'cosh', 'log1p': 'log1p', 'expm1': 'expm1', 'expm1f': 'expm1',
}
ALLOC_NEW = ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
FREE = {'_ZdlPv': 'delete', '_ZdlPvm': 'delete', '_ZdaPv': 'delete[]', '_ZdaPvm': 'delete[]', 'free': 'free'}
DIE = ('exit', '_exit', 'abort', '_ZSt9terminatev', 'quick_exit', '_ZSt17__throw_bad_allocv',
       '_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_out_of_rangePKc',
       '_ZSt24__throw_out_of_range_fmtPKcz', '__assert_fail', '_ZSt25__throw_bad_function_callv',
       '__cxa_pure_virtual', '__clang_call_terminate')


def ftype(t):
    return t in ('float', 'double', 'x86_fp80', 'half', 'fp128')


def ibits(t):
    m = re.match(r'i(\d+)$', t)
    return int(m.group(1)) if m else None


class Ctx:
    """shape contract and argument values for one analysis"""

    def __init__(self, args=None):
        self.args = args or {}
        self.mem = {}       # base -> {offset(int): value}
        self.size = {}      # base -> Poly bytes
        self.const_globals = {}
        self.name = ''

    def load(self, base, off, size, ty):
        m = self.mem.get(base)
        if m is not None:
            c = off.const()
            if c is not None and c in m:
                return m[c]
        return None


class Engine:
    def __init__(self, fn, ctx, max_steps=400000):
        self.fn, self.ctx = fn, ctx
        self.frames = []
        self.env = {}
        self.incomplete = []
        self.steps = 0
        self.max_steps = max_steps
        self.uninit = []
        self.unknown_calls = []
        self.assumed = set()
        self.ret = None
        self.stat = {'loads': 0, 'stores': 0, 'loops': 0, 'calls': 0}
        self.newcount = {}
        self.seq = 0
        self.kcount = 0
        self.light_bad = set()
        self.loopmemo = {}
        self.outer_ops = {}

    # ---------------------------------------------------------------- driver
    def run(self):
        f = self.fn
        if f.irreducible:
            self.incomplete.append(('irreducible control flow', None))
        for a in f.args:
            i = a['i']
            if i in self.ctx.args:
                self.env[i] = self.ctx.args[i]
            elif a['t'] == 'ptr':
                self.env[i] = Ptr(('arg', i))
            elif a['t'] == 'i1':
                self.env[i] = opaque_cond(('arg', i))
            else:
                self.env[i] = sym('arg%d' % i, isint=not ftype(a['t']))
        top = Frame(None)
        self.frames = [top]
        self.region(None, TRUE)
        self.top = top
        return self

    def giveup(self, why, ins=None):
        key = (why, ins.where() if ins is not None else None)
        if key not in self.incomplete:
            self.incomplete.append(key)

    def pc(self):
        return c_and(*[fr.pc for fr in self.frames])

    # ---------------------------------------------------------------- regions
    def region(self, L, entry_cond, header_done=False):
        """evaluate the blocks of loop L's body (or of the whole function)"""
        f = self.fn
        edge = {}
        reach = {}
        start = f.entry if L is None else L.header
        exits = []          # (block, target, cond, reach)
        order = [b for b in f.rpo if (L is None or b in L.blocks)]
        done_inner = set()
        fr = self.frames[-1]
        outer_pc = fr.pc
        for b in order:
            I = f.inner[b]
            if I is not L:
                # inside a child loop?
                ch = I
                while ch is not None and ch.parent is not L:
                    ch = ch.parent
                if ch is None or ch.header in done_inner:
                    continue
                if b != ch.header:
                    continue
                done_inner.add(ch.header)
                pre = [p for p in f.pred[b] if p not in ch.blocks and p in f.rpon and (p, b) in edge]
                r = c_or(*[edge[(p, b)] for p in pre])
                if r is FALSE:
                    continue
                reach[b] = r
                for (x, y, c) in self.loop(ch, r, pre, edge, outer_pc):
                    if L is not None and y not in L.blocks:
                        exits.append((x, y, c, r))
                    edge[(x, y)] = c_or(edge.get((x, y), FALSE), c)
                    reach[x] = r
                continue
            if b == start:
                r = entry_cond
            else:
                pre = [p for p in f.pred[b] if (p, b) in edge]
                r = c_or(*[edge[(p, b)] for p in pre])
            reach[b] = r
            if r is FALSE:
                continue
            fr.pc = r if L is not None else r
            if b not in f.live and b != start:
                # abort-only block
                t = [i for i in f.blocks[b] if i.op == 'call' and i.d.get('callee') in DIE]
                fr.trace.append(Event('die', r, (t or f.blocks[b])[0]))
                continue
            self.block(b, L, r, edge, exits, reach, start)
        fr.pc = outer_pc
        self._region_reach = reach
        return edge, reach, exits

    def block(self, b, L, r, edge, exits, reach, start):
        f = self.fn
        for ins in f.blocks[b]:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Incomplete('step budget')
            op = ins.op
            if op == 'phi':
                if b == start and L is not None:
                    continue       # header phis are set by loop()
                self.env[ins.i] = self.phi(ins, b, edge, reach)
            elif op in ('br', 'switch'):
                succ = f.succ[b]
                conds = self.branch_conds(ins)
                back = [s for s in succ if L is not None and s == L.header]
                live, ex, dead = [], [], []
                for s in succ:
                    if s not in f.live:
                        dead.append(s)
                    elif L is not None and s not in L.blocks:
                        ex.append(s)
                    else:
                        live.append(s)
                if L is not None and live and ex:
                    for s in ex:
                        exits.append((b, s, conds[s], r))
                    # body semantics: the exit is not taken
                    rest = c_or(*[conds[s] for s in live])
                    for s in live:
                        edge[(b, s)] = c_and(r, TRUE if len(live) == 1 else conds[s])
                elif L is not None and ex and not live:
                    for s in ex:
                        exits.append((b, s, conds[s], r))
                else:
                    if len(live) == 1 and dead:
                        edge[(b, live[0])] = r
                        for s in dead:
                            edge[(b, s)] = c_and(r, conds[s])
                        if c_and(r, conds[live[0]]) is FALSE:
                            edge[(b, live[0])] = FALSE
                        continue
                    for s in live:
                        edge[(b, s)] = c_and(r, conds[s])
                for s in dead:
                    edge[(b, s)] = c_and(r, conds[s])
            elif op == 'ret':
                ops = ins.d.get('ops', [])
                if ops:
                    v = self.val(ops[0])
                    self.ret = v if self.ret is None else vsel(r, v, self.ret)
            elif op == 'unreachable':
                pass
            else:
                v = self.instr(ins)
                if v is not None:
                    self.env[ins.i] = v

    def branch_conds(self, t):
        if t.op == 'br':
            if 'cond' not in t.d:
                return {t.d['succ'][0]: TRUE}
            c = to_cond(self.val(t.d['cond']))
            a, b = t.d['succ'][0], t.d['succ'][1]
            if a == b:
                return {a: TRUE}
            return {a: c, b: c_not(c)}
        v = self.val(t.d['cond'])
        res = {}
        rest = TRUE
        for cv, tgt in t.d['cases']:
            c = eq0(v - cv)
            res[tgt] = c_or(res.get(tgt, FALSE), c_and(rest, c))
            rest = c_and(rest, c_not(c))
        res[t.d['default']] = c_or(res.get(t.d['default'], FALSE), rest)
        return res

    def phi(self, ins, b, edge, reach):
        ent = []
        for x in ins.d['in']:
            e = edge.get((x['b'], b))
            if e is None or e is FALSE:
                continue
            ent.append((e, self.val(x['v'])))
        if not ent:
            return self.opq(ins, 'dead phi')
        rd = reach.get(self.fn.idom[b], TRUE)
        base = rd.arg if rd.kind == 'and' else frozenset([rd])
        v = ent[-1][1]
        for e, x in reversed(ent[:-1]):
            if e.kind == 'and':
                left = e.arg - base
                e = c_and(*left) if left else TRUE
            elif e in base:
                e = TRUE
            v = vsel(e, x, v)
        return v

    # ---------------------------------------------------------------- loops
    def loop(self, M, r, pre, edge, outer_pc):
        f = self.fn
        self.stat['loops'] += 1
        header = M.header
        hins = f.blocks[header]
        phis = [i for i in hins if i.op == 'phi']
        term = hins[-1]
        k = sym('k%d' % header)
        ka = single_atom(k)
        F = S.FACTS
        F.lo[ka] = 0
        F.hi.pop(ka, None)
        F.touch()
        start, latchv = {}, {}
        sedge = {(p, header): edge[(p, header)] for p in pre}
        for ph in phis:
            ent = [(sedge[(x['b'], header)], self.val(x['v'])) for x in ph.d['in'] if (x['b'], header) in sedge]
            v = ent[-1][1]
            for e, x in reversed(ent[:-1]):
                v = vsel(e, x, v)
            start[ph.i] = v
            latchv[ph.i] = [x for x in ph.d['in'] if x['b'] in M.blocks]
        saved_env = dict(self.env)
        solved = {}
        placeholder = {}
        for ph in phis:
            placeholder[ph.i] = self.placeholder(ph, start[ph.i])
        N = None
        prev = None
        result = None
        mkey = self.loop_key(M, phis, start)
        hit = self.loopmemo.get(header)
        if hit is not None and hit[0] == mkey:
            _, solved0, N, T, data_exit, exits0, prev = hit
            solved.update(solved0)
            F.set_hi(ka, T - 1)
        else:
            self.light_ivs(M, phis, start, latchv, solved, k)
        for pas in range(10):
            self.env = dict(saved_env)
            for ph in phis:
                self.env[ph.i] = solved.get(ph.i, placeholder[ph.i])
            fr = Frame(M, ka, c_and(TRUE))
            fr.prev = prev
            fr.tag = 'c%d' % header
            self.frames.append(fr)
            outer_fr = self.frames[-2]
            save_pc = outer_fr.pc
            outer_fr.pc = r
            inc_before = (list(self.incomplete), list(self.uninit), list(self.unknown_calls))
            try:
                ed, rc, exits = self.region(M, TRUE)
            finally:
                self.frames.pop()
                outer_fr.pc = save_pc
            nxt = {}
            for ph in phis:
                ent = []
                for x in latchv[ph.i]:
                    e = ed.get((x['b'], header), FALSE)
                    if e is not FALSE:
                        ent.append((e, self.val(x['v'])))
                if not ent:
                    nxt[ph.i] = self.env[ph.i]
                    continue
                v = ent[-1][1]
                for e, x in reversed(ent[:-1]):
                    v = vsel(e, x, v)
                nxt[ph.i] = v
            # verify / extend the induction variables
            changed = False
            for ph in phis:
                if ph.i in solved:
                    want = subst_v(solved[ph.i], {ka: k + 1})
                    if not (want == nxt[ph.i] if isinstance(want, (Ptr, PSel)) else want is nxt[ph.i]):
                        if self.same_mod_carry(want, nxt[ph.i]):
                            continue
                        del solved[ph.i]
                        self.light_bad.add(ph.i)
                        changed = True
                        N = None
            if changed and pas < 5:
                F.drop_hi(ka)
                self.incomplete, self.uninit, self.unknown_calls = [list(x) for x in inc_before]
                continue
            unsolved = [ph for ph in phis if ph.i not in solved]
            uns_atoms = {}
            for ph in unsolved:
                a = self.ph_atom(placeholder[ph.i])
                if a is not None:
                    uns_atoms[a] = ph.i
            newly = self.solve_ivs(unsolved, start, nxt, placeholder, uns_atoms, ka, k)
            if newly:
                solved.update(newly)
                N = None
                self.incomplete, self.uninit, self.unknown_calls = [list(x) for x in inc_before]
                continue
            # trip count
            if N is None:
                t = self.trip(M, exits, ka, k, fr)
                if t is None:
                    result = None
                    break
                N, T, data_exit = t
                exits0 = [e for e in exits if e[2] is not FALSE]
                F.set_hi(ka, T - 1)
                self.incomplete, self.uninit, self.unknown_calls = [list(x) for x in inc_before]
                # memory carried between iterations?
                prev = self.footprint(fr)
                continue
            fp = self.footprint(fr)
            if fr.seen_prev & set(fp) and not self.same_fp(prev, fp):
                prev = fp
                self.incomplete, self.uninit, self.unknown_calls = [list(x) for x in inc_before]
                continue
            result = (fr, ed, rc, exits, nxt)
            self.loopmemo[header] = (mkey, dict(solved), N, T, data_exit, exits0, prev)
            break
        if result is None:
            return self.loop_failed(M, r, phis, saved_env, fr, edge)
        fr, ed, rc, exits, nxt = result
        # reductions
        unsolved = [ph for ph in phis if ph.i not in solved]
        m = {}
        uns_atoms = {}
        for ph in unsolved:
            a = self.ph_atom(placeholder[ph.i])
            if a is not None:
                uns_atoms[a] = ph.i
        carr = self.solve_carries(fr, ka, k, uns_atoms)
        progress = True
        closed = {}
        while progress:
            progress = False
            for ph in unsolved:
                if ph.i in closed:
                    continue
                x = self.ph_atom(placeholder[ph.i])
                if x is None:
                    continue
                n = subst_v(nxt[ph.i], m)
                oth = {a for a in uns_atoms if a is not x and a not in m}
                cf = self.recurrence(x, start[ph.i], n, ka, k, oth, T)
                if cf is not None:
                    closed[ph.i] = cf
                    m[x] = cf
                    progress = True
        for ph in unsolved:
            if ph.i not in closed:
                x = self.ph_atom(placeholder[ph.i])
                self.giveup('recurrence not recognised', ph)
                o = self.opq(ph, 'recurrence')
                if x is not None:
                    m[x] = o if isinstance(o, Poly) else A(atom('opq', ('r', ph.i)))
                closed[ph.i] = o
        m.update(carr)
        mN = {ka: P(N)}
        # values visible after the loop
        for b in M.blocks:
            for ins in f.blocks[b]:
                if ins.i in self.env:
                    v = self.env[ins.i]
                    if ins.op == 'phi' and b == header:
                        v = solved.get(ins.i, closed.get(ins.i, v))
                    fv = free_v(v)
                    if fv & m.keys():
                        v = subst_v(v, m)
                    if ka in free_v(v):
                        v = subst_v(v, mN)
                    self.env[ins.i] = v
        # effects
        outer = self.frames[-1]
        items = [self.subst_item(x, m) for x in fr.trace]
        items = [x for x in items if x is not None]
        if items:
            outer.trace.append(LoopItem(ka, T, items, hins[0]))
        for base, us in fr.upds.items():
            for u in self.merge_updates([self.subst_item(u, m) for u in us]):
                self.export(outer, u, ka, k, T, r, m, carr)
        for ob in fr.obl:
            nb = Oblig(ob.kind, subst_base(ob.base, m), subst(ob.off, m), subst_v(ob.size, m), subst_c(ob.pc, m), ob.ins,
                       ob.iters + [(ka, T)])
            outer.obl.append(nb)
        # exits
        out = []
        if data_exit:
            fin = {(x, y): (c, rr) for (x, y, c, rr) in exits}
            data_exit = [(x, y) + fin.get((x, y), (FALSE, TRUE)) for (x, y, c, rr) in data_exit]
            ex_cond = FALSE
            for (x, y, c, rr) in data_exit:
                cc = subst_c(c_and(rr, c), m)
                ex_cond = c_or(ex_cond, exists(k, T, cc))
            for (x, y, c, rr) in data_exit:
                cc = exists(k, T, subst_c(c_and(rr, c), m))
                out.append((x, y, c_and(r, cc)))
            normal = [(x, y) for (x, y, c, rr) in exits0 if (x, y) not in [(d[0], d[1]) for d in data_exit]]
            for (x, y) in normal:
                out.append((x, y, c_and(r, c_not(ex_cond))))
        else:
            es = [(x, y) for (x, y, c, rr) in exits0]
            if len(set(y for x, y in es)) == 1 and len(es) == 1:
                out.append((es[0][0], es[0][1], r))
            else:
                # several exits to (hopefully) one block, same values
                tg = sorted(set(es))
                # which exit is taken first matters only if the targets differ
                if len({y for x, y in tg}) == 1 and self.same_exit_values(tg):
                    out.append((tg[0][0], tg[0][1], r))
                else:
                    rest = r
                    for (x, y) in tg[:-1]:
                        c = opaque_cond(('opq', 'exit', x, y))
                        out.append((x, y, c_and(rest, c)))
                        rest = c_and(rest, c_not(c))
                    out.append((tg[-1][0], tg[-1][1], rest))
        return out

    def same_exit_values(self, tg):
        y = tg[0][1]
        for ins in self.fn.blocks[y]:
            if ins.op != 'phi':
                break
            vals = []
            for x in ins.d['in']:
                if (x['b'], y) in tg:
                    vals.append(self.val(x['v']))
            for v in vals[1:]:
                if not (v is vals[0] or (isinstance(v, (Ptr, PSel)) and v == vals[0])):
                    return False
        return True

    def loop_key(self, M, phis, start):
        ops = self.outer_ops.get(M.header)
        if ops is None:
            ops = set()
            for b in M.blocks:
                for ins in self.fn.blocks[b]:
                    d = ins.d
                    vs = list(d.get('ops', ())) + [x['v'] for x in d.get('in', ())] + [x['v'] for x in d.get('var', ())]
                    if isinstance(d.get('cond'), dict):
                        vs.append(d['cond'])
                    for o in vs:
                        if o['k'] == 'v':
                            dd = self.fn.defs.get(o['i'])
                            if dd is None or dd.block not in M.blocks:
                                ops.add(o['i'])
            ops = self.outer_ops[M.header] = sorted(ops)
        return (tuple(start[p.i] for p in phis), tuple(self.env.get(i) for i in ops),
                tuple(S.FACTS.hi.get(fr.k) for fr in self.frames if fr.k is not None))

    def same_mod_carry(self, a, b):
        return False

    def placeholder(self, ph, st):
        name = 'phi@%d' % ph.i
        if ph.t == 'ptr':
            if isinstance(st, Ptr):
                return Ptr(st.base, sym(name))
            return Ptr(('opq', name))
        if ph.t == 'i1':
            return opaque_cond(('opq', name))
        return sym(name, isint=not ftype(ph.t))

    @staticmethod
    def ph_atom(p):
        if isinstance(p, Poly):
            return single_atom(p)
        if isinstance(p, Ptr) and p.base[0] != 'opq':
            return single_atom(p.off)
        return None

    def light_ivs(self, M, phis, start, latchv, solved, k):
        """structural induction variables: next = phi + loop-invariant"""
        f = self.fn
        for ph in phis:
            if ph.i in self.light_bad or ftype(ph.t) or len(latchv[ph.i]) != 1:
                continue
            o = latchv[ph.i][0]['v']
            if o['k'] != 'v':
                continue
            d = f.defs.get(o['i'])
            if d is None:
                continue
            if d.op in ('add', 'sub'):
                a, b = d.d['ops']
                if d.op == 'add' and b['k'] == 'v' and b['i'] == ph.i:
                    a, b = b, a
                if not (a['k'] == 'v' and a['i'] == ph.i):
                    continue
                st = self.light_val(b, M)
                if st is None:
                    continue
                if d.op == 'sub':
                    st = -st
                solved[ph.i] = start[ph.i] + st * k if isinstance(start[ph.i], Poly) else None
                if solved[ph.i] is None:
                    del solved[ph.i]
            elif d.op == 'getelementptr' and d.d.get('gepok') and not d.d['var']:
                a = d.d['ops'][0]
                if a['k'] == 'v' and a['i'] == ph.i and isinstance(start[ph.i], Ptr):
                    solved[ph.i] = Ptr(start[ph.i].base, start[ph.i].off + k * d.d['coff'])

    def light_val(self, o, M, depth=0):
        """value of an operand that cannot change inside M (checked later)"""
        if o['k'] == 'int':
            return P(int(o['v']))
        if o['k'] != 'v':
            return None
        d = self.fn.defs.get(o['i'])
        if d is None or d.block not in M.blocks:
            v = self.env.get(o['i'])
            return v if isinstance(v, Poly) else None
        if depth > 4:
            return None
        if d.op in ('zext', 'sext'):
            return self.light_val(d.d['ops'][0], M, depth + 1)
        if d.op == 'load' and not ftype(d.t) and d.t != 'ptr':
            p = self.light_ptr(d.d['ops'][0], M, depth + 1)
            if p is None:
                return None
            n_un = len(self.uninit)
            v = self.load_at(p.base, p.off, d.d['sz'], d.t, d, record=False)
            del self.uninit[n_un:]
            return v if isinstance(v, Poly) and not has_opaque(v) else None
        return None

    def light_ptr(self, o, M, depth):
        if o['k'] == 'v':
            d = self.fn.defs.get(o['i'])
            if d is None or d.block not in M.blocks:
                v = self.env.get(o['i'])
                return v if isinstance(v, Ptr) else None
            if depth > 5:
                return None
            if d.op == 'getelementptr' and d.d.get('gepok') and not d.d['var']:
                p = self.light_ptr(d.d['ops'][0], M, depth + 1)
                return Ptr(p.base, p.off + d.d['coff']) if p is not None else None
            if d.op == 'load' and d.t == 'ptr':
                p = self.light_ptr(d.d['ops'][0], M, depth + 1)
                if p is None:
                    return None
                n_un = len(self.uninit)
                v = self.load_at(p.base, p.off, 8, 'ptr', d, record=False)
                del self.uninit[n_un:]
                return v if isinstance(v, Ptr) and not has_opaque(v) else None
        return None

    def solve_ivs(self, unsolved, start, nxt, placeholder, uns_atoms, ka, k):
        """linear induction variables found from a full pass"""
        out = {}
        for ph in unsolved:
            x = self.ph_atom(placeholder[ph.i])
            n, s = nxt[ph.i], start[ph.i]
            if isinstance(n, (Ptr, PSel)):
                if n == s:
                    out[ph.i] = s
                    continue
                if not isinstance(n, Ptr) or not isinstance(s, Ptr) or x is None:
                    continue
                if n.base != s.base:
                    continue
                nn, ss = n.off, s.off
            else:
                nn, ss = n, s
            if isinstance(nn, Cond):
                if nn is ss:
                    out[ph.i] = s
                continue
            if nn is ss or (x is not None and nn is A(x)):
                out[ph.i] = s
                continue
            if ftype(ph.t) or x is None:
                continue
            c = nn - A(x)
            fr = c.free
            if x in fr:
                continue
            if any(a in fr for a in uns_atoms) or has_opaque(c):
                continue
            if ka in fr:
                continue
            v = ss + c * k
            out[ph.i] = Ptr(s.base, v) if isinstance(s, Ptr) else v
        if not out:
            # value of the previous iteration: x_k = e(k-1)
            for ph in unsolved:
                if ftype(ph.t):
                    continue
                x = self.ph_atom(placeholder[ph.i])
                n, s = nxt[ph.i], start[ph.i]
                if not isinstance(n, Poly) or not isinstance(s, Poly) or x is None:
                    continue
                if x in n.free or any(a in n.free for a in uns_atoms) or has_opaque(n):
                    continue
                if subst(n, {ka: P(-1)}) is s:
                    out[ph.i] = subst(n, {ka: k - 1})
        return out

    def recurrence(self, x, s, n, ka, k, others, T):
        """closed form of x_0 = s, x_{k+1} = n(x_k, k)"""
        if isinstance(n, (Ptr, PSel, Cond)) or isinstance(s, (Ptr, PSel, Cond)):
            return None
        xp = A(x)
        if any(o in n.free for o in others):
            return None
        if x not in n.free:
            if ka not in n.free:
                if n is s:
                    return s
                return mk_sel(eq0(k), s, n)
            prevv = subst(n, {ka: k - 1})
            if subst(n, {ka: P(-1)}) is s:
                return prevv
            return mk_sel(eq0(k), s, prevv)
        c = n - xp
        if x not in c.free:
            return s + self.sum_to(ka, k, c)
        a = single_atom(n)
        if a is not None and a.kind == 'max' and xp in a.args[0]:
            rest = [y for y in a.args[0] if y is not xp]
            if all(x not in y.free for y in rest):
                e = mk_max(*rest) if len(rest) > 1 else rest[0]
                return self.max_to(ka, k, s, e)
        if a is not None and a.kind == 'min' and xp in a.args[0]:
            rest = [y for y in a.args[0] if y is not xp]
            if all(x not in y.free for y in rest):
                e = mk_min(*rest) if len(rest) > 1 else rest[0]
                return -self.max_to(ka, k, -s, -e)
        if a is not None and a.kind == 'sel':
            cnd, p, q = a.args
            if x not in cnd.free:
                # first iteration special:  k == 0 ? p : q
                if cnd is eq0(k) or cnd is c_not(eq0(k)) or cnd is ge0(k - 1):
                    if cnd is not eq0(k):
                        p, q = q, p
                    p0 = subst(subst(p, {ka: ZERO}), {x: s})
                    if x not in p0.free:
                        e = q - xp
                        if x not in e.free:
                            # x_k = p0 + sum_{1<=j<k} e(j)   (k >= 1)
                            sh = subst(e, {ka: k + 1})
                            return mk_sel(eq0(k), s, p0 + subst(self.sum_to(ka, k, sh), {ka: k - 1}))
                # conditional accumulation
                dp, dq = p - xp, q - xp
                if x not in dp.free and x not in dq.free:
                    return s + self.sum_to(ka, k, mk_sel(cnd, dp, dq))
            else:
                # running maximum/minimum written as if (e > x) x = e
                pass
        return None

    @staticmethod
    def sum_to(ka, k, e):
        """sum_{j<k} e(j)"""
        t = fresh_bind()
        return mk_sum(t, k, subst(e, {ka: A(t)}))

    @staticmethod
    def max_to(ka, k, s, e):
        if ka not in e.free:
            return mk_max(s, e)
        t = fresh_bind()
        r = mk_maxr(t, k, subst(e, {ka: A(t)}))
        return mk_max(s, r)

    # trip count -------------------------------------------------------------
    def trip(self, M, exits, ka, k, fr):
        f = self.fn
        exits = [e for e in exits if e[2] is not FALSE]
        if not exits:
            self.giveup('no exit', f.blocks[M.header][0])
            return None
        ns = []
        data = []
        for (x, y, c, rr) in exits:
            n = None
            if rr is TRUE:
                n = self.threshold(c, ka, k)
            if n is None:
                data.append((x, y, c, rr))
            else:
                ns.append((x, n))
        eff = self.effect_blocks(M)
        xs = {x for x, y, c, rr in exits}
        before = self.blocks_before(M, xs)
        if data:
            if not ns or eff:
                self.giveup('exit condition not recognised', f.blocks[data[0][0]][-1])
                return None
            for (x, y, c, rr) in data:
                if has_opaque(c):
                    self.giveup('exit condition not recognised', f.blocks[x][-1])
                    return None
            N = self.minimum([n for _, n in ns])
            return N, N, data
        N = self.minimum([n for _, n in ns])
        if not (eff & before):
            return N, N, []
        if len(xs) == 1 and list(xs)[0] in M.latches:
            # everything happens before the single exit test at the bottom
            after = eff - before
            if not after:
                return N, N + 1, []
        if len(xs) == 1:
            x = list(xs)[0]
            if all(f.dominates(x, e) or e == x for e in (eff - before)) and not (eff - before):
                return N, N + 1, []
        self.giveup('effects on both sides of a loop exit', f.blocks[list(xs)[0]][-1])
        return None

    @staticmethod
    def minimum(ns):
        r = ns[0]
        for n in ns[1:]:
            r = mk_min(r, n)
        return r

    def effect_blocks(self, M):
        out = set()
        for b in M.blocks:
            if b not in self.fn.live:
                continue
            for i in self.fn.blocks[b]:
                if i.op == 'store':
                    out.add(b)
                elif i.op == 'call':
                    c = i.d.get('callee', '')
                    if c in PURE or i.d.get('ro') or self.benign_call(i):
                        continue
                    out.add(b)
        return out

    def blocks_before(self, M, xs):
        """blocks of M from which some exiting block is reachable in the same iteration (strictly before, or the
        exiting block itself since its effects precede its branch)"""
        out = set(xs)
        work = list(xs)
        while work:
            b = work.pop()
            if b == M.header:
                continue
            for p in self.fn.pred[b]:
                if p in M.blocks and p not in out:
                    out.add(p)
                    work.append(p)
        return out

    def threshold(self, c, ka, k):
        """least iteration at which c holds (c monotone in k), or None"""
        if c is TRUE:
            return ZERO
        if c.kind == 'ge' and c.arg.isint:
            if ka not in c.arg.free:
                return None
            # a min/max inside: floor or min of bounds
            a = None
            lr = lin_in(c.arg, ka)
            if lr is not None and ka not in lr[0].free and ka not in lr[1].free:
                co, r0 = lr
                if prove_ge0(co - 1):
                    n = ceildiv(-r0, co)
                    if prove_ge0(n):
                        return n
                    return mk_max(ZERO, n)
                return None
            # k >= max(..) forms:  p = k*co - max(...)
            return None
        if c.kind == 'eq':
            lr = lin_in(c.arg, ka)
            if lr is not None and ka not in lr[0].free and ka not in lr[1].free:
                co, r0 = lr
                if co is ZERO:
                    return None
                q, rem = poly_divmod(-r0, co)
                if rem is ZERO:
                    if not prove_ge0(q):
                        self.assumed.add('loop runs upward: %s >= 0' % q)
                    return q
            return None
        if c.kind == 'or':
            ns = [self.threshold(x, ka, k) for x in sorted(c.arg, key=lambda c: c.cid)]
            if any(n is None for n in ns):
                return None
            return self.minimum(ns)
        if c.kind == 'and':
            ns = [self.threshold(x, ka, k) for x in sorted(c.arg, key=lambda c: c.cid)]
            if any(n is None for n in ns):
                return None
            r = ns[0]
            for n in ns[1:]:
                r = mk_max(r, n)
            return r
        return None

    # memory carried by a loop --------------------------------------------------
    def footprint(self, fr):
        return {b: self.merge_updates(us) for b, us in fr.upds.items()}

    @staticmethod
    def same_fp(p, q):
        if p is None or set(p) != set(q):
            return False
        for b in p:
            x = {(u.off, u.guard, tuple(s for s, n in u.iters), u.kind) for u in p[b]}
            y = {(u.off, u.guard, tuple(s for s, n in u.iters), u.kind) for u in q[b]}
            if x != y:
                return False
        return True

    def merge_updates(self, us):
        """later stores to the very same location replace earlier ones"""
        out = []
        for u in us:
            if u.kind == 'store' and out:
                v = out[-1]
                hit = None
                for idx in range(len(out) - 1, -1, -1):
                    v = out[idx]
                    if v.kind == 'store' and v.size == u.size and (v.off is u.off and
                                                                 [s for s, n in v.iters] == [s for s, n in u.iters]):
                        hit = idx
                        break
                    al = self.align_iters(v, u) if v.kind == 'store' and v.size == u.size else None
                    if al is not None:
                        hit, u = idx, al
                        break
                    if not self.disjoint_simple(v, u):
                        break
                if hit is not None:
                    v = out[hit]
                    if u.guard is TRUE or implies(v.guard, u.guard):
                        out[hit] = Upd(u.guard, u.iters, u.base, u.off, u.size, u.val, u.ins)
                    else:
                        g = c_or(v.guard, u.guard)
                        out[hit] = Upd(g, u.iters, u.base, u.off, u.size, vsel(u.guard, u.val, v.val), u.ins)
                    continue
            out.append(u)
        return out

    @staticmethod
    def align_iters(v, u):
        """u rewritten with v's iteration variables when both sweep the same locations"""
        if len(v.iters) != len(u.iters) or not v.iters:
            return None
        vs = {s for s, n in v.iters}
        us = {s for s, n in u.iters}
        if vs == us:
            return None
        import itertools as it
        for perm in it.permutations(range(len(v.iters))):
            m = {u.iters[i][0]: A(v.iters[j][0]) for i, j in enumerate(perm)}
            if subst(u.off, m) is v.off:
                if all(subst(u.iters[i][1], m) is v.iters[j][1] for i, j in enumerate(perm)):
                    its = list(v.iters)
                    return Upd(subst_c(u.guard, m), its, u.base, v.off, u.size, subst_v(u.val, m), u.ins)
        return None

    @staticmethod
    def disjoint_simple(v, u):
        if v.kind != 'store' or v.off is None or u.off is None:
            return False
        d = u.off - v.off
        c = d.const()
        if c is not None and not v.iters and not u.iters:
            return c >= (v.size or 1) or -c >= (u.size or 1)
        if c_and(v.guard, u.guard) is FALSE and not v.iters and not u.iters:
            return True
        return False

    def solve_carries(self, fr, ka, k, uns):
        """substitution for the carry atoms created while evaluating this loop"""
        out = {}
        if fr.prev is None:
            return out
        self.carry_closed = getattr(self, 'carry_closed', {})
        for base in list(fr.upds):
            tag = single_atom(sym('carry@%s@%s' % (fr.tag, base_str(base))))
            us = self.merge_updates(fr.upds[base])
            used = any(tag in free_v(u.val) or tag in u.guard.free for us2 in fr.upds.values() for u in us2) or \
                any(tag in free_v(v) for v in self.env.values() if not isinstance(v, (int, float)))
            if not used:
                continue
            cf = None
            if len(us) == 1 and us[0].kind == 'store' and ka not in us[0].off.free and isinstance(us[0].val, Poly):
                u = us[0]
                at = atom('carry', tag, u.off, isint=False)
                x = sym('cx@%s@%s' % (fr.tag, base_str(base)), isint=False)
                xa = single_atom(x)

                def f(off, u=u, x=x, tag=tag):
                    return x if off is u.off else A(atom('opq', ('carry-mismatch',)))
                v = subst(u.val, {tag: f})
                g = subst_c(u.guard, {tag: f})
                n = mk_sel(g, v, x)
                init = self.load_at(base, u.off, u.size, 'float', u.ins, record=False)
                if isinstance(init, Poly) and not has_opaque(n):
                    cf = self.recurrence(xa, init, n, ka, k, set(uns), None)
                    if cf is not None and (xa in cf.free):
                        cf = None
            if cf is None:
                self.giveup('memory recurrence not recognised', us[0].ins)
                out[tag] = (lambda off, b=base: A(atom('opq', ('carry', b))))
                self.carry_closed[tag] = None
                continue
            u = us[0]
            its = [s for s, n in u.iters]

            def g(off, cf=cf, u=u, its=its):
                m = self.unify_off(u, off)
                if m is None:
                    return A(atom('opq', ('carry-mismatch',)))
                return subst(cf, m)
            out[tag] = g
            self.carry_closed[tag] = (cf, u)
            u2 = Upd(TRUE, u.iters, u.base, u.off, u.size, cf, u.ins)
            fr.carried = getattr(fr, 'carried', {})
            fr.carried[base] = u2
        return out

    def unify_off(self, u, off):
        if off is u.off:
            return {}
        r = self.solve_digits(u, off)
        if r is None:
            return None
        return r[0]

    def export(self, outer, u, ka, k, T, r, m, carr):
        """effect of a whole loop on the enclosing region"""
        base, off, val, guard = u.base, u.off, u.val, u.guard
        if u.kind == 'kill':
            outer.upds.setdefault(subst_base(base, {ka: T - 1}), []).append(
                Upd(TRUE, [], base, None, None, None, u.ins, 'kill'))
            return
        dep = ka in off.free or ka in base_free(base)
        frc = getattr(self, 'carry_closed', {})
        tag = single_atom(sym('carry@c%d@%s' % (int(ka.args[0][1:]), base_str(base))))
        if tag in frc and frc[tag] is not None and not dep:
            cf, cu = frc[tag]
            val = subst(cf, {ka: T})
            outer.upds.setdefault(base, []).append(Upd(self.loopguard(r, T), u.iters, base, off, u.size, val, u.ins))
            return
        if tag in frc and frc[tag] is None:
            outer.upds.setdefault(base, []).append(Upd(TRUE, [], base, None, None, None, u.ins, 'kill'))
            return
        if dep:
            outer.upds.setdefault(base, []).append(
                Upd(c_and(r, guard) if r is not TRUE else guard, u.iters + [(ka, T)], base, off, u.size, val, u.ins))
            return
        last = {ka: T - 1}
        if ka in guard.free:
            # some iteration writes the location
            g1 = subst_c(guard, last)
            if g1 is TRUE:
                guard = TRUE
            elif not (ka in free_v(val)):
                guard = exists(k, T, guard)
            else:
                outer.upds.setdefault(base, []).append(Upd(TRUE, [], base, None, None, None, u.ins, 'kill'))
                return
        its = [(s, subst(n, last)) for s, n in u.iters]
        outer.upds.setdefault(base, []).append(
            Upd(c_and(self.loopguard(r, T), guard), its, base, off, u.size, subst_v(val, last), u.ins))

    @staticmethod
    def loopguard(r, T):
        return c_and(r, gt0(T))

    def subst_item(self, x, m):
        if not m:
            return x
        if isinstance(x, Upd):
            if x.kind == 'kill':
                return x
            return Upd(subst_c(x.guard, m), [(s, subst(n, m)) for s, n in x.iters], subst_base(x.base, m),
                       subst(x.off, m), x.size, subst_v(x.val, m), x.ins, x.kind)
        if isinstance(x, Event):
            return Event(x.kind, subst_c(x.guard, m), x.ins, subst_v(x.data, m) if isinstance(x.data, (Ptr, PSel, Poly, Cond, tuple)) else x.data)
        if isinstance(x, LoopItem):
            return LoopItem(x.k, subst(x.n, m), [self.subst_item(y, m) for y in x.items], x.ins)
        return x

    def loop_failed(self, M, r, phis, saved_env, fr, edge):
        f = self.fn
        outer = self.frames[-1]
        if not self.incomplete:
            self.giveup('loop not summarised', f.blocks[M.header][0])
        self.giveup('loop not summarised', f.blocks[M.header][-1])
        for b in M.blocks:
            for ins in f.blocks[b]:
                if ins.i in self.env:
                    v = self.env[ins.i]
                    if free_v(v) & {fr.k} or ins.op == 'phi' or has_opaque(v):
                        self.env[ins.i] = self.opq(ins, 'loop')
        items = list(fr.trace)
        ev = Event('opaque-loop', r, f.blocks[M.header][0], None)
        outer.trace.append(ev)
        outer.trace.append(LoopItem(fr.k, A(atom('opq', ('trip', M.header), isint=True)), items, f.blocks[M.header][0]))
        for base, us in fr.upds.items():
            outer.upds.setdefault(base, []).append(Upd(TRUE, [], base, None, None, None, us[0].ins, 'kill'))
        out = []
        tg = sorted({(b, s) for b in M.blocks for s in f.succ[b] if s not in M.blocks and s in f.live})
        rest = r
        for (x, y) in tg[:-1]:
            c = opaque_cond(('opq', 'exit', x, y))
            out.append((x, y, c_and(rest, c)))
            rest = c_and(rest, c_not(c))
        if tg:
            out.append((tg[-1][0], tg[-1][1], rest))
        return out

    # ---------------------------------------------------------------- values
    def opq(self, ins, why):
        t = ins.t
        if t == 'ptr':
            return Ptr(('opq', ins.i, why))
        if t == 'i1':
            return opaque_cond(('opq', ins.i, why))
        return A(atom('opq', ins.i, why, isint=not ftype(t)))

    def val(self, o):
        k = o['k']
        if k == 'v':
            v = self.env.get(o['i'])
            if v is None:
                d = self.fn.defs.get(o['i'])
                if d is None:
                    return A(atom('opq', ('unset', o['i'])))
                return self.opq(d, 'unset')
            return v
        if k == 'int':
            if o['w'] == 1:
                return B(int(o['v']) != 0)
            return P(int(o['v']))
        if k == 'fp':
            s = o['v']
            if s == 'inf':
                return A(atom('fconst', 'inf'))
            if s == '-inf':
                return A(atom('fconst', '-inf'))
            if s == 'nan':
                return A(atom('fconst', 'nan'))
            fv = float.fromhex(s)
            # a single-precision constant written as a decimal: recover it
            if o['t'] == 'float':
                return P(_nice(fv))
            return P(_nice64(fv))
        if k == 'null' or k == 'zero':
            return NULL if k == 'null' else ZERO
        if k == 'undef':
            return A(atom('undef', 'u'))
        if k == 'global':
            return Ptr(('global', o['n']))
        if k == 'func':
            return Ptr(('func', o['n']))
        if k == 'constgep':
            p = self.val(o['b'])
            return Ptr(p.base, p.off + o['off'])
        return A(atom('opq', ('const', o.get('v', ''))))

    def num(self, o):
        v = self.val(o)
        if isinstance(v, Cond):
            return b2i(v)
        if isinstance(v, (Ptr, PSel)):
            return A(atom('p2i', v, isint=True))
        if isinstance(v, tuple):
            return A(atom('opq', ('agg',)))
        return v

    def instr(self, ins):
        op, d = ins.op, ins.d
        m = getattr(self, 'i_' + op, None)
        if m is not None:
            return m(ins, d)
        if op in ('fence',):
            return None
        self.giveup('instruction %s' % op, ins)
        return self.opq(ins, op) if ins.t != 'void' else None

    def i_alloca(self, ins, d):
        base = ('alloca', ins.i)
        n = self.num(d['ops'][0])
        self.ctx.size[base] = n * d['esz']
        self.frames[-1].allocs.add(base)
        return Ptr(base)

    def i_getelementptr(self, ins, d):
        p = to_ptr(self.val(d['ops'][0]))
        if not d.get('gepok'):
            return self.opq(ins, 'gep')
        off = P(d['coff'])
        for v in d['var']:
            off = off + self.num(v['v']) * v['s']
        return self.padd(p, off)

    def padd(self, p, off):
        if isinstance(p, PSel):
            return psel(p.c, self.padd(p.a, off), self.padd(p.b, off))
        return Ptr(p.base, p.off + off)

    def i_load(self, ins, d):
        self.stat['loads'] += 1
        p = to_ptr(self.val(d['ops'][0]))
        return self.load(p, d['sz'], ins.t, ins)

    def load(self, p, size, ty, ins):
        if isinstance(p, PSel):
            fr = self.frames[-1]
            save = fr.pc
            fr.pc = c_and(save, p.c)
            a = self.load(p.a, size, ty, ins)
            fr.pc = c_and(save, c_not(p.c))
            b = self.load(p.b, size, ty, ins)
            fr.pc = save
            return vsel(p.c, a, b)
        return self.load_at(p.base, p.off, size, ty, ins)

    def oblige(self, kind, p, size, ins):
        fr = self.frames[-1]
        fr.obl.append(Oblig(kind, p.base, p.off, P(size) if not isinstance(size, Poly) else size, fr.pc, ins, []))

    def load_at(self, base, off, size, ty, ins, record=True):
        if record:
            self.oblige('load', Ptr(base, off), size, ins)
        if base[0] == 'opq' or has_opaque(off):
            return self.opq_t(ty, ('ld', ins.i))
        conds = []
        val = None
        for fr in reversed(self.frames):
            us = fr.upds.get(base)
            stop = False
            if us:
                for u in reversed(us):
                    r = self.match(u, off, size)
                    if r == 'never':
                        continue
                    if r == 'maybe':
                        val = self.opq_t(ty, ('mem', ins.i))
                        stop = True
                        break
                    c, v = r
                    if c is TRUE:
                        val = v
                        stop = True
                        break
                    conds.append((c, v))
            if stop:
                break
            if base in fr.allocs:
                break
            if fr.loop is not None:
                fr.seen_prev.add(base)
                if fr.prev is not None and base in fr.prev:
                    r = self.match_prev(fr, fr.prev[base], base, off, size, ty)
                    if r == 'maybe':
                        val = self.opq_t(ty, ('prev', ins.i))
                        break
                    if r != 'never':
                        c, v = r
                        if c is TRUE:
                            val = v
                            break
                        conds.append((c, v))
        if val is None:
            val = self.initial(base, off, size, ty, ins, record)
        val = self.coerce(val, ty)
        for c, v in reversed(conds):
            val = vsel(c, self.coerce(v, ty), val)
        return val

    def coerce(self, v, ty):
        if ty == 'ptr':
            return to_ptr(v)
        if ty == 'i1':
            return to_cond(v)
        if isinstance(v, Cond):
            return b2i(v)
        if isinstance(v, (Ptr, PSel)) and ty != 'ptr':
            return A(atom('p2i', v, isint=True))
        return v

    def opq_t(self, ty, tag):
        if ty == 'ptr':
            return Ptr(('opq',) + tag)
        if ty == 'i1':
            return opaque_cond(('opq',) + tag)
        return A(atom('opq', tag, isint=not ftype(ty)))

    def initial(self, base, off, size, ty, ins, record):
        v = self.ctx.load(base, off, size, ty)
        if v is not None:
            return v
        k = base[0]
        if k in ('alloca', 'new'):
            if record:
                self.uninit.append((base, off, ins, self.pc()))
            if ty == 'ptr':
                return Ptr(('opq', 'uninit', ins.i))
            return A(atom('undef', base, off, isint=not ftype(ty)))
        if k == 'global':
            g = self.fn.mod.globals.get(base[1], {})
            c = off.const()
            if g.get('const') and 'hex' in g and c is not None and c % size == 0:
                raw = bytes.fromhex(g['hex'])
                arr = [int.from_bytes(raw[q:q + size], 'little') for q in range(0, len(raw) - size + 1, size)]
                esz = g['size'] // max(1, len(arr))
                if esz == size and 0 <= c // size < len(arr):
                    return P(arr[c // size])
        if ty == 'ptr':
            return Ptr(('ld', base, off))
        if ty == 'i1':
            return opaque_cond(('ldb', base, off))
        return A(atom('ld', base, off, size, isint=not ftype(ty)))

    def match(self, u, off, size):
        """does update u define the bytes [off, off+size)?"""
        if u.kind == 'kill':
            return 'maybe' if u.guard is not FALSE else 'never'
        g = u.guard
        if g is FALSE:
            return 'never'
        pc = self.frames[-1].pc
        if not u.iters:
            d = off - u.off
            c = d.const()
            if c is not None:
                if c == 0 and (size == u.size):
                    return (TRUE if g is TRUE or implies(pc, g) else g, u.val)
                if c >= u.size or -c >= size:
                    return 'never'
                if u.val is ZERO and 0 <= c and c + size <= u.size:
                    return (TRUE if g is TRUE or implies(pc, g) else g, ZERO)
                return 'maybe'
            if prove_ge0(d - u.size) or prove_ge0(-d - size):
                return 'never'
            if g is not TRUE and c_and(pc, g) is FALSE:
                return 'never'
            if size == u.size:
                return (c_and(g, eq0(d)), u.val)
            return 'maybe'
        r = self.solve_digits(u, off)
        if r is None:
            lo = subst_lo(u)
            return 'never' if self.range_disjoint(u, off, size) else 'maybe'
        if r == 'never':
            return 'never'
        m, conds = r
        if size != u.size and u.val is not ZERO:
            return 'maybe'
        g2 = subst_c(g, m)
        if g2 is not TRUE and implies(pc, g2):
            g2 = TRUE
        cs = []
        for c in conds:
            if c is TRUE or implies(pc, c):
                continue
            cs.append(c)
        c = c_and(g2, *cs)
        if c is FALSE or (c is not TRUE and c_and(pc, c) is FALSE):
            return 'never'
        return (c, subst_v(u.val, m))

    def range_disjoint(self, u, off, size):
        d = off - u.off
        # u.off over all iterations
        return prove_ge0(d - u.size) or prove_ge0(-d - size)

    def solve_digits(self, u, off):
        """iteration of u that writes byte offset off: (substitution, conditions) | 'never' | None"""
        iters = [(s, n) for s, n in u.iters]
        co = {}
        rest = u.off
        for s, n in iters:
            lr = lin_in(rest, s)
            if lr is None:
                return None
            c, rest = lr
            if any(t in c.free for t, _ in iters):
                return None
            co[s] = c
        live = [(s, n) for s, n in iters if co[s] is not ZERO]
        if len(live) != len(iters):
            # a loop variable that does not move the address: last one wins
            return None
        # order by stride
        order = []
        pool = list(live)
        while pool:
            big = None
            for s, n in pool:
                if all(t is s or prove_ge0(co[s] - co[t]) for t, _ in pool):
                    # prefer the one that is not merely equal
                    big = (s, n)
                    break
            if big is None:
                return None
            order.append(big)
            pool = [x for x in pool if x[0] is not big[0]]
        E = off - rest
        m, conds = {}, []
        for idx, (s, n) in enumerate(order):
            c = co[s]
            qr = poly_divmod(E, c)
            if qr is None:
                return None
            q, rem = qr
            low = ZERO
            for t, _ in order[idx + 1:]:
                low = low + co[t] * A(t)
            if idx == len(order) - 1:
                if rem is not ZERO:
                    k = rem.const()
                    if k is not None and u.size <= k < (c.const() or 0):
                        return 'never'
                    if k is not None and c.const() is not None and u.val is ZERO and 0 <= k < u.size:
                        pass
                    else:
                        return None
            else:
                # |low - rem| < c makes the digit unique
                if not (prove_ge0(c - 1 - (low - rem)) and prove_ge0(c - 1 - (rem - low))):
                    # borrow: try the neighbouring digit when rem is provably negative
                    return None
            m[s] = q
            E = rem
        for s, n in order:
            nn = subst(n, m)
            q = m[s]
            conds.append(ge0(q))
            conds.append(ge0(nn - 1 - q))
        if any(c is FALSE for c in conds):
            return 'never'
        return m, conds

    def match_prev(self, fr, us, base, off, size, ty):
        """updates made by earlier iterations of fr.loop"""
        ka = fr.k
        k = A(ka)
        res = []
        for u in reversed(us):
            if u.kind == 'kill':
                return 'maybe'
            if ka in u.off.free:
                j = atom('sym', 'j' + ka.args[0], isint=True)
                S.FACTS.lo[j] = 0; S.FACTS.touch()
                S.FACTS.set_hi(j, k - 1)
                m = {ka: A(j)}
                u2 = Upd(subst_c(u.guard, m), [(s, subst(n, m)) for s, n in u.iters] + [(j, k)],
                         base, subst(u.off, m), u.size, subst_v(u.val, m), u.ins)
                r = self.match(u2, off, size)
                if r == 'never':
                    continue
                if r == 'maybe':
                    return 'maybe'
                c, v = r
                if j in free_v(v) or has_opaque(v):
                    return 'maybe'
                return 'maybe' if c is not TRUE else (c, v)
            r = self.match(Upd(TRUE, u.iters, base, u.off, u.size, ZERO if not isinstance(u.val, Poly) else u.val, u.ins),
                           off, size)
            if r == 'never':
                continue
            if r == 'maybe' or r[0] is not TRUE:
                return 'maybe'
            if ty == 'ptr':
                if ka not in free_v(u.val) and u.guard is TRUE and not has_opaque(u.val):
                    old = self.load_outside(fr, base, off, size, ty, u.ins)
                    if old == u.val:
                        return (TRUE, u.val)
                return 'maybe'
            tag = single_atom(sym('carry@%s@%s' % (fr.tag, base_str(base))))
            return (TRUE, A(atom('carry', tag, off, isint=not ftype(ty))))
        return 'never'

    def load_outside(self, fr, base, off, size, ty, ins):
        save = self.frames
        i = save.index(fr)
        self.frames = save[:i]
        try:
            return self.load_at(base, off, size, ty, ins, record=False)
        finally:
            self.frames = save

    def i_store(self, ins, d):
        self.stat['stores'] += 1
        v = self.val(d['ops'][0])
        p = to_ptr(self.val(d['ops'][1]))
        self.store(p, v, d['sz'], ins)

    def store(self, p, v, size, ins, guard=None):
        fr = self.frames[-1]
        g = fr.pc if guard is None else guard
        if isinstance(p, PSel):
            self.store(p.a, v, size, ins, c_and(g, p.c))
            self.store(p.b, v, size, ins, c_and(g, c_not(p.c)))
            return
        if g is FALSE:
            return
        fr.obl.append(Oblig('store', p.base, p.off, P(size), g, ins, []))
        if has_opaque(p.off) and p.base[0] != 'opq':
            u = Upd(g, [], p.base, None, size, v, ins, 'kill')
            fr.add(u)
            return
        fr.add(Upd(g, [], p.base, p.off, size, v, ins))

    # arithmetic ---------------------------------------------------------------
    def i_add(self, ins, d):
        return self.num(d['ops'][0]) + self.num(d['ops'][1])

    def i_sub(self, ins, d):
        a, b = self.val(d['ops'][0]), self.val(d['ops'][1])
        pa, pb = p2i_arg(a), p2i_arg(b)
        if pa is not None and pb is not None and isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.base == pb.base:
            return pa.off - pb.off
        return self.num(d['ops'][0]) - self.num(d['ops'][1])

    def i_mul(self, ins, d):
        return self.num(d['ops'][0]) * self.num(d['ops'][1])

    def i_udiv(self, ins, d):
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        if not prove_ge0(a):
            w = ibits(ins.t)
            if prove_ge0(-a - 1):
                a = a + (1 << w)
            else:
                self.assumed.add('%s >= 0 at %s' % (a, ins.where()))
        return mk_floordiv(a, b)

    def i_sdiv(self, ins, d):
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        if a.const() is not None and b.const():
            q = abs(a.const()) // abs(b.const())
            return P(q if (a.const() >= 0) == (b.const() > 0) else -q)
        if d.get('exact') or (prove_ge0(a) and prove_ge0(b)):
            return mk_floordiv(a, b)
        q, rem = poly_divmod(a, b)
        if rem is ZERO:
            return q
        return A(atom('fn', 'sdiv', (a, b), isint=True))

    def i_urem(self, ins, d):
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        return mk_mod(a, b)

    def i_srem(self, ins, d):
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        if prove_ge0(a) and prove_ge0(b):
            return mk_mod(a, b)
        return A(atom('fn', 'srem', (a, b), isint=True))

    def i_shl(self, ins, d):
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        if b.const() is not None:
            return a * (1 << int(b.const()))
        return A(atom('fn', 'shl', (a, b), isint=True))

    def i_lshr(self, ins, d):
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        if b.const() is not None:
            if not prove_ge0(a):
                self.assumed.add('%s >= 0 at %s' % (a, ins.where()))
            return mk_floordiv(a, P(1 << int(b.const())))
        return A(atom('fn', 'lshr', (a, b), isint=True))

    def i_ashr(self, ins, d):
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        if b.const() is not None:
            return mk_floordiv(a, P(1 << int(b.const())))
        return A(atom('fn', 'ashr', (a, b), isint=True))

    def bitop(self, ins, d, name):
        a, b = self.val(d['ops'][0]), self.val(d['ops'][1])
        if ins.t == 'i1':
            a, b = to_cond(a), to_cond(b)
            if name == 'and':
                return c_and(a, b)
            if name == 'or':
                return c_or(a, b)
            return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        ca, cb = a.const(), b.const()
        if ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            w = ibits(ins.t) or 64
            cb %= (1 << w)
            if ca is not None:
                ca %= (1 << w)
                return P({'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[name])
            if name == 'and':
                if cb == 0:
                    return ZERO
                if cb == (1 << w) - 1:
                    return a
                if (cb & (cb + 1)) == 0 and prove_ge0(a):
                    return mk_mod(a, P(cb + 1))
            if name in ('or', 'xor') and cb == 0:
                return a
            if name == 'xor' and cb == (1 << w) - 1:
                return -a - 1
        args = tuple(sorted((a, b), key=lambda p: p.key))
        return A(atom('fn', name, args, isint=True))

    def i_and(self, ins, d):
        return self.bitop(ins, d, 'and')

    def i_or(self, ins, d):
        return self.bitop(ins, d, 'or')

    def i_xor(self, ins, d):
        return self.bitop(ins, d, 'xor')

    def i_fadd(self, ins, d):
        return self.num(d['ops'][0]) + self.num(d['ops'][1])

    def i_fsub(self, ins, d):
        return self.num(d['ops'][0]) - self.num(d['ops'][1])

    def i_fmul(self, ins, d):
        return self.num(d['ops'][0]) * self.num(d['ops'][1])

    def i_fdiv(self, ins, d):
        return mk_div(self.num(d['ops'][0]), self.num(d['ops'][1]))

    def i_fneg(self, ins, d):
        return -self.num(d['ops'][0])

    def i_frem(self, ins, d):
        return A(atom('fn', 'frem', (self.num(d['ops'][0]), self.num(d['ops'][1]))))

    def i_zext(self, ins, d):
        v = self.val(d['ops'][0])
        if isinstance(v, Cond):
            return b2i(v)
        return v

    def i_sext(self, ins, d):
        v = self.val(d['ops'][0])
        if isinstance(v, Cond):
            return -b2i(v)
        return v

    def i_trunc(self, ins, d):
        v = self.num(d['ops'][0])
        w = ibits(ins.t)
        if w == 1:
            return to_cond(mk_mod(v, P(2)) if v.isint else v)
        if w >= 32:
            return v
        if prove_ge0(v) and prove_ge0(P((1 << w) - 1) - v):
            return v
        c = v.const()
        if c is not None:
            c %= (1 << w)
            return P(c)
        a = single_atom(v)
        return A(atom('fn', 'trunc%d' % w, (v,), isint=True))

    def i_fpext(self, ins, d):
        return self.num(d['ops'][0])

    def i_fptrunc(self, ins, d):
        return self.num(d['ops'][0])

    def i_uitofp(self, ins, d):
        v = self.num(d['ops'][0])
        if v.isint and not prove_ge0(v):
            w = ibits(d.get('st', 'i32')) or 32
            if v.const() is not None:
                return P(v.const() % (1 << w))
            a = single_atom(v)
            if a is not None and a.kind in ('ld', 'opq', 'fn', 'sym'):
                return v
            c = ge0(v)
            return mk_sel(c, v, v + (1 << w))
        return v

    def i_sitofp(self, ins, d):
        return self.num(d['ops'][0])

    def i_fptoui(self, ins, d):
        v = self.num(d['ops'][0])
        if v.isint:
            return v
        return A(atom('fn', 'trunc', (v,), isint=True))

    i_fptosi = i_fptoui

    def i_ptrtoint(self, ins, d):
        return A(atom('p2i', self.val(d['ops'][0]), isint=True))

    def i_inttoptr(self, ins, d):
        v = self.val(d['ops'][0])
        a = p2i_arg(v)
        return a if a is not None else to_ptr(v)

    def i_bitcast(self, ins, d):
        return self.val(d['ops'][0])

    def i_freeze(self, ins, d):
        return self.val(d['ops'][0])

    def i_select(self, ins, d):
        c = to_cond(self.val(d['ops'][0]))
        return vsel(c, self.val(d['ops'][1]), self.val(d['ops'][2]))

    def i_extractvalue(self, ins, d):
        v = self.val(d['ops'][0])
        if isinstance(v, tuple):
            i = d['idx'][0]
            if i < len(v):
                return v[i]
        return self.opq(ins, 'extract')

    def i_insertvalue(self, ins, d):
        return self.opq(ins, 'insertvalue')

    def i_icmp(self, ins, d):
        pred = d['pred']
        a, b = self.val(d['ops'][0]), self.val(d['ops'][1])
        if isinstance(a, (Ptr, PSel)) or isinstance(b, (Ptr, PSel)):
            return self.ptrcmp(pred, to_ptr(a), to_ptr(b), ins)
        if isinstance(a, Cond) or isinstance(b, Cond):
            if pred in ('eq', 'ne') and isinstance(a, Cond) and isinstance(b, Cond):
                e = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
                return e if pred == 'eq' else c_not(e)
            a = b2i(a) if isinstance(a, Cond) else a
            b = b2i(b) if isinstance(b, Cond) else b
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return opaque_cond(('opq', ins.i, 'cmp'))
        # (sel ? 1 : 0) == 0 and friends
        r = self.cmp_bool(pred, a, b)
        if r is not None:
            return r
        st = self.opbits(d)
        if pred == 'eq':
            return eq0(a - b)
        if pred == 'ne':
            return c_not(eq0(a - b))
        u = pred[0] == 'u'
        rel = pred[1:]
        if rel == 'gt':
            return self.lt(b, a, u, ins)
        if rel == 'lt':
            return self.lt(a, b, u, ins)
        if rel == 'ge':
            return c_not(self.lt(a, b, u, ins))
        return c_not(self.lt(b, a, u, ins))

    def opbits(self, d):
        return 32

    def cmp_bool(self, pred, a, b):
        if pred not in ('eq', 'ne'):
            return None
        for x, y in ((a, b), (b, a)):
            c = y.const()
            at = single_atom(x)
            if c is not None and at is not None and at.kind == 'sel' and at.args[1].const() is not None \
                    and at.args[2].const() is not None:
                t, e = at.args[1].const() == c, at.args[2].const() == c
                r = TRUE if t and e else FALSE if not t and not e else at.args[0] if t else c_not(at.args[0])
                return r if pred == 'eq' else c_not(r)
        return None

    def lt(self, a, b, unsigned, ins):
        """a < b; unsigned comparisons model wrap-around of negative operands"""
        if unsigned:
            na, nb = not nonneg_like(a), not nonneg_like(b)
            if na and isinstance(a.const(), int) and a.const() < 0:
                return FALSE if not nb else gt0(b - a)
            if nb:
                c = b.const()
                if c is not None and c < 0:
                    return TRUE if not na else c_or(ge0(a), gt0(b - a))
            if na and nb:
                both = c_or(c_and(ge0(a), ge0(b)), c_and(c_not(ge0(a)), c_not(ge0(b))))
                return c_or(c_and(ge0(a), c_not(ge0(b))), c_and(both, gt0(b - a)))
            if nb:
                return c_or(c_not(ge0(b)), gt0(b - a))
            if na:
                return c_and(ge0(a), gt0(b - a))
        return gt0(b - a)

    def ptrcmp(self, pred, a, b, ins):
        if isinstance(a, PSel):
            return c_or(c_and(a.c, self.ptrcmp(pred, a.a, b, ins)), c_and(c_not(a.c), self.ptrcmp(pred, a.b, b, ins)))
        if isinstance(b, PSel):
            return c_or(c_and(b.c, self.ptrcmp(pred, a, b.a, ins)), c_and(c_not(b.c), self.ptrcmp(pred, a, b.b, ins)))
        if a.base == b.base:
            if pred == 'eq':
                return eq0(a.off - b.off)
            if pred == 'ne':
                return c_not(eq0(a.off - b.off))
            rel = pred[1:]
            return {'lt': lambda: gt0(b.off - a.off), 'gt': lambda: gt0(a.off - b.off),
                    'le': lambda: ge0(b.off - a.off), 'ge': lambda: ge0(a.off - b.off)}[rel]()
        known = ('obj', 'new', 'alloca', 'global', 'func', 'arr')
        e = None
        if a.base == NULLB or b.base == NULLB:
            o = b if a.base == NULLB else a
            if o.base[0] in known:
                e = FALSE
            elif o.base[0] == 'opq':
                e = opaque_cond(('opq', 'null', o.base))
            else:
                e = opaque_cond(('isnull', o.base))
        elif a.base[0] in known and b.base[0] in known:
            e = FALSE
        else:
            k = sorted([a.base, b.base], key=repr)
            e = opaque_cond(('peq', k[0], k[1], a.off, b.off))
        if pred == 'eq':
            return e
        if pred == 'ne':
            return c_not(e)
        return opaque_cond(('opq', ins.i, 'ptrcmp'))

    def i_fcmp(self, ins, d):
        pred = d['pred']
        a, b = self.num(d['ops'][0]), self.num(d['ops'][1])
        if pred in ('true',):
            return TRUE
        if pred in ('false',):
            return FALSE
        if pred == 'ord':
            return TRUE
        if pred == 'uno':
            return FALSE
        rel = pred[1:]
        for x, s in ((a, 1), (b, -1)):
            t = single_atom(x)
            if t is not None and t.kind == 'fconst' and t.args[0] in ('inf', '-inf'):
                big = (t.args[0] == 'inf') == (s == 1)   # a - b > 0 ?
                return B({'gt': big, 'ge': big, 'lt': not big, 'le': not big, 'eq': False, 'ne': True}[rel])
        r = {'gt': lambda: gt0(a - b), 'ge': lambda: ge0(a - b), 'lt': lambda: gt0(b - a),
             'le': lambda: ge0(b - a), 'eq': lambda: eq0(a - b), 'ne': lambda: c_not(eq0(a - b))}[rel]
        return r()

    # calls ----------------------------------------------------------------------
    def benign_call(self, i):
        c = i.d.get('callee', '')
        dm = i.d.get('dem', '')
        if c.startswith('llvm.'):
            return not (c.startswith('llvm.memcpy') or c.startswith('llvm.memset') or c.startswith('llvm.memmove'))
        if 'ostream' in dm or 'std::endl' in dm or 'std::flush' in dm:
            return True
        return False

    def i_call(self, ins, d):
        self.stat['calls'] += 1
        c = d.get('callee')
        ops = d.get('ops', [])
        fr = self.frames[-1]
        if c is None:
            self.giveup('indirect call', ins)
            self.unknown_calls.append((ins, 'indirect'))
            return self.opq(ins, 'indirect') if ins.t != 'void' else None
        if c in PURE:
            return fold.fn(PURE[c], [self.num(o) for o in ops[:2 if PURE[c] == 'pow' else 1]],
                           isint=not ftype(ins.t))
        if c.startswith('llvm.'):
            return self.intrinsic(c, ins, d, ops)
        if c in ALLOC_NEW or c in ('malloc', 'calloc'):
            n = self.num(ops[0])
            if c == 'calloc':
                n = n * self.num(ops[1])
            base = ('new', ins.i)
            kind = 'malloc' if c in ('malloc', 'calloc') else ('new[]' if c.startswith('_Zna') else 'new')
            self.ctx.size[base] = n
            fr.allocs.add(base)
            fr.upds.pop(base, None)
            fr.trace.append(Event('alloc', fr.pc, ins, (base, kind, n)))
            if c == 'calloc':
                self.fill(Ptr(base), n, ZERO, ins)
            return Ptr(base)
        if c in FREE:
            p = to_ptr(self.val(ops[0]))
            self.free(p, FREE[c], fr.pc, ins)
            return None
        if c in DIE:
            fr.trace.append(Event('die', fr.pc, ins))
            return None
        if c in ('memcpy', 'memmove'):
            self.copy(to_ptr(self.val(ops[0])), to_ptr(self.val(ops[1])), self.num(ops[2]), ins)
            return self.val(ops[0])
        if c == 'memset':
            self.fill(to_ptr(self.val(ops[0])), self.num(ops[2]), self.num(ops[1]), ins)
            return self.val(ops[0])
        dm = d.get('dem', '')
        if self.benign_call(ins):
            return self.opq(ins, 'ostream') if ins.t != 'void' else None
        if 'basic_string' in dm:
            # string methods only touch the string objects passed to them
            for o in ops:
                if o['k'] == 'v':
                    p = self.val(o)
                    if isinstance(p, Ptr) and p.base[0] in ('alloca', 'new'):
                        self.string_touch(p, ins)
            fr.trace.append(Event('string', fr.pc, ins, dm))
            return self.opq(ins, 'string') if ins.t != 'void' else None
        if c == '__cxa_atexit':
            return ZERO
        args = [self.val(o) for o in ops]
        fr.trace.append(Event('call', fr.pc, ins, (c,) + tuple(args)))
        self.unknown_calls.append((ins, dm or c))
        if not d.get('ro'):
            for a in args:
                self.havoc(a, ins)
        if ins.t == 'ptr':
            return Ptr(('ext', ins.i, c))
        return self.opq(ins, 'call ' + c) if ins.t != 'void' else None

    def havoc(self, a, ins):
        if isinstance(a, PSel):
            self.havoc(a.a, ins)
            self.havoc(a.b, ins)
        elif isinstance(a, Ptr) and a.base[0] not in ('null', 'func', 'global'):
            self.frames[-1].add(Upd(self.frames[-1].pc, [], a.base, None, None, None, ins, 'kill'))

    def string_touch(self, p, ins):
        # a std::string is 32 bytes; contents are irrelevant to the numeric summary
        fr = self.frames[-1]
        for o in range(0, 32, 8):
            fr.upds.setdefault(p.base, []).append(
                Upd(fr.pc, [], p.base, p.off + o, 8, A(atom('opq', ('str', ins.i, o), isint=True)), ins))

    def free(self, p, kind, g, ins):
        if isinstance(p, PSel):
            self.free(p.a, kind, c_and(g, p.c), ins)
            self.free(p.b, kind, c_and(g, c_not(p.c)), ins)
            return
        if p.base == NULLB or g is FALSE:
            return
        self.frames[-1].trace.append(Event('free', g, ins, (p, kind)))

    def intrinsic(self, c, ins, d, ops):
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
            self.copy(to_ptr(self.val(ops[0])), to_ptr(self.val(ops[1])), self.num(ops[2]), ins)
            return None
        if c.startswith('llvm.memset'):
            self.fill(to_ptr(self.val(ops[0])), self.num(ops[2]), self.num(ops[1]), ins)
            return None
        if '.with.overflow' in c:
            a, b = self.num(ops[0]), self.num(ops[1])
            v = a * b if 'mul' in c else a + b if 'add' in c else a - b
            return (v, FALSE)
        if c.startswith(('llvm.umax', 'llvm.smax', 'llvm.maxnum', 'llvm.maximum')):
            return mk_max(self.num(ops[0]), self.num(ops[1]))
        if c.startswith(('llvm.umin', 'llvm.smin', 'llvm.minnum', 'llvm.minimum')):
            return mk_min(self.num(ops[0]), self.num(ops[1]))
        if c.startswith('llvm.abs'):
            return fold.fn('abs', [self.num(ops[0])], isint=True)
        if c.startswith('llvm.fmuladd') or c.startswith('llvm.fma'):
            return self.num(ops[0]) * self.num(ops[1]) + self.num(ops[2])
        if c.startswith('llvm.bswap'):
            return A(atom('fn', 'bswap', (self.num(ops[0]),), isint=True))
        if c.startswith('llvm.objectsize'):
            return P(-1)
        if c.startswith('llvm.stacksave'):
            return Ptr(('opq', 'stack'))
        if c.startswith(('llvm.assume', 'llvm.stackrestore', 'llvm.trap', 'llvm.lifetime', 'llvm.invariant')):
            return None
        if c.startswith('llvm.expect') or c.startswith('llvm.is.constant'):
            return self.val(ops[0])
        self.giveup('intrinsic ' + c, ins)
        return self.opq(ins, c) if ins.t != 'void' else None

    def copy(self, dst, src, n, ins):
        if isinstance(dst, PSel) or isinstance(src, PSel):
            if isinstance(dst, PSel):
                c, a, b = dst.c, (dst.a, src), (dst.b, src)
            else:
                c, a, b = src.c, (dst, src.a), (dst, src.b)
            fr = self.frames[-1]
            save = fr.pc
            fr.pc = c_and(save, c)
            if fr.pc is not FALSE:
                self.copy(a[0], a[1], n, ins)
            fr.pc = c_and(save, c_not(c))
            if fr.pc is not FALSE:
                self.copy(b[0], b[1], n, ins)
            fr.pc = save
            return
        fr = self.frames[-1]
        esz = self.elem_size(n, dst.off, src.off)
        cn = n.const()
        fr.obl.append(Oblig('memcpy-dst', dst.base, dst.off, n, fr.pc, ins, []))
        fr.obl.append(Oblig('memcpy-src', src.base, src.off, n, fr.pc, ins, []))
        if has_opaque(n) or has_opaque(dst.off) or has_opaque(src.off):
            fr.add(Upd(fr.pc, [], dst.base, None, None, None, ins, 'kill'))
            return
        if cn is not None and esz and cn // esz <= 8:
            for j in range(int(cn) // esz):
                v = self.load_at(src.base, src.off + j * esz, esz, 'float' if esz == 4 else 'i64', ins, record=False) \
                    if self.is_data(src) else self.load_at(src.base, src.off + j * esz, esz, 'i32', ins, record=False)
                fr.add(Upd(fr.pc, [], dst.base, dst.off + j * esz, esz, v, ins))
            return
        j = atom('sym', 'm%d' % ins.i, isint=True)
        cnt = mk_floordiv(n, P(esz)) if esz else n
        S.FACTS.lo[j] = 0; S.FACTS.touch()
        S.FACTS.set_hi(j, cnt - 1)
        v = self.load_at(src.base, src.off + A(j) * (esz or 1), esz or 1, 'float', ins, record=False)
        u = Upd(fr.pc, [(j, cnt)], dst.base, dst.off + A(j) * (esz or 1), esz or 1, v, ins)
        fr.upds.setdefault(dst.base, []).append(u)
        inner = Upd(fr.pc, [], dst.base, u.off, u.size, v, ins)
        fr.trace.append(LoopItem(j, cnt, [inner], ins))

    def is_data(self, p):
        return True

    @staticmethod
    def elem_size(n, *offs):
        ok4 = all(isinstance(c, int) and c % 4 == 0 for p in (n,) + offs for c in p.terms.values())
        return 4 if ok4 else 1

    def fill(self, dst, n, byte, ins):
        if isinstance(dst, PSel):
            fr = self.frames[-1]
            save = fr.pc
            fr.pc = c_and(save, dst.c)
            if fr.pc is not FALSE:
                self.fill(dst.a, n, byte, ins)
            fr.pc = c_and(save, c_not(dst.c))
            if fr.pc is not FALSE:
                self.fill(dst.b, n, byte, ins)
            fr.pc = save
            return
        fr = self.frames[-1]
        fr.obl.append(Oblig('memset', dst.base, dst.off, n, fr.pc, ins, []))
        if byte.const() != 0 or has_opaque(n) or has_opaque(dst.off):
            fr.add(Upd(fr.pc, [], dst.base, None, None, None, ins, 'kill'))
            return
        esz = self.elem_size(n, dst.off)
        cn = n.const()
        if cn is not None and cn // esz <= 8:
            for j in range(int(cn) // esz):
                fr.add(Upd(fr.pc, [], dst.base, dst.off + j * esz, esz, ZERO, ins))
            return
        j = atom('sym', 'm%d' % ins.i, isint=True)
        cnt = mk_floordiv(n, P(esz))
        S.FACTS.lo[j] = 0; S.FACTS.touch()
        S.FACTS.set_hi(j, cnt - 1)
        u = Upd(fr.pc, [(j, cnt)], dst.base, dst.off + A(j) * esz, esz, ZERO, ins)
        fr.upds.setdefault(dst.base, []).append(u)
        fr.trace.append(LoopItem(j, cnt, [Upd(fr.pc, [], dst.base, u.off, esz, ZERO, ins)], ins))


def subst_lo(u):
    return None


def p2i_arg(v):
    if isinstance(v, Poly):
        a = single_atom(v)
        if a is not None and a.kind == 'p2i':
            return a.args[0]
    return None


def nonneg_like(p):
    """operand of an unsigned comparison that is a machine value >= 0: provably, or a plain value read"""
    if prove_ge0(p):
        return True
    a = single_atom(p)
    if a is not None and a.kind in ('ld', 'opq', 'sym', 'fn', 'undef', 'carry'):
        return True
    return False


def _nice(f):
    from fractions import Fraction
    return Fraction(_short(f, 'f'))


def _nice64(f):
    from fractions import Fraction
    return Fraction(_short(f, 'd'))


def _short(f, t):
    """shortest decimal that rounds to the same machine number (source constants are decimals)"""
    import struct
    if f == int(f) and abs(f) < 2 ** 53:
        return str(int(f))
    if t == 'f':
        want = struct.pack('f', f)
        for d in range(1, 12):
            s = '%.*g' % (d, f)
            if struct.pack('f', float(s)) == want:
                return s
    s = repr(f)
    # a float constant widened to double (0.1f in double arithmetic)
    return s
