"""Properties of the layers, decided on known-shape contexts (flow.py)."""
import multiprocessing
import os
import random
import re
import time
from . import term as X
from . import layers as Y
from .fctx import *
from .build import compile_module, REPO

BAD = ('oob', 'null', 'use-after-free', 'uninit-ptr', 'div0')
HEAP = ('double-free', 'bad-free', 'mismatched-free')
SHARED = {}


def short(o):
    return str(getattr(o, 'name', o)).replace(REPO + '/', '')


def sat(pc):
    """is the condition of an event satisfiable?  True / False / None (not known)"""
    if pc is True:
        return True
    if pc is False:
        return False
    r = None
    for p in X.PROFILES:
        for s in (0, 1):
            v = X.Eval(p, s)(pc)
            if v:
                return True
            if v is not None:
                r = False
    return r


def rel(ins):
    w = ins.where()
    return w.replace(REPO + '/', '')


def harvest(lib, root):
    """integer and floating constants the code of /repo compares or computes with"""
    ints, floats = set(), set()
    fn = lib.root(root).fn
    for b in fn.order:
        for i in fn.blocks[b]:
            if not str(i.d.get('file', '')).startswith(REPO):
                continue
            for o in i.d.get('ops', []):
                if o.get('k') == 'int' and i.op in ('icmp', 'and', 'urem', 'srem', 'udiv', 'sdiv', 'sub', 'add', 'select', 'phi', 'call', 'alloca'):
                    if i.op == 'call' and not re.match(r'llvm\.[us](min|max)', str(i.d.get('callee'))):
                        continue
                    v = int(o['v'])
                    if i.op in ('and', 'add', 'sub') and v < 0:
                        v = -v
                    if 3 <= v <= 4096:
                        ints.add(v)
                        if i.op == 'and' and (v & (v + 1)) == 0:
                            ints.add(v + 1)
                        if i.op == 'and' and (v & (v - 1)) == 0 and v < 64:
                            ints.add(v)
                elif o.get('k') == 'int' and i.op in ('shl', 'lshr', 'ashr'):
                    v = int(o['v'])
                    if 2 <= v <= 12:
                        ints.add(1 << v)
                elif o.get('k') == 'fp' and i.op in ('fcmp', 'select', 'fadd', 'fsub', 'fmul', 'fdiv', 'call', 'phi'):
                    try:
                        v = float.fromhex(o['v']) if o['v'] not in ('inf', '-inf', 'nan') else 0.0
                    except ValueError:
                        v = 0.0
                    if v not in (0.0, 1.0) and 1e-6 < abs(v) < 1e30:
                        floats.add(v)
            if i.op == 'switch' and i.t:
                pass
            if i.op == 'switch':
                for v, _ in i.d['cases']:
                    if 3 <= v <= 4096:
                        ints.add(v)
    return ints, floats


def profile_consts(floats):
    X.CONSTS[:] = sorted(floats)


class Result:
    """facts of one context that the properties ask for (picklable)"""


def events(f):
    out = []
    for e in f.events:
        if e.kind in BAD + HEAP + ('die', 'uninit-branch'):
            s = sat(e.pc)
            if s is False and e.kind != 'die':
                continue
            d = e.data
            if e.kind == 'oob':
                d = '%s of %d bytes at offset %d of %s (%s bytes)' % (d[0], d[3], d[2], short(d[1]), d[1].size)
            elif e.kind == 'die':
                d = (d[0], d[1] if type(d[1]) is int else None)
            elif type(d) is tuple:
                d = ' '.join(short(x) for x in d)
            else:
                d = short(d)
            i = e.ins
            out.append((e.kind, rel(i) if i else '?', i.fn() if i else '?', i.d.get('path', '') if i else '', d, s is True, e.pc is True))
    return out


def leaks(f):
    """objects obtained from the heap that are not released on some way through"""
    out = []
    frees = {}
    for e in f.events:
        if e.kind == 'free':
            frees.setdefault(e.data[0], []).append(e.pc)
    for e in f.events:
        if e.kind != 'alloc':
            continue
        o = e.data
        if f.dead:
            continue
        c = e.pc
        for p in frees.get(o, []):
            c = X.c_and(c, X.c_not(p))
        if c is False:
            continue
        if f.ret is not None and reach(f, f.ret, o):
            continue
        s = sat(c)
        if s:
            out.append((rel(e.ins), e.ins.fn(), e.ins.d.get('path', ''), short(o)))
    # released twice on one way
    dbl = []
    for o, ps in frees.items():
        for i in range(len(ps)):
            for j in range(i):
                if sat(X.c_and(ps[i], ps[j])):
                    dbl.append(o)
    return out


def reach(f, v, o):
    """is object o reachable from value v (returned tensor)?"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if type(x) is PS:
            st += [x.a, x.b]
        elif type(x) is Pt and x.o not in seen:
            seen.add(x.o)
            for lay in f.layers:
                for c in lay.get(x.o, {}).values():
                    if ispt(c[1]):
                        st.append(c[1])
            if x.o.init:
                st += [q for q in x.o.init.values() if ispt(q)]
    return o in seen


def stores_to(f, obj):
    st = f.stores.get(obj, {})
    return [(rel(i), i.fn(), i.d.get('path', '')) for i, pc in st.values()]


def side_effects(f, allowed):
    """caller-visible memory other than `allowed` that ends up changed"""
    out = []
    for o, st in f.stores.items():
        if o in allowed or o.kind not in ('arg', 'global', 'ext'):
            continue
        if o.kind == 'ext':
            continue
        changed = []
        offs = set()
        for lay in f.layers:
            offs |= {k for k in lay.get(o, {}) if k != '*'}
        for k in sorted(offs):
            s, v = f.cell(o, k)
            if v is KILL:
                continue
            if o.kind == 'global':
                if type(v) is T and X.leaves(v, ('opq',)):
                    continue
                changed.append((k, v))
                continue
            i = f.initial(o, k, s, 'ptr' if ispt(v) else 'float' if o.lazy else 'i%d' % (8 * s), None)
            if ispt(v) or ispt(i):
                if type(v) is Pt and type(i) is Pt and v.o is i.o and v.f == i.f:
                    continue
                if type(v) is PS or type(i) is PS:
                    continue
                changed.append((k, v))
                continue
            if o.lazy:
                v, i = f.coerce(v, 'float'), f.coerce(i, 'float')
            if v is i or (type(v) is int and v == i):
                continue
            if type(v) is T or type(i) is T:
                if X.leaves(X.lift(v), ('opq',)):
                    continue
                bad = value_diffs([('', X.lift(v), X.lift(i))])[3]
                if not bad:
                    continue
            changed.append((k, v))
        if changed:
            out.append((o, changed, [(rel(i), i.fn(), i.d.get('path', '')) for i, pc in st.values()]))
    return out


def run_layer(lib, l, mode='one', start_state=False):
    """analyse one context; mode one: construct, run, destroy; two: two runs (second shapes of
    l.two, or the same); cfg: configuration arrays overwritten after construction"""
    X.reset()
    c = FCase(lib, 'E_%s__%s' % (l.cls, mode), l.label, l.steps)
    f = c.flow
    f.start_state = start_state
    l.setup[0](c)
    l.setup[1](c)
    l2 = None
    if mode == 'late':
        for n in [a[:-1] for a in c.argi if a[-1] == '2' and a not in ('in2', 'out2')]:
            if n in c.t:
                c.tensor(n + '2', c.t[n].dims)
            else:
                c.null(n + '2')
    if mode in ('two', 'many', 'late'):
        l2 = l.two or l
        l2.setup[1](c, 'in2', 'out2')
    c.run()
    r = Result()
    r.label, r.dead = l.label + (' then %s' % l2.label if l2 is not None and l2 is not l else ''), f.dead
    r.undecided = list(f.undecided)
    r.aborted = getattr(f, 'aborted', False)
    r.events = events(f)
    r.nload, r.nstore, r.blocks = f.nload, f.nstore, len(f.blocks_seen)
    r.fns = {i.d.get('fn') for b in f.blocks_seen for i in f.fn.blocks[b] if str(i.d.get('file', '')).startswith(REPO)}
    r.values = []
    r.uncovered = []
    refs = {}
    if mode != 'one' and not f.dead and not getattr(f, 'aborted', False):
        # the same run by a fresh layer
        for ti, to, ll in [('in', 'out', l)] + ([('in2', 'out2', l2)] if l2 is not None else []):
            c1 = FCase(lib, 'E_%s__one' % l.cls, '')
            l.setup[0](Later(c1) if mode == 'late' and to == 'out2' else c1)
            ll.setup[1](Rename(c1, ti, to), ti, to)
            c1.run()
            if not c1.flow.dead and not getattr(c1.flow, 'aborted', False):
                refs[to] = [c1.final(c1.t[to], i) for i in range(c1.t[to].count)]
    outs = [('in', 'out', l)] + ([('in2', 'out2', l2)] if l2 is not None else [])
    for ti, to, ll in outs:
        t = c.t[to]
        v = dict(out=to, ident=0, agree=0, unknown=0, bad=None, stores=stores_to(f, t.data))
        if not f.dead and not r.aborted and ll.spec:
            sp = ll.spec(c, ti, to) if mode == 'one' else refs.get(to) or [c.final(t, i) for i in range(t.count)]
            pairs = [(i, c.final(t, i), sp[i]) for i in range(t.count)]
            for i, g, w in pairs:
                for x in X.leaves(g, ('in',)):
                    if x.a[0] == to + '.data':
                        r.uncovered.append((to, i))
                        break
            v['undef'] = [i for i, g, w in pairs if X.leaves(g, ('undef',))][:4]
            v['glob'] = [(i, short(X.leaves(g, ('global',))[0].a[0])) for i, g, w in pairs if X.leaves(g, ('global',))][:4]
            i, a, u, bad = value_diffs(pairs)
            v['ident'], v['agree'], v['unknown'] = i, a, u
            if bad:
                lab, g, w, x, y, why = bad
                v['bad'] = (index(lab, t.dims), X.show(g, 5)[:300], X.show(w, 5)[:300], x, y, why)
        v['n'] = t.count
        r.values.append(v)
    allowed = {c.t[to].data for _, to, _ in outs}
    r.effects = [(short(o), [(k, X.show(v, 3)[:80] if not ispt(v) else repr(v)) for k, v in ch[:3]], st, o.kind) for o, ch, st in side_effects(f, allowed)] if not r.aborted and mode != 'cfg' else []
    r.leaks = leaks(f) if not r.aborted else []
    r.heap = sum(e.kind == 'alloc' for e in f.events)
    r.glob_loads = None
    return r


class Rename:
    """sets up the in/out parameters of a root with tensors of other names"""

    def __init__(self, c, ti, to):
        self.c, self.m = c, {ti: 'in', to: 'out'}

    def tensor(self, n, dims):
        t = self.c.tensor(n, dims, arg=False)
        self.c.set(self.m[n], Pt(t.body))
        return t

    def __getattr__(self, a):
        return getattr(self.c, a)


class Later:
    """sets up the parameters of a fresh layer with the tensors loaded later"""

    def __init__(self, c):
        self.c = c

    def tensor(self, n, dims):
        t = self.c.tensor(n + '2', dims, arg=False)
        self.c.set(n, Pt(t.body))
        return t

    def __getattr__(self, a):
        return getattr(self.c, a)


def index(i, dims):
    ix = []
    for d in reversed(dims):
        ix.append(i % d)
        i //= d
    return tuple(reversed(ix))


def _job(a):
    l, mode, st = a
    try:
        if time.time() > SHARED['deadline']:
            raise Undecided('time budget')
        return run_layer(SHARED['lib'], Y_get(l), mode, st)
    except Undecided as e:
        r = Result()
        r.label, r.dead, r.aborted, r.undecided, r.events, r.values, r.effects, r.leaks, r.uncovered = str(l), False, True, [(str(e), None)], [], [], [], [], []
        r.nload = r.nstore = r.blocks = r.heap = 0
        r.fns = set()
        return r


def Y_get(i):
    return SHARED['ctx'][i]


def run_many(lib, jobs):
    """jobs: [(L, mode, start_state)] -> results in order, on all cores"""
    SHARED['lib'] = lib
    SHARED['ctx'] = [j[0] for j in jobs]
    SHARED.setdefault('deadline', time.time() + 540)
    for j in jobs:
        lib.root('E_%s__%s' % (j[0].cls, j[1]))
    todo = [(i, j[1], j[2]) for i, j in enumerate(jobs)]
    if len(todo) < 8:
        return [_job(t) for t in todo]
    order = list(range(len(todo)))
    random.Random(7).shuffle(order)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        rs = p.map(_job, [todo[i] for i in order], chunksize=max(1, min(40, len(todo) // 32)))
    out = [None] * len(todo)
    for i, r in zip(order, rs):
        out[i] = r
    return out


def all_contexts(lib, cls, tier, seed, mode='one', large=False):
    """listed contexts, contexts around the constants of the code, and (thorough) random ones"""
    out = Y.contexts(cls, 'thorough')
    ints, floats = harvest(lib, 'E_%s__%s' % (cls, mode))
    profile_consts(floats)
    gu = Y.guided(cls, [v for v in ints if v <= 300] if tier == 'quick' else ints)
    seen = {repr(l) for l in out}
    for l in gu:
        if repr(l) not in seen:
            seen.add(repr(l))
            out.append(l)
    if large:
        out += Y.large(cls)
    if tier == 'thorough':
        for l in Y.randoms(cls, random.Random('%s %s' % (seed, cls)), 400):
            if repr(l) not in seen:
                seen.add(repr(l))
                out.append(l)
    return out, ints, floats


def base(rep, r):
    """bookkeeping common to all layer properties"""
    rep.functions |= {x for x in r.fns if x}
    rep.count('contexts')
    rep.count('loads', r.nload)
    rep.count('stores', r.nstore)
    for w, at in r.undecided:
        rep.undecided('%s%s' % (w, ' at ' + at.replace(REPO + '/', '') if at else ''))


def src_of(cls, r, v):
    """the construct to name: the store(s) that produce the output"""
    st = sorted(set(v['stores']))
    st = [s for s in st if not s[0].startswith('tool/')] or st
    if not st:
        return ('pico-cnn/layers', cls + '::run', '')
    s = st[-1]
    return s


def check_values(rep, lib, classes, tier, seed):
    rep.rule('value numbering: the normal form of every output element, computed by data-flow over the optimised-away-free '
             'IR of the current sources in a context with known shapes and unknown data, equals the normal form of the '
             'operator definition; elements whose forms differ are compared on sample valuations and count as a violation '
             'only with a differing valuation')
    jobs = []
    for cls in classes:
        cs, ints, floats = all_contexts(lib, cls, tier, seed, large=True)
        rep.add('constants_of_the_code', *['%s: %s' % (cls, v) for v in sorted(ints) + sorted(floats)])
        jobs += [(l, 'one', False) for l in cs if not l.reject]
    SHARED['floats'] = None
    for cls in classes:
        pass
    fl = set()
    for cls in classes:
        fl |= harvest(lib, 'E_%s__one' % cls)[1]
    profile_consts(fl)
    for (l, m, s), r in zip(jobs, run_many(lib, jobs)):
        base(rep, r)
        where = '%s::run' % l.cls
        if r.dead:
            died = [e for e in r.events if e[0] == 'die']
            e = died[-1] if died else ('die', '?', where, '', ('?', None), True, True)
            rep.ob('element value', sum(v['n'] for v in r.values), 0)
            rep.viol('stops the program for a supported shape', e[1], e[2], 'every path of the run reaches %s' % (e[4],), '%s %s' % (l.cls, r.label), path=e[3])
            continue
        if r.aborted:
            rep.ob('element value', sum(v['n'] for v in r.values), 0)
            continue
        for v in r.values:
            rep.ob('element value', v['n'], v['ident'])
            if v['agree']:
                rep.count('elements equal only on valuations', v['agree'])
            if v['unknown']:
                rep.undecided('element value not tracked', v['unknown'])
            if v['bad']:
                ix, g, w, x, y, why = v['bad']
                st = src_of(l.cls, r, v)
                rep.viol('output element differs from the operator definition', st[0], st[1],
                         'element %s: computed %s, defined as %s' % (ix, g, w), '%s %s' % (l.cls, r.label),
                         'with %s the element is %s instead of %s' % (why, x, y) if x is not None else why, path=st[2])
            elif len(rep.samples) < 4:
                rep.samples.append('%s %s: %d elements identical' % (l.cls, r.label, v['ident']))
        for e in r.events:
            if e[0] == 'die' and e[5] and l.spec:
                rep.viol('stops the program for supported data', e[1], e[2], 'reaches %s' % (e[4],), '%s %s' % (l.cls, r.label), path=e[3])


def P_values(classes):
    def f(rep, tier, seed):
        lib = Lib(compile_module())
        check_values(rep, lib, classes, tier, seed)
    return f


def lite(lib, cls, tier, seed, large=False):
    return [l for l in all_contexts(lib, cls, tier, seed, large=large)[0] if not l.reject]


def p01(rep, tier, seed):
    """only the output changes"""
    lib = Lib(compile_module())
    rep.rule('effect analysis: every store reachable from construction, run and destruction whose target is memory of the caller '
             '(input, weights, tensor headers and shapes, configuration arrays) or a global must leave that memory as it was')
    jobs = []
    for cls in Y.CLASSES:
        jobs += [(l, 'one', False) for l in lite(lib, cls, tier, seed)]
    for (l, m, s), r in zip(jobs, run_many(lib, jobs)):
        base(rep, r)
        rep.ob('run leaves other memory unchanged', 1, 0 if (r.aborted or r.effects) else 1)
        for o, ch, st, kind in r.effects:
            if kind == 'global':
                continue
            s = sorted(st)[-1]
            rep.viol('writes caller memory other than the output', s[0], s[1], '%s changes at byte %s (to %s)' % (o, ch[0][0], ch[0][1]),
                     '%s %s' % (l.cls, r.label), path=s[2])


def pairs_two(cs, rnd, n):
    """second shapes for two runs on one object: same configuration, other input shapes"""
    return cs


def p02(rep, tier, seed):
    lib = Lib(compile_module())
    rep.rule('initialisation and history: in construction followed by two runs (same shapes, and a different shape for the second run) '
             'the normal form of every element of both outputs equals the one of the same run by a fresh layer; it mentions no memory '
             'that was never set, no mutable global, and no old content of the output')
    jobs = []
    for cls in Y.CLASSES:
        for st in (False, True):
            jobs += [(l, 'two', st) for l in two_contexts(lib, cls, tier, seed)]
        few = two_contexts(lib, cls, tier, seed)
        few = few[::2] if tier == 'quick' else few
        jobs += [(l, 'many', False) for l in few]
        if 'E_%s__late' % cls in lib.mod.fns:
            jobs += [(l, 'late', False) for l in few]
    for (l, m, s), r in zip(jobs, run_many(lib, jobs)):
        base(rep, r)
        ctx = '%s %s, %s' % (l.cls, r.label, {'two': 'two runs', 'many': 'five runs and one', 'late': 'two runs, parameters loaded between them'}[m])
        if r.dead or r.aborted:
            rep.ob('result independent of history', 2, 0)
            if r.dead:
                died = [e for e in r.events if e[0] == 'die']
                e = died[-1] if died else ('die', '?', l.cls + '::run', '', ('?', None), True, True)
                rep.viol('second run stops the program', e[1], e[2], 'every path reaches %s' % (e[4],), ctx, path=e[3])
            continue
        for v in r.values:
            ok = v['ident'] + v['agree'] == v['n']
            rep.ob('result independent of history', 1, 1 if ok else 0)
            st = src_of(l.cls, r, v)
            if v['undef']:
                rep.viol('result depends on memory that was never set', st[0], st[1], 'element %s of %s: %s' % (v['undef'][0], v['out'], v['bad'][1] if v['bad'] else 'reads unset memory'), ctx, path=st[2])
            elif v['glob'] and not s:
                # the initial state of the program decides below
                rep.undecided('element depends on a global', 1)
            elif v['bad']:
                ix, g, w, x, y, why = v['bad']
                rep.viol('result of a run depends on an earlier run or on unset memory' if v['out'] == 'out2' else 'result depends on more than the inputs', st[0], st[1],
                         'element %s of %s: computed %s, a fresh layer gives %s' % (ix, v['out'], g, w), ctx,
                         'with %s the element is %s instead of %s' % (why, x, y) if x is not None else why, path=st[2])
        for e in r.events:
            if e[0] in ('uninit-ptr', 'uninit-branch') and e[5]:
                rep.viol('control or address depends on memory that was never set', e[1], e[2], str(e[4]), ctx, path=e[3])
        for o in r.uncovered[:1]:
            v = [v for v in r.values if v['out'] == o[0]][0]
            st = src_of(l.cls, r, v)
            rep.viol('result depends on the old content of the output', st[0], st[1], 'element %s of %s keeps or reads its old value' % (o[1], o[0]), ctx, path=st[2])


def two_contexts(lib, cls, tier, seed):
    """contexts whose second run has the same, a smaller and a larger input than the first"""
    cs = [l for l in Y.contexts(cls, 'quick') if not l.reject]
    if tier == 'quick':
        cs = cs[:14]
    out = []
    for l in cs:
        l.two = None
        out.append(l)
    for a, b in Y.two_shapes(cls):
        a.two = b
        out.append(a)
    return out


def p10(rep, tier, seed):
    lib = Lib(compile_module())
    rep.rule('bounds and coverage: every load, store, copy and fill reached in construction, run and destruction lies inside the object its '
             'pointer was derived from and that object is alive; no null or unset pointer is followed; every element of the output is '
             'assigned and its value mentions no old content of the output')
    jobs = []
    for cls in Y.CLASSES:
        for l in lite(lib, cls, tier, seed, True):
            jobs.append((l, 'one', False))
        for a, b in Y.two_shapes(cls):
            a.two = b
            jobs.append((a, 'two', True))
    for (l, m, s), r in zip(jobs, run_many(lib, jobs)):
        base(rep, r)
        bad = [e for e in r.events if e[0] in BAD and e[5]]
        rep.ob('access inside its object', r.nload + r.nstore, r.nload + r.nstore - len([e for e in r.events if e[0] in BAD]))
        ctx = '%s %s' % (l.cls, r.label)
        for e in bad:
            rep.viol({'oob': 'access outside the object', 'null': 'null pointer followed', 'use-after-free': 'use of released memory',
                      'uninit-ptr': 'pointer that was never set followed', 'div0': 'integer division by zero'}[e[0]], e[1], e[2], str(e[4]), ctx, path=e[3])
        if not r.aborted and not r.dead:
            n = sum(v['n'] for v in r.values)
            rep.ob('output element assigned', n, n - len(r.uncovered))
            for o in r.uncovered[:1]:
                v = [v for v in r.values if v['out'] == o[0]][0]
                st = src_of(l.cls, r, v)
                rep.viol('output element not assigned', st[0], st[1], 'element %s of %s keeps or reads its old value' % (o[1], o[0]), ctx, path=st[2])


def p11(rep, tier, seed):
    lib = Lib(compile_module())
    rep.rule('fail-stop: for a shape the operator does not support every path from run reaches a call that ends the program with a failure '
             'status or throws, unless the operator definition of that shape is computed')
    jobs = []
    for cls in Y.CLASSES:
        jobs += [(l, 'one', False) for l in Y.contexts(cls, tier) if l.reject]
        jobs += [(l, 'one', False) for l in Y.rejects(cls)]
    for (l, m, s), r in zip(jobs, run_many(lib, jobs)):
        base(rep, r)
        ctx = '%s %s' % (l.cls, r.label)
        died = [e for e in r.events if e[0] == 'die']
        if r.aborted:
            rep.ob('unsupported shape rejected', 1, 0)
            continue
        if not r.dead:
            if l.spec and r.values and not r.values[0]['bad'] and r.values[0]['unknown'] == 0 and not r.uncovered:
                rep.ob('unsupported shape rejected', 1, 1)
                continue
            rep.ob('unsupported shape rejected', 1, 0)
            st = src_of(l.cls, r, r.values[0])
            rep.viol('unsupported shape accepted', st[0], st[1], 'a path returns normally' + (': element %s is %s' % (r.values[0]['bad'][0], r.values[0]['bad'][1]) if r.values[0]['bad'] else ''), ctx, path=st[2])
            continue
        zero = [e for e in died if e[4][1] == 0]
        rep.ob('unsupported shape rejected', 1, 0 if zero else 1)
        for e in zero:
            rep.viol('unsupported shape ends the program with a success status', e[1], e[2], str(e[4]), ctx, path=e[3])
        for e in r.events:
            if e[0] in BAD and e[5] and e[0] != 'div0':
                rep.viol('unsupported shape: invalid access before the program stops', e[1], e[2], str(e[4]), ctx, path=e[3])


def p12(rep, tier, seed):
    lib = Lib(compile_module())
    rep.rule('ownership: every heap object obtained between construction and destruction is released exactly once, with the matching '
             'operator, on every path; configuration arrays are copied (overwriting them after construction changes no result)')
    jobs = []
    for cls in Y.CLASSES:
        for l in two_contexts(lib, cls, tier, seed):
            jobs.append((l, 'two', True))
        jobs += [(l, 'one', False) for l in lite(lib, cls, tier, seed)]
        if cls in ('Convolution', 'MaxPooling', 'AveragePooling'):
            jobs += [(l, 'cfg', False) for l in Y.contexts(cls, tier) if not l.reject]
    for (l, m, s), r in zip(jobs, run_many(lib, jobs)):
        base(rep, r)
        ctx = '%s %s%s' % (l.cls, r.label, ', configuration arrays overwritten after construction' if m == 'cfg' else '')
        rep.ob('heap object released exactly once', r.heap, r.heap - len(r.leaks))
        for lk in r.leaks:
            rep.viol('heap object never released', lk[0], lk[1], 'allocated here, not released on some path', ctx, path=lk[2])
        for e in r.events:
            if e[0] in HEAP and e[5]:
                rep.viol({'double-free': 'heap object released twice', 'bad-free': 'release of memory that is not a heap object of its own',
                          'mismatched-free': 'heap object released with the wrong operator'}[e[0]], e[1], e[2], str(e[4]), ctx, path=e[3])
            if e[0] == 'use-after-free' and e[5]:
                rep.viol('use of released memory', e[1], e[2], str(e[4]), ctx, path=e[3])
        if m == 'cfg':
            for v in r.values:
                rep.ob('configuration copied', 1, 0 if v['bad'] else 1)
                if v['bad']:
                    ix, g, w, x, y, why = v['bad']
                    st = src_of(l.cls, r, v)
                    rep.viol('result depends on configuration memory of the caller after construction', st[0], st[1], 'element %s: computed %s, configured %s' % (ix, g, w), ctx, path=st[2])
            for e in r.events:
                if e[0] in ('oob', 'null') and e[5]:
                    rep.viol('result depends on configuration memory of the caller after construction', e[1], e[2], str(e[4]), ctx, path=e[3])
