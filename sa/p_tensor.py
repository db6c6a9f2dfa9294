"""Properties of the tensor class, decided on known-shape contexts (flow.py)."""
import itertools
import random
from .stdio import conststr
from . import term as X
from .fctx import *
from .build import compile_module, REPO
from .p_layers import events, leaks, rel, sat, side_effects, short, BAD, HEAP, reach, index, profile_consts, harvest

DIMS = [(1,), (5,), (8,), (1, 1), (3, 4), (4, 3), (1, 7), (2, 3, 4), (1, 1, 1), (3, 1, 5), (1, 4, 2), (2, 3, 4, 5), (1, 1, 1, 1),
        (1, 3, 2, 2), (3, 2, 1, 4), (2, 1, 5, 1), (4, 2, 3, 3)]


B = 66003
LARGE = [(B,), (1, B), (B, 1), (1, 1, B), (1, B, 1), (B, 1, 1), (1, 1, 1, B), (1, 1, B, 1), (1, B, 1, 1), (B, 1, 1, 1), (3, 22001), (257, 257), (1, 257, 257, 1), (2, 3, 11003)]


class Q:
    """one abstract call of an API function on given memory"""

    def __init__(self, rep, lib, root, args, layers=None, start=False):
        self.f = Flow(lib, root, 40000000)
        names = [a.get('n') or a['i'] for a in self.f.fn.args]
        for a, v in zip(self.f.fn.args, args):
            if v is not None:
                self.f.args[a['i']] = v
        if layers is not None:
            self.f.layers = layers + [{}]
        self.f.run()
        f = self.f
        rep.count('calls analysed')
        rep.functions |= {i.d.get('fn') for b in f.blocks_seen for i in f.fn.blocks[b] if str(i.d.get('file', '')).startswith(REPO)}
        for w, at in f.undecided:
            rep.undecided('%s%s' % (w, ' at ' + at.replace(REPO + '/', '') if at else ''))
        for e in f.events:
            if e.kind == 'endless':
                rep.viol('a call never ends', rel(e.ins), e.ins.fn(), str(e.data), root, path=e.ins.d.get('path', ''))
        self.ok = not f.undecided and not getattr(f, 'aborted', False)
        self.dead, self.ret = f.dead, f.ret
        self.root = root

    def site(self, default='pico-cnn/tensor.cpp'):
        """the construct that produces the result: the last instruction of the library that was reached"""
        best = None
        for b in self.f.fn.order:
            if b in self.f.blocks_seen:
                for i in self.f.fn.blocks[b]:
                    if str(i.d.get('file', '')).startswith(REPO + '/pico-cnn'):
                        best = i
        if best is None:
            return (default, self.root, '')
        return (rel(best), best.fn(), best.d.get('path', ''))

    def died(self):
        e = [e for e in self.f.events if e.kind == 'die']
        return (rel(e[-1].ins), e[-1].ins.fn(), e[-1].ins.d.get('path', '')) if e else self.site()

    def store_site(self, obj):
        st = sorted((rel(i), i.fn(), i.d.get('path', '')) for i, pc in self.f.stores.get(obj, {}).values())
        st = [s for s in st if not s[0].startswith('tool/')]
        return st[-1] if st else self.site()


def lib_for(rep, roots, cap=512):
    lib = Lib(compile_module())
    fl, ints = set(), set()
    for r in roots:
        a, b = harvest(lib, r)
        ints |= a
        fl |= b
    profile_consts(fl)
    rep.add('constants_of_the_code', *sorted(map(str, ints | fl)))
    return lib, sorted(v for v in ints if v <= cap)


def bad_events(rep, q, ctx, kinds=BAD + HEAP):
    n = q.f.nload + q.f.nstore
    bad = [e for e in events(q.f) if e[0] in kinds and e[5]]
    rep.ob('access inside its object', n, n - len(bad))
    for e in bad:
        rep.viol({'oob': 'access outside the object', 'null': 'null pointer followed', 'use-after-free': 'use of released memory'}.get(e[0], e[0]),
                 e[1], e[2], str(e[4]), ctx, path=e[3])
    return bad


def show_dims(d):
    return 'x'.join(map(str, d))


def extra_dims(ints):
    out = []
    for v in ints:
        for x in (v - 1, v, v + 1):
            if x >= 1:
                if x <= 520:
                    out += [(x,), (1, x), (x, 2), (1, x, 2), (2, 1, x), (1, x, 1, 2), (1, 1, x, 2), (1, 2, 1, x)]
                else:
                    out += [(x,), (1, x), (x, 1), (1, x, 1), (1, 1, x), (x, 1, 1), (1, x, 1, 1), (1, 1, x, 1), (1, 1, 1, x), (x, 1, 1, 1)]
    sm = [v for v in ints if 2 <= v <= 40][:6]
    for a in sm:
        for b in sm:
            if a * b <= 600:
                out += [(a, b), (1, a, b), (1, a, 1, b), (1, 1, a, b), (1, a, b, 1)]
    return list(dict.fromkeys(out))


def strides(dims):
    s, out = 1, []
    for d in reversed(dims):
        out.append(s)
        s *= d
    return out[::-1], s


def getters(dims):
    k = len(dims)
    n = 1
    for d in dims:
        n *= d
    w = {'num_elements': n, 'num_dimensions': k, 'size_bytes': 4 * n}
    w['num_batches'] = dims[0] if k >= 3 else 1
    w['num_channels'] = dims[1] if k >= 3 else 1
    w['height'] = dims[2] if k == 4 else 1 if k == 3 else dims[0] if k == 2 else None
    w['width'] = dims[-1] if k > 1 else None
    return w


def check_getters(rep, lib, t, dims, layers, ctx, skip=()):
    for g, want in getters(dims).items():
        if g in skip or (type(want) is int and want >= 1 << 32):
            continue
        q = Q(rep, lib, 'E_Tensor__' + g, [t], layers)
        if not q.ok:
            rep.ob('shape query', 1, 0)
            continue
        good = q.dead if want is None else (not q.dead and q.ret == want)
        rep.ob('shape query', 1, 1 if good else 0)
        if not good:
            s = q.died() if q.dead else q.site()
            rep.viol('shape query gives a wrong answer', s[0], s[1], '%s() gives %s, expected %s' % (
                g, 'no answer: the program stops' if q.dead else q.ret, 'a refusal' if want is None else want), ctx, path=s[2])
        bad_events(rep, q, ctx)


def check_addresses(rep, lib, t, dims, layers, ctx, points=None):
    """every accessor agrees with the row-major layout from the address of element 0"""
    st, n = strides(dims)
    k = len(dims)
    q0 = Q(rep, lib, 'E_Tensor__blob', [t, 0], layers)
    if not q0.ok or type(q0.ret) is not Pt:
        rep.ob('element address', 1, 0)
        return
    base = q0.ret
    ixs = points or list(itertools.product(*[range(d) for d in dims]))
    if len(ixs) > 400:
        r = random.Random(5)
        ixs = r.sample(ixs, 300) + [ixs[0], ixs[-1]]
    tail = {1: [], 2: [dims[-1]], 3: list(dims[1:]), 4: list(dims[1:])}[k]

    def one(root, args, want, what):
        q = Q(rep, lib, root, [t] + args, layers)
        if not q.ok:
            rep.ob('element address', 1, 0)
            return
        p = q.ret
        good = not q.dead and type(p) is Pt and p.o is base.o and p.f == base.f + 4 * want
        rep.ob('element address', 1, 1 if good else 0)
        if not good:
            s = q.died() if q.dead else q.site()
            got = 'stops' if q.dead else 'at element %s' % ((p.f - base.f) / 4) if type(p) is Pt and p.o is base.o and type(p.f) is int else repr(p)
            rep.viol('element address is not row-major', s[0], s[1], '%s is %s, expected element %d' % (what, got, want), ctx, path=s[2])
    for ix in ixs:
        want = sum(i * s for i, s in zip(ix, st))
        one('E_Tensor__acc%d' % k, list(ix) + tail, want, 'element %s' % (ix,))
        one('E_Tensor__blob', [want], want, 'element %d' % want)
    if k >= 3:
        for b, c in {(ix[0], ix[1]) for ix in ixs}:
            one('E_Tensor__chan', [b, c], b * st[0] + c * st[1], 'channel %d of sample %d' % (c, b))
    else:
        one('E_Tensor__chan', [0, 0], 0, 'the only channel')
    return base


R13 = ['E_Tensor__new%d' % k for k in (1, 2, 3, 4)] + ['E_Tensor__acc%d' % k for k in (1, 2, 3, 4)] + \
    ['E_Tensor__' + g for g in ('blob', 'chan', 'size_bytes', 'num_elements', 'num_dimensions', 'num_batches', 'num_channels', 'height', 'width')]


def check_equality(rep, lib, q, dims, ctx):
    """a new tensor equals another new one of the same extents and differs from those with one other extent"""
    for k in range(-1, len(dims)):
        other = tuple(d + (i == k) for i, d in enumerate(dims))
        q2 = Q(rep, lib, 'E_Tensor__new%d' % len(dims), list(other), q.f.layers)
        if not q2.ok or type(q2.ret) is not Pt:
            continue
        for x, y in ((q.ret, q2.ret), (q2.ret, q.ret)):
            e = Q(rep, lib, 'E_Tensor__eq', [x, y], q2.f.layers)
            r = e.ret
            if type(r) is T:
                r = evaluate(r, {})
            if not e.ok or e.dead or r is None:
                rep.ob('extents of a new tensor decide comparison', 1, 0)
                continue
            good = bool(r) == (k < 0)
            rep.ob('extents of a new tensor decide comparison', 1, 1 if good else 0)
            if not good:
                c = [i for b in q.f.fn.order for i in q.f.fn.blocks[b] if str(i.d.get('file', '')).endswith('tensor.cpp')]
                w = (rel(c[-1]), c[-1].fn(), c[-1].d.get('path', '')) if c else q.site()
                rep.viol('a new tensor does not have its extents', w[0], w[1], 'new tensors of %s and %s compare %s' % (
                    show_dims(dims), show_dims(other), 'equal' if r else 'unequal'), ctx, path=w[2])


def p13(rep, tier, seed):
    lib, ints = lib_for(rep, R13 + ['E_Tensor__eq'], 5000)
    rep.rule('layout: after each constructor every shape query returns the constructor arguments, all elements are zero, and the address '
             'computed by every accessor equals the address of element 0 plus the row-major position, inside one heap object large enough')
    for dims in DIMS + extra_dims(ints) + LARGE:
        X.reset()
        ctx = 'Tensor(%s)' % show_dims(dims)
        q = Q(rep, lib, 'E_Tensor__new%d' % len(dims), list(dims))
        if q.dead:
            s = q.died()
            rep.viol('construction stops the program', s[0], s[1], '', ctx, path=s[2])
            continue
        if not q.ok or type(q.ret) is not Pt:
            rep.ob('construction', 1, 0)
            continue
        bad_events(rep, q, ctx)
        lay = q.f.layers
        n = strides(dims)[1]
        check_getters(rep, lib, q.ret, dims, lay, ctx)
        base = check_addresses(rep, lib, q.ret, dims, lay, ctx)
        if base is None:
            continue
        if base.o.size is None or base.o.kind != 'new' or base.f + 4 * n > base.o.size:
            s = q.store_site(base.o)
            rep.viol('too little memory for the elements', s[0], s[1], '%s bytes for %d elements' % (base.o.size, n), ctx, path=s[2])
            rep.ob('memory large enough', 1, 0)
            continue
        rep.ob('memory large enough', 1)
        if n <= 130:
            check_equality(rep, lib, q, dims, ctx)
        z = Flow(lib, 'E_Tensor__blob')
        z.layers = lay
        for i in range(n):
            c = z.cell(base.o, base.f + 4 * i)
            v = z.coerce(c[1], 'float') if c and c[1] is not KILL and c[0] == 4 else z.load(Pt(base.o, base.f + 4 * i), 4, 'float', q.f.fn.blocks[q.f.fn.entry][0])
            good = v is X.const(0)
            rep.ob('new element is zero', 1, 1 if good else 0)
            if not good and not X.leaves(v, ('opq',)):
                s = q.store_site(base.o)
                rep.viol('new element is not zero', s[0], s[1], 'element %d is %s' % (i, X.show(v)), ctx, path=s[2])
                break
    # large tensors: addresses beyond 2^16 and 2^31 elements
    if known_layout(lib.mod):
        for dims, pts in (((70000,), [(0,), (65535,), (65536,), (69999,)]), ((300, 400), [(299, 399), (163, 0), (164, 5)]),
                          ((2, 3, 50000), [(1, 2, 49999), (0, 1, 15536)]), ((2, 3, 20000, 30000), [(0, 0, 0, 1), (1, 2, 19999, 29999), (1, 0, 0, 0), (0, 2, 7, 29999)]),
                          ((3000000000,), [(2999999999,), (2147483648,), (1 << 30,)]), ((60000, 60000), [(59999, 59999), (40000, 1)]),
                          ((3, 30000, 40000), [(2, 29999, 39999), (1, 29999, 3)])):
            X.reset()
            t = make_tensor(lib.mod, 't', dims)
            ctx = 'Tensor(%s)' % show_dims(dims)
            check_getters(rep, lib, Pt(t.body), dims, None, ctx)
            check_addresses(rep, lib, Pt(t.body), dims, None, ctx, pts)


# ------------------------------------------------------------------ copies
def ret_tensor(rep, lib, q, ctx):
    if q.dead:
        s = q.died()
        rep.viol('stops the program for a supported shape', s[0], s[1], '', ctx, path=s[2])
        return None
    if not q.ok or type(q.ret) is not Pt:
        rep.ob('result tensor', 1, 0)
        return None
    return q.ret


def compare(rep, q, got, want, dims, ctx, what, obj=None):
    """got: list of value numbers; want: list"""
    pairs = [(i, g, w) for i, (g, w) in enumerate(zip(got, want))]
    i, a, u, bad = value_diffs(pairs)
    rep.ob(what, len(pairs), i)
    if u:
        rep.undecided(what + ' not tracked', u)
    if bad:
        lab, g, w, x, y, why = bad
        s = q.store_site(obj) if obj is not None else q.site()
        rep.viol(what + ' wrong', s[0], s[1], 'element %s is %s, expected %s' % (index(lab, dims), X.show(g), X.show(w)), ctx,
                 'with %s: %s instead of %s' % (why, x, y) if x is not None else why, path=s[2])


def contents(lib, f, p, n):
    """value numbers of n elements from address p in the memory of flow f"""
    out = []
    for i in range(n):
        c = f.cell(p.o, p.f + 4 * i)
        if c is None:
            if p.o.lazy:
                out.append(X.inp(p.o.lazy, p.f + 4 * i))
            elif p.o.size is not None and p.f + 4 * i + 4 > p.o.size:
                out.append(X.mk('undef', p.o.name, 4 * i))
            else:
                out.append(X.mk('undef', p.o.name, p.f + 4 * i))
        elif c[1] is KILL or c[0] != 4:
            out.append(X.mk('opq', 'untracked'))
        else:
            out.append(f.coerce(c[1], 'float'))
    return out


def pad_dims(dims, p):
    if len(dims) >= 4 or len(dims) == 2:
        return tuple(dims[:-2]) + (dims[-2] + p[0] + p[2], dims[-1] + p[1] + p[3])
    return tuple(dims[:-1]) + (dims[-1] + p[0] + p[1],)


def padded(t, dims, p, init):
    nd = pad_dims(dims, p)
    out = []
    two = len(dims) in (2, 4)
    for ix in itertools.product(*[range(d) for d in nd]):
        src = list(ix)
        if two:
            src[-2] -= p[0]
            src[-1] -= p[1]
        else:
            src[-1] -= p[0]
        out.append(t.at(*src) if all(0 <= i < d for i, d in zip(src, dims)) else init)
    return nd, out


PADS = [(0, 0, 0, 0), (1, 1, 1, 1), (1, 2, 3, 4), (0, 2, 0, 1), (2, 0, 1, 0), (0, 0, 0, 3), (3, 0, 0, 0), (0, 0, 2, 0), (0, 1, 0, 0)]


def unchanged(rep, q, allowed, ctx):
    eff = side_effects(q.f, allowed)
    rep.ob('source unchanged', 1, 0 if eff else 1)
    for o, ch, st in eff:
        s = sorted((rel(i), i.fn(), i.d.get('path', '')) for i, pc in q.f.stores[o].values())[-1] if o in q.f.stores else q.site()
        if o.kind == 'global':
            continue
        rep.viol('changes memory other than the destination', s[0], s[1], '%s changes at byte %s' % (short(o), ch[0][0]), ctx, path=s[2])


R14 = ['E_Tensor__expand', 'E_Tensor__expand0', 'E_Tensor__copy_pad', 'E_Tensor__copy', 'E_Tensor__concat', 'E_Tensor__concat2']


def data_of(lib, q, p):
    return data_pointer(lib, p, q.f.layers)


def p14(rep, tier, seed):
    lib, ints = lib_for(rep, R14)
    rep.rule('copying: the normal form of every element of the destination after padding, copying or concatenation is the source element at '
             'the shifted position, or the padding value; sources keep their contents; shapes that do not fit end the program with a failure')
    dl = [d for d in DIMS if len(d) >= 2] + [d for d in extra_dims(ints) if 2 <= len(d) and max(d) <= 260] + [d for d in LARGE if len(d) >= 2 and B in d]
    pads = PADS if tier == 'quick' else PADS + [tuple(random.Random(seed * 31 + i).randint(0, 4) for _ in range(4)) for i in range(20)]
    for dims in dl:
        for p in pads if max(dims) < 20 else pads[:3] if max(dims) < 1000 else pads[1:2]:
            p = tuple(p)
            X.reset()
            lay = None
            c = FCase(lib, 'E_Tensor__expand')
            t = c.tensor('t', dims)
            pa = c.array('padding', list(p))
            ctx = 'expand_with_padding of %s by %s' % (show_dims(dims), p)
            init = X.inp('init', 0)
            q = Q(rep, lib, 'E_Tensor__expand', [Pt(t.body), Pt(pa), init])
            nd, want = padded(t, dims, p, init)
            r = ret_tensor(rep, lib, q, ctx)
            if r is not None:
                bad_events(rep, q, ctx)
                unchanged(rep, q, set(), ctx)
                check_getters(rep, lib, r, nd, q.f.layers, ctx)
                dp = data_of(lib, q, r)
                compare(rep, q, contents(lib, q.f, dp, len(want)), want, nd, ctx, 'padded element', dp.o)
            if max(dims) > 1000:
                continue
            q = Q(rep, lib, 'E_Tensor__expand0', [Pt(t.body), Pt(pa)])
            r = ret_tensor(rep, lib, q, ctx + ', default value')
            if r is not None:
                dp = data_of(lib, q, r)
                compare(rep, q, contents(lib, q.f, dp, len(want)), padded(t, dims, p, X.const(0))[1], nd, ctx + ', default value', 'padded element', dp.o)
            # into a tensor that held something else
            d = c.tensor('dest', nd, arg=False)
            ctx = 'copy_with_padding_into of %s by %s' % (show_dims(dims), p)
            q = Q(rep, lib, 'E_Tensor__copy_pad', [Pt(t.body), Pt(d.body), Pt(pa), init])
            r = ret_tensor(rep, lib, q, ctx)
            if r is not None:
                bad_events(rep, q, ctx)
                unchanged(rep, q, {d.data}, ctx)
                if r.o is not d.body:
                    s = q.site()
                    rep.viol('does not return its destination', s[0], s[1], repr(r), ctx, path=s[2])
                compare(rep, q, contents(lib, q.f, Pt(d.data, 0), len(want)), want, nd, ctx, 'padded element', d.data)
    # plain copies
    for dims in DIMS + extra_dims(ints) + [(B,)]:
        for dd in {dims, (strides(dims)[1],), (1, strides(dims)[1])}:
            X.reset()
            c = FCase(lib, 'E_Tensor__copy')
            t, d = c.tensor('t', dims), c.tensor('dest', dd)
            ctx = 'copy of %s into %s' % (show_dims(dims), show_dims(dd))
            q = Q(rep, lib, 'E_Tensor__copy', [Pt(t.body), Pt(d.body)])
            if q.dead:
                s = q.died()
                rep.viol('stops the program for a supported shape', s[0], s[1], '', ctx, path=s[2])
            elif q.ok:
                bad_events(rep, q, ctx)
                unchanged(rep, q, {d.data}, ctx)
                compare(rep, q, contents(lib, q.f, Pt(d.data, 0), d.count), [t.flat(i) for i in range(t.count)], dd, ctx, 'copied element', d.data)
        for dd in ((strides(dims)[1] + 1,), (strides(dims)[1], 2), (1, 1, 1, strides(dims)[1] + 3)) + (((strides(dims)[1] - 1,),) if strides(dims)[1] > 1 else ()):
            must_die(rep, lib, 'E_Tensor__copy', 't', dims, 'dest', dd, [], 'copy of %s into %s' % (show_dims(dims), show_dims(dd)))
    # concatenation along channels / columns
    cc = []
    for b in (1, 2, 3):
        for chs in ((1,), (1, 1), (2, 3), (3, 1, 2), (1, 2, 3, 4)):
            cc += [[(b, ch, 2, 3) for ch in chs], [(b, ch, 3, 1) for ch in chs], [(b, ch, 4) for ch in chs], [(b, ch) for ch in chs]]
    for v in ints:
        for x in (v - 1, v, v + 1):
            if 1 <= x <= 260:
                cc += [[(1, x, 1, 1), (1, 1, 1, 1)], [(1, 1, 1, x), (1, 2, 1, x)], [(2, x), (2, 2)], [(1, 1, x), (1, 2, x)], [(x, 1, 1, 2), (x, 2, 1, 2)]]
                if x <= 16:
                    cc += [[(1, 1, 1, 2)] * x]
    cc += [[(1, 1, 1, B), (1, 2, 1, B)], [(1, B, 1, 1), (1, 1, 1, 1)], [(2, B), (2, 2)], [(B, 1), (B, 2)], [(1, 1, B), (1, 1, B)], [(B, 1, 1), (B, 1, 1)]]
    for ds in cc:
        X.reset()
        c = FCase(lib, 'E_Tensor__concat')
        ts = [c.tensor('in%d' % i, d, arg=False) for i, d in enumerate(ds)]
        od = (ds[0][0], sum(d[1] for d in ds)) + tuple(ds[0][2:])
        d = c.tensor('dest', od)
        arr = Obj('inputs', 'arg', 8 * len(ts), init={8 * i: Pt(t.body) for i, t in enumerate(ts)})
        ctx = 'concatenation of %s' % ', '.join(map(show_dims, ds))
        q = Q(rep, lib, 'E_Tensor__concat', [Pt(d.body), len(ts), Pt(arr), 1])
        if q.dead:
            s = q.died()
            rep.viol('stops the program for a supported shape', s[0], s[1], '', ctx, path=s[2])
            continue
        if not q.ok:
            rep.ob('concatenated element', d.count, 0)
            continue
        bad_events(rep, q, ctx)
        unchanged(rep, q, {d.data}, ctx)
        want = []
        for ix in itertools.product(*[range(x) for x in od]):
            ch, k = ix[1], 0
            while ch >= ds[k][1]:
                ch -= ds[k][1]
                k += 1
            want.append(ts[k].at(ix[0], ch, *ix[2:]))
        compare(rep, q, contents(lib, q.f, Pt(d.data, 0), d.count), want, od, ctx, 'concatenated element', d.data)
    for k, dim in ((4, 0), (4, 2), (4, 3), (3, 0), (3, 2), (2, 0), (4, 7)):
        X.reset()
        c = FCase(lib, 'E_Tensor__concat')
        sh = (2, 2, 2, 2)[:k]
        ts = [c.tensor('in%d' % i, sh, arg=False) for i in range(2)]
        od = list(sh)
        if dim < k:
            od[dim] *= 2
        d = c.tensor('dest', od)
        arr = Obj('inputs', 'arg', 16, init={8 * i: Pt(t.body) for i, t in enumerate(ts)})
        ctx = 'concatenation of two %s tensors along dimension %d' % (show_dims(sh), dim)
        q = Q(rep, lib, 'E_Tensor__concat', [Pt(d.body), 2, Pt(arr), dim])
        if not q.ok:
            rep.ob('unsupported request refused', 1, 0)
            continue
        good = q.dead
        if not good and dim < k:
            want = []
            for ix in itertools.product(*[range(x) for x in od]):
                ix = list(ix)
                s = ix[dim] // sh[dim]
                ix[dim] %= sh[dim]
                want.append(ts[s].at(*ix))
            good = all(g is w for g, w in zip(contents(lib, q.f, Pt(d.data, 0), d.count), want))
        rep.ob('unsupported request refused', 1, 1 if good else 0)
        if not good:
            s = q.site()
            rep.viol('unsupported request accepted', s[0], s[1], 'returns without the concatenated contents', ctx, path=s[2])


def must_die(rep, lib, root, n1, d1, n2, d2, more, ctx):
    X.reset()
    c = FCase(lib, root)
    t, o = c.tensor(n1, d1, arg=False), c.tensor(n2, d2, arg=False)
    q = Q(rep, lib, root, [Pt(t.body), Pt(o.body)] + more)
    if not q.ok:
        rep.ob('unsupported request refused', 1, 0)
        return
    zero = q.dead and any(e[0] == 'die' and e[4][1] == 0 for e in events(q.f))
    good = q.dead and not zero or (not q.dead and q.ret in (False, 0) and not side_effects(q.f, set()) and type(q.ret) is not type(None))
    rep.ob('unsupported request refused', 1, 1 if good else 0)
    if not good:
        s = q.site() if not q.dead else q.died()
        rep.viol('sizes that do not match accepted' if not zero else 'sizes that do not match end the program with a success status', s[0], s[1], 'returns normally', ctx, path=s[2])
    bad_events(rep, q, ctx)


# ---------------------------------------------------------------- equality
def evaluate(t, assign, profile='normal', seed=0):
    e = X.Eval(profile, seed)
    e.inputs.update(assign)
    return e(t)


def p15(rep, tier, seed):
    lib, ints = lib_for(rep, ['E_Tensor__eq', 'E_utils__fp_eq'])
    rep.rule('equality: the comparison result, as a condition on the elements, is equivalent to "same rank, same shape and every pair of '
             'elements closer than the tolerance": normal forms are compared, and the condition is evaluated around the tolerance for every element')
    TOL = 1e-4
    deltas = [0.0, 5e-5, -5e-5, 2e-4, -2e-4, 1.0, -1.0, 1e6, float('nan'), float('inf'), -float('inf')]
    for dims in [d for d in DIMS if strides(d)[1] <= 60] + [d for d in extra_dims(ints) if strides(d)[1] <= 600]:
        X.reset()
        c = FCase(lib, 'E_Tensor__eq')
        a, b = c.tensor('a', dims), c.tensor('b', dims)
        q = Q(rep, lib, 'E_Tensor__eq', [Pt(a.body), Pt(b.body)])
        ctx = 'comparison of two %s tensors' % show_dims(dims)
        if q.dead:
            s = q.died()
            rep.viol('stops the program', s[0], s[1], '', ctx, path=s[2])
            continue
        if not q.ok:
            rep.ob('comparison', 1, 0)
            continue
        bad_events(rep, q, ctx)
        unchanged(rep, q, set(), ctx)
        r = q.f.bool(q.ret) if not isinstance(q.ret, bool) else q.ret
        n = a.count
        for i in range(n):
            for dv in deltas:
                asg = {}
                for j in range(n):
                    v = random.Random('%d %d' % (j, i)).choice((0.0, .25, -3.0, 2.0, 1.0))
                    if dv != dv or abs(dv) > 1e5 or abs(dv) < 1e-3:
                        v = v if abs(v) < 4 else 1.0
                    asg[('a.data', 4 * j)] = v
                    asg[('b.data', 4 * j)] = v + (dv if j == i else 0.0)
                got = evaluate(r, asg)
                if got is None:
                    rep.ob('comparison decides element', 1, 0)
                    continue
                want = abs(dv) < TOL
                rep.ob('comparison decides element', 1, 1 if bool(got) == want else 0)
                if bool(got) != want:
                    s = q.site()
                    rep.viol('comparison gives the wrong answer', s[0], s[1], '%s although element %d differs by %g (tolerance %g)' % (
                        'equal' if got else 'unequal', i, dv, TOL), ctx, path=s[2])
                asg2 = {(('b' if k[0] == 'a.data' else 'a') + '.data', k[1]): v for k, v in asg.items()}
                got2 = evaluate(r, asg2)
                if got2 is not None and got2 != got:
                    s = q.site()
                    rep.viol('comparison is not symmetric', s[0], s[1], 'element %d differing by %g' % (i, dv), ctx, path=s[2])
    # different shapes
    sh = [(1,), (6,), (1, 6), (6, 1), (2, 3), (3, 2), (1, 2, 3), (2, 1, 3), (3, 2, 1), (1, 1, 2, 3), (2, 3, 1, 1), (1, 6, 1, 1), (1, 1, 1, 6), (4,), (2, 2), (1, 2, 2, 2), (8,)]
    for d1 in sh:
        for d2 in sh:
            if d1 == d2:
                continue
            X.reset()
            c = FCase(lib, 'E_Tensor__eq')
            a, b = c.tensor('a', d1), c.tensor('b', d2)
            q = Q(rep, lib, 'E_Tensor__eq', [Pt(a.body), Pt(b.body)])
            ctx = 'comparison of %s with %s' % (show_dims(d1), show_dims(d2))
            if q.dead or not q.ok:
                rep.ob('different shapes are unequal', 1, 0)
                if q.dead:
                    s = q.died()
                    rep.viol('stops the program', s[0], s[1], '', ctx, path=s[2])
                continue
            bad_events(rep, q, ctx)
            r = q.ret
            good = r is False or r == 0
            if not good and type(r) is T:
                good = evaluate(r, {(x + '.data', 4 * i): 1.0 for x in 'ab' for i in range(16)}) in (False, 0)
            rep.ob('different shapes are unequal', 1, 1 if good else 0)
            if not good:
                s = q.site()
                rep.viol('tensors of different shape compare equal', s[0], s[1], str(r)[:80], ctx, path=s[2])


def p16(rep, tier, seed):
    lib, ints = lib_for(rep, ['E_Tensor__add', 'E_Tensor__addch', 'E_Tensor__mul'])
    rep.rule('arithmetic: after adding, each element of the target is its old value plus the other element and the other is unchanged; after '
             'adding one channel only that channel changes; after scaling each element of the other is the element times the factor and the '
             'source is unchanged; different sizes end the program or are refused without any change')
    for dims in DIMS + extra_dims(ints) + [d for d in LARGE if len(d) != 2]:
        X.reset()
        c = FCase(lib, 'E_Tensor__add')
        a, b = c.tensor('t', dims, arg=False), c.tensor('o', dims, arg=False)
        ctx = 'add_tensor of %s' % show_dims(dims)
        if max(dims) < 1000 or len(dims) == 1:
            q = Q(rep, lib, 'E_Tensor__add', [Pt(a.body), Pt(b.body)])
            outcome(rep, lib, q, ctx, a, [X.add(a.flat(i), b.flat(i)) for i in range(a.count)], {a.data}, 'sum element', ret=True)
            # the tensor added to itself
            q = Q(rep, lib, 'E_Tensor__add', [Pt(a.body), Pt(a.body)])
            outcome(rep, lib, q, ctx + ' to itself', a, [X.add(a.flat(i), a.flat(i)) for i in range(a.count)], {a.data}, 'sum element', ret=True)
            ctx = 'mul_with_factor of %s' % show_dims(dims)
            f = X.inp('f', 0)
            q = Q(rep, lib, 'E_Tensor__mul', [Pt(a.body), Pt(b.body), f])
            outcome(rep, lib, q, ctx, b, [X.mul(a.flat(i), f) for i in range(a.count)], {b.data}, 'scaled element')
            q = Q(rep, lib, 'E_Tensor__mul', [Pt(a.body), Pt(a.body), f])
            outcome(rep, lib, q, ctx + ' in place', a, [X.mul(a.flat(i), f) for i in range(a.count)], {a.data}, 'scaled element')
        if len(dims) >= 2:
            st, n = strides(dims)
            if len(dims) == 2:
                spots = [((0, 0), 0, n)]
            else:
                spots = [((i, j), i * st[0] + j * st[1], st[1]) for i in range(dims[0]) for j in range(dims[1])]
                spots = spots[:12] + spots[-1:] if max(dims) < 1000 else spots[-1:]
            for (i, j), off, m in spots:
                ctx = 'add_channel (%d, %d) of %s' % (i, j, show_dims(dims))
                q = Q(rep, lib, 'E_Tensor__addch', [Pt(a.body), Pt(b.body), i, j])
                want = [X.add(a.flat(k), b.flat(k)) if off <= k < off + m else a.flat(k) for k in range(n)]
                outcome(rep, lib, q, ctx, a, want, {a.data}, 'sum element', ret=True)
    for d1, d2 in (((4,), (5,)), ((5,), (4,)), ((2, 3), (2, 2)), ((1, 2, 2, 2), (1, 2, 2, 3)), ((2, 1, 2, 2), (1, 1, 2, 2)), ((1, 2, 3), (1, 3, 3)), ((3,), (1, 1, 1, 4)), ((1, 1, 1, 4), (2,))):
        must_die(rep, lib, 'E_Tensor__add', 't', d1, 'o', d2, [], 'add_tensor of %s to %s' % (show_dims(d2), show_dims(d1)))
        must_die(rep, lib, 'E_Tensor__mul', 't', d1, 'o', d2, [X.inp('f', 0)], 'mul_with_factor of %s into %s' % (show_dims(d1), show_dims(d2)))


def outcome(rep, lib, q, ctx, t, want, allowed, what, ret=None):
    if q.dead:
        s = q.died()
        rep.viol('stops the program for a supported shape', s[0], s[1], '', ctx, path=s[2])
        return
    if not q.ok:
        rep.ob(what, len(want), 0)
        return
    bad_events(rep, q, ctx)
    unchanged(rep, q, allowed, ctx)
    compare(rep, q, contents(lib, q.f, Pt(t.data, 0), len(want)), want, t.dims, ctx, what, t.data)
    if ret is not None:
        good = q.ret is ret or q.ret == int(ret)
        rep.ob('reports success', 1, 1 if good else 0)
        if not good and type(q.ret) is not T:
            s = q.site()
            rep.viol('reports the wrong outcome', s[0], s[1], 'returns %s' % q.ret, ctx, path=s[2])


# ---------------------------------------------------------------- lifetime
def p17(rep, tier, seed):
    roots = ['E_Tensor__life%d' % k for k in (1, 2, 3, 4)]
    lib, ints = lib_for(rep, roots + R14)
    rep.rule('ownership: a tensor releases its shape and data exactly once with the matching operator when it ends; a new padded tensor owns '
             'memory of its own; copying, padding, concatenating and arithmetic allocate nothing that outlives them and release nothing of their arguments')
    for dims in DIMS + extra_dims(ints):
        X.reset()
        ctx = 'Tensor(%s) constructed and destroyed' % show_dims(dims)
        q = Q(rep, lib, 'E_Tensor__life%d' % len(dims), list(dims))
        pairing(rep, q, ctx)
        q = Q(rep, lib, 'E_Tensor__new%d' % len(dims), list(dims))
        if q.ok and type(q.ret) is Pt:
            mem = memory(q.f)
            news = [e.data for e in q.f.events if e.kind == 'alloc']
            freed = {e.data[0] for e in q.f.events if e.kind == 'free'}
            live = [o for o in news if o not in freed]
            d = Q(rep, lib, 'E_Tensor__delete', [q.ret], q.f.layers)
            if d.ok and not d.dead:
                fr = [e.data[0] for e in d.f.events if e.kind == 'free']
                for o in live:
                    n = fr.count(o)
                    rep.ob('heap object released exactly once', 1, 1 if n == 1 else 0)
                    if n != 1:
                        rep.viol('heap object never released' if n == 0 else 'heap object released twice', rel(o.ins), o.ins.fn(), '%d releases by delete' % n, ctx)
                for e in events(d.f):
                    if e[0] in HEAP and e[5]:
                        rep.viol(e[0], e[1], e[2], str(e[4]), ctx, path=e[3])
    for dims in [d for d in DIMS if len(d) >= 2]:
        for p in PADS[:4]:
            X.reset()
            c = FCase(lib, 'E_Tensor__expand')
            t = c.tensor('t', dims)
            pa = c.array('padding', list(p))
            ctx = 'expand_with_padding of %s by %s' % (show_dims(dims), p)
            q = Q(rep, lib, 'E_Tensor__expand', [Pt(t.body), Pt(pa), X.inp('init', 0)])
            if not q.ok or q.dead or type(q.ret) is not Pt:
                continue
            pairing(rep, q, ctx)
            # its memory is its own: neither the descriptor nor the data of the source is reachable
            for o, w in ((t.body, 'descriptor'), (t.data, 'data'), (t.shape, 'shape'), (pa, 'padding array')):
                own = not reach(q.f, q.ret, o)
                rep.ob('result owns its memory', 1, 1 if own else 0)
                if not own:
                    s = q.site()
                    rep.viol('result shares memory with the source', s[0], s[1], 'the %s of the source is reachable from the result' % w, ctx, path=s[2])
            d = c.tensor('dest', pad_dims(dims, p), arg=False)
            q = Q(rep, lib, 'E_Tensor__copy_pad', [Pt(t.body), Pt(d.body), Pt(pa), X.inp('init', 0)])
            pairing(rep, q, 'copy_with_padding_into of %s by %s' % (show_dims(dims), p))
            b = c.tensor('b', dims, arg=False)
            for root, args in (('E_Tensor__copy', [Pt(t.body), Pt(b.body)]), ('E_Tensor__add', [Pt(t.body), Pt(b.body)]), ('E_Tensor__mul', [Pt(t.body), Pt(b.body), X.inp('f', 0)]),
                               ('E_Tensor__eq', [Pt(t.body), Pt(b.body)]), ('E_Tensor__addch', [Pt(t.body), Pt(b.body), 0, 0])):
                q = Q(rep, lib, root, args)
                pairing(rep, q, '%s on %s' % (root[2:].replace('__', '::'), show_dims(dims)))


def pairing(rep, q, ctx):
    if not q.ok or q.dead:
        return
    n = sum(e.kind == 'alloc' for e in q.f.events)
    lk = leaks(q.f)
    rep.ob('heap object released exactly once', n, n - len(lk))
    rep.ob('arguments keep their memory', 1)
    for l in lk:
        rep.viol('heap object never released', l[0], l[1], 'allocated here, not released on some path', ctx, path=l[2])
    for e in events(q.f):
        if e[0] in HEAP + ('use-after-free',) and e[5]:
            rep.viol({'double-free': 'heap object released twice', 'bad-free': 'release of memory that is not a heap object of its own',
                      'mismatched-free': 'heap object released with the wrong operator', 'use-after-free': 'use of released memory'}[e[0]], e[1], e[2], str(e[4]), ctx, path=e[3])
    for e in q.f.events:
        if e.kind == 'free' and e.data[0].kind == 'arg':
            rep.viol('releases memory of an argument', rel(e.ins), e.ins.fn(), short(e.data[0]), ctx, path=e.ins.d.get('path', ''))


# -------------------------------------------------------------------- dump
def nesting(rep, out, dims, ctx):
    """the text around the elements: a separator between any two, and brackets that open and close where a dimension does"""
    gaps, cur, first = [], [], None
    for k, v, i in out:
        if k == 'f':
            gaps.append(cur)
            cur, first = [], i
        elif k == 's':
            cur.append((v, i))
    gaps.append(cur)
    if any(v is None for g in gaps for v, i in g):
        rep.count('dumps whose text is not followed')
        return
    txt = [''.join(v for v, i in g) for g in gaps]
    bad, level = None, {0: 0}
    n = len(txt) - 1
    for k in range(1, n):
        r, j = 0, k
        for d in reversed(dims):
            if j % d:
                break
            j //= d
            r += 1
        w = txt[k]
        if not w:
            bad = (k, 'nothing separates element %d from element %d' % (k - 1, k))
        elif w.count(']') != w.count('[') or level.setdefault(r, w.count('[')) != w.count('[') or any((x < r) != (level[x] < level[r]) for x in level if x != r):
            bad = (k, '%d brackets close and %d open between element %d and element %d, where %d dimensions begin anew (elsewhere: %s)' % (
                w.count(']'), w.count('['), k - 1, k, r, level))
        if bad:
            break
    lead, tail = txt[0].count('[') - txt[0].count(']'), txt[n].count(']') - txt[n].count('[')
    if not bad and lead != tail:
        bad = (n, '%d brackets open before the first element and %d close after the last' % (lead, tail))
    rep.ob('text between elements follows the dimensions', n + 1, n + 1 if not bad else n)
    if bad:
        g = gaps[bad[0]] or gaps[0]
        i = g[-1][1] if g else first
        rep.viol('elements are not nested in brackets as the dimensions are', rel(i), i.fn(), bad[1], ctx, path=i.d.get('path', ''))


def p35(rep, tier, seed):
    lib, ints = lib_for(rep, ['E_Tensor__print'])
    rep.rule('text dump: the numbers written to the stream are, in this order, the extents of all dimensions and then every element once in '
             'row-major order')
    for dims in DIMS + [d for d in extra_dims(ints) if strides(d)[1] < 600]:
        X.reset()
        c = FCase(lib, 'E_Tensor__print')
        t = c.tensor('t', dims)
        f = c.flow
        out = []

        def hook(kind):
            def h(self, ins, d):
                v = self.val(d['ops'][1])
                if self.cond() is not True:
                    out.append(('?', None, ins))
                out.append((kind, v, ins))
                return self.val(d['ops'][0])
            return h
        for n, k in (('_ZNSolsEf', 'f'), ('_ZNSolsEd', 'f'), ('_ZNSolsEj', 'i'), ('_ZNSolsEi', 'i'), ('_ZNSolsEm', 'i'), ('_ZNSolsEl', 'i')):
            f.hooks[n] = hook(k)
        def text(how):
            def h(self, ins, d):
                try:
                    w = how(self, self.val(d['ops'][1]), ins)
                except Exception:
                    w = None
                out.append(('s', w, ins))
                return self.val(d['ops'][0])
            return h

        def string(self, v, ins):
            n = self.load(Pt(v.o, v.f + 8), 8, 'i64', ins)
            w = self.load(Pt(v.o, v.f), 8, 'ptr', ins)
            return bytes(self.load(Pt(w.o, w.f + i), 1, 'i8', ins) for i in range(n)).decode('latin1')
        f.hooks['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'] = text(lambda fl, v, i: conststr(fl, v, i))
        f.hooks['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c'] = text(lambda fl, v, i: chr(v))
        f.hooks['_ZNSo3putEc'] = text(lambda fl, v, i: chr(v))
        f.hooks['_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_T1_T2_EE'] = text(string)
        f.run()
        rep.functions |= {i.d.get('fn') for b in f.blocks_seen for i in f.fn.blocks[b] if str(i.d.get('file', '')).startswith(REPO)}
        ctx = 'printing a %s tensor' % show_dims(dims)
        if f.undecided or getattr(f, 'aborted', False) or any(k == '?' for k, v, i in out):
            for w, at in f.undecided:
                rep.undecided('%s %s' % (w, at))
            rep.ob('element printed in order', t.count, 0)
            continue
        for e in events(f):
            if e[0] in BAD and e[5]:
                rep.viol('access outside the object', e[1], e[2], str(e[4]), ctx, path=e[3])
        if f.dead:
            e = [e for e in f.events if e.kind == 'die'][-1]
            rep.viol('stops the program', rel(e.ins), e.ins.fn(), '', ctx)
            continue
        fl = [(v, i) for k, v, i in out if k == 'f']
        it = [v for k, v, i in out if k == 'i' and type(v) is int]
        if not fl:
            rep.undecided('no element is written through the stream operators')
            continue
        want = [t.flat(i) for i in range(t.count)]
        good = [v for v, i in fl] == want
        rep.ob('element printed in order', t.count, t.count if good else 0)
        if not good:
            k = next((k for k in range(len(want)) if k >= len(fl) or fl[k][0] is not want[k]), len(want))
            ins = fl[min(k, len(fl) - 1)][1]
            rep.viol('elements are not printed once each in row-major order', rel(ins), ins.fn(), 'item %d is %s, expected %s' % (
                k, X.show(fl[k][0]) if k < len(fl) else 'missing', X.show(want[k]) if k < len(want) else 'nothing'), ctx, path=ins.d.get('path', ''))
        if good:
            nesting(rep, out, dims, ctx)
        good = it[:len(dims)] == list(dims)
        rep.ob('shape printed', 1, 1 if good else 0)
        if not good and it:
            ins = [i for k, v, i in out if k == 'i'][0]
            rep.viol('printed shape is wrong', rel(ins), ins.fn(), '%s instead of %s' % (it, list(dims)), ctx, path=ins.d.get('path', ''))
