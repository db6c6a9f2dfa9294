"""Layer contexts (known shapes) and the meaning of every layer, written from
its ONNX operator and independent of the implementation."""
import itertools
from . import term as X
from .fctx import *

NEGINF = X.const(-float('inf')) if False else None


class L:
    """one context of one layer"""

    def __init__(self, cls, label, setup, spec, reject=False, two=None, arrays=True):
        self.cls, self.label, self.setup, self.spec = cls, label, setup, spec
        self.reject = reject
        self.steps = 3000000
        self.two = two      # (setup2) for the second run

    def __repr__(self):
        return '%s %s' % (self.cls, self.label)


def rng(*ns):
    return itertools.product(*[range(n) for n in ns])


def odim(h, k, s):
    return (h - k) // s + 1


# ---------------------------------------------------------------- convolution
def conv(n, ic, oc, g, h, w, kh, kw, sh, sw, pad, bias, in_n=None):
    p = pad or (0, 0, 0, 0)
    oh, ow = odim(h + p[0] + p[2], kh, sh), odim(w + p[1] + p[3], kw, sw)

    def cfg(c):
        c.tensor('kernel', (oc, ic // g, kh, kw))
        if bias:
            c.tensor('bias', (oc,))
        else:
            c.null('bias')
        if pad:
            c.array('padding', list(pad))
        else:
            c.null('padding')
        c.array('stride', [sh, sw])
        c.set('groups', g)

    def io(c, i='in', o='out'):
        c.tensor(i, (n, ic, h, w))
        c.tensor(o, (n, oc, oh, ow))

    def spec(c, i='in', o='out'):
        x, k, out = c.t[i], c.t['kernel'], c.t[o]
        b = c.t.get('bias')
        icg, ocg = ic // g, oc // g
        res = []
        for b_, m, y, z in rng(n, oc, oh, ow):
            ts = [b.at(m)] if b else []
            for q, r, s in rng(icg, kh, kw):
                yy, zz = y * sh + r - p[0], z * sw + s - p[1]
                if 0 <= yy < h and 0 <= zz < w:
                    ts.append(X.mul(x.at(b_, (m // ocg) * icg + q, yy, zz), k.at(m, q, r, s)))
            res.append(X.add(*ts) if ts else X.const(0))
        return res
    lab = 'in %dx%dx%dx%d out-channels %d groups %d kernel %dx%d stride %d,%d padding %s bias %s' % (
        n, ic, h, w, oc, g, kh, kw, sh, sw, pad, bias)
    return L('Convolution', lab, (cfg, io), spec)


def conv1(n, ic, oc, g, w, k, s, pad, bias):
    p = pad or (0, 0)
    ow = odim(w + p[0] + p[1], k, s)

    def cfg(c):
        c.tensor('kernel', (oc, ic // g, k))
        if bias:
            c.tensor('bias', (oc,))
        else:
            c.null('bias')
        if pad:
            c.array('padding', list(pad) + [0, 0])
        else:
            c.null('padding')
        c.array('stride', [s, 1])
        c.set('groups', g)

    def io(c, i='in', o='out'):
        c.tensor(i, (n, ic, w))
        c.tensor(o, (n, oc, ow))

    def spec(c, i='in', o='out'):
        x, kk = c.t[i], c.t['kernel']
        b = c.t.get('bias')
        icg, ocg = ic // g, oc // g
        res = []
        for b_, m, z in rng(n, oc, ow):
            ts = [b.at(m)] if b else []
            for q, t in rng(icg, k):
                zz = z * s + t - p[0]
                if 0 <= zz < w:
                    ts.append(X.mul(x.at(b_, (m // ocg) * icg + q, zz), kk.at(m, q, t)))
            res.append(X.add(*ts) if ts else X.const(0))
        return res
    return L('Convolution', '1-D in %dx%dx%d out-channels %d groups %d kernel %d stride %d padding %s bias %s' % (
        n, ic, w, oc, g, k, s, pad, bias), (cfg, io), spec)


def conv_reject(dims, odims, kdims, lab):
    def cfg(c):
        c.tensor('kernel', kdims)
        c.null('bias')
        c.null('padding')
        c.array('stride', [1, 1])
        c.set('groups', 1)

    def io(c, i='in', o='out'):
        c.tensor(i, dims)
        c.tensor(o, odims)
    return L('Convolution', lab, (cfg, io), None, reject=True)


# -------------------------------------------------------------------- pooling
def pool(cls, n, ch, h, w, kh, kw, sh, sw, pad, inc=None):
    p = pad or (0, 0, 0, 0)
    oh, ow = odim(h + p[0] + p[2], kh, sh), odim(w + p[1] + p[3], kw, sw)

    def cfg(c):
        c.array('kernel_size', [kh, kw])
        c.array('stride', [sh, sw])
        if pad:
            c.array('padding', list(pad))
        else:
            c.null('padding')
        if inc is not None:
            c.set('include_pad', bool(inc))

    def io(c, i='in', o='out'):
        c.tensor(i, (n, ch, h, w))
        c.tensor(o, (n, ch, oh, ow))

    def spec(c, i='in', o='out'):
        x = c.t[i]
        res = []
        for b, q, y, z in rng(n, ch, oh, ow):
            win = []
            for r, s in rng(kh, kw):
                yy, zz = y * sh + r - p[0], z * sw + s - p[1]
                if 0 <= yy < h and 0 <= zz < w:
                    win.append(x.at(b, q, yy, zz))
            if cls == 'MaxPooling':
                res.append(X.maximum(*win))
            else:
                res.append(X.mul(X.add(*win) if win else X.const(0), 1.0 / (kh * kw if inc else len(win))))
        return res
    lab = 'in %dx%dx%dx%d kernel %dx%d stride %d,%d padding %s%s' % (
        n, ch, h, w, kh, kw, sh, sw, pad, '' if inc is None else ' count_include_pad %d' % inc)
    return L(cls, lab, (cfg, io), spec)


def pool1(cls, n, ch, w, k, s, pad, inc=None):
    p = pad or (0, 0)
    ow = odim(w + p[0] + p[1], k, s)

    def cfg(c):
        c.array('kernel_size', [k, 1])
        c.array('stride', [s, 1])
        if pad:
            c.array('padding', list(pad) + [0, 0])
        else:
            c.null('padding')
        if inc is not None:
            c.set('include_pad', bool(inc))

    def io(c, i='in', o='out'):
        c.tensor(i, (n, ch, w))
        c.tensor(o, (n, ch, ow))

    def spec(c, i='in', o='out'):
        x = c.t[i]
        res = []
        for b, q, z in rng(n, ch, ow):
            win = [x.at(b, q, z * s + t - p[0]) for t in range(k) if 0 <= z * s + t - p[0] < w]
            if cls == 'MaxPooling':
                res.append(X.maximum(*win))
            else:
                res.append(X.mul(X.add(*win) if win else X.const(0), 1.0 / (k if inc else len(win))))
        return res
    lab = '1-D in %dx%dx%d kernel %d stride %d padding %s%s' % (
        n, ch, w, k, s, pad, '' if inc is None else ' count_include_pad %d' % inc)
    return L(cls, lab, (cfg, io), spec)


def pool_reject(cls, dims):
    def cfg(c):
        if cls.startswith('Global'):
            return
        c.array('kernel_size', [1, 1])
        c.array('stride', [1, 1])
        c.null('padding')
        if cls == 'AveragePooling':
            c.set('include_pad', True)

    def io(c, i='in', o='out'):
        c.tensor(i, dims)
        c.tensor(o, dims)
    return L(cls, 'rank %d' % len(dims), (cfg, io), None, reject=True)


def gpool(cls, dims):
    n, ch = dims[:2]

    def io(c, i='in', o='out'):
        c.tensor(i, dims)
        c.tensor(o, (n, ch) + (1,) * (len(dims) - 2))

    def spec(c, i='in', o='out'):
        x = c.t[i]
        m = x.count // (n * ch)
        res = []
        for b, q in rng(n, ch):
            win = [x.flat((b * ch + q) * m + t) for t in range(m)]
            res.append(X.maximum(*win) if cls == 'GlobalMaxPooling' else X.mul(X.add(*win), 1.0 / m))
        return res
    return L(cls, 'in %s' % 'x'.join(map(str, dims)), (lambda c: None, io), spec)


# ------------------------------------------------------------ normalisation
def bn(dims, reject=False, eps='sym'):
    ch = dims[1] if len(dims) > 1 else 1

    def cfg(c):
        for n in ('gammas', 'betas', 'means', 'variances'):
            c.tensor(n, (ch,))
        if eps != 'sym':
            c.scalar('epsilon', eps)

    def io(c, i='in', o='out'):
        c.tensor(i, dims)
        c.tensor(o, dims)

    def spec(c, i='in', o='out'):
        x = c.t[i]
        m = x.count // ch
        e = X.inp('epsilon', 0) if eps == 'sym' else X.const(eps)
        res = []
        for j in range(x.count):
            q = j // m
            a = {n: c.t[n].at(q) for n in ('gammas', 'betas', 'means', 'variances')}
            res.append(X.add(X.div(X.mul(a['gammas'], X.sub(x.flat(j), a['means'])),
                                   X.fn('sqrt', X.add(a['variances'], e))), a['betas']))
        return res
    return L('BatchNormalization', 'in %s' % 'x'.join(map(str, dims)), (cfg, io), spec, reject=reject)


# ------------------------------------------------------------ matrix products
def fc(cls, m, k, n, bias=None, dims=None, odims=None):
    rej = dims is not None

    def cfg(c):
        if cls == 'FullyConnected':
            c.tensor('kernel', (n, k))
            if bias:
                c.tensor('bias', (n,))
            else:
                c.null('bias')
        else:
            c.tensor('weights', (k, n))

    def io(c, i='in', o='out'):
        c.tensor(i, dims or (m, k))
        c.tensor(o, odims or (m, n))

    def spec(c, i='in', o='out'):
        x = c.t[i]
        res = []
        for r, j in rng(m, n):
            ts = [X.mul(x.at(r, t), c.t['kernel'].at(j, t) if cls == 'FullyConnected' else c.t['weights'].at(t, j)) for t in range(k)]
            if bias:
                ts.append(c.t['bias'].at(j))
            res.append(X.add(*ts))
        return res
    lab = 'in %s out %s%s' % (dims or (m, k), odims or (m, n), '' if bias is None else ' bias %s' % bias)
    return L(cls, lab, (cfg, io), spec, reject=rej)


# ---------------------------------------------------------------- activations
def act(cls, dims, extra=None, reject=False):
    def cfg(c):
        if extra:
            extra(c)

    def io(c, i='in', o='out'):
        c.tensor(i, dims)
        c.tensor(o, dims)

    def spec(c, i='in', o='out'):
        x = c.t[i]
        return [SPEC[cls](c, x, j) for j in range(x.count)]
    return L(cls, 'in %s%s' % ('x'.join(map(str, dims)), getattr(extra, 'lab', '')), (cfg, io), spec, reject=reject)


def s_relu(c, x, j):
    return X.maximum(x.flat(j), 0)


def s_leaky(c, x, j):
    v = x.flat(j)
    return X.sel(X.lt(v, 0), X.mul(v, X.inp('leak', 0)), v)


def s_prelu(c, x, j):
    v = x.flat(j)
    return X.sel(X.lt(v, 0), X.mul(v, c.t['slope'].flat(j)), v)


def s_clip(c, x, j):
    lo, hi = c.lohi
    return X.minimum(X.maximum(x.flat(j), lo), hi)


def s_sigmoid(c, x, j):
    return X.div(1, X.add(1, X.fn('exp', X.neg(x.flat(j)))))


def s_tanh(c, x, j):
    return X.fn('tanh', x.flat(j))


def s_softmax(c, x, j):
    m = x.count // x.dims[0] if len(x.dims) > 1 else x.count
    b = j // m
    return X.div(X.fn('exp', x.flat(j)), X.add(*[X.fn('exp', x.flat(b * m + t)) for t in range(m)]))


def s_lrn(c, x, j):
    n, ch, h, w = x.dims
    b, q, y, z = j // (ch * h * w), j // (h * w) % ch, j // w % h, j % w
    half = c.lrn_n // 2
    s = X.add(*[X.mul(x.at(b, t, y, z), x.at(b, t, y, z)) for t in range(max(0, q - half), min(ch - 1, q + half) + 1)])
    al, be = X.inp('alpha', 0), X.inp('beta', 0)
    return X.div(x.flat(j), X.fn('pow', X.add(1, X.mul(al, 1.0 / c.lrn_n, s)), be))


SPEC = {'ReLU': s_relu, 'LeakyReLU': s_leaky, 'ParameterizedReLU': s_prelu, 'Clip': s_clip, 'Sigmoid': s_sigmoid,
        'TanH': s_tanh, 'Softmax': s_softmax, 'LRN': s_lrn, 'ActivationFunction': lambda c, x, j: x.flat(j)}


def lohi(lo, hi):
    def f(c):
        c.scalar('lo', lo)
        c.scalar('hi', hi)
        c.lohi = (X.const(lo), X.const(hi))
    f.lab = ' clip to [%g,%g]' % (lo, hi)
    return f


def lrn_n(n):
    def f(c):
        c.set('n', n)
        c.lrn_n = n
    f.lab = ' size %d' % n
    return f


def slope(dims):
    def f(c):
        c.tensor('slope', dims)
    f.lab = ' slope %s' % (dims,)
    return f


RANKS = [(1,), (5,), (1, 4), (3, 2), (1, 2, 3), (2, 1, 3), (1, 3, 2, 2), (2, 2, 1, 3), (1, 1, 1, 1)]


def contexts(cls, tier='quick'):
    """the contexts every change is checked in; thorough adds a denser grid"""
    th = tier == 'thorough'
    out = []
    if cls == 'Convolution':
        P1 = (1, 1, 1, 1)
        T = [
            (1, 1, 1, 1, 3, 3, 3, 3, 1, 1, None, True), (1, 1, 1, 1, 3, 4, 1, 1, 1, 1, None, False),
            (1, 2, 3, 1, 4, 5, 3, 3, 1, 1, P1, True), (1, 3, 2, 1, 5, 4, 3, 2, 1, 1, None, False),
            (1, 2, 2, 1, 5, 6, 2, 2, 1, 1, None, True), (1, 2, 2, 1, 6, 5, 4, 2, 2, 1, (1, 0, 2, 1), True),
            (1, 4, 4, 2, 4, 4, 3, 3, 1, 1, P1, True), (1, 4, 6, 2, 5, 4, 1, 3, 2, 1, (0, 1, 0, 1), False),
            (1, 3, 3, 3, 4, 4, 3, 3, 1, 1, P1, True), (1, 3, 6, 3, 4, 5, 2, 3, 1, 2, None, True),
            (1, 6, 4, 2, 3, 3, 2, 2, 1, 1, None, True), (1, 1, 4, 1, 7, 7, 3, 3, 2, 2, None, True),
            (1, 2, 1, 1, 8, 7, 5, 3, 3, 2, (2, 1, 2, 1), True), (1, 1, 2, 1, 5, 5, 3, 3, 2, 3, (0, 1, 1, 0), False),
            (1, 1, 1, 1, 1, 1, 1, 1, 1, 1, None, True), (1, 2, 2, 2, 1, 5, 1, 3, 1, 1, (0, 2, 0, 1), True),
            (1, 1, 1, 1, 2, 2, 3, 3, 1, 1, P1, False), (1, 4, 2, 2, 3, 3, 3, 3, 1, 1, (1, 2, 0, 1), True),
            (1, 5, 1, 1, 2, 2, 2, 2, 1, 1, None, True), (1, 2, 2, 1, 4, 4, 3, 3, 1, 1, (0, 0, 0, 0), True),
            (1, 8, 8, 4, 2, 3, 1, 2, 1, 1, None, False), (1, 2, 2, 1, 9, 9, 7, 5, 1, 1, (3, 2, 3, 2), False),
        ]
        out = [conv(*t) for t in T]
        T1 = [(1, 1, 1, 1, 5, 3, 1, None, True), (1, 2, 3, 1, 6, 3, 2, (1, 1), True), (1, 4, 2, 2, 5, 2, 1, None, False),
              (1, 3, 3, 3, 6, 3, 1, (2, 0), True), (1, 2, 2, 1, 7, 4, 3, (1, 2), True), (1, 1, 2, 1, 4, 1, 1, None, True),
              (1, 4, 4, 2, 4, 3, 1, (1, 1), False), (1, 3, 1, 1, 8, 5, 2, (0, 2), True), (1, 2, 4, 2, 9, 2, 4, None, True)]
        out += [conv1(*t) for t in T1]
        if th:
            for ic, oc, g in ((1, 2, 1), (3, 2, 1), (4, 4, 2), (2, 4, 2), (3, 3, 3), (6, 3, 3)):
                for kh, kw in ((1, 1), (2, 3), (3, 3), (5, 4)):
                    for sh, sw in ((1, 1), (2, 1), (3, 2)):
                        for pad in (None, (1, 0, 1, 1), (2, 1, 0, 1)):
                            for bias in (True, False):
                                out.append(conv(1, ic, oc, g, 6, 5, kh, kw, sh, sw, pad, bias))
                for k in (1, 2, 3, 5):
                    for s in (1, 2, 3):
                        for pad in (None, (1, 1), (0, 2), (2, 1)):
                            out.append(conv1(1, ic, oc, g, 7, k, s, pad, (k + s) % 2 == 0))
        out += [conv_reject((4,), (4,), (1, 1, 1, 1), 'rank 1'), conv_reject((3, 3), (3, 3), (1, 1, 1, 1), 'rank 2'),
                rej(conv(2, 1, 1, 1, 3, 3, 1, 1, 1, 1, None, False)), rej(conv1(2, 1, 1, 1, 3, 1, 1, None, False)),
                rej(conv(3, 2, 1, 1, 2, 2, 2, 2, 1, 1, None, True))]
    elif cls in ('MaxPooling', 'AveragePooling'):
        T = [(1, 1, 2, 2, 2, 2, 2, 2, None), (1, 2, 4, 5, 2, 2, 2, 2, None), (1, 2, 5, 5, 3, 3, 2, 2, None),
             (2, 2, 4, 4, 2, 3, 1, 1, None), (1, 1, 6, 7, 3, 2, 3, 2, None), (1, 2, 4, 4, 3, 3, 1, 1, (1, 1, 1, 1)),
             (1, 1, 5, 4, 3, 3, 2, 2, (1, 1, 1, 1)), (2, 3, 3, 4, 2, 2, 2, 2, (1, 0, 0, 1)), (1, 1, 4, 6, 3, 4, 1, 2, (0, 2, 1, 1)),
             (1, 2, 3, 3, 1, 1, 1, 1, None), (1, 1, 3, 3, 2, 2, 1, 1, (0, 0, 1, 1)), (1, 1, 3, 3, 2, 2, 1, 1, (1, 1, 0, 0)),
             (1, 1, 7, 3, 2, 3, 4, 1, None), (1, 1, 1, 5, 1, 3, 1, 2, (0, 1, 0, 1)), (1, 1, 5, 5, 5, 5, 1, 1, (2, 2, 2, 2)),
             (1, 2, 3, 3, 3, 3, 1, 1, (0, 0, 0, 0)), (1, 1, 6, 6, 2, 2, 3, 3, None), (1, 1, 4, 4, 3, 3, 3, 3, (2, 1, 1, 2))]
        T1 = [(1, 1, 4, 2, 2, None), (2, 2, 5, 3, 2, None), (1, 2, 6, 3, 1, (1, 1)), (1, 1, 5, 2, 2, (1, 0)),
              (1, 1, 5, 2, 1, (0, 1)), (1, 3, 7, 4, 3, (2, 1)), (1, 1, 3, 1, 1, None), (1, 1, 5, 5, 1, (2, 2)), (1, 2, 3, 2, 1, (0, 0))]
        incs = (None,) if cls == 'MaxPooling' else (0, 1)
        for inc in incs:
            out += [pool(cls, *t, inc) for t in T]
            out += [pool1(cls, *t, inc) for t in T1]
            if th:
                for h, w in ((4, 5), (6, 3), (7, 7)):
                    for kh, kw in ((1, 2), (2, 2), (3, 3), (3, 2)):
                        for sh, sw in ((1, 1), (2, 1), (2, 3)):
                            for pad in (None, (1, 1, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1)):
                                if pad and (max(pad[0], pad[2]) >= kh or max(pad[1], pad[3]) >= kw):
                                    continue
                                out.append(pool(cls, 2, 2, h, w, kh, kw, sh, sw, pad, inc))
                for w in (4, 5, 8):
                    for k in (1, 2, 3, 4):
                        for s in (1, 2, 3):
                            for pad in (None, (1, 1), (0, 1), (1, 0), (2, 2)):
                                if pad and max(pad) >= k:
                                    continue
                                out.append(pool1(cls, 2, 2, w, k, s, pad, inc))
        out += [pool_reject(cls, (4,)), pool_reject(cls, (3, 4))]
    elif cls in ('GlobalMaxPooling', 'GlobalAveragePooling'):
        D = [(1, 1, 1, 1), (1, 3, 2, 2), (2, 2, 3, 4), (1, 2, 1, 5), (1, 2, 4, 1), (3, 1, 2, 3), (1, 2, 5), (2, 3, 4), (1, 1, 1), (1, 1, 4, 4)]
        if th:
            D += [(n, c, h, w) for n in (1, 2) for c in (1, 2, 4) for h in (1, 2, 3, 5) for w in (1, 2, 4, 5)]
            D += [(n, c, w) for n in (1, 2) for c in (1, 2, 4) for w in (1, 2, 3, 7)]
        out = [gpool(cls, d) for d in D] + [pool_reject(cls, (4,)), pool_reject(cls, (3, 4))]
    elif cls == 'BatchNormalization':
        D = [(1, 1, 1, 1), (1, 3, 2, 2), (1, 2, 3, 4), (1, 4, 1, 2), (1, 2, 2, 1), (1, 2, 5), (1, 3, 1), (1, 1, 4)]
        if th:
            D += [(1, c, h, w) for c in (1, 2, 5) for h in (1, 2, 4) for w in (1, 3, 5)] + [(1, c, w) for c in (1, 2, 5) for w in (2, 3, 6)]
        out = [bn(d) for d in D] + [bn((1, 2, 2, 2), eps=1e-5)]
        out += [bn(d, True) for d in ((4,), (2, 3), (2, 2, 2, 2), (3, 2, 4))]
    elif cls in ('FullyConnected', 'MatMul'):
        S = [(1, 1, 1), (1, 3, 2), (1, 2, 4), (2, 3, 3), (3, 2, 1), (2, 1, 3), (1, 4, 1), (4, 2, 2), (1, 6, 5), (2, 5, 3)]
        if th:
            S += [(m, k, n) for m in (1, 2, 5) for k in (1, 2, 4, 7) for n in (1, 3, 6)]
        for b in ((True, False) if cls == 'FullyConnected' else (None,)):
            out += [fc(cls, *s, b) for s in S]
        b = True if cls == 'FullyConnected' else None
        out += [fc(cls, 1, 4, 3, b, d, o) for d, o in (((4,), (1, 3)), ((1, 1, 4), (1, 3)), ((1, 4), (3,)), ((1, 4), (1, 1, 3)),
                                                      ((1, 1, 1, 4), (1, 1, 1, 3)), ((1, 4, 1, 1), (1, 3)), ((1, 4), (1, 3, 1, 1)))]
    elif cls in ('ReLU', 'LeakyReLU', 'Sigmoid', 'TanH', 'ActivationFunction', 'Softmax', 'Clip', 'ParameterizedReLU'):
        R = list(RANKS)
        if th:
            R += [(n,) for n in (2, 3, 7, 16)] + [(a, b) for a in (1, 2, 4) for b in (1, 3, 8)] + \
                [(a, b, c) for a in (1, 3) for b in (2, 3) for c in (1, 4)] + \
                [(a, b, c, d) for a in (1, 2) for b in (1, 3) for c in (1, 2, 4) for d in (1, 3)]
        if cls == 'Softmax':
            R += [(4, 3), (3, 4), (2, 3, 2), (2, 3, 1, 1), (3, 1, 2, 2)]
        if cls == 'Clip':
            for lh in ((0.0, 6.0), (-1.0, 1.0), (-0.5, 0.25), (1.0, 1.0), (-3.0, -0.5)):
                out += [act(cls, r, lohi(*lh)) for r in R]
        elif cls == 'ParameterizedReLU':
            out = [act(cls, r, slope(r)) for r in R]
            out += [act(cls, (1, 2, 2, 2), slope((1, 2, 1, 1)), True), act(cls, (1, 2, 3), slope((3,)), True),
                    act(cls, (2, 3), slope((1, 3)), True), act(cls, (1, 2, 2, 2), slope((2, 2, 2)), True)]
        else:
            out = [act(cls, r) for r in R]
    elif cls == 'LRN':
        D = [(1, 1, 1, 1), (1, 3, 1, 2), (1, 5, 2, 2), (2, 4, 2, 1), (1, 6, 1, 3), (1, 2, 3, 2), (3, 7, 1, 1), (1, 9, 1, 1)]
        for n in (1, 2, 3, 4, 5):
            out += [act('LRN', d, lrn_n(n)) for d in D]
        if th:
            for n in (1, 2, 3, 4, 5, 6, 7, 9, 11):
                out += [act('LRN', (b, c, h, w), lrn_n(n)) for b in (1, 2) for c in (1, 2, 3, 6, 8) for h in (1, 2) for w in (1, 3)]
        out += [act('LRN', d, lrn_n(3), True) for d in ((4,), (3, 4), (2, 3, 4))]
    out += extremes(cls)
    return out


def extremes(cls):
    """corner cases of the configuration: one-sided padding, strides beyond the input, kernels as large as the input"""
    out = []
    one = [tuple(int(i == j) for j in range(4)) for i in range(4)] + [(2, 0, 0, 1), (0, 3, 0, 0)]
    if cls == 'Convolution':
        for p in one:
            out.append(conv(1, 1, 2, 1, 3, 4, 2, 3, 1, 1, p, True))
            out.append(conv(1, 2, 2, 2, 4, 3, 3, 2, 2, 1, p, False))
        for p in ((1, 0), (0, 1), (0, 0), (3, 0)):
            out.append(conv1(1, 2, 1, 1, 4, 3, 2, p, True))
        out += [conv(1, 1, 1, 1, 2, 3, 1, 1, 4, 5, None, True), conv(1, 1, 1, 1, 3, 2, 2, 2, 5, 3, (0, 0, 0, 0), True),
                conv(1, 5, 5, 5, 3, 3, 3, 3, 1, 1, (1, 1, 1, 1), True), conv(1, 10, 5, 5, 2, 2, 1, 1, 1, 1, None, True),
                conv(1, 8, 4, 2, 2, 2, 2, 1, 1, 1, None, True), conv(1, 4, 8, 4, 2, 2, 1, 2, 1, 1, None, True),
                conv(1, 1, 1, 1, 1, 6, 1, 4, 1, 2, None, False), conv(1, 1, 1, 1, 6, 1, 6, 1, 1, 1, None, True),
                conv1(1, 1, 1, 1, 2, 1, 5, None, True), conv1(1, 4, 8, 4, 3, 2, 1, None, True), conv1(1, 6, 3, 3, 3, 3, 1, None, False)]
    elif cls in ('MaxPooling', 'AveragePooling'):
        for inc in ((None,) if cls == 'MaxPooling' else (0, 1)):
            for p in one:
                if p[0] < 3 and p[1] < 4:
                    out.append(pool(cls, 1, 2, 4, 5, 3, 4, 1, 1, p, inc))
                    out.append(pool(cls, 2, 1, 5, 5, 3, 4, 2, 3, p, inc))
            for p in ((1, 0), (0, 1), (2, 0), (0, 2)):
                out.append(pool1(cls, 2, 2, 6, 3, 2, p, inc))
            out += [pool(cls, 1, 1, 2, 2, 1, 1, 3, 3, None, inc), pool(cls, 1, 1, 2, 3, 2, 2, 5, 4, None, inc),
                    pool(cls, 1, 1, 1, 1, 1, 1, 1, 1, None, inc), pool(cls, 3, 1, 2, 2, 2, 2, 1, 1, None, inc),
                    pool1(cls, 3, 1, 2, 2, 1, None, inc), pool1(cls, 1, 1, 2, 1, 4, None, inc), pool1(cls, 1, 1, 1, 1, 1, None, inc),
                    pool(cls, 1, 1, 7, 7, 4, 5, 3, 2, (1, 2, 2, 1), inc), pool(cls, 1, 1, 6, 8, 2, 2, 2, 2, (1, 1, 1, 1), inc)]
    elif cls == 'ParameterizedReLU':
        out += [act(cls, (2, 3), slope((6,)), True), act(cls, (6,), slope((2, 3)), True)]
    return out


def large(cls):
    """one extent beyond 16 bits (not a multiple of a power of two), sums of many terms"""
    B, S = 66003, 1203
    out = []
    if cls == 'Convolution':
        out = [conv(1, 1, 1, 1, 1, B, 1, 1, 1, 1, None, True), conv(1, 1, 1, 1, B, 1, 1, 1, 1, 1, None, True), conv(1, 1, B, 1, 1, 1, 1, 1, 1, 1, None, True),
               conv(1, S, 1, 1, 1, 1, 1, 1, 1, 1, None, True), conv(1, S, S, S, 1, 1, 1, 1, 1, 1, None, True), conv(1, 1, 1, 1, 1, S, 1, S, 1, 1, None, True),
               conv(1, 1, 1, 1, S, 1, S, 1, 1, 1, None, True), conv1(1, 1, 1, 1, B, 1, 1, None, True), conv1(1, 1, B, 1, 1, 1, 1, None, True),
               conv1(1, S, 1, 1, 1, 1, 1, None, True), conv1(1, 1, 1, 1, S, S, 1, None, True), conv(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, (S, 0, 0, 0), True), conv(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, (0, 0, 0, S), True),
               conv(1, 1, 1, 1, 2, 4 * S, 1, 1, 1, S, None, True)]
    elif cls in ('MaxPooling', 'AveragePooling'):
        for inc in ((None,) if cls == 'MaxPooling' else (0, 1)):
            out += [pool(cls, 1, 1, 1, B, 1, 1, 1, 1, None, inc), pool(cls, 1, 1, B, 1, 1, 1, 1, 1, None, inc), pool(cls, 1, B, 1, 1, 1, 1, 1, 1, None, inc),
                    pool(cls, B, 1, 1, 1, 1, 1, 1, 1, None, inc), pool1(cls, 1, 1, B, 1, 1, None, inc), pool1(cls, 1, B, 1, 1, 1, None, inc),
                    pool1(cls, B, 1, 1, 1, 1, None, inc), pool(cls, 1, 1, 1, S, 1, S, 1, 1, None, inc), pool(cls, 1, 1, S, 1, S, 1, 1, 1, None, inc),
                    pool1(cls, 1, 1, S, S, 1, None, inc), pool(cls, 1, 1, 2, 4 * S, 1, 1, 1, S, None, inc)]
    elif cls in ('GlobalMaxPooling', 'GlobalAveragePooling'):
        out = [gpool(cls, d) for d in ((1, 1, 1, S), (1, 1, S, 1), (1, B, 1, 1), (B, 1, 1, 1), (1, 1, S), (1, B, 1), (B, 1, 1))]
    elif cls == 'BatchNormalization':
        out = [bn(d) for d in ((1, 1, 1, B), (1, 1, B, 1), (1, B, 1, 1), (1, 1, B), (1, B, 1))]
    elif cls in ('FullyConnected', 'MatMul'):
        b = True if cls == 'FullyConnected' else None
        out = [fc(cls, 1, S, 1, b), fc(cls, 1, 1, B, b), fc(cls, B, 1, 1, b)]
    elif cls == 'LRN':
        out = [act('LRN', d, lrn_n(3)) for d in ((1, 1, 1, B), (1, 1, B, 1), (1, B, 1, 1), (B, 1, 1, 1))] + [act('LRN', (1, 203, 1, 1), lrn_n(201))]
    elif cls == 'Softmax':
        out = [act(cls, d) for d in ((603,), (1, 603), (B, 1), (1, 603, 1, 1))]
    elif cls == 'Clip':
        out = [act(cls, d, lohi(-0.5, 0.25)) for d in ((B,), (1, 1, 1, B))]
    elif cls == 'ParameterizedReLU':
        out = [act(cls, d, slope(d)) for d in ((B,), (B, 1, 1, 1))]
    else:
        out = [act(cls, d) for d in ((B,), (1, 1, B, 1))]
    for l in out:
        l.steps = 40000000
    return out


CLASSES = ['Convolution', 'MaxPooling', 'AveragePooling', 'GlobalMaxPooling', 'GlobalAveragePooling', 'BatchNormalization',
           'FullyConnected', 'MatMul', 'ReLU', 'LeakyReLU', 'ParameterizedReLU', 'Clip', 'Sigmoid', 'TanH',
           'ActivationFunction', 'Softmax', 'LRN']


def rej(l):
    l.reject = True
    return l


def rejects(cls):
    """further shapes that no operator definition covers"""
    return []


def two_shapes(cls):
    """pairs of contexts of one configuration: the second run sees another shape than the first"""
    if cls == 'Convolution':
        return [(conv(1, 2, 2, 1, 5, 5, 3, 3, 1, 1, (1, 1, 1, 1), True), conv(1, 2, 2, 1, 7, 6, 3, 3, 1, 1, (1, 1, 1, 1), True)),
                (conv(1, 2, 2, 1, 7, 6, 3, 3, 1, 1, (1, 1, 1, 1), True), conv(1, 2, 2, 1, 4, 5, 3, 3, 1, 1, (1, 1, 1, 1), True)),
                (conv(1, 4, 4, 2, 5, 4, 2, 3, 2, 1, None, True), conv(1, 4, 4, 2, 8, 6, 2, 3, 2, 1, None, True)),
                (conv(1, 1, 1, 1, 2, 3, 1, 1, 4, 5, None, True), conv(1, 1, 1, 1, 9, 8, 1, 1, 4, 5, None, True)),
                (conv(1, 1, 1, 1, 2, 2, 3, 3, 1, 1, (1, 1, 1, 1), True), conv(1, 1, 1, 1, 5, 4, 3, 3, 1, 1, (1, 1, 1, 1), True)),
                (conv1(1, 1, 1, 1, 2, 1, 5, None, True), conv1(1, 1, 1, 1, 12, 1, 5, None, True)),
                (conv1(1, 2, 3, 1, 6, 3, 1, (1, 1), True), conv1(1, 2, 3, 1, 9, 3, 1, (1, 1), True)),
                (conv1(1, 2, 3, 1, 9, 3, 1, None, False), conv1(1, 2, 3, 1, 5, 3, 1, None, False))]
    if cls in ('MaxPooling', 'AveragePooling'):
        out = []
        for inc in ((None,) if cls == 'MaxPooling' else (0, 1)):
            out += [(pool(cls, 1, 1, 2, 3, 1, 1, 4, 5, None, inc), pool(cls, 1, 1, 9, 8, 1, 1, 4, 5, None, inc)),
                    (pool1(cls, 1, 1, 2, 2, 5, None, inc), pool1(cls, 1, 1, 12, 2, 5, None, inc)),
                    (pool(cls, 1, 2, 4, 4, 3, 3, 1, 1, (1, 1, 1, 1), inc), pool(cls, 2, 2, 6, 5, 3, 3, 1, 1, (1, 1, 1, 1), inc)),
                    (pool(cls, 2, 2, 6, 5, 3, 3, 2, 2, (1, 0, 1, 1), inc), pool(cls, 1, 1, 4, 4, 3, 3, 2, 2, (1, 0, 1, 1), inc)),
                    (pool(cls, 1, 1, 4, 4, 2, 2, 2, 2, None, inc), pool(cls, 1, 3, 6, 6, 2, 2, 2, 2, None, inc)),
                    (pool1(cls, 1, 2, 6, 3, 1, (1, 1), inc), pool1(cls, 2, 1, 8, 3, 1, (1, 1), inc)),
                    (pool1(cls, 1, 2, 8, 3, 2, None, inc), pool1(cls, 1, 2, 5, 3, 2, None, inc))]
        return out
    if cls in ('GlobalMaxPooling', 'GlobalAveragePooling'):
        return [(gpool(cls, (1, 2, 2, 2)), gpool(cls, (2, 3, 3, 4))), (gpool(cls, (2, 3, 4, 4)), gpool(cls, (1, 1, 2, 3))),
                (gpool(cls, (1, 2, 4)), gpool(cls, (1, 3, 2, 2)))]
    if cls == 'BatchNormalization':
        return [(bn((1, 3, 2, 2)), bn((1, 3, 3, 4))), (bn((1, 2, 4, 4)), bn((1, 2, 2, 1))), (bn((1, 3, 5)), bn((1, 3, 2)))]
    if cls in ('FullyConnected', 'MatMul'):
        b = True if cls == 'FullyConnected' else None
        return [(fc(cls, 1, 3, 2, b), fc(cls, 4, 3, 2, b)), (fc(cls, 3, 2, 4, b), fc(cls, 1, 2, 4, b))]
    if cls == 'LRN':
        out = []
        for n in (2, 3, 5):
            out += [(act('LRN', (1, 4, 2, 2), lrn_n(n)), act('LRN', (2, 6, 3, 1), lrn_n(n))), (act('LRN', (2, 6, 2, 2), lrn_n(n)), act('LRN', (1, 3, 1, 2), lrn_n(n)))]
        return out
    if cls == 'ParameterizedReLU':
        return [(act(cls, (2, 3), slope((2, 3))), act(cls, (3, 2), slope((2, 3))))]
    if cls == 'Clip':
        return [(act(cls, (2, 3), lohi(-1.0, 1.0)), act(cls, (1, 3, 4, 2), lohi(-1.0, 1.0))), (act(cls, (1, 3, 4, 2), lohi(-1.0, 1.0)), act(cls, (5,), lohi(-1.0, 1.0)))]
    return [(act(cls, (2, 3)), act(cls, (1, 3, 4, 2))), (act(cls, (1, 3, 4, 2)), act(cls, (2, 2))), (act(cls, (2, 3, 4)), act(cls, (5,)))]


def randoms(cls, r, n):
    """further contexts chosen with the seed"""
    out = []
    for _ in range(n):
        if cls == 'Convolution':
            g = r.choice((1, 1, 1, 2, 3))
            icg, ocg = r.randint(1, 4), r.randint(1, 4)
            kh, kw = r.randint(1, 5), r.randint(1, 5)
            pad = None if r.random() < .4 else tuple(r.randint(0, 3) for _ in range(4))
            if r.random() < .3:
                pad = pad and pad[:2]
                out.append(conv1(1, icg * g, ocg * g, g, kw + r.randint(0, 8), kw, r.randint(1, 4), pad, r.random() < .5))
            else:
                out.append(conv(1, icg * g, ocg * g, g, kh + r.randint(0, 6), kw + r.randint(0, 6), kh, kw, r.randint(1, 3), r.randint(1, 3), pad, r.random() < .5))
        elif cls in ('MaxPooling', 'AveragePooling'):
            inc = None if cls == 'MaxPooling' else r.randint(0, 1)
            kh, kw = r.randint(1, 5), r.randint(1, 5)
            pad = None if r.random() < .4 else (r.randint(0, kh - 1), r.randint(0, kw - 1), r.randint(0, kh - 1), r.randint(0, kw - 1))
            if r.random() < .3:
                out.append(pool1(cls, r.randint(1, 3), r.randint(1, 4), kw + r.randint(0, 8), kw, r.randint(1, 4), pad and (pad[1], pad[3]), inc))
            else:
                out.append(pool(cls, r.randint(1, 3), r.randint(1, 4), kh + r.randint(0, 6), kw + r.randint(0, 6), kh, kw, r.randint(1, 4), r.randint(1, 4), pad, inc))
        elif cls.startswith('Global'):
            out.append(gpool(cls, tuple(r.randint(1, 6) for _ in range(r.choice((3, 4))))))
        elif cls == 'BatchNormalization':
            out.append(bn((1,) + tuple(r.randint(1, 6) for _ in range(r.choice((2, 3))))))
        elif cls in ('FullyConnected', 'MatMul'):
            out.append(fc(cls, r.randint(1, 6), r.randint(1, 12), r.randint(1, 12), (r.random() < .5) if cls == 'FullyConnected' else None))
        elif cls == 'LRN':
            out.append(act('LRN', (r.randint(1, 3), r.randint(1, 12), r.randint(1, 3), r.randint(1, 3)), lrn_n(r.randint(1, 9))))
        else:
            d = tuple(r.randint(1, 7) for _ in range(r.randint(1, 4)))
            if cls == 'Clip':
                lo = round(r.uniform(-3, 3), 2)
                out.append(act(cls, d, lohi(lo, lo + round(r.uniform(0, 4), 2))))
            elif cls == 'ParameterizedReLU':
                out.append(act(cls, d, slope(d)))
            else:
                out.append(act(cls, d))
    return out


def guided(cls, ns):
    """contexts around integer constants that the code compares sizes with"""
    out = []
    for v in sorted(ns):
        for x in (v - 1, v, v + 1):
            if x < 1:
                continue
            big = x > 64
            if cls == 'Convolution':
                out += [conv(1, 1, 1, 1, 2, x, 1, 1, 1, 1, None, True), conv(1, 1, 1, 1, x, 2, 1, 2, 1, 1, None, True),
                        conv(1, 1, x, 1, 1, 2, 1, 1, 1, 1, None, True), conv(1, x, 1, 1, 1, 2, 1, 1, 1, 1, None, True),
                        conv1(1, 1, 1, 1, x, 1, 1, None, True), conv1(1, 1, x, 1, 2, 1, 1, None, True), conv1(1, x, 1, 1, 2, 1, 1, None, True)]
                if not big:
                    out += [conv(1, 1, 2, 1, x, x, x, x, 1, 1, None, True), conv(1, 1, 1, 1, x + 1, 2, x, 1, 1, 1, None, True),
                            conv(1, 1, 1, 1, 2, x + 1, 1, x, 1, 1, None, True), conv(1, 1, 1, 1, 2 * x + 2, 2 * x + 1, 2, 2, x, 1, None, True),
                            conv(1, 1, 1, 1, 2 * x + 2, 2 * x + 1, 1, 1, 1, x, None, True),
                            conv(1, x, x, x, 2, 2, 1, 1, 1, 1, None, True), conv(1, 2 * x, x, x, 1, 2, 1, 1, 1, 1, None, True),
                            conv(1, 1, 1, 1, 3, 3, 2, 2, 1, 1, (x, x, x, x), True), conv(1, 1, 1, 1, 3, 3, 2, 2, 1, 1, (x, 1, 0, 0), False),
                            conv(1, 1, 1, 1, 3, 3, 2, 2, 1, 1, (0, x, 0, 1), False),
                            conv1(1, 1, 1, 1, x + 2, x, 1, None, True), conv1(1, 1, 1, 1, 2 * x + 2, 2, x, None, True),
                            conv1(1, 1, 1, 1, 3, 2, 1, (x, 1), True)]
            elif cls in ('MaxPooling', 'AveragePooling'):
                for inc in ((None,) if cls == 'MaxPooling' else (0, 1)):
                    out += [pool(cls, 1, 1, 2, x + 1, 2, 2, 1, 1, None, inc), pool(cls, 1, 1, x + 1, 2, 2, 2, 1, 1, None, inc),
                            pool(cls, 1, x, 2, 2, 2, 2, 1, 1, None, inc), pool(cls, x, 1, 2, 2, 2, 2, 1, 1, None, inc),
                            pool1(cls, 1, 1, x + 1, 2, 1, None, inc), pool1(cls, 1, x, 2, 2, 1, None, inc)]
                    if not big:
                        out += [pool(cls, 1, 1, x + 1, x + 1, x, x, 1, 1, None, inc), pool(cls, 1, 1, x, 3, x, 2, 1, 1, None, inc),
                                pool(cls, 1, 1, 3, x, 2, x, 1, 1, None, inc),
                                pool(cls, 1, 1, 2 * x + 1, 2 * x + 2, 2, 1, x, x, None, inc),
                                pool(cls, 1, 1, 4, 4, x + 1, x + 1, 1, 1, (x, x, x, x), inc),
                                pool1(cls, 1, 1, x + 1, x, 1, None, inc), pool1(cls, 1, 1, 2 * x + 1, 2, x, None, inc)]
            elif cls in ('GlobalMaxPooling', 'GlobalAveragePooling'):
                out += [gpool(cls, (1, 1, 1, x)), gpool(cls, (1, 1, x, 2)), gpool(cls, (1, x, 2, 1)), gpool(cls, (x, 1, 1, 2)), gpool(cls, (1, 1, x)),
                        gpool(cls, (1, x, 2))]
                if not big:
                    out += [gpool(cls, (1, 1, x, x))]
            elif cls == 'BatchNormalization':
                out += [bn((1, 1, 1, x)), bn((1, 1, x, 2)), bn((1, x, 2, 1)), bn((1, 1, x)), bn((1, x, 2))]
            elif cls in ('FullyConnected', 'MatMul'):
                b = True if cls == 'FullyConnected' else None
                out += [fc(cls, 1, x, 2, b), fc(cls, 1, 2, x, b), fc(cls, x, 2, 1, b)]
            elif cls == 'LRN':
                for n in (2, 3) if big else (3, x):
                    out += [act('LRN', (1, x, 1, 1), lrn_n(n)), act('LRN', (1, 2, x, 1), lrn_n(n)), act('LRN', (1, 2, 1, x), lrn_n(n)), act('LRN', (x, 1, 1, 1), lrn_n(n))]
            else:
                ds = [(x,), (1, x), (x, 1), (1, 1, x), (1, x, 1, 1), (1, 1, x, 1), (1, 1, 1, x), (x, 1, 1, 1)]
                if not big:
                    ds += [(1, x, 2, 2), (1, 1, x, x), (2, x)]
                for d in ds:
                    if cls == 'Clip':
                        out.append(act(cls, d, lohi(-0.5, 0.25)))
                    elif cls == 'ParameterizedReLU':
                        out.append(act(cls, d, slope(d)))
                    else:
                        out.append(act(cls, d))
    return out
