"""Abstract ONNX models: shapes, attributes and names are those of the context, tensor contents are symbols. Each node carries what the ONNX
operator definition says about its result: the shape, and the value of every element as a term over the model's input and parameters."""
import itertools
import math
from . import term as X
from .pystubs import AbsArray, FLOAT32, INT64, Proto, RepField, Sym, Tensor, f32, node_proto, value_info


class Unsupported(Exception):
    """outside of the operator definitions written down here"""


class V:
    """a tensor of terms (or of known integers)"""

    def __init__(self, shape, vals):
        self.shape, self.vals = tuple(shape), list(vals)
        n = 1
        for d in self.shape:
            n *= d
        assert n == len(self.vals), (shape, len(self.vals))

    def at(self, *ix):
        o = 0
        for i, d in zip(ix, self.shape):
            assert 0 <= i < d
            o = o * d + i
        return self.vals[o]


def idx(shape):
    return itertools.product(*map(range, shape))


def prod(s):
    n = 1
    for d in s:
        n *= d
    return n


def wname(t, i):
    return X.inp('w:' + t, 4 * i)


def windows(a, r, default_kernel=None):
    """the spatial attributes of a convolution or pooling over r spatial dimensions"""
    ks = a.get('kernel_shape', default_kernel)
    st = a.get('strides', [1] * r)
    dl = a.get('dilations', [1] * r)
    pads = a.get('pads', [0] * (2 * r))
    if not (len(ks) == len(st) == len(dl) == r and len(pads) == 2 * r):
        raise Unsupported('attribute lengths')
    return list(ks), list(st), list(dl), list(pads)


def outdims(sp, ks, st, dl, pads, a):
    r = len(sp)
    mode = a.get('auto_pad', b'NOTSET')
    ap = mode if isinstance(mode, bytes) else mode.encode()
    out = []
    pads = list(pads)
    for i in range(r):
        ek = (ks[i] - 1) * dl[i] + 1
        if ap in (b'SAME_UPPER', b'SAME_LOWER'):
            o = -(-sp[i] // st[i])
            tot = max(0, (o - 1) * st[i] + ek - sp[i])
            lo = tot // 2
            pads[i], pads[r + i] = (lo, tot - lo) if ap == b'SAME_UPPER' else (tot - lo, lo)
        elif ap == b'VALID':
            pads[i] = pads[r + i] = 0
            o = (sp[i] - ek) // st[i] + 1
        else:
            n = sp[i] + pads[i] + pads[r + i] - ek
            o = (-(-n // st[i]) if a.get('ceil_mode', 0) else n // st[i]) + 1
        if o < 1:
            raise Unsupported('empty output')
        out.append(o)
    return out, pads


def o_conv(m, ins, a):
    x, w = ins[0], ins[1]
    b = ins[2] if len(ins) > 2 else None
    r = len(x.shape) - 2
    if r not in (1, 2):
        raise Unsupported('rank')
    ks, st, dl, pads = windows(a, r, w.shape[2:])
    if tuple(ks) != w.shape[2:]:
        raise Unsupported('kernel_shape')
    g = a.get('group', 1)
    osp, pads = outdims(x.shape[2:], ks, st, dl, pads, a)
    oc, icg = w.shape[:2]
    if icg * g != x.shape[1] or oc % g:
        raise Unsupported('groups')
    sh = (x.shape[0], oc) + tuple(osp)
    out = []
    for ix in idx(sh):
        n, o, pos = ix[0], ix[1], ix[2:]
        ts = []
        for c in range(icg):
            for k in idx(ks):
                p = [pos[i] * st[i] + k[i] * dl[i] - pads[i] for i in range(r)]
                if all(0 <= p[i] < x.shape[2 + i] for i in range(r)):
                    ts.append(X.mul(x.at(n, (o // (oc // g)) * icg + c, *p), w.at(o, c, *k)))
        if b:
            ts.append(b.at(o))
        out.append(X.add(*ts) if ts else X.const(0))
    return V(sh, out)


def o_pool(kind):
    def f(m, ins, a):
        x = ins[0]
        r = len(x.shape) - 2
        if r not in (1, 2):
            raise Unsupported('rank')
        ks, st, dl, pads = windows(a, r)
        osp, pads = outdims(x.shape[2:], ks, st, dl, pads, a)
        sh = x.shape[:2] + tuple(osp)
        out = []
        for ix in idx(sh):
            pos = ix[2:]
            win, area = [], 0
            for k in idx(ks):
                p = [pos[i] * st[i] + k[i] * dl[i] - pads[i] for i in range(r)]
                if all(p[i] < x.shape[2 + i] + pads[r + i] for i in range(r)):
                    area += 1
                if all(0 <= p[i] < x.shape[2 + i] for i in range(r)):
                    win.append(x.at(ix[0], ix[1], *p))
            if not win:
                raise Unsupported('empty window')
            if kind == 'max':
                out.append(X.maximum(*win))
            else:
                n = area if a.get('count_include_pad', 0) else len(win)
                out.append(X.mul(X.add(*win), 1.0 / n))
        return V(sh, out)
    return f


def o_gpool(kind):
    def f(m, ins, a):
        x = ins[0]
        if len(x.shape) < 3:
            raise Unsupported('rank')
        sh = x.shape[:2] + (1,) * (len(x.shape) - 2)
        out = []
        for ix in idx(x.shape[:2]):
            w = [x.at(*ix, *p) for p in idx(x.shape[2:])]
            out.append(X.maximum(*w) if kind == 'max' else X.mul(X.add(*w), 1.0 / len(w)))
        return V(sh, out)
    return f


def o_gemm(m, ins, a):
    A, B = ins[0], ins[1]
    if len(A.shape) != 2 or len(B.shape) != 2:
        raise Unsupported('rank')
    ta, tb = a.get('transA', 0), a.get('transB', 0)
    al, be = a.get('alpha', 1.0), a.get('beta', 1.0)
    M, K = (A.shape[1], A.shape[0]) if ta else A.shape
    K2, N = (B.shape[1], B.shape[0]) if tb else B.shape
    if K != K2:
        raise Unsupported('shapes')
    out = []
    C = ins[2] if len(ins) > 2 else None
    for i, j in idx((M, N)):
        t = X.mul(f32(al), X.add(*[X.mul(A.at(k, i) if ta else A.at(i, k), B.at(j, k) if tb else B.at(k, j)) for k in range(K)]))
        if C is not None:
            t = X.add(t, X.mul(f32(be), C.at(*bix((i, j), C.shape))))
        out.append(t)
    return V((M, N), out)


def bix(ix, sh):
    ix = ix[len(ix) - len(sh):]
    return [0 if d == 1 else i for i, d in zip(ix, sh)]


def bshape(*shs):
    r = max(map(len, shs))
    out = []
    for i in range(r):
        d = 1
        for s in shs:
            k = i - (r - len(s))
            if k >= 0 and s[k] != 1:
                if d not in (1, s[k]):
                    raise Unsupported('shapes')
                d = s[k]
        out.append(d)
    return tuple(out)


def o_binary(f):
    def g(m, ins, a):
        A, B = ins
        sh = bshape(A.shape, B.shape)
        return V(sh, [f(A.at(*bix(i, A.shape)), B.at(*bix(i, B.shape))) for i in idx(sh)])
    return g


def o_unary(f):
    return lambda m, ins, a: V(ins[0].shape, [f(x, a) for x in ins[0].vals])


def o_bn(m, ins, a):
    x, g, b, mu, va = ins
    e = f32(a.get('epsilon', 1e-5))
    return V(x.shape, [X.add(X.div(X.mul(g.at(i[1]), X.sub(x.at(*i), mu.at(i[1]))), X.fn('sqrt', X.add(va.at(i[1]), e))), b.at(i[1])) for i in idx(x.shape)])


def o_clip(x, a):
    if 'min' in a:
        x = X.maximum(x, X.const(f32(a['min'])))
    if 'max' in a:
        x = X.minimum(x, X.const(f32(a['max'])))
    return x


def o_matmul(m, ins, a):
    A, B = ins
    if len(A.shape) != 2 or len(B.shape) != 2 or A.shape[1] != B.shape[0]:
        raise Unsupported('shapes')
    return V((A.shape[0], B.shape[1]), [X.add(*[X.mul(A.at(i, k), B.at(k, j)) for k in range(A.shape[1])]) for i, j in idx((A.shape[0], B.shape[1]))])


def o_transpose(m, ins, a):
    x = ins[0]
    p = a.get('perm', list(range(len(x.shape)))[::-1])
    sh = tuple(x.shape[q] for q in p)
    out = []
    for i in idx(sh):
        src = [0] * len(p)
        for k, q in enumerate(p):
            src[q] = i[k]
        out.append(x.at(*src))
    return V(sh, out)


def o_concat(m, ins, a):
    ax = a['axis']
    r = len(ins[0].shape)
    ax += r if ax < 0 else 0
    sh = list(ins[0].shape)
    sh[ax] = sum(x.shape[ax] for x in ins)
    out = []
    for i in idx(sh):
        k = i[ax]
        for x in ins:
            if k < x.shape[ax]:
                out.append(x.at(*i[:ax], k, *i[ax + 1:]))
                break
            k -= x.shape[ax]
    return V(sh, out)


def o_reshape(m, ins, a):
    x, s = ins
    new = [x.shape[i] if d == 0 else d for i, d in enumerate(s.vals)]
    if -1 in new:
        new[new.index(-1)] = prod(x.shape) // -prod(new)
    if prod(new) != prod(x.shape):
        raise Unsupported('shapes')
    return V(new, x.vals)


def o_flatten(m, ins, a):
    x = ins[0]
    ax = a.get('axis', 1)
    return V((prod(x.shape[:ax]), prod(x.shape[ax:])), x.vals)


def o_softmax(m, ins, a):
    x = ins[0]
    ax = a.get('axis', 1)
    r = len(x.shape)
    ax += r if ax < 0 else 0
    # operator set < 13: the input is coerced to two dimensions at the axis
    n = prod(x.shape[ax:])
    out = []
    for j in range(len(x.vals)):
        b = j // n
        out.append(X.div(X.fn('exp', x.vals[j]), X.add(*[X.fn('exp', x.vals[b * n + t]) for t in range(n)])))
    return V(x.shape, out)


def o_lrn(m, ins, a):
    x = ins[0]
    if len(x.shape) != 4:
        raise Unsupported('rank')
    n = a['size']
    al, be, bi = f32(a.get('alpha', 1e-4)), f32(a.get('beta', .75)), f32(a.get('bias', 1.0))
    out = []
    C = x.shape[1]
    for b, c, h, w in idx(x.shape):
        lo, hi = max(0, c - (n - 1) // 2), min(C - 1, c + -(-(n - 1) // 2))
        s = X.add(*[X.mul(x.at(b, t, h, w), x.at(b, t, h, w)) for t in range(lo, hi + 1)])
        out.append(X.div(x.at(b, c, h, w), X.fn('pow', X.add(bi, X.mul(al, 1.0 / n, s)), X.const(be))))
    return V(x.shape, out)


def o_squeeze(m, ins, a):
    x = ins[0]
    ax = a.get('axes') or [i for i, d in enumerate(x.shape) if d == 1]
    ax = [i + len(x.shape) if i < 0 else i for i in ax]
    if any(x.shape[i] != 1 for i in ax):
        raise Unsupported('axes')
    return V([d for i, d in enumerate(x.shape) if i not in ax], x.vals)


def o_unsqueeze(m, ins, a):
    x = ins[0]
    sh = list(x.shape)
    for i in sorted(a['axes']):
        sh.insert(i, 1)
    return V(sh, x.vals)


def o_pad(m, ins, a):
    x = ins[0]
    r = len(x.shape)
    p = a['pads']
    mode = a.get('mode', b'constant')
    mode = mode if isinstance(mode, bytes) else mode.encode()
    v = X.const(f32(a.get('value', 0.0)))
    sh = [x.shape[i] + p[i] + p[r + i] for i in range(r)]
    out = []
    for i in idx(sh):
        s = [i[k] - p[k] for k in range(r)]
        if mode == b'edge':
            s = [min(max(t, 0), x.shape[k] - 1) for k, t in enumerate(s)]
        elif mode == b'reflect':
            s = [-t if t < 0 else 2 * (x.shape[k] - 1) - t if t >= x.shape[k] else t for k, t in enumerate(s)]
        out.append(x.at(*s) if all(0 <= t < x.shape[k] for k, t in enumerate(s)) else v)
    return V(sh, out)


def o_shape(m, ins, a):
    return V((len(ins[0].shape),), ins[0].shape)


def o_gather(m, ins, a):
    d, ix = ins
    ax = a.get('axis', 0) % max(1, len(d.shape))
    sh = d.shape[:ax] + ix.shape + d.shape[ax + 1:]
    out = []
    for i in idx(sh):
        k = ix.at(*i[ax:ax + len(ix.shape)])
        k += d.shape[ax] if k < 0 else 0
        out.append(d.at(*i[:ax], k, *i[ax + len(ix.shape):]))
    return V(sh, out)


def o_const(m, ins, a):
    t = a['value'].arr
    return V(t.shape_, [m.term(v) for v in t.data_])


def ident(m, ins, a):
    return ins[0]


def sigmoid(x, a):
    return X.div(1, X.add(1, X.fn('exp', X.neg(x))))


ORACLE = {
    'Conv': o_conv, 'MaxPool': o_pool('max'), 'AveragePool': o_pool('avg'), 'GlobalMaxPool': o_gpool('max'), 'GlobalAveragePool': o_gpool('avg'), 'Gemm': o_gemm,
    'Add': o_binary(lambda x, y: X.add(x, y)), 'Mul': o_binary(lambda x, y: X.mul(x, y)), 'Sub': o_binary(lambda x, y: X.sub(x, y)),
    'Div': o_binary(lambda x, y: X.div(x, y)), 'Relu': o_unary(lambda x, a: X.maximum(x, 0)), 'Sigmoid': o_unary(sigmoid),
    'Tanh': o_unary(lambda x, a: X.fn('tanh', x)), 'BatchNormalization': o_bn, 'Clip': o_unary(o_clip), 'MatMul': o_matmul, 'Transpose': o_transpose,
    'LeakyRelu': o_unary(lambda x, a: X.sel(X.lt(x, 0), X.mul(x, f32(a.get('alpha', .01))), x)), 'Exp': o_unary(lambda x, a: X.fn('exp', x)),
    'Concat': o_concat, 'Reshape': o_reshape, 'Flatten': o_flatten, 'Softmax': o_softmax, 'LRN': o_lrn, 'Squeeze': o_squeeze, 'Unsqueeze': o_unsqueeze, 'Pad': o_pad,
    'Shape': o_shape, 'Gather': o_gather, 'Constant': o_const, 'Cast': ident, 'Identity': ident, 'Dropout': ident}


class M:
    """a model: `must`: the documented operator set covers it, so it has to be accepted"""

    def __init__(self, label, shape, must=True, name='net', iname='input', group='op', inits_listed=True):
        self.label, self.must, self.name, self.group, self.inits_listed = label, must, name, group, inits_listed
        self.iname = iname
        self.inputs = [(iname, tuple(shape))]
        self.nodes, self.init, self.vals = [], {}, {}
        self.outs = []
        self.no_info = set()
        self.vals[iname] = V(shape, [X.inp('in', 4 * i) for i in range(prod(shape))])
        self.cur = iname
        self.k = 0
        self.src = None
        self.ok = True      # the operator definitions cover it
        self.beyond = None  # first operator outside of them
        self.batch = None   # what the model states for the batch dimension, if not the number

    def term(self, v):
        if isinstance(v, Sym):
            return X.inp('w:' + v.key[1], 4 * v.key[2]) if v.key[0] == 'w' else None
        return v if isinstance(v, int) else X.const(float(v))

    def w(self, name, *shape, vals=None, ints=False):
        n = prod(shape)
        data = list(vals) if vals is not None else [Sym('w', name, i) for i in range(n)]
        arr = AbsArray(shape, data, INT64 if ints else FLOAT32)
        self.init[name] = Tensor(name, arr)
        self.vals[name] = V(shape, [self.term(v) for v in data])
        return name

    def const(self, *shape, vals, ints=True):
        return Tensor('', AbsArray(shape, list(vals), INT64 if ints else FLOAT32))

    def op(self, op, ins=None, out=None, name=None, **attrs):
        self.k += 1
        if ins is None:
            ins = [self.cur]
        ins = [ins] if isinstance(ins, str) else list(ins)
        out = out or 't%d' % self.k
        self.nodes.append((op, '%s_%d' % (op.lower(), self.k) if name is None else name, ins, [out] if isinstance(out, str) else list(out), attrs))
        out = out if isinstance(out, str) else out[0]
        self.cur = out
        if op not in ORACLE:
            self.ok = False
            self.beyond = self.beyond or op
        if self.ok:
            try:
                self.vals[out] = ORACLE[op](self, [self.vals[i] for i in ins if i], attrs)
            except Unsupported:
                self.ok = False
                self.beyond = op
        if not self.ok and self.must:
            raise AssertionError('model %s is outside of the definitions' % self.label)
        return out

    def output(self, *names):
        self.outs = list(names)
        return self

    def done(self):
        if not self.outs:
            self.outs = [self.cur]
        return self

    def shape_of(self, n):
        v = self.vals.get(n)
        return v.shape if v is not None else None

    def proto(self):
        g = Proto(name='g', node=RepField(node_proto(o, n, i, u, a) for o, n, i, u, a in self.nodes), initializer=RepField(self.init.values()),
                  input=RepField(value_info(n, s if self.batch is None else (self.batch,) + s[1:]) for n, s in self.inputs), output=RepField(), value_info=RepField(), doc_string='')
        if self.inits_listed:
            g.input.extend(value_info(n, t.arr.shape_, t.data_type) for n, t in self.init.items())
        for o in self.outs:
            s = self.shape_of(o)
            s = s if s is not None else (1, 1)
            g.output.append(value_info(o, s if self.batch is None else (self.batch,) + s[1:]))
        return Proto(graph=g, ir_version=4, producer_name='', opset_import=RepField([Proto(domain='', version=9)]), metadata_props=RepField(), doc_string='',
                     model=self)

    def infer(self, p):
        """shape inference: value_info of the intermediate tensors"""
        if p.__dict__.get('model') is not self:
            raise Unsupported('another model')
        have = {v.name for v in p.graph.value_info} | {v.name for v in p.graph.output}
        for o, n, i, u, a in self.nodes:
            for t in u:
                s = self.shape_of(t)
                if t in self.no_info or s is None:
                    continue
                if t not in have:
                    p.graph.value_info.append(value_info(t, s, 7 if all(isinstance(v, int) for v in self.vals[t].vals) else 1))
                    have.add(t)
        for v in p.graph.output:
            s = self.shape_of(v.name)
            if s is None or v.name in self.no_info:
                continue
            for d, k in zip(v.type.tensor_type.shape.dim, s):
                if not d.has_value():
                    d.dim_value = k
        return p
