"""Readers and writers: contexts with a known file structure and unknown payload (flow.py + stdio.py)."""
import itertools
import random
import time
from . import term as X
from .fctx import *
from .stdio import *
from .build import compile_module, REPO
from .p_layers import events, rel, sat, short, BAD, HEAP, reach, harvest, profile_consts

TITLE = {'E_io__weights': 'read_binary_weights', 'E_io__refin': 'read_binary_reference_input_data', 'E_io__refout': 'read_binary_reference_output_data',
         'E_io__labels': 'read_imagenet_labels', 'E_io__vallabels': 'read_imagenet_validation_labels', 'E_io__means': 'read_means',
         'E_io__mnist_images': 'read_mnist_images', 'E_io__mnist_labels': 'read_mnist_labels', 'E_io__read_pgm': 'read_pgm',
         'E_io__write_float': 'write_float', 'E_io__write_pgm': 'write_pgm', 'E_io__jpeg': 'read_jpeg'}
FILES = {'read_binary_weights': 'read_binary_weights', 'read_binary_reference_input_data': 'read_binary_reference_data',
         'read_binary_reference_output_data': 'read_binary_reference_data', 'read_mnist_images': 'read_mnist', 'read_mnist_labels': 'read_mnist'}
ALLOC_LIMIT = 1 << 22
LONG = 40000000


class Case:
    """one file and one call"""

    def __init__(self, root, content, label, args, expect=None, can_open=True, write_fails=False, bad=None, cells=None, big=False, jpeg=None, steps=400000):
        self.jpeg = jpeg
        self.steps = steps
        self.root, self.content, self.label, self.args = root, content, label, args
        self.expect = expect          # expected return value (int), 'error' or None
        self.can_open, self.write_fails = can_open, write_fails
        self.bad = bad
        self.cells = cells            # function(run) -> [(label, got, want)]
        self.big = big


def number(e, base, off):
    if e.seed == 0 and base == 'image':
        e.inputs[(base, off)] = float(off // 4 * 37 % 256)      # every grey value
    v = FL.F32.unpack(FL.F32.pack(e.data(base, off)))[0]
    e.inputs[(base, off)] = v
    return v


def sampled(e, x):
    """one byte of the file with the payload fixed to a sample"""
    if type(x) is int:
        return x
    if type(x) is tuple:
        t, k = x
        return FL.F32.pack(number(e, *t.a[:2]))[k]
    return int(e.data(*x.a[:2])) if x.k == 'in' else x


class Run:
    def __init__(self, lib, case, sample=None):
        self.case = case
        self.lib = lib
        self.sample = sample
        f = self.f = Flow(lib, case.root, case.steps)
        f.memory = 1 << 31
        self.names = {(a.get('n') or a['i']): a for a in f.fn.args}
        path = cstr(lib, 'file')
        self.file = AFile(case.content if sample is None else [sampled(sample, x) for x in case.content], case.can_open, case.write_fails)
        self.obj = {}
        f.args[self.names['p']['i']] = Pt(path)
        case.args(self)
        if sample is not None:
            for o in self.obj.values():
                if isinstance(o, Obj) and o.lazy == 'image':
                    o.init = {i: X.const(number(sample, 'image', i)) for i in range(0, o.size, 4)}
                    o.grans.add(4)
                    o.lazy = None
        Stdio(f, {path: self.file})
        if case.root == 'E_io__jpeg':
            from .jpeg import Jpeg
            self.jpeg = Jpeg(f, self)
        f.run()
        self.ok = not f.undecided and not getattr(f, 'aborted', False)

    def set(self, n, v):
        if n not in self.names:
            raise Undecided('no parameter %s' % n)
        self.f.args[self.names[n]['i']] = v

    def out(self, n, size=8, init=None):
        o = Obj(n, 'arg', size, init=None if init is None else {0: init})
        if init is not None:
            o.grans.add(size)
        self.obj[n] = o
        self.set(n, Pt(o))
        return o

    def tensor(self, n, dims):
        t = make_tensor(self.lib.mod, n, dims) if known_layout(self.lib.mod) else built_tensor(self.lib, n, dims)
        self.obj[n] = t
        return t

    def read(self, o, off, size=4, ty='float'):
        """value in memory after the call; None: never written"""
        f = self.f
        c = f.cell(o, off)
        if c is None or c[0] != size:
            c2 = f.assemble(o, off, size) if o.grans else None
            if c2 is None:
                if c is None:
                    return None
                return X.mk('opq', 'mixed width')
            c = c2
        if c[1] is KILL:
            return X.mk('opq', 'not tracked')
        return f.coerce(c[1], ty)

    def pointer(self, o, off=0):
        v = self.read(o, off, 8, 'ptr')
        return v if type(v) is Pt else None

    @property
    def fn(self):
        return TITLE[self.case.root]

    def site(self):
        best = None
        for b in self.f.fn.order:
            if b in self.f.blocks_seen:
                for i in self.f.fn.blocks[b]:
                    if str(i.d.get('file', '')).startswith(REPO + '/pico-cnn/io'):
                        best = i
        if best is None:
            return ('pico-cnn/io/%s.cpp' % FILES.get(self.fn, self.fn), self.fn, '')
        return (rel(best), best.fn(), best.d.get('path', ''))


# ------------------------------------------------------------ file layouts
def P_(tag, n):
    return [X.inp('file.' + tag, 4 * i) for i in range(n)]


def layer_bytes(k, L):
    """bytes of layer k and the values it stores: [(slot kind, dims, values)]"""
    t = L[0]
    out = text('layer_%d\n' % k) + text(t + '\n')
    st = []
    marks = [len(out)]
    if t == 'Conv':
        oc, ic, kh, kw, nb = L[1:6]
        dims = (oc, ic, kw) if len(L) > 6 else (oc, ic, kh, kw)
        v = P_('%d.kernel' % k, oc * ic * kh * kw)
        out += u32(oc) + u32(ic) + u32(kh) + u32(kw) + floats(v)
        if v:
            st.append(('k', dims, v))
        b = P_('%d.bias' % k, nb)
        out += u32(nb) + floats(b)
        if nb:
            st.append(('b', (nb,), b))
    elif t == 'BatchNormalization':
        for i, n in enumerate(L[1:5]):
            v = P_('%d.%s' % (k, ('gamma', 'beta', 'mean', 'var')[i]), n)
            out += u32(n) + floats(v)
            if n:
                st.append(('b', (n,), v))
    elif t in ('Gemm', 'MatMul', 'Transpose'):
        nk, h, w, nb = L[1:5]
        v = P_('%d.kernel' % k, nk * h * w)
        out += u32(nk) + u32(h) + u32(w) + floats(v)
        if nk:
            st.append(('k', (h, w), v))
        b = P_('%d.bias' % k, nb)
        out += u32(nb) + floats(b)
        if nb:
            st.append(('b', (nb,), b))
    elif t == 'Add':
        n = L[1]
        v = P_('%d.add' % k, n)
        out += u32(n) + floats(v)
        if n:
            st.append(('b', (n,), v))
    return out, st


def weights_file(layers, name='net'):
    out = text('FD\n') + text(name + '\n') + u32(len(layers))
    st = []
    for k, L in enumerate(layers):
        b, s = layer_bytes(k, L)
        out += b
        st += s
    return out + text('end\n'), st


def weights_args(st, spare=True):
    """tensors of the network in slot order"""
    def setup(run):
        kt = [run.tensor('kernel%d' % i, d) for i, (kind, d, v) in enumerate([s for s in st if s[0] == 'k'])]
        bt = [run.tensor('bias%d' % i, d) for i, (kind, d, v) in enumerate([s for s in st if s[0] == 'b'])]
        run.kt, run.bt = kt, bt
        for n, ts in (('k', kt), ('b', bt)):
            arr = Obj('network array ' + n, 'arg', 8 * len(ts) + 8, init={8 * i: Pt(t.body) for i, t in enumerate(ts)})
            arr.init[8 * len(ts)] = NULL        # the end of the list
            arr.init['esz'] = 8
            var = Obj('network pointer ' + n, 'arg', 8, init={0: Pt(arr)})
            run.set(n, Pt(var))
            run.obj['array ' + n], run.obj['pointer ' + n] = arr, var
    return setup


def weights_cells(st):
    def cells(run):
        out = []
        for ts, kind in ((run.kt, 'k'), (run.bt, 'b')):
            vals = [s[2] for s in st if s[0] == kind]
            for t, v in zip(ts, vals):
                for i in range(t.count):
                    got = run.read(t.data, 4 * i)
                    want = v[i] if i < len(v) else t.flat(i)
                    out.append(('%s element %d' % (t.name, i), got if got is not None else t.flat(i), want))
        return out
    return cells


NETS = [
    [('Conv', 2, 1, 2, 3, 2)],
    [('Conv', 1, 3, 3, 1, 0)],
    [('Conv', 3, 2, 1, 4, 3, '1d')],
    [('Gemm', 1, 3, 2, 3)],
    [('MatMul', 1, 2, 5, 0)],
    [('Transpose', 1, 4, 2, 0)],
    [('Add', 4)],
    [('BatchNormalization', 3, 3, 3, 3)],
    [('Conv', 2, 2, 2, 1, 2), ('BatchNormalization', 2, 2, 2, 2), ('Gemm', 1, 3, 4, 3), ('MatMul', 1, 3, 2, 0), ('Add', 2)],
    [('BatchNormalization', 1, 1, 1, 1), ('Conv', 1, 1, 1, 1, 1), ('Conv', 1, 1, 5, 1, 0), ('Transpose', 1, 2, 2, 0), ('Gemm', 1, 2, 1, 2)],
    [('Conv', 2, 1, 2, 2, 2), ('Conv', 0, 0, 0, 0, 2), ('Conv', 1, 2, 1, 1, 0)],
    [('Gemm', 1, 2, 3, 2), ('Gemm', 0, 0, 0, 2), ('MatMul', 0, 0, 0, 0), ('Gemm', 1, 2, 2, 0)],
    [('BatchNormalization', 0, 2, 0, 2), ('Add', 0), ('Add', 3), ('Conv', 0, 0, 0, 0, 0)],
    [],
]


def rand_net(r):
    out = []
    for _ in range(r.randint(1, 5)):
        t = r.choice(('Conv', 'Conv', 'Gemm', 'MatMul', 'Transpose', 'Add', 'BatchNormalization'))
        if t == 'Conv':
            L = (t, r.randint(1, 3), r.randint(1, 3), r.randint(1, 3), r.randint(1, 3), r.choice((0, 1, 4)))
            if r.random() < .3:
                L = (t, L[1], L[2], 1, L[4], L[5], '1d')
        elif t == 'BatchNormalization':
            n = r.randint(1, 4)
            L = (t, n, n, n, n)
        elif t == 'Add':
            L = (t, r.randint(1, 4))
        else:
            L = (t, 1, r.randint(1, 4), r.randint(1, 4), r.choice((0, 3)))
        out.append(L)
    return out


def weights_good(tier, seed, ints):
    nets = list(NETS)
    for v in ints:
        if 2 <= v <= 130:
            nets += [[('Add', v), ('Add', v + 1)], [('Gemm', 1, 1, v, 2)], [('Conv', v, 1, 1, 1, v)], [('Conv', 1, v, 1, 1, 1)], [('BatchNormalization', v, v, v, v)]]
    for v in ints:
        if 130 < v <= 5000:
            nets += [[('Add', v + 1), ('Add', 2)], [('Gemm', 1, 1, v + 1, 0)], [('Conv', 1, 1, 1, v + 1, 1)]]
    nets += [[('Add', 70001), ('Add', 3)], [('Conv', 300, 1, 1, 1, 300)], [('Conv', 1, 300, 1, 1, 1)], [('Conv', 1, 1, 257, 257, 0), ('Conv', 1, 1, 1, 2, 1)], [('Gemm', 1, 257, 257, 257)],
             [('MatMul', 1, 1, 66003, 0)], [('BatchNormalization', 66003, 66003, 66003, 66003)], [('Add', 1), ('Conv', 1, 1, 1, 1, 0)] * 150]
    r = random.Random('w%d' % seed)
    for _ in range(12 if tier == 'quick' else 150):
        nets.append(rand_net(r))
    for L in nets:
        c, st = weights_file(L)
        yield Case('E_io__weights', c, 'weights file with layers %s' % show_net(L), weights_args(st), 0, cells=weights_cells(st), steps=LONG if len(c) > 2000 else 400000)
    L = NETS[8]
    for name in ('x', 'a' * 40, 'n' * 90):
        c, st = weights_file(L, name)
        yield Case('E_io__weights', c, 'weights file of a network with a name of %d characters' % len(name), weights_args(st), 0, cells=weights_cells(st))


def show_net(L):
    if len(L) > 20:
        return '%s ... (%d layers)' % (show_net(L[:4]), len(L))
    return ', '.join('%s(%s)' % (l[0], ' '.join(map(str, l[1:]))) for l in L) or 'none'


def cut_points(content, tier, extra=()):
    n = len(content)
    if n <= 700 or tier == 'thorough':
        return range(n)
    return sorted(set(range(0, n, 3)) | set(range(40)) | set(range(n - 40, n)))


def weights_bad(tier, seed, ints):
    for L in NETS:
        c, st = weights_file(L)
        for n in cut_points(c, tier):
            yield Case('E_io__weights', c[:n], 'weights file with layers %s cut after %d of %d bytes' % (show_net(L), n, len(c)), weights_args(st), 'error', bad='cut')
    c, st = weights_file(NETS[0])
    for i in range(3):
        for v in [x for x in (c[i] ^ 1, 0, 10, 200) if x != c[i]]:
            yield Case('E_io__weights', c[:i] + [v] + c[i + 1:], 'weights file with byte %d of the magic number changed to %d' % (i, v), weights_args(st), 'error', bad='magic')
    for L in [NETS[0], []] + NETS[1:]:
        c, st = weights_file(L)
        e = len(c)
        for i in range(4):
            for v in (c[e - 4 + i] ^ 1, 0, 10) if L is NETS[0] or tier == 'thorough' else (c[e - 4 + i] ^ 1,):
                if v != c[e - 4 + i]:
                    yield Case('E_io__weights', c[:e - 4 + i] + [v] + c[e - 3 + i:], 'weights file with layers %s and byte %d of the end marker changed to %d' % (show_net(L), i, v), weights_args(st), 'error', bad='end')
    c, st = weights_file(NETS[0])
    for t in ('Relu', 'conv', 'Con', 'ConvTranspose', 'GemmX', '', 'BatchNorm', 'Mul', 'add'):
        out = text('FD\nnet\n') + u32(1) + text('l\n' + t + '\n') + u32(1) + floats(P_('x', 1)) + text('end\n')
        yield Case('E_io__weights', out, 'weights file with a layer of type "%s"' % t, weights_args([('b', (1,), []), ('k', (1, 1), [])]), 'error', bad='type')
    seen = {'Conv', 'BatchNormalization', 'Gemm', 'MatMul', 'Transpose', 'Add'}
    for L in (NETS[0], NETS[7], NETS[3], NETS[4], NETS[5], NETS[6]):
        t = L[0][0]
        c, st = weights_file(L)
        at = next(i for i in range(len(c)) if c[i:i + len(t) + 1] == text(t + '\n'))
        near = [t[:n] for n in range(1, len(t))] + [t + x for x in (' ', 'x', 'Transpose', '1')] + [' ' + t, t.lower(), t.upper()]
        near += [t[:i] + ch + t[i + 1:] for i in range(len(t)) for ch in ('x', t[i].swapcase())]
        for v in near:
            if v not in seen:
                seen.add(v)
                yield Case('E_io__weights', c[:at] + text(v) + c[at + len(t):], 'weights file with a layer of type "%s"' % v, weights_args(st), 'error', bad='type')
    for L in (NETS[8], NETS[6] * 3, NETS[3], NETS[7], NETS[1] * 4):
        b, st = weights_file(L)
        at = 3 + 4
        out = b[:at] + u32(len(L) + 1) + b[at + 4:-4] + text('l\nRelu\n') + u32(1) + floats(P_('x', 1)) + text('end\n')
        yield Case('E_io__weights', out, 'weights file with layers %s and one of an unknown type' % show_net(L), weights_args(st), 'error', bad='type')
    yield Case('E_io__weights', c, 'weights file that cannot be opened', weights_args(st), 'error', can_open=False, bad='open')
    # one layer too many or too few announced
    for k, L in ((1, NETS[0]), (-1, NETS[8])):
        c, st = weights_file(L)
        at = 3 + 4
        c2 = c[:at] + u32(len(L) + k) + c[at + 4:]
        yield Case('E_io__weights', c2, 'weights file that announces %d layers and holds %d' % (len(L) + k, len(L)), weights_args(st), 'error', bad='count')


def weights_big(tier, seed, ints):
    """sizes in the file that exceed the network"""
    def var(st, content, label):
        return Case('E_io__weights', content, label, weights_args(st), 'error', bad='size', big=True)
    head = text('FD\nnet\n') + u32(1)
    for (oc, ic, kh, kw) in ((2, 2, 2, 3), (1, 1, 3, 3), (3, 1, 1, 2)):
        st = [('k', (oc, ic, kh, kw), []), ('b', (oc,), [])]
        for f in ((oc + 1, ic, kh, kw), (oc, ic + 1, kh, kw), (oc, ic, kh + 1, kw), (oc, ic, kh, kw + 1), (oc * 4, ic, kh, kw), (oc, ic * 4, kh, kw),
                  (oc, ic, kh * 16, kw * 16), (oc + 7, ic + 7, kh, kw), (oc, ic, 1, kh * kw + 1), (oc, ic, kh * kw + 1, 1)):
            v = P_('x', f[0] * f[1] * f[2] * f[3])
            yield var(st, head + text('l\nConv\n') + u32(f[0]) + u32(f[1]) + u32(f[2]) + u32(f[3]) + floats(v) + u32(0) + text('end\n'),
                      'kernel of %s in the file, %s in the network' % ('x'.join(map(str, f)), 'x'.join(map(str, (oc, ic, kh, kw)))))
        for nb in (oc + 1, oc * 3, 300):
            yield var(st, head + text('l\nConv\n') + u32(oc) + u32(ic) + u32(kh) + u32(kw) + floats(P_('x', oc * ic * kh * kw)) + u32(nb) + floats(P_('y', nb)) + text('end\n'),
                      '%d biases in the file, %d in the network' % (nb, oc))
    for t in ('Gemm', 'MatMul', 'Transpose'):
        st = [('k', (2, 3), []), ('b', (2,), [])]
        for h, w in ((3, 3), (2, 4), (1, 7), (7, 1), (40, 40)):
            yield var(st, head + text('l\n%s\n' % t) + u32(1) + u32(h) + u32(w) + floats(P_('x', h * w)) + u32(2) + floats(P_('y', 2)) + text('end\n'),
                      '%s matrix of %dx%d in the file, 2x3 in the network' % (t, h, w))
        for nb in (3, 4, 77):
            yield var(st, head + text('l\n%s\n' % t) + u32(1) + u32(2) + u32(3) + floats(P_('x', 6)) + u32(nb) + floats(P_('y', nb)) + text('end\n'),
                      '%s with %d biases in the file, 2 in the network' % (t, nb))
        yield var([('k', (2, 3), []), ('k', (2, 3), []), ('b', (2,), [])], head + text('l\n%s\n' % t) + u32(2) + u32(2) + u32(3) + floats(P_('x', 12)) + u32(0) + text('end\n'),
                  '%s with two matrices in one layer' % t)
    for i in range(4):
        for n in (4, 5, 33):
            ns = [3] * 4
            ns[i] = n
            c, _ = layer_bytes(0, ('BatchNormalization',) + tuple(ns))
            yield var([('b', (3,), [])] * 4, head + c + text('end\n'), 'normalisation parameter %d with %d values in the file, 3 in the network' % (i, n))
    for n in (3, 9):
        c, _ = layer_bytes(0, ('Add', n))
        yield var([('b', (2,), [])], head + c + text('end\n'), 'addition with %d values in the file, 2 in the network' % n)
        for h, w in ((65536, 65536), (1 << 31, 2), (0xffffffff, 0xffffffff)):
            yield var(st, head + text('l\n%s\n' % t) + u32(1) + u32(h) + u32(w) + floats(P_('x', 8)) + u32(2) + floats(P_('y', 2)) + text('end\n'),
                      '%s matrix of %dx%d in the file, 2x3 in the network' % (t, h, w))
    for h, w in ((65536, 65536), (1 << 31, 2), (2, 1 << 31), (0xffffffff, 0xffffffff)):
        st = [('k', (1, 1, 2, 2), []), ('b', (1,), [])]
        yield var(st, head + text('l\nConv\n') + u32(1) + u32(1) + u32(h) + u32(w) + u32(1) + floats(P_('y', 1)) + text('end\n'),
                  'kernel of %dx%d in the file, 2x2 in the network' % (h, w))
    for n, h, w in ((9, 5, 858993461), (9, 858993461, 5), (6, 2, (1 << 31) + 3), (4, 4, (1 << 30) + 1), (7, 1431655767, 0x80000001)):
        if (h * w) % (1 << 32) == n:
            v = P_('x', n)
            yield var([('k', (1, 1, 3, 3), []), ('b', (1,), [])], head + text('l\nConv\n') + u32(1) + u32(1) + u32(h) + u32(w) + floats(v) + u32(1) + floats(P_('y', 1)) + text('end\n'),
                      'kernel of %dx%d in the file, 3x3 in the network' % (h, w))
            for t in ('Gemm', 'MatMul', 'Transpose'):
                yield var([('k', (3, 3), []), ('b', (1,), [])], head + text('l\n%s\n' % t) + u32(1) + u32(h) + u32(w) + floats(v) + u32(1) + floats(P_('y', 1)) + text('end\n'),
                          '%s matrix of %dx%d in the file, 3x3 in the network' % (t, h, w))
    # more parameters than the network has
    few = [('Conv', 1, 1, 2, 2, 1), ('Conv', 1, 1, 2, 2, 0), ('Gemm', 1, 2, 3, 2), ('Gemm', 1, 2, 2, 0), ('MatMul', 1, 2, 2, 0), ('Transpose', 1, 2, 2, 0), ('Add', 2), ('BatchNormalization', 2, 2, 2, 2)]
    for L in few:
        c, st = weights_file([L])
        for k in range(len(st)):
            short = st[:k] + st[k + 1:]
            yield var(short, c, '%s in the file, %d of its %d tensors in the network' % (show_net([L]), len(short), len(st)))
        for M in few:
            c2, st2 = weights_file([M, L])
            base = weights_file([M])[1]
            yield var(base, c2, '%s in the file, %s in the network' % (show_net([M, L]), show_net([M])))
    # the same after layers that fit
    for L in (NETS[8], NETS[10], NETS[12], NETS[1] * 3):
        b, st0 = weights_file(L)
        at = 3 + 4
        for t, ok, big in (('Conv', (2, 1, 1, 2, 2), (2, 2, 1, 2, 2)), ('Conv', (2, 1, 1, 2, 2), (2, 1, 1, 2, 3)), ('Conv', (2, 1, 1, 2, 2), (3, 1, 1, 2, 2)), ('Conv', (2, 1, 1, 2, 2), (2, 1, 2, 2, 2)),
                           ('Gemm', (1, 2, 3, 2), (1, 2, 4, 2)), ('Gemm', (1, 2, 3, 2), (1, 2, 3, 5)), ('MatMul', (1, 2, 3, 0), (1, 9, 3, 0)), ('Add', (2,), (3,)),
                           ('BatchNormalization', (2, 2, 2, 2), (2, 2, 2, 3)), ('BatchNormalization', (2, 2, 2, 2), (3, 2, 2, 2))):
            st = st0 + layer_bytes(len(L), (t,) + ok)[1]
            more = layer_bytes(len(L), (t,) + big)[0]
            out = b[:at] + u32(len(L) + 1) + b[at + 4:-4] + more + text('end\n')
            yield var(st, out, '%s(%s) after %s, %s in the network' % (t, ' '.join(map(str, big)), show_net(L), ' '.join(map(str, ok))))
    # names
    for n in (97, 98, 99, 100, 101, 130, 255, 300):
        c, st = weights_file([('Add', 1)], 'n' * n)
        yield Case('E_io__weights', c, 'network name of %d characters' % n, weights_args(st), None, bad='name', big=True)
        c = text('FD\nnet\n') + u32(1) + text('l' * n + '\nAdd\n') + u32(1) + floats(P_('x', 1)) + text('end\n')
        yield Case('E_io__weights', c, 'layer name of %d characters' % n, weights_args(st), None, bad='name', big=True)
        c = text('FD\nnet\n') + u32(1) + text('l\n' + 'A' * n + '\n') + u32(1) + floats(P_('x', 1)) + text('end\n')
        yield Case('E_io__weights', c, 'layer type of %d characters' % n, weights_args(st), 'error', bad='name', big=True)


# ------------------------------------------------------------ reference data
def ref_args(n, dims):
    def setup(run):
        t = run.tensor('tensor', dims)
        var = Obj('tensor pointer', 'arg', 8, init={0: Pt(t.body)})
        run.set('t', Pt(var))
        run.t = t
    return setup


def ref_cells(vals):
    def cells(run):
        out = []
        for i in range(run.t.count):
            got = run.read(run.t.data, 4 * i)
            out.append(('element %d' % i, got if got is not None else run.t.flat(i), vals[i]))
        return out
    return cells


def nchw(dims):
    return {4: lambda: dims, 3: lambda: (dims[0], dims[1], 1, dims[2]), 2: lambda: (1, 1, dims[0], dims[1])}[len(dims)]()


def refin_file(dims):
    n, c, h, w = nchw(dims)
    v = P_('data', c * h * w)
    return text('FCI\n') + u32(1) + u32(c) + u32(h) + u32(w) + floats(v) + text('end\n'), v


def refout_file(n):
    v = P_('data', n)
    return text('FCO\n') + u32(1) + u32(n) + floats(v) + text('end\n'), v


REFIN = [(1, 1, 2, 3), (1, 3, 2, 2), (1, 2, 1, 4), (1, 2, 3, 1), (1, 3, 5), (1, 1, 4), (1, 6), (2, 3), (1, 1), (1, 1, 1, 1)]
REFOUT = [(1, 1), (1, 4), (1, 10), (2, 3), (5, 1)]


def extra_shapes(ints):
    out = []
    for v in ints:
        if 2 <= v <= 130:
            out += [(1, v, 1, 2), (1, 1, v, 2), (1, 2, 1, v + 1), (1, 2, v)]
    return out


def ref_good(tier, seed, ints):
    r = random.Random('r%d' % seed)
    rin = REFIN + extra_shapes(ints)
    rout = REFOUT + [(1, v) for v in ints if 2 <= v <= 130]
    for _ in range(6 if tier == 'quick' else 100):
        rin.append((1, r.randint(1, 4), r.randint(1, 5), r.randint(1, 5)))
        rout.append((r.randint(1, 3), r.randint(1, 12)))
    for v in ints:
        if 130 < v <= 5000:
            rin += [(1, 1, 1, v + 1), (1, 1, v + 1, 1), (1, v + 1)]
            rout.append((1, v + 1))
    rin += [(1, 1, 1, 66003), (1, 1, 66003, 1), (1, 300, 1, 2), (1, 2, 257, 257), (1, 66003), (66003, 1), (1, 2, 66003), (1, 300, 3)]
    rout += [(1, 66003), (300, 3), (1, 1000)]
    for d in rin:
        c, v = refin_file(d)
        yield Case('E_io__refin', c, 'input data of %s' % 'x'.join(map(str, d)), ref_args('t', d), 0, cells=ref_cells(v), steps=LONG)
    for d in rout:
        c, v = refout_file(d[0] * d[1])
        yield Case('E_io__refout', c, 'output data of %s' % 'x'.join(map(str, d)), ref_args('t', d), 0, cells=ref_cells(v), steps=LONG)


def ref_bad(tier, seed, ints):
    for d in ((1, 2, 2, 1), (1, 2, 3), (1, 3), (1, 3, 2, 2), (1, 1, 1, 1), (1, 5, 1), (2, 3)):
        c, v = refin_file(d)
        for n in cut_points(c, tier):
            yield Case('E_io__refin', c[:n], 'input data of %s cut after %d of %d bytes' % ('x'.join(map(str, d)), n, len(c)), ref_args('t', d), 'error', bad='cut')
    d = (1, 3)
    c, v = refout_file(3)
    for n in cut_points(c, tier):
        yield Case('E_io__refout', c[:n], 'output data of 1x3 cut after %d of %d bytes' % (n, len(c)), ref_args('t', d), 'error', bad='cut')
    for root, (c, v), d in (('E_io__refin', refin_file((1, 1, 2, 1)), (1, 1, 2, 1)), ('E_io__refout', refout_file(2), (1, 2)), ('E_io__refin', refin_file((1, 3, 4, 5)), (1, 3, 4, 5)),
                               ('E_io__refin', refin_file((1, 3, 5)), (1, 3, 5)), ('E_io__refin', refin_file((4, 3)), (4, 3)), ('E_io__refout', refout_file(10), (1, 10)), ('E_io__refout', refout_file(1), (1, 1))):
        e = len(c) - 4
        for i in list(range(4)) + list(range(e, e + 4)):
            for x in (c[i] ^ 1, 0, 10, 73, 79):
                if x != c[i]:
                    yield Case(root, c[:i] + [x] + c[i + 1:], '%s with byte %d of the %s changed to %d' % (root[5:], i if i < 4 else i - e, 'magic number' if i < 4 else 'end marker', x),
                               ref_args('t', d), 'error', bad='magic' if i < 4 else 'end')
        yield Case(root, c, 'reference file that cannot be opened', ref_args('t', d), 'error', can_open=False, bad='open')
    # shapes that do not fit the tensor
    for d, f in (((1, 2, 3, 4), (1, 3, 3, 4)), ((1, 2, 3, 4), (1, 1, 3, 4)), ((1, 2, 3, 4), (1, 2, 4, 4)), ((1, 2, 3, 4), (1, 2, 2, 4)), ((1, 2, 3, 4), (1, 2, 3, 5)),
                 ((1, 2, 3, 4), (1, 2, 3, 3)), ((1, 2, 3, 4), (1, 2, 4, 3)), ((1, 2, 3, 4), (1, 4, 3, 2)), ((1, 2, 5), (1, 2, 2, 5)), ((1, 2, 5), (1, 3, 5)), ((1, 2, 5), (1, 2, 6)),
                 ((1, 2, 5), (1, 2, 4)), ((1, 6), (1, 1, 1, 7)), ((1, 6), (1, 1, 2, 3)), ((1, 6), (1, 2, 1, 6)), ((1, 2, 3, 4), (1, 200, 3, 4))):
        c, v = refin_file(f)
        yield Case('E_io__refin', c, 'input data of %s for a tensor of %s' % ('x'.join(map(str, f)), 'x'.join(map(str, d))), ref_args('t', d), 'error', bad='shape', big=True)
    for nb in (0, 2, 3):
        c, v = refin_file((1, 2, 1, 2))
        yield Case('E_io__refin', c[:4] + u32(nb) + c[8:], 'input data with batch count %d and data of one' % nb, ref_args('t', (1, 2, 1, 2)), 'error', bad='shape', big=True)
        yield Case('E_io__refin', c[:4] + u32(nb) + c[8:-4] + floats(P_('more', 4)) + c[-4:], 'input data with batch count %d' % nb, ref_args('t', (1, 2, 1, 2)), 'error', bad='shape', big=True)
        c, v = refout_file(4)
        yield Case('E_io__refout', c[:4] + u32(nb) + c[8:], 'output data with batch count %d' % nb, ref_args('t', (1, 4)), 'error', bad='shape', big=True)
    for d, n in (((1, 4), 5), ((1, 4), 3), ((1, 4), 40), ((2, 2), 2), ((1, 4), 0)):
        c, v = refout_file(n)
        yield Case('E_io__refout', c, 'output data with %d values for a tensor of %dx%d' % ((n,) + d), ref_args('t', d), 'error', bad='shape', big=True)
    c, v = refin_file((1, 5))
    yield Case('E_io__refin', c, 'input data for a tensor of rank 1', ref_args('t', (5,)), 'error', bad='shape', big=True)
    for d in ((4,), (1, 1, 4), (1, 1, 2, 2)):
        c, v = refout_file(4)
        yield Case('E_io__refout', c, 'output data for a tensor of rank %d' % len(d), ref_args('t', d), 'error', bad='shape', big=True)


# ------------------------------------------------------------ images, labels
def itof(v):
    return X.const(float(v)) if type(v) is int else X.mk('itofp', 64, False, v)


def scaled(v, lo, hi):
    return X.add(X.mul(X.div(itof(v), X.const(255.0)), X.fn('abs', X.sub(lo, hi))), lo)


LO, HI = ('lower_bound', 0), ('upper_bound', 0)


def bounds():
    return X.inp(*LO), X.inp(*HI)


def mnist_file(n, h, w, magic=2051, claim=None):
    px = [byte_leaf(i) for i in range(n * h * w)]
    return be32(magic) + be32(claim if claim is not None else n) + be32(h) + be32(w) + px, px


def mnist_args(ask, pad):
    def setup(run):
        run.out('im')
        run.set('n', ask)
        run.set('pad', pad)
        lo, hi = bounds()
        run.set('lo', lo)
        run.set('hi', hi)
    return setup


def mnist_cells(n, h, w, pad, px):
    def cells(run):
        lo, hi = bounds()
        out = []
        base = run.pointer(run.obj['im'])
        if base is None:
            return None
        H, W = h + 2 * pad, w + 2 * pad
        for i in range(n):
            p = run.pointer(base.o, base.f + 8 * i)
            if p is None:
                return None
            for r in range(H):
                for c in range(W):
                    inside = pad <= r < h + pad and pad <= c < w + pad
                    want = scaled(px[(i * h + r - pad) * w + c - pad], lo, hi) if inside else lo
                    got = run.read(p.o, p.f + 4 * (r * W + c))
                    out.append(('image %d row %d column %d' % (i, r, c), got if got is not None else X.mk('undef', 'pixel', i, r, c), want))
        return out
    return cells


def mnist_cases(tier, seed, ints):
    cfg = [(2, 2, 3, 2, 0), (1, 3, 2, 1, 1), (3, 1, 1, 3, 2), (2, 4, 4, 2, 2), (3, 2, 2, 2, 1), (2, 2, 2, 5, 0), (0, 2, 2, 3, 0), (2, 2, 2, 0, 1), (2, 5, 3, 2, 3), (1, 28, 28, 1, 2)]
    for v in ints:
        if 2 <= v <= 32:
            cfg += [(1, v, 2, 1, 0), (1, 2, v, 1, 1), (1, v + 1, 3, 1, 0)]
    r = random.Random('m%d' % seed)
    for _ in range(0 if tier == 'quick' else 80):
        cfg.append((r.randint(0, 4), r.randint(1, 6), r.randint(1, 6), r.randint(0, 5), r.randint(0, 3)))
    for v in ints:
        if 32 < v <= 512:
            cfg += [(1, v + 1, 1, 1, 0), (1, 1, v + 1, 1, 0), (v + 1, 1, 1, v + 1, 0)]
    cfg += [(300, 1, 2, 300, 0), (1, 300, 1, 1, 0), (1, 1, 300, 1, 0), (1, 2, 2, 1, 130), (1, 1, 2, 1, 255)]
    for n, h, w, ask, pad in cfg:
        c, px = mnist_file(n, h, w)
        k = min(n, ask)
        yield Case('E_io__mnist_images', c, '%d MNIST images of %dx%d, %d requested, padding %d' % (n, h, w, ask, pad), mnist_args(ask, pad), k, cells=mnist_cells(k, h, w, pad, px), steps=LONG)
    n, h, w, ask, pad = 3, 2, 3, 3, 1
    c, px = mnist_file(n, h, w)
    for cut in range(len(c)):
        k = max(0, (cut - 16)) // (h * w)
        yield Case('E_io__mnist_images', c[:cut], 'MNIST images cut after %d of %d bytes' % (cut, len(c)), mnist_args(ask, pad), k, bad='cut', cells=mnist_cells(k, h, w, pad, px) if k else None)
    for h, w, pad in ((65536, 65536, 0), (1 << 31, 2, 0), (2, 1 << 31, 0), (1 << 16, 1 << 17, 1), (0xffffffff, 0xffffffff, 0), (0xfffffffe, 1, 1), (1 << 31, 1 << 31, 0), (46341, 46341, 0), (0, 0xffffffff, 1)):
        yield Case('E_io__mnist_images', be32(2051) + be32(1) + be32(h) + be32(w) + [byte_leaf(i) for i in range(32)], 'MNIST images announced as %dx%d, padding %d' % (h, w, pad), mnist_args(1, pad), None,
                   bad='size', big=True)
    for m in [2049, 2050, 2052, 0, 50855936, 2051 << 8] + [2051 ^ (1 << b) for b in range(32)]:
        c, px = mnist_file(2, 2, 2, magic=m)
        yield Case('E_io__mnist_images', c, 'MNIST images with magic number %d' % m, mnist_args(2, 0), 0, bad='magic')
    yield Case('E_io__mnist_images', c, 'MNIST images that cannot be opened', mnist_args(2, 0), 0, can_open=False, bad='open')
    lab = [byte_leaf(i) for i in range(4)]

    def largs(ask):
        def setup(run):
            run.out('l')
            run.set('n', ask)
        return setup

    def lcells(k, lab):
        def cells(run):
            base = run.pointer(run.obj['l'])
            if base is None:
                return None
            out = []
            for i in range(k):
                got = run.read(base.o, base.f + i, 1, 'i8')
                out.append(('label %d' % i, X.lift(got) if got is not None else X.mk('undef', 'label', i), X.lift(lab[i])))
            return out
        return cells
    for have, claim, ask in ((4, 4, 4), (4, 4, 2), (4, 4, 9), (4, 2, 4), (1, 1, 1), (0, 0, 3), (4, 4, 0), (4, 9, 9), (3, 4, 4), (0, 4, 4)):
        k = min(have, claim, ask)
        yield Case('E_io__mnist_labels', be32(2049) + be32(claim) + lab[:have], '%d MNIST labels, %d announced, %d requested' % (have, claim, ask), largs(ask), k,
                   cells=lcells(k, lab), bad='cut' if have < min(claim, ask) else None)
    many = [(i * 7 + i // 256) % 10 for i in range(66003)]
    for n in (300, 66003):
        yield Case('E_io__mnist_labels', be32(2049) + be32(n) + many[:n], '%d MNIST labels' % n, largs(n), n, cells=lcells(n, many), steps=LONG)
    for vals in ([255, 254, 0, 10], [0, 255, 128, 127]):
        yield Case('E_io__mnist_labels', be32(2049) + be32(4) + vals, 'MNIST labels %s' % vals, largs(4), 4, cells=lcells(4, vals))
    for cut in range(8):
        yield Case('E_io__mnist_labels', (be32(2049) + be32(4) + lab)[:cut], 'MNIST labels cut after %d bytes' % cut, largs(4), 0, bad='cut')
    for m in [2051, 2048, 2050, 0, 17301504] + [2049 ^ (1 << b) for b in range(32)]:
        yield Case('E_io__mnist_labels', be32(m) + be32(4) + lab, 'MNIST labels with magic number %d' % m, largs(4), 0, bad='magic')
    yield Case('E_io__mnist_labels', be32(2049) + be32(4) + lab, 'MNIST labels that cannot be opened', largs(4), 0, can_open=False, bad='open')


def means_cases(tier, seed, ints):
    def args(run):
        o = Obj('means', 'arg', 12)
        run.obj['m'] = o
        run.set('m', Pt(o))

    def cells(vals):
        def c(run):
            out = []
            for i, v in enumerate(vals):
                got = run.read(run.obj['m'], 4 * i)
                out.append(('mean %d' % i, got if got is not None else X.mk('undef', 'mean', i), X.const(v)))
            return out
        return c
    for vals in ((1.5, -2.25, 104.0), (0.0, 128.5, 7.0), (-1.0, 0.125, 65536.0), (123.675, 116.28, 103.53), (0.5, 1.25, -3.0), (-0.5, -1.25, 3.0),
                 (-104.0, -116.75, -122.5), (7.0, 7.0, 7.0), (0.0, 0.0, 0.0), (3.0, 0.0, -1e-3), (300.0, 1e-30, 1e30)):
        vals = tuple(FL.F32.unpack(FL.F32.pack(v))[0] for v in vals)
        c = text('FD\n' + ''.join(v.hex() + '\n' for v in vals))
        yield Case('E_io__means', c, 'means %s' % (vals,), args, 0, cells=cells(vals))
    c = text('FD\n0x1.8p+0\n-0x1.2p+1\n0x1.a0p+6\n')
    for cut in (0, 1, 2, 3, 11, 12, 21, 22):
        if cut <= 22:
            # cut inside or before the third number's line
            yield Case('E_io__means', c[:cut], 'means cut after %d bytes' % cut, args, 'error', bad='cut')
    for m in ('FE\n', 'F\n', 'FDX\n', '\n', 'fd\n', 'FF\n'):
        yield Case('E_io__means', text(m) + c[3:], 'means with magic %r' % m, args, 'error', bad='magic')
    for bad in ('FD\nabc\n1.0\n2.0\n', 'FD\n1.0\nx\n2.0\n', 'FD\n1.0\n2.0\nx\n'):
        yield Case('E_io__means', text(bad), 'means %r' % bad, args, 'error', bad='number')
    yield Case('E_io__means', text('F' * 300 + '\n1\n2\n3\n'), 'means with a first line of 300 characters', args, 'error', bad='magic', big=True)
    yield Case('E_io__means', c, 'means that cannot be opened', args, 'error', can_open=False, bad='open')


def pgm_cases(tier, seed, ints):
    def args(pad, init=None):
        def setup(run):
            run.out('im')
            run.out('h', 2, init)
            run.out('w', 2, init)
            run.set('pad', pad)
            lo, hi = bounds()
            run.set('lo', lo)
            run.set('hi', hi)
        return setup

    def cells(h, w, pad, px):
        def c(run):
            lo, hi = bounds()
            out = []
            for n, v in (('h', h), ('w', w)):
                got = run.read(run.obj[n], 0, 2, 'i16')
                out.append(({'h': 'height', 'w': 'width'}[n], X.lift(got) if got is not None else X.mk('undef', n), X.const(v)))
            p = run.pointer(run.obj['im'])
            if p is None:
                return None
            H, W = h + 2 * pad, w + 2 * pad
            for r in range(H):
                for q in range(W):
                    inside = pad <= r < h + pad and pad <= q < w + pad
                    want = scaled(px[(r - pad) * w + q - pad], lo, hi) if inside else lo
                    got = run.read(p.o, p.f + 4 * (r * W + q))
                    out.append(('row %d column %d' % (r, q), got if got is not None else X.mk('undef', 'pixel', r, q), want))
            return out
        return c

    def content(h, w, comment='# comment', maxv=255, px=None):
        px = px or [byte_leaf(i) for i in range(h * w)]
        return text('P5\n%s\n%d %d\n%d\n' % (comment, w, h, maxv)) + px, px
    cfg = [(2, 3, 0), (3, 2, 0), (1, 1, 1), (2, 3, 1), (3, 1, 2), (1, 4, 2), (4, 4, 0)]
    for v in ints:
        if 2 <= v <= 32:
            cfg += [(v, 2, 0), (2, v, 1), (3, v + 1, 0)]
    r = random.Random('p%d' % seed)
    for _ in range(0 if tier == 'quick' else 80):
        cfg.append((r.randint(1, 6), r.randint(1, 6), r.randint(0, 3)))
    for v in ints:
        if 32 < v <= 512:
            cfg += [(v + 1, 1, 0), (1, v + 1, 0)]
    cfg += [(300, 1, 0), (1, 300, 0), (2, 1, 255), (1, 2, 130), (65535, 1, 0), (1, 65535, 0)]
    for h, w, pad in cfg:
        c, px = content(h, w)
        yield Case('E_io__read_pgm', c, 'PGM image of %dx%d with padding %d' % (h, w, pad), args(pad), 0, cells=cells(h, w, pad, px), steps=LONG)
    for px in ([10, 32, 9, 13], [255, 0, 255, 10], [32, 32, 48, 49]):
        c, px = content(2, 2, px=px)
        yield Case('E_io__read_pgm', c, 'PGM image with pixels %s' % px, args(0), 0, cells=cells(2, 2, 0, px))
    for h, w, pad in ((2, 3, 0), (2, 2, 1)):
        c, px = content(h, w)
        for cut in range(len(c)):
            yield Case('E_io__read_pgm', c[:cut], 'PGM image of %dx%d cut after %d of %d bytes' % (h, w, cut, len(c)), args(pad), 'error', bad='cut')
    for h, w, pad in ((65535, 65535, 0), (46341, 46341, 0), (32768, 16384, 0), (1, 65535, 0), (65535, 1, 0), (65535, 1, 1), (1, 65535, 1), (65281, 1, 255), (65535, 65535, 2)):
        yield Case('E_io__read_pgm', text('P5\n# c\n%d %d\n255\n' % (w, h)) + [byte_leaf(i) for i in range(8)], 'PGM image announced as %dx%d' % (h, w), args(pad), 'error', bad='cut', big=True, steps=LONG)
    c, px = content(2, 2)
    for d in ('2 -\n', '-\n', '2 x\n', '+ 2\n'):
        yield Case('E_io__read_pgm', text('P5\n#\n' + d + '255\n') + px, 'PGM image with dimensions %r and extents set before' % d, args(0, 2), 'error', bad='number')
    for m in ('P6\n', 'P2\n', 'P5', 'P\n', 'P55\n', '\n', 'p5\n'):
        yield Case('E_io__read_pgm', text(m) + c[3:], 'PGM image with magic %r' % m, args(0), 'error', bad='magic')
    for d in ('a b\n', '2\nx', '-\n'):
        yield Case('E_io__read_pgm', text('P5\n#\n' + d + '255\n') + px, 'PGM image with dimensions %r' % d, args(0), 'error', bad='number')
    yield Case('E_io__read_pgm', text('P5\n# ' + 'c' * 90 + '\n2 2\n255\n') + px, 'PGM image with a comment of 92 characters', args(0), 0, cells=cells(2, 2, 0, px))
    yield Case('E_io__read_pgm', text('P5\n# ' + 'c' * 300 + '\n2 2\n255\n') + px, 'PGM image with a comment of 300 characters', args(0), None, bad='line', big=True)
    yield Case('E_io__read_pgm', text('P' * 300 + '\n# \n2 2\n255\n') + px, 'PGM image with a first line of 300 characters', args(0), 'error', bad='magic', big=True)
    yield Case('E_io__read_pgm', c, 'PGM image that cannot be opened', args(0), 'error', can_open=False, bad='open')


def label_cases(tier, seed, ints):
    def args(ask):
        def setup(run):
            run.out('l')
            run.set('n', ask)
        return setup

    def lines(ls, last=True):
        out, n = [], 0
        want = []
        for i, k in enumerate(ls):
            s = [text_leaf(n + j) for j in range(k)]
            n += k
            want.append(s)
            out += s + ([10] if last or i < len(ls) - 1 else [])
        return out, want

    def cells(k, want):
        def c(run):
            base = run.pointer(run.obj['l'])
            if base is None:
                return None
            out = []
            for i in range(k):
                p = run.pointer(base.o, base.f + 8 * i)
                if p is None:
                    return None
                for j, w in enumerate(want[i] + [0]):
                    got = run.read(p.o, p.f + j, 1, 'i8')
                    out.append(('label %d character %d' % (i, j), X.lift(got) if got is not None else X.mk('undef', 'label', i, j), X.lift(w)))
            return out
        return c
    for ls, ask, last in (((3, 1, 5), 3, True), ((3, 1, 5), 2, True), ((3, 1, 5), 9, True), ((0, 4), 2, True), ((7,), 1, False), ((2, 6), 2, False), ((), 2, True), ((4, 4), 0, True),
                          ((100, 200, 250), 3, True), ((253, 1), 2, True), ((254, 2), 3, True), ((3, 255, 1), 2, True), ((300, 1), 3, True), ((600, 509), 2, False),
                          ((1, 4100), 2, True), ((1,) * 300, 300, True), ((2,) * 66003, 66003, True)):
        c, want = lines(ls, last)
        k = min(len(ls), ask)
        yield Case('E_io__labels', c, 'labels of %s characters, %d requested%s' % (list(ls) if len(ls) < 9 else '%d times %d' % (len(ls), ls[0]), ask, '' if last else ', no line end'), args(ask), k, cells=cells(k, want), steps=LONG)
    yield Case('E_io__labels', c, 'labels that cannot be opened', args(2), 0, can_open=False, bad='open')
    # validation labels: a file name of fixed length, a space, a number
    name = 'ILSVRC2012_val_00000001.JPEG'

    def vcells(k, want):
        def c(run):
            base = run.pointer(run.obj['l'])
            if base is None:
                return None
            out = []
            for i in range(k):
                got = run.read(base.o, base.f + 4 * (i + 1), 4, 'i32')
                out.append(('label %d' % (i + 1), X.lift(got) if got is not None else X.mk('undef', 'label', i), X.const(want[i])))
            return out
        return c
    for nums, ask in (((65, 970, 230), 3), ((65, 970, 230), 2), ((1, 0), 9), ((999,), 1), ((5, 17, 208, 3), 4), ((), 3), ((7,), 0), (tuple(i % 1000 for i in range(300)), 300), (tuple(i % 1000 for i in range(66003)), 66003)):
        s = ''.join('%s %d\n' % (name, n) for n in nums)
        k = min(len(nums), ask)
        yield Case('E_io__vallabels', text(s), 'validation labels %s, %d requested' % (list(nums) if len(nums) < 9 else len(nums), ask), args(ask), k, cells=vcells(k, nums), steps=LONG)
    for n in (40, 225, 226, 300, 700):
        s = '%s 12 %s\n%s 13\n' % (name, 'x' * n, name)
        yield Case('E_io__vallabels', text(s), 'validation labels, the first line with %d more characters' % n, args(2), 2, cells=vcells(2, (12, 13)), big=True)
    s = '%s 12' % name
    yield Case('E_io__vallabels', text(s), 'validation label without a line end', args(1), 1, cells=vcells(1, (12,)))
    for bad in ('\n', 'short\n', name + '\n', 'x' * 400 + '\n', name + ' 5\nshort\n'):
        yield Case('E_io__vallabels', text(bad), 'validation labels with a malformed line of %d characters' % (len(bad) - 1), args(3), None, bad='line', big=True)
    yield Case('E_io__vallabels', text(s), 'validation labels that cannot be opened', args(2), 0, can_open=False, bad='open')


def jpeg_cases(tier, seed, ints):
    def args(run):
        run.out('im')
        run.out('h', 2)
        run.out('w', 2)
        lo, hi = bounds()
        run.set('lo', lo)
        run.set('hi', hi)

    def cells(h, w, comps):
        def c(run):
            lo, hi = bounds()
            out = []
            for n, v in (('h', h), ('w', w)):
                got = run.read(run.obj[n], 0, 2, 'i16')
                out.append(({'h': 'height', 'w': 'width'}[n], X.lift(got) if got is not None else X.mk('undef', n), X.const(v)))
            base = run.pointer(run.obj['im'])
            if base is None:
                return None
            for k, ch in ((2, 'red'), (1, 'green'), (0, 'blue')):
                p = run.pointer(base.o, base.f + 8 * k)
                if p is None:
                    return None
                for y in range(h):
                    for x in range(w):
                        got = run.read(p.o, p.f + 4 * (y * w + x))
                        want = scaled(X.inp('byte:file', (y * w + x) * 3 + ((2 - k) if comps == 3 else 0)), lo, hi)
                        out.append(('%s row %d column %d' % (ch, y, x), got if got is not None else X.mk('undef', 'pixel', k, y, x), want))
            return out
        return c
    cfg = [(2, 3), (3, 2), (1, 1), (1, 4), (4, 1)]
    for v in ints:
        if 2 <= v <= 32:
            cfg += [(v, 2), (2, v)]
    for h, w in cfg:
        for comps in (3, 1):
            yield Case('E_io__jpeg', [], 'JPEG image of %dx%d with %d components' % (h, w, comps), args, 0, cells=cells(h, w, comps), jpeg=(h, w, comps))
    for v in ints:
        if 32 < v <= 512:
            for h, w in ((v + 1, 1), (1, v + 1)):
                yield Case('E_io__jpeg', [], 'JPEG image of %dx%d with 3 components' % (h, w), args, 0, cells=cells(h, w, 3), jpeg=(h, w, 3))
    for h, w in ((300, 1), (1, 300), (2, 3)):
        for comps in (3, 1, 4):
            yield Case('E_io__jpeg', [], 'JPEG image of %dx%d with %d components' % (h, w, comps), args, None if comps == 4 else 0, cells=cells(h, w, comps) if comps in (3, 1) else None, jpeg=(h, w, comps), steps=LONG)
    for h, w, comps in ((1, 21846, 3),) + (((1, 65500, 3), (1, 65500, 1)) if tier != 'quick' else ()):
        yield Case('E_io__jpeg', [], 'JPEG image of %dx%d with %d components' % (h, w, comps), args, 0, big=True, jpeg=(h, w, comps), steps=80 * w)
    for h, w in ((46341, 46341), (65500, 65500)):
        yield Case('E_io__jpeg', [], 'JPEG image of %dx%d that does not fit in memory' % (h, w), args, None, bad='size', big=True, jpeg=(h, w, 3))
    yield Case('E_io__jpeg', [], 'JPEG image that cannot be opened', args, 'error', can_open=False, bad='open', jpeg=(2, 2, 3))


# ------------------------------------------------------------------ writers
def writer_cases(tier, seed, ints):
    def args(h, w):
        def setup(run):
            o = Obj('image', 'arg', 4 * h * w, lazy='image')
            run.obj['im'] = o
            run.set('im', Pt(o))
            run.set('h', h)
            run.set('w', w)
        return setup
    cfg = [(2, 3), (3, 2), (1, 1), (1, 5), (4, 1), (3, 3)]
    for v in ints:
        if 2 <= v <= 32:
            cfg += [(v, 2), (2, v), (v + 1, 1)]
        elif 32 < v <= 512:
            cfg += [(v + 1, 1), (1, v + 1)]
    cfg += [(300, 1), (1, 300), (300, 2), (2, 300), (65535, 1), (1, 65535)]
    for h, w in cfg:
        px = [X.inp('image', 4 * i) for i in range(h * w)]
        lines = text('FF\n%d\n%d\n' % (h, w))
        for p in px:
            lines += [('num', 'exact', p), 10]
        yield Case('E_io__write_float', [], 'float file of %dx%d' % (h, w), args(h, w), 0, cells=out_cells(lines), steps=LONG)
        if h * w <= 24 or h * w in (300, 257, 256):
            mx, mn = px[0], px[0]
            for p in px[1:]:
                mx, mn = X.maximum(mx, p), X.minimum(mn, p)
            rng = X.fn('abs', X.sub(mn, mx))
            pix = [('byte', X.sel(X.lt(X.const(0), rng), X.mul(X.div(X.sub(p, mn), rng), X.const(255.0)), X.const(0))) for p in px]
            yield Case('E_io__write_pgm', [], 'PGM file of %dx%d' % (h, w), args(h, w), 0, cells=out_cells((h, w, pix)))
    for root in ('E_io__write_float', 'E_io__write_pgm'):
        yield Case(root, [], '%s to a file that cannot be opened' % TITLE[root], args(2, 2), 'error', can_open=False, bad='open')
        for wf in ('close', 'error'):
            yield Case(root, [], '%s with %s' % (TITLE[root], {'close': 'data lost on closing', 'error': 'a failing write'}[wf]), args(2, 2), 'error', write_fails=wf, bad='write')


def settle(out):
    """one token per position: output under complementary conditions becomes one conditional token"""
    res = []
    i = 0
    while i < len(out):
        c, t, ins = out[i]
        if c is True:
            res.append((t, ins))
            i += 1
            continue
        if c is False:
            i += 1
            continue
        if i + 1 < len(out) and out[i + 1][0] is X.c_not(c):
            t2 = out[i + 1][1]
            k = {type(t), type(t2)}
            if k == {int}:
                res.append((t if t == t2 else ('byte', X.sel(c, X.const(t), X.const(t2))), ins))
            else:
                def b(z):
                    return X.const(z) if type(z) is int else z[1] if z[0] == 'byte' else None
                if b(t) is None or b(t2) is None:
                    return None
                res.append((('byte', X.sel(c, X.lift(b(t)), X.lift(b(t2)))), ins))
            i += 2
            continue
        return None
    return res


def out_cells(want):
    def cells(run):
        got = settle(run.file.out)
        if got is None:
            return None
        out = []
        if type(want) is list:
            for k in range(max(len(want), len(got))):
                g = got[k][0] if k < len(got) else None
                w = want[k] if k < len(want) else None
                lab = 'item %d of the file' % k
                if type(w) is tuple and type(g) is tuple and w[0] == g[0]:
                    if w[0] == 'num' and g[1] != 'exact':
                        out.append((lab, X.mk('undef', 'a %s number' % g[1]), w[2]))
                    else:
                        out.append((lab, g[-1], w[-1]))
                else:
                    out.append((lab, X.mk('c?', str(show_tok(g))) if g != w else X.const(1), X.const(1) if g == w else X.mk('c?', show_tok(w))))
            return out
        h, w, pix = want
        # header: P5, one comment or none, width, height, largest value
        n = len(pix)
        head = got[:-n] if len(got) >= n else got
        if not all(type(t) is int for t, i in head):
            # the pixel part may contain constants as well
            k = next(i for i, (t, _) in enumerate(got) if type(t) is not int)
            out.append(('number of items', X.const(len(got) - k), X.const(n)))
            return out
        s = ''.join(chr(t) for t, i in head)
        lines = [l for l in s.split('\n') if not l.startswith('#')]
        tok = ' '.join(lines).split()
        good = tok == ['P5', str(w), str(h), '255'] and s.endswith('\n') and s.startswith('P5\n')
        out.append(('header %r' % s, X.const(1 if good else 0), X.const(1)))
        for k, (t, ins) in enumerate(got[-n:] if len(got) >= n else []):
            g = t[1] if type(t) is tuple and t[0] == 'byte' else X.const(t) if type(t) is int else X.mk('c?', str(t))
            out.append(('pixel %d' % k, strip_int(g), pix[k][1]))
        return out
    return cells


def strip_int(t):
    """the real number a pixel is truncated from"""
    if type(t) is int:
        return X.const(t)
    if t.k == 'iop' and t.a[0] == 'and' and t.a[3].k == 'c' and t.a[3].a[0] in (255, 0xffff, 0xffffffff):
        return strip_int(t.a[2])
    if t.k == 'fptoi':
        return t.a[1]
    if t.k == 'sel':
        return X.sel(t.a[0], strip_int(t.a[1]), strip_int(t.a[2]))
    return t


def show_tok(t):
    return 'nothing' if t is None else repr(chr(t)) if type(t) is int else '%s %s' % (t[0], X.show(t[-1]) if type(t[-1]) is T else t[-1])


# -------------------------------------------------------------------- driver
IO_ROOTS = list(TITLE)
GROUPS = {
    'weights': (weights_good, weights_bad, weights_big),
    'ref': (ref_good, ref_bad),
    'image': (mnist_cases, pgm_cases, means_cases, label_cases, jpeg_cases),
    'write': (writer_cases,),
}


def io_lib(rep, roots):
    lib = Lib(compile_module())
    ints = set()
    for r in roots:
        if r in lib.mod.fns:
            a, b = harvest(lib, r)
            ints |= a
    rep.add('constants_of_the_code', *sorted(map(str, ints)))
    return lib, sorted(v for v in ints if v <= 512)


def runs(rep, lib, groups, tier, seed, ints, want=lambda c: True, budget=(300, 700)):
    """every context of the groups that `want` selects; each is analysed"""
    end = time.time() + budget[0 if tier == 'quick' else 1]
    for g in groups:
        for fn in GROUPS[g]:
            for c in fn(tier, seed, ints):
                if not want(c) or c.root not in lib.mod.fns:
                    continue
                if time.time() > end:
                    rep.count('contexts not reached in time')
                    continue
                try:
                    r = Run(lib, c)
                except Undecided as e:
                    rep.undecided(str(e))
                    continue
                rep.count('contexts')
                for e in r.f.events:
                    if e.kind == 'endless':
                        rep.viol('a call never ends', rel(e.ins), e.ins.fn(), str(e.data), c.label, path=e.ins.d.get('path', ''))
                rep.functions |= {i.d.get('fn') for b in r.f.blocks_seen for i in r.f.fn.blocks[b] if str(i.d.get('file', '')).startswith(REPO)}
                for w, at in r.f.undecided:
                    rep.undecided('%s%s' % (w.replace(REPO + '/', ''), ' at ' + at.replace(REPO + '/', '') if at else ''))
                yield r


def result(r):
    """'error' for an end of the program, a number, or None when it is not known"""
    f = r.f
    if not r.ok:
        return None
    if f.dead:
        return 'dies'
    if type(f.ret) is int:
        return f.ret
    return None


def by_samples(lib, case):
    """a context that cannot be followed for all payloads at once: the same file with some payloads"""
    out = []
    for seed in range(4):
        e = X.Eval(('normal', 'normal', 'ties', 'scale')[seed], seed)
        try:
            r = Run(lib, case, e)
        except Undecided:
            continue
        if r.ok:
            out.append(r)
    return out


def where(e):
    return rel(e.ins), e.ins.fn(), e.ins.d.get('path', '')


def outcome_rule(rep, r):
    """a complete file is accepted, a damaged one refused"""
    c = r.case
    if c.expect is None:
        return
    res = result(r)
    if res is None:
        if r.sample is None and c.jpeg is None:
            rest = by_samples(r.lib, c)
            for q in rest:
                rep.count('contexts followed for sample payloads')
                n = len(rep.viols)
                outcome_rule(rep, q)
                if c.bad is None and len(rep.viols) == n:
                    value_rule(rep, q, 'value')
                if len(rep.viols) > n:
                    break
        rep.ob('outcome of a damaged file' if c.bad else 'outcome of a valid file', 1, 0)
        return
    if c.expect == 'error':
        good = res == 'dies' or res != 0
        kind = {'cut': 'accepts a file that ends too early', 'magic': 'accepts a file with a wrong magic number', 'end': 'accepts a file with a wrong end marker',
                'type': 'accepts an unknown layer type', 'count': 'accepts a file with a wrong number of layers', 'size': 'accepts more values than the network holds',
                'shape': 'accepts data of another shape', 'number': 'accepts a malformed number', 'open': 'reports success without a file', 'name': 'accepts an unknown layer type',
                'write': 'reports success after a failed write', 'line': 'accepts a malformed line'}.get(c.bad, 'accepts a damaged file')
    else:
        good = res == c.expect
        kind = {'cut': 'reports another count than it read from a file that ends too early', 'magic': 'accepts a file with a wrong magic number',
                'open': 'reports success without a file'}.get(c.bad, 'reports another outcome for a valid file')
    rep.ob('outcome of a damaged file' if c.bad else 'outcome of a valid file', 1, 1 if good else 0)
    if not good:
        die = [e for e in r.f.events if e.kind == 'die']
        s = where(die[-1]) if res == 'dies' and die else r.site()
        rep.viol(kind, s[0], s[1], 'returns %s, expected %s' % (res, 'a failure' if c.expect == 'error' else c.expect), c.label, path=s[2])


def value_rule(rep, r, what):
    c = r.case
    res = result(r)
    if c.cells is None or res is None or res == 'dies' or c.expect == 'error' or res != c.expect:
        return
    cl = c.cells(r)
    if cl is None:
        if r.sample is None and c.jpeg is None:
            for q in by_samples(r.lib, c):
                rep.count('contexts followed for sample payloads')
                n = len(rep.viols)
                value_rule(rep, q, what)
                if len(rep.viols) > n:
                    break
        rep.ob(what, 1, 0)
        rep.undecided('the result is not where the interface puts it')
        return
    if not cl:
        return
    if r.sample is not None:
        e, bad = r.sample, None
        for lab, g, w in cl:
            a, b = e(g), e(w)
            tol = 1.001 if c.root == 'E_io__write_pgm' else 0
            if a is not None and b is not None and X.differ(a, b) and not (tol and a is not True and b is not True and abs(a - b) <= tol):
                bad = (lab, X.lift(a), X.lift(b), a, b, 'with a sample payload')
                break
        ident, agree, unknown = 0, 0 if bad else len(cl), 0
        if not bad:
            return
    else:
        ident, agree, unknown, bad = value_diffs(cl)
    rep.ob(what, len(cl), ident + agree)
    if bad:
        s = r.site()
        best = None
        for o, m in r.f.stores.items():
            if o.kind in ('arg', 'new'):
                for i, pc in m.values():
                    if not rel(i).startswith('tool/'):
                        best = i
        if r.file.out:
            i = r.file.out[-1][2]
            best = i
        if best is not None:
            s = (rel(best), best.fn(), best.d.get('path', ''))
        rep.viol('%s is wrong' % what, s[0], s[1], '%s is %s, expected %s%s' % (bad[0], X.show(bad[1])[:160], X.show(bad[2])[:160], ' (%s)' % bad[5] if bad[5] else ''), c.label, path=s[2])


def kept_rule(rep, r):
    """the descriptors of the network stay as they are"""
    objs = []
    for t in list(getattr(r, 'kt', [])) + list(getattr(r, 'bt', [])) + ([r.t] if hasattr(r, 't') else []):
        objs += [t.body, t.shape]
    objs += [o for n, o in r.obj.items() if n.startswith(('array ', 'pointer '))]
    n = 0
    for o in objs:
        if o.lazy or not r.f.stores.get(o):
            n += 1
            continue
        ch = [k for lay in r.f.layers for k, (s, v) in lay.get(o, {}).items() if k != '*' and o.init.get(k) is not v and not (type(v) is int and o.init.get(k) == v)
              and not (type(v) is Pt and type(o.init.get(k)) is Pt and v.o is o.init[k].o and v.f == o.init[k].f)]
        if not ch:
            n += 1
            continue
        i = list(r.f.stores[o].values())[0][0]
        rep.viol('changes the network instead of its values', rel(i), i.fn(), short(o), r.case.label, path=i.d.get('path', ''))
    rep.ob('network structure kept', len(objs), n)


def p18(rep, tier, seed):
    lib, ints = io_lib(rep, IO_ROOTS)
    rep.rule('typestate of file handles: at most one open per call; every stream operation is on an open handle; no handle is used when opening '
             'failed, none after closing; closed exactly once before every return; readers open for reading, writers for (over)writing')
    for r in runs(rep, lib, GROUPS, tier, seed, ints):
        c = r.case
        ev = [e for e in r.f.events if e.kind in ('stream-null', 'stream-closed', 'stream-leak') and sat(e.pc) is True]
        for e in ev:
            s = where(e)
            rep.viol({'stream-null': 'uses a stream that could not be opened', 'stream-closed': 'uses a closed stream', 'stream-leak': 'stream never closed'}[e.kind],
                     s[0], s[1], str(e.data), c.label, path=s[2])
        n = sum(e.kind in ('open', 'close') for e in r.f.events) + r.file.reads
        rep.ob('stream operation on an open handle', n + len(ev), n)
        if r.ok and not r.f.dead:
            good = r.file.state != 'open'
            rep.ob('closed before the return', 1, 1 if good else 0)
            if not good:
                i = r.file.opened_at
                rep.viol('stream never closed', rel(i), r.fn, 'still open at the return', c.label, path=i.d.get('path', ''))
        m = r.file.mode
        if m is not None:
            good = m[:1] == ('w' if 'write' in c.root else 'r') and not ('r' in m and '+' in m)
            rep.ob('opened in the right mode', 1, 1 if good else 0)
            if not good:
                i = r.file.opened
                rep.viol('file opened in the wrong mode', rel(i), i.fn(), 'mode "%s"' % m, c.label, path=i.d.get('path', ''))


def p19(rep, tier, seed):
    lib, ints = io_lib(rep, IO_ROOTS)
    rep.rule('fail closed: in every context with a file that cannot be opened, ends at any byte too early, has a damaged magic number, end marker, layer '
             'type or number, or other sizes than the network, the reader does not report success (readers that report counts report what is complete); '
             'no branch depends on bytes that were not read; a writer reports a failed write')
    for r in runs(rep, lib, GROUPS, tier, seed, ints, lambda c: c.bad is not None):
        outcome_rule(rep, r)
        value_rule(rep, r, 'value read before the end of a short file')
        for e in r.f.events:
            if e.kind in ('uninit-branch', 'uninit-string') and sat(e.pc) is True:
                s = where(e)
                rep.viol('decides on bytes that were not read', s[0], s[1], str(e.data), r.case.label, path=s[2])


def p20(rep, tier, seed):
    lib, ints = io_lib(rep, IO_ROOTS)
    rep.rule('bounds: every read, copy and store of the readers and writers stays inside its buffer or tensor, in every context including files whose '
             'sizes, names and lines exceed what the network or the buffers hold, and files cut at any byte')
    for r in runs(rep, lib, GROUPS, tier, seed, ints):
        ev = [e for e in events(r.f) if e[0] in BAD and e[5]]
        n = r.f.nload + r.f.nstore
        rep.ob('access inside its object', n, n - len(ev))
        for e in ev:
            rep.viol({'oob': 'access outside the buffer', 'null': 'null pointer followed', 'use-after-free': 'use of released memory'}.get(e[0], e[0]),
                     e[1], e[2], str(e[4]), r.case.label, path=e[3])
        for e in r.f.events:
            if e.kind == 'unbounded':
                s = where(e)
                rep.viol('input of unlimited length into a buffer', s[0], s[1], str(e.data), r.case.label, path=s[2])


def reachable(f, roots):
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if type(x) is PS:
            st += [x.a, x.b]
        elif type(x) is Pt and x.o not in seen:
            seen.add(x.o)
            for lay in f.layers:
                st += [c[1] for c in lay.get(x.o, {}).values() if ispt(c[1])]
            if x.o.init:
                st += [q for q in x.o.init.values() if ispt(q)]
    return seen


def handed_over(r, args):
    """objects the caller gets: reachable from the results, of a list only the entries up to the reported count"""
    f = r.f
    if r.case.root in ('E_io__mnist_images', 'E_io__labels') and type(f.ret) is int:
        var = r.obj['im' if 'mnist' in r.case.root else 'l']
        base = r.pointer(var)
        if base is not None:
            seen = reachable(f, [a for a in args if a.o is not var]) | {var, base.o}
            for k in range(f.ret):
                p = r.pointer(base.o, base.f + 8 * k)
                if p is not None:
                    seen.add(p.o)
            return seen
    return reachable(f, args)


def p21(rep, tier, seed):
    lib, ints = io_lib(rep, IO_ROOTS)
    rep.rule('ownership: on every way out, each heap object a reader obtained has been released once with the matching operator or is handed over '
             'through the result; after success nothing handed over has been released')
    for r in runs(rep, lib, GROUPS, tier, seed, ints):
        f = r.f
        for e in events(f):
            if e[0] in HEAP and e[5]:
                rep.viol({'double-free': 'heap object released twice', 'bad-free': 'release of memory that is not a heap object of its own',
                          'mismatched-free': 'heap object released with the wrong operator'}.get(e[0], e[0]), e[1], e[2], str(e[4]), r.case.label, path=e[3])
        if not r.ok or f.dead:
            continue
        j = getattr(r, 'jpeg', None)
        if j and hasattr(j, 'created'):
            good = j.state.get(j.created[0]) == 'destroyed'
            rep.ob('decompressor destroyed', 1, 1 if good else 0)
            if not good:
                i = j.created[1]
                rep.viol('decompressor never destroyed', rel(i), i.fn(), 'state at the return: %s' % j.state.get(j.created[0]), r.case.label, path=i.d.get('path', ''))
        for e in f.events:
            if e.kind == 'jpeg-state':
                s = where(e)
                rep.viol('decompressor used out of order', s[0], s[1], str(e.data), r.case.label, path=s[2])
        news = [e for e in f.events if e.kind == 'alloc']
        args = [Pt(o) for o in r.obj.values() if isinstance(o, Obj)]
        mine = handed_over(r, args)
        n = 0
        for e in news:
            o = e.data
            if o in f.freed:
                n += 1
                continue
            if o in mine:
                n += 1
                continue
            if e.pc is not True:
                continue
            s = where(e)
            rep.viol('heap object never released', s[0], s[1], 'neither released nor handed over', r.case.label, path=s[2])
        rep.ob('heap object released or handed over', len(news), n)
        if r.case.bad is None and r.case.expect not in (None, 'error') and result(r) == r.case.expect:
            for e in f.events:
                if e.kind == 'free' and e.pc is True and e.data[0].kind == 'new' and e.data[0] in mine:
                    s = where(e)
                    rep.viol('hands over memory it has released', s[0], s[1], short(e.data[0]), r.case.label, path=s[2])


def p_values(groups, what, text):
    def p(rep, tier, seed):
        lib, ints = io_lib(rep, IO_ROOTS)
        rep.rule(text)
        for r in runs(rep, lib, groups, tier, seed, ints, lambda c: c.bad is None):
            outcome_rule(rep, r)
            value_rule(rep, r, what)
            kept_rule(rep, r)
    return p


p22 = p_values(['weights'], 'value stored in the network',
               'grammar: in every context with a valid weights file (layers of all types in any order, with and without biases, kernels stored earlier) the reader '
               'reports success and element i of the k-th kernel or bias tensor is exactly the i-th value of the k-th stored array; tensors without values keep theirs')
p23 = p_values(['ref'], 'value stored in the tensor',
               'grammar: in every context with a valid reference input or output file whose sizes match the tensor the reader reports success and every tensor '
               'element is the value at its row-major position in the file')
p24 = p_values(['image'], 'decoded value',
               'decoding: the normal form of every pixel, label, mean and extent handed to the caller equals its definition over the bytes of the file')
p25 = p_values(['write'], 'written item',
               'output: the items written to the file are exactly the documented header and the pixels in row-major order, each number in a form that reads back exactly')
