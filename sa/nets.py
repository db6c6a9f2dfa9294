"""The abstract models that are analysed. `must`: the importer documents the operator and supports these attributes, so it has to accept the model;
otherwise it may refuse, but must not generate something that computes another function."""
import random
from .models import M, prod


def fin(m):
    """network outputs have two dimensions"""
    s = m.shape_of(m.cur)
    if s is not None and len(s) != 2:
        m.op('Flatten')
    elif s is None:
        m.op('Flatten')
    return m.done()


def one(label, shape, op, must=True, ins=(), grp='op', pre=True, post=True, **attrs):
    """one operator between two others; ins: (name, shape[, values]) parameters"""
    m = M(label, shape, must, group=grp)
    if pre:
        m.op('Relu')
    args = [m.cur]
    for x in ins:
        if x == '@in':
            args.append('input')
        elif isinstance(x, str):
            args.append(x)
        elif len(x) == 2:
            args.append(m.w(x[0], *x[1]))
        else:
            args.append(m.w(x[0], *x[1], vals=x[2], ints=all(type(v) is int for v in x[2])))
    m.op(op, args, **attrs)
    if post:
        m.op('Relu')
    return fin(m)


def ops():
    L = []
    A = L.append

    def conv(label, shape, oc, k, must=True, g=1, bias=True, grp='op', **a):
        a.setdefault('strides', [1] * len(k))
        w = ('w', (oc, shape[1] // g) + tuple(k))
        if g != 1:
            a['group'] = g
        A(one('Conv ' + label, shape, 'Conv', must, [w] + ([('b', (oc,))] if bias else []), grp, kernel_shape=list(k), **a))
    conv('2d pads', (1, 2, 4, 5), 3, (3, 3), pads=[1, 1, 1, 1])
    conv('2d no bias', (1, 2, 4, 5), 3, (3, 3), bias=False)
    conv('2d asymmetric pads', (1, 1, 4, 4), 2, (3, 3), pads=[0, 1, 2, 0])
    conv('2d top pad only', (1, 1, 4, 4), 2, (3, 3), pads=[1, 0, 0, 0])
    conv('2d strides', (1, 2, 6, 7), 2, (3, 3), strides=[2, 3], pads=[1, 1, 1, 1])
    conv('2d kernel 3x1', (1, 2, 5, 4), 2, (3, 1), pads=[1, 0, 1, 0])
    conv('2d kernel 1x3', (1, 2, 5, 4), 2, (1, 3), pads=[0, 1, 0, 1])
    conv('2d kernel 1x1', (1, 3, 2, 3), 2, (1, 1))
    conv('2d groups', (1, 4, 4, 4), 6, (3, 3), g=2, pads=[1, 1, 1, 1])
    conv('2d depthwise', (1, 3, 4, 4), 3, (3, 3), g=3)
    conv('2d dilations of one', (1, 1, 4, 4), 2, (3, 3), dilations=[1, 1])
    conv('1d', (1, 2, 7), 3, (3,))
    conv('1d pads strides', (1, 2, 7), 3, (3,), strides=[2], pads=[1, 1])
    conv('1d asymmetric pads', (1, 2, 7), 3, (3,), pads=[0, 2])
    conv('1d left pad only', (1, 2, 7), 3, (3,), pads=[2, 0])
    conv('1d groups', (1, 4, 6), 4, (3,), g=2, bias=False)
    conv('1d depthwise kernel 5', (1, 3, 7), 3, (5,), g=3, pads=[2, 2])
    conv('1d kernel 1', (1, 3, 5), 2, (1,))
    for k, s, p in (((2, 2), [2, 2], None), ((3, 2), [1, 2], None), ((2, 3), [2, 1], [1, 0, 0, 1]), ((3, 3), [2, 2], [1, 1, 1, 1]), ((2, 2), [1, 1], [0, 0, 1, 1])):
        a = dict(kernel_shape=list(k), strides=s)
        if p:
            a['pads'] = p
        A(one('MaxPool 2d %s %s %s' % (k, s, p), (1, 2, 5, 6), 'MaxPool', pre=False, **a))
        A(one('AveragePool 2d %s %s %s' % (k, s, p), (1, 2, 5, 6), 'AveragePool', pre=False, **a))
        if p:
            A(one('AveragePool 2d including pad %s %s %s' % (k, s, p), (1, 2, 5, 6), 'AveragePool', pre=False, count_include_pad=1, **a))
    for k, s, p in ((2, 2, None), (3, 1, [1, 1]), (3, 2, [1, 0]), (2, 1, [0, 1])):
        a = dict(kernel_shape=[k], strides=[s])
        if p:
            a['pads'] = p
        A(one('MaxPool 1d %s %s %s' % (k, s, p), (1, 2, 7), 'MaxPool', pre=False, **a))
        A(one('AveragePool 1d %s %s %s' % (k, s, p), (1, 2, 7), 'AveragePool', pre=False, **a))
        if p:
            A(one('AveragePool 1d including pad %s %s %s' % (k, s, p), (1, 2, 7), 'AveragePool', pre=False, count_include_pad=1, **a))
    # every small kernel, the strides and pads running through their values along with it
    n = 0
    for kh in (1, 2, 3):
        for kw in (1, 2, 3):
            for st in ((1, 1), (2, 1), (1, 3)):
                n += 1
                pad = [(0, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 0, 0, 1), (0, 0, 0, 1)][n % 5]
                pad = [p if q > 1 else 0 for p, q in zip(pad, (kh, kw, kh, kw))]
                a = dict(kernel_shape=[kh, kw], strides=list(st))
                if any(pad):
                    a['pads'] = pad
                op = ('MaxPool', 'AveragePool')[n % 2]
                A(one('%s window %dx%d %s %s' % (op, kh, kw, st, pad), (1, 2, 4, 5), op, pre=False, post=False, **a))
                op = ('MaxPool', 'AveragePool')[(n + 1) % 2]
                if op == 'AveragePool':
                    a['count_include_pad'] = n % 3 % 2
                A(one('%s window %dx%d %s %s in three channels' % (op, kh, kw, st, pad), (1, 3, 3, 4), op, pre=False, post=False, **a))
    for kh, kw in ((1, 5), (5, 1), (3, 5), (5, 3), (5, 5)):
        for pad in ([0, 0, 0, 0], [kh // 2, kw // 2, kh // 2, kw // 2], [0, kw - 1, kh - 1, 0]):
            conv('kernel %dx%d %s' % (kh, kw, pad), (1, 2, 5, 6), 2, (kh, kw), pads=pad, strides=[1, 2] if pad[0] else [2, 1])
    for g, ic, oc in ((2, 2, 4), (2, 4, 2), (3, 6, 3), (4, 4, 8)):
        conv('%d groups of %d to %d' % (g, ic, oc), (1, ic, 3, 3), oc, (3, 3), g=g, pads=[1, 1, 1, 1], bias=g != 3)
        conv('1d, %d groups of %d to %d' % (g, ic, oc), (1, ic, 4), oc, (3,), g=g, pads=[0, 1], bias=g != 3)
    for k in (1, 2, 4, 5):
        for st in (1, 3):
            p = [0, 0] if k == 1 else [k - 1, 0] if st == 1 else [0, k // 2]
            A(one('MaxPool 1d window %d %d' % (k, st), (1, 2, 6), 'MaxPool', pre=False, post=False, kernel_shape=[k], strides=[st], pads=p))
            A(one('AveragePool 1d window %d %d' % (k, st), (1, 2, 6), 'AveragePool', pre=False, post=False, kernel_shape=[k], strides=[st], pads=p, count_include_pad=st // 2))
    for op in ('GlobalMaxPool', 'GlobalAveragePool'):
        A(one(op + ' 2d', (1, 3, 3, 4), op, pre=False))
        A(one(op + ' 1d', (1, 3, 5), op, pre=False))
    A(one('Gemm', (1, 5), 'Gemm', True, [('w', (3, 5)), ('b', (3,))], transB=1))
    A(one('Gemm all attributes', (1, 5), 'Gemm', True, [('w', (3, 5)), ('b', (3,))], transB=1, transA=0, alpha=1.0, beta=1.0))
    A(one('Gemm as input and output', (1, 5), 'Gemm', True, [('w', (3, 5)), ('b', (3,))], pre=False, post=False, transB=1))
    A(one('Gemm no bias', (1, 5), 'Gemm', True, [('w', (3, 5))], transB=1))
    A(one('MatMul', (1, 5), 'MatMul', True, [('w', (5, 3))]))
    A(one('MatMul as input and output', (1, 5), 'MatMul', True, [('w', (5, 3))], pre=False, post=False))
    m = M('MatMul and Add', (1, 5))
    m.op('MatMul', ['input', m.w('w', 5, 3)])
    m.op('Add', [m.cur, m.w('b', 3)])
    A(fin(m))
    m = M('MatMul and Add with the constant first', (1, 5))
    m.op('MatMul', ['input', m.w('w', 5, 3)])
    m.op('Add', [m.w('b', 3), m.cur])
    A(fin(m))
    for shape in ((1, 6), (1, 2, 4), (1, 2, 3, 2)):
        r = len(shape)
        A(one('Relu %d dimensions' % r, shape, 'Relu', pre=False, post=False))
        A(one('Clip %d dimensions' % r, shape, 'Clip', pre=False, post=False, min=-0.25, max=0.5))
        A(one('Softmax %d dimensions' % r, shape, 'Softmax', r == 2, pre=False, post=False))
        A(one('Mul %d dimensions' % r, shape, 'Mul', True, [('f', ())], pre=False, post=False))
        A(one('Mul by 0.5, %d dimensions' % r, shape, 'Mul', True, [('f', (1,), [0.5])], pre=False, post=False))
        A(one('Mul by a small number, %d dimensions' % r, shape, 'Mul', True, [('f', (1,), [1.2345678806304932e-05])], pre=False, post=False))
        m = M('Add %d dimensions' % r, shape)
        a = m.op('Relu')
        m.op('Add', ['input', a])
        A(fin(m))
        m = M('Concat %d dimensions' % r, shape)
        a = m.op('Relu')
        m.op('Concat', ['input', a], axis=1)
        A(fin(m))
        m = M('Concat three inputs, %d dimensions' % r, shape)
        a = m.op('Relu')
        b = m.op('Clip', [a], min=0.0, max=1.0)
        m.op('Concat', [b, 'input', a], axis=1)
        A(fin(m))
    A(one('Clip large bounds', (1, 6), 'Clip', pre=False, post=False, min=-3.4028234663852886e+38, max=1e-08))
    A(one('Clip without an upper bound', (1, 6), 'Clip', pre=False, post=False, min=0.25, max=float('inf')))
    A(one('Clip without a lower bound', (1, 6), 'Clip', pre=False, post=False, min=-float('inf'), max=2.0))
    A(one('Pad with minus infinity', (1, 2, 2, 2), 'Pad', True, pads=[0, 0, 1, 0, 0, 0, 0, 1], mode=b'constant', value=-float('inf')))
    A(one('Clip at six', (1, 3, 2, 2), 'Clip', min=0.0, max=6.0))
    for shape in ((1, 3, 2, 3), (1, 3, 5)):
        A(one('BatchNormalization %d dimensions' % len(shape), shape, 'BatchNormalization', True, [('g', (3,)), ('be', (3,)), ('mu', (3,)), ('va', (3,))], epsilon=1e-3))
        A(one('BatchNormalization small epsilon, %d dimensions' % len(shape), shape, 'BatchNormalization', True,
              [('g', (3,)), ('be', (3,)), ('mu', (3,)), ('va', (3,))], epsilon=9.999999747378752e-06, momentum=0.9))
        A(one('BatchNormalization tiny epsilon, %d dimensions' % len(shape), shape, 'BatchNormalization', True,
              [('g', (3,)), ('be', (3,)), ('mu', (3,)), ('va', (3,))], epsilon=1.23456799e-08))
        A(one('BatchNormalization odd epsilon, %d dimensions' % len(shape), shape, 'BatchNormalization', True,
              [('g', (3,)), ('be', (3,)), ('mu', (3,)), ('va', (3,))], epsilon=1.0009999641624745e-05))
    A(one('LRN 3', (1, 4, 2, 2), 'LRN', True, size=3, alpha=0.5, beta=0.75, bias=1.0))
    A(one('LRN small numbers', (1, 4, 2, 2), 'LRN', True, size=3, alpha=1.2345678806304932e-05, beta=0.7512345671653748, bias=1.0))
    A(one('LRN 5', (1, 7, 1, 2), 'LRN', True, size=5, alpha=9.999999747378752e-05, beta=0.5))
    for p in ((0, 2, 3, 1), (0, 3, 1, 2), (0, 1, 3, 2)):
        A(one('Transpose %s' % (p,), (1, 2, 3, 4), 'Transpose', True, perm=list(p)))
    A(one('Transpose 2d', (1, 4), 'Transpose', False, perm=[0, 1]))
    A(one('Squeeze', (1, 3, 1, 4), 'Squeeze', True, axes=[2]))
    A(one('Squeeze two', (1, 3, 1, 1), 'Squeeze', True, axes=[2, 3]))
    for sh, ax in (((1, 1, 2, 3), [0]), ((1, 1, 2, 3), [1]), ((1, 1, 1, 3), [1, 2]), ((1, 1, 1, 3), [0, 2]), ((1, 1, 1, 3), [0, 1, 2]), ((1, 3, 1, 1), [0, 2, 3]), ((1, 1, 3), [1]),
                   ((1, 1, 3), [0]), ((1, 4, 1), [2]),
                   ((1, 3, 1, 1), [-1, -2]), ((1, 3, 1, 1), [-1, 2]), ((1, 3, 1, 4), [-2]), ((1, 1, 1, 3), [1, -2])):
        m = M('Squeeze %s of %s' % (ax, sh), sh, False)
        m.op('Relu')
        m.op('Squeeze', axes=ax)
        m.op('Clip', min=-1.0, max=1.0)
        m.op('Reshape', [m.cur, m.w('s', 2, vals=[1, prod(sh)], ints=True)])
        A(m.done())
    m = M('Squeeze to output', (1, 3, 2, 2))
    m.op('GlobalAveragePool')
    m.op('Squeeze', axes=[2, 3])
    A(m.done())
    m = M('Unsqueeze between', (1, 3, 4))
    m.op('Relu')
    m.op('Unsqueeze', axes=[2])
    m.op('MaxPool', kernel_shape=[1, 2], strides=[1, 2])
    A(fin(m))
    A(one('Pad 4 dimensions', (1, 2, 3, 2), 'Pad', True, pads=[0, 0, 1, 2, 0, 0, 0, 1], mode=b'constant', value=0.0))
    A(one('Pad 4 dimensions with a value', (1, 2, 2, 2), 'Pad', True, pads=[0, 0, 0, 0, 0, 0, 2, 1], mode=b'constant', value=0.5))
    A(one('Pad 3 dimensions', (1, 2, 3), 'Pad', True, pads=[0, 0, 1, 0, 0, 2], mode=b'constant', value=-1.5))
    A(one('Pad with an odd value', (1, 1, 2, 2), 'Pad', True, pads=[0, 0, 1, 0, 0, 0, 0, 1], mode=b'constant', value=-1.2345678806304932e-05))
    A(one('Clip at odd bounds', (1, 4), 'Clip', pre=False, post=False, min=-1.2345678806304932e-05, max=0.12345678359270096))
    A(one('Pad 2 dimensions', (1, 3), 'Pad', False, pads=[0, 1, 0, 2], mode=b'constant', value=2.0))
    for ax, must in ((1, True), (0, False), (2, False), (3, False)):
        A(one('Flatten at %d' % ax, (1, 2, 3, 2), 'Flatten', must, post=False, axis=ax))
    A(one('Flatten to output', (1, 2, 3), 'Flatten', pre=True, post=False))
    for lab, sh, to in (('(1, -1)', (1, 2, 3, 2), [1, -1]), ('(1, 12)', (1, 2, 3, 2), [1, 12]), ('(-1, 12)', (1, 2, 3, 2), [-1, 12]), ('(0, -1)', (1, 2, 3, 2), [0, -1]),
                        ('(1, 3, 4)', (1, 2, 3, 2), [1, 3, 4]), ('same', (1, 2, 3, 2), [1, 2, 3, 2]), ('same with -1', (1, 2, 3, 2), [1, 2, 3, -1]),
                        ('rows swapped', (1, 2, 3, 2), [1, 2, 2, 3]), ('2d to 4d', (1, 12), [1, 3, 2, 2]), ('first dimension equal', (1, 6), [1, 3, 2]),
                        ('zeros', (1, 2, 3, 2), [0, 0, 0, 0])):
        A(one('Reshape ' + lab, sh, 'Reshape', True, [('s', (len(to),), to)]))
    m = M('Reshape to output', (1, 2, 3))
    m.op('Relu')
    m.op('Reshape', [m.cur, m.w('s', 2, vals=[1, 6], ints=True)])
    A(m.done())
    m = M('Reshape without effect to output', (1, 6))
    m.op('Relu')
    m.op('Reshape', [m.cur, m.w('s', 2, vals=[1, 6], ints=True)])
    A(m.done())
    m = M('Dropout', (1, 6))
    m.op('Relu')
    m.op('Dropout', ratio=0.5)
    m.op('Clip', min=-1.0, max=1.0)
    A(m.done())
    return L


def bad():
    """attributes and operators the importer does not (all) support"""
    L = []

    def A(*a, **k):
        L.append(one(*a, must=False, grp='bad', **k))
    W2, B = ('w', (2, 1, 3, 3)), ('b', (2,))
    for ap in (b'SAME_UPPER', b'SAME_LOWER', b'VALID', b'NOTSET'):
        A('Conv auto_pad %s' % ap.decode(), (1, 1, 5, 5), 'Conv', ins=[W2, B], kernel_shape=[3, 3], strides=[2, 2], auto_pad=ap)
        A('Conv 1d auto_pad %s' % ap.decode(), (1, 1, 6), 'Conv', ins=[('w', (2, 1, 3)), B], kernel_shape=[3], strides=[1], auto_pad=ap)
        A('MaxPool auto_pad %s' % ap.decode(), (1, 1, 5, 5), 'MaxPool', kernel_shape=[3, 3], strides=[2, 2], auto_pad=ap)
        A('MaxPool 1d auto_pad %s' % ap.decode(), (1, 1, 6), 'MaxPool', kernel_shape=[3], strides=[2], auto_pad=ap)
        A('AveragePool auto_pad %s' % ap.decode(), (1, 1, 5, 5), 'AveragePool', kernel_shape=[2, 2], strides=[1, 1], auto_pad=ap)
        A('AveragePool 1d auto_pad %s' % ap.decode(), (1, 1, 6), 'AveragePool', kernel_shape=[3], strides=[2], auto_pad=ap)
    A('Conv dilations', (1, 1, 5, 5), 'Conv', ins=[W2, B], kernel_shape=[3, 3], strides=[1, 1], dilations=[2, 2])
    A('Conv dilations in one direction', (1, 1, 5, 5), 'Conv', ins=[W2, B], kernel_shape=[3, 3], strides=[1, 1], dilations=[1, 2])
    A('Conv 1d dilations', (1, 1, 7), 'Conv', ins=[('w', (2, 1, 3)), B], kernel_shape=[3], strides=[1], dilations=[2])
    A('Conv even kernel', (1, 1, 5, 5), 'Conv', ins=[('w', (2, 1, 2, 2)), B], kernel_shape=[2, 2], strides=[1, 1])
    A('Conv even kernel height', (1, 1, 5, 5), 'Conv', ins=[('w', (2, 1, 2, 3)), B], kernel_shape=[2, 3], strides=[1, 1])
    A('Conv even kernel width', (1, 1, 5, 5), 'Conv', ins=[('w', (2, 1, 3, 2)), B], kernel_shape=[3, 2], strides=[1, 1])
    A('Conv 1d even kernel', (1, 1, 5), 'Conv', ins=[('w', (2, 1, 2)), B], kernel_shape=[2], strides=[1])
    A('Conv without kernel_shape', (1, 1, 5, 5), 'Conv', ins=[W2, B], strides=[1, 1])
    A('Conv without strides', (1, 1, 5, 5), 'Conv', ins=[W2, B], kernel_shape=[3, 3])
    A('Conv without attributes', (1, 1, 5, 5), 'Conv', ins=[W2, B])
    A('Conv 1d without strides', (1, 1, 5), 'Conv', ins=[('w', (2, 1, 3)), B], kernel_shape=[3])
    for op in ('MaxPool', 'AveragePool'):
        A(op + ' without strides', (1, 1, 5, 5), op, kernel_shape=[2, 2])
        A(op + ' 1d without strides', (1, 1, 5), op, kernel_shape=[2])
        A(op + ' ceil_mode', (1, 1, 6, 6), op, kernel_shape=[3, 3], strides=[2, 2], ceil_mode=1)
        A(op + ' 1d ceil_mode', (1, 1, 6), op, kernel_shape=[3], strides=[2], ceil_mode=1)
        A(op + ' kernel (3, 1)', (1, 1, 5, 4), op, kernel_shape=[3, 1], strides=[1, 1])
        A(op + ' kernel (3, 1) padded', (1, 1, 5, 4), op, kernel_shape=[3, 1], strides=[1, 1], pads=[1, 0, 1, 0])
        A(op + ' three dimensions', (1, 1, 3, 3, 3), op, kernel_shape=[2, 2, 2], strides=[1, 1, 1])
        for at, v in (('ceil_mode', 1), ('dilations', [2, 2]), ('auto_pad', b'SAME_UPPER'), ('auto_pad', b'SAME_LOWER')):
            if op == 'AveragePool' and at == 'dilations':
                continue
            for sh in ((1, 2, 6, 6), (1, 2, 6)):
                n = len(sh) - 2
                m = M('%s %s %s of %d dimensions before a global pooling' % (op, at, v, n), sh, False, group='bad')
                m.op('Relu')
                m.op(op, kernel_shape=[3] * n, strides=[2] * n, **{at: v[:n] if at == 'dilations' else v})
                m.op('GlobalAveragePool')
                L.append(fin(m))
    A('MaxPool dilations', (1, 1, 6, 6), 'MaxPool', kernel_shape=[2, 2], strides=[1, 1], dilations=[2, 2])
    A('MaxPool dilations in one direction', (1, 1, 6, 6), 'MaxPool', kernel_shape=[2, 2], strides=[1, 1], dilations=[1, 2])
    A('MaxPool 1d dilations', (1, 1, 6), 'MaxPool', kernel_shape=[2], strides=[1], dilations=[2])
    A('MaxPool storage order', (1, 1, 4, 4), 'MaxPool', kernel_shape=[2, 2], strides=[2, 2], storage_order=1)
    GW, GB = ('w', (3, 5)), ('b', (3,))
    A('Gemm alpha', (1, 5), 'Gemm', ins=[GW, GB], transB=1, alpha=0.5)
    A('Gemm beta', (1, 5), 'Gemm', ins=[GW, GB], transB=1, beta=2.0)
    A('Gemm beta of zero', (1, 5), 'Gemm', ins=[GW, GB], transB=1, beta=0.0)
    A('Gemm transA', (1, 1), 'Gemm', ins=[('w', (3, 1)), GB], transB=1, transA=1)
    A('Gemm not transposed', (1, 5), 'Gemm', ins=[('w', (5, 3)), GB])
    A('Gemm not transposed, square', (1, 4), 'Gemm', ins=[('w', (4, 4)), ('b', (4,))])
    A('Gemm transB of zero, square', (1, 4), 'Gemm', ins=[('w', (4, 4)), ('b', (4,))], transB=0)
    A('Gemm scalar bias', (1, 5), 'Gemm', ins=[GW, ('b', (1,))], transB=1)
    A('Gemm row bias', (1, 5), 'Gemm', ins=[GW, ('b', (1, 3))], transB=1)
    A('Softmax axis 0', (1, 4), 'Softmax', axis=0)
    A('Softmax axis -1', (1, 4), 'Softmax', axis=-1)
    A('Softmax axis 2', (1, 2, 3), 'Softmax', axis=2)
    A('Softmax axis -1 of three dimensions', (1, 2, 3), 'Softmax', axis=-1)
    A('Softmax axis 3', (1, 2, 2, 3), 'Softmax', axis=3)
    A('LRN bias', (1, 4, 2, 2), 'LRN', size=3, alpha=0.5, beta=0.75, bias=2.0)
    A('LRN even size', (1, 5, 2, 2), 'LRN', size=4, alpha=0.5, beta=0.75, bias=1.0)
    A('LRN defaults', (1, 5, 2, 2), 'LRN', size=3)
    A('LRN one channel', (1, 1, 2, 2), 'LRN', size=3, alpha=0.5, beta=0.75, bias=1.0)
    for ax in (0, 2, 3, -1):
        m = M('Concat axis %d' % ax, (1, 2, 2, 2), False, group='bad')
        a = m.op('Relu')
        m.op('Concat', ['input', a], axis=ax)
        m.op('Relu')
        L.append(fin(m))
    m = M('Concat axis 0 of two dimensions', (1, 3), False, group='bad')
    a = m.op('Relu')
    m.op('Concat', ['input', a], axis=0)
    L.append(fin(m))
    m = M('Concat axis -1 of two dimensions', (1, 3), False, group='bad')
    a = m.op('Relu')
    m.op('Concat', ['input', a], axis=-1)
    L.append(fin(m))
    m = M('Concat with a parameter', (1, 2, 2, 2), False, group='bad')
    m.op('Concat', ['input', m.w('c', 1, 1, 2, 2)], axis=1)
    L.append(fin(m))
    for md in (b'reflect', b'edge'):
        A('Pad ' + md.decode(), (1, 1, 3, 3), 'Pad', pads=[0, 0, 1, 1, 0, 0, 1, 1], mode=md, value=0.0)
    A('Pad channels', (1, 1, 3, 3), 'Pad', pads=[0, 1, 0, 0, 0, 1, 0, 0], mode=b'constant', value=0.0)
    A('Pad channels at the end', (1, 1, 3, 3), 'Pad', pads=[0, 0, 0, 0, 0, 1, 0, 0], mode=b'constant', value=0.0)
    A('Pad channels of three dimensions', (1, 1, 3), 'Pad', pads=[0, 1, 0, 0, 0, 0], mode=b'constant', value=0.0)
    A('Pad channels of three dimensions at the end', (1, 1, 3), 'Pad', pads=[0, 0, 0, 0, 1, 0], mode=b'constant', value=0.0)
    A('Pad negative', (1, 1, 3, 3), 'Pad', pads=[0, 0, -1, 0, 0, 0, 0, 0], mode=b'constant', value=0.0)
    A('Pad negative at the end', (1, 1, 3, 3), 'Pad', pads=[0, 0, 1, 0, 0, 0, 0, -1], mode=b'constant', value=0.0)
    A('Pad negative of three dimensions', (1, 1, 4), 'Pad', pads=[0, 0, 1, 0, 0, -1], mode=b'constant', value=0.0)
    A('Pad without mode', (1, 1, 3, 3), 'Pad', pads=[0, 0, 1, 0, 0, 0, 0, 0])
    A('Pad rows of two dimensions', (1, 3), 'Pad', pads=[0, 1, 0, 1], mode=b'constant', value=1.0)
    for p in ((1, 0, 2, 3), (0, 3, 2, 1), (3, 2, 1, 0), (2, 3, 0, 1), (0, 2, 1, 3)):
        A('Transpose %s' % (p,), (1, 2, 3, 4), 'Transpose', perm=list(p))
    A('Transpose (1, 0)', (1, 4), 'Transpose', perm=[1, 0])
    A('Transpose three dimensions', (1, 2, 3), 'Transpose', perm=[0, 2, 1])
    A('Transpose default', (1, 2, 3, 4), 'Transpose')
    A('Clip without max', (1, 4), 'Clip', min=0.0)
    A('Clip without min', (1, 4), 'Clip', max=1.0)
    A('Clip without bounds', (1, 4), 'Clip')
    A('BatchNormalization default epsilon', (1, 3, 2, 2), 'BatchNormalization', ins=[('g', (3,)), ('be', (3,)), ('mu', (3,)), ('va', (3,))])
    A('BatchNormalization two dimensions', (1, 3), 'BatchNormalization', ins=[('g', (3,)), ('be', (3,)), ('mu', (3,)), ('va', (3,))], epsilon=1e-3)
    A('Mul by a vector', (1, 3), 'Mul', ins=[('f', (3,))])
    A('Mul by a row', (1, 3), 'Mul', ins=[('f', (1, 3))])
    A('Mul by channels', (1, 3, 2, 2), 'Mul', ins=[('f', (3, 1, 1))])
    A('Mul by 1x1', (1, 3), 'Mul', ins=[('f', (1, 1))])
    m = M('Mul with the factor first', (1, 3), False, group='bad')
    m.op('Mul', [m.w('f', 1), 'input'])
    L.append(fin(m))
    m = M('Mul of two tensors', (1, 3), False, group='bad')
    a = m.op('Relu')
    m.op('Mul', ['input', a])
    L.append(fin(m))
    A('Add a row', (1, 3), 'Add', ins=[('c', (1, 3))])
    A('Add a scalar', (1, 3), 'Add', ins=[('c', (1,))])
    A('Add a 1x1', (1, 3), 'Add', ins=[('c', (1, 1))])
    A('Add a scalar of no dimensions', (1, 3), 'Add', ins=[('c', ())])
    A('Add channels', (1, 3, 2, 2), 'Add', ins=[('c', (3, 1, 1))])
    A('Add a tensor', (1, 3, 2, 2), 'Add', ins=[('c', (1, 3, 2, 2))])
    A('Add a vector to three dimensions', (1, 2, 3), 'Add', ins=[('c', (3,))])
    m = M('Add broadcast between activations', (1, 2, 2, 2), False, group='bad')
    a = m.op('GlobalAveragePool')
    m.op('Add', ['input', a])
    L.append(fin(m))
    m = M('Add broadcast between rows', (1, 3), False, group='bad')
    a = m.op('Gemm', ['input', m.w('w', 1, 3), m.w('b', 1)], transB=1)
    m.op('Add', ['input', a])
    L.append(fin(m))
    m = M('Add widens the first', (1, 3), False, group='bad')
    a = m.op('Gemm', ['input', m.w('w', 1, 3), m.w('b', 1)], transB=1)
    m.op('Add', [a, 'input'])
    L.append(fin(m))
    m = M('Add a tensor to itself', (1, 3), False, group='bad')
    m.op('Add', ['input', 'input'])
    L.append(fin(m))
    for op, a in (('Sigmoid', {}), ('Tanh', {}), ('LeakyRelu', dict(alpha=0.1)), ('Exp', {}), ('Identity', {}), ('Elu', dict(alpha=1.0)), ('Sum', {}), ('PRelu', {}),
                  ('ConvTranspose', dict(kernel_shape=[3, 3], strides=[1, 1])), ('GlobalLpPool', dict(p=2)), ('relu', {}), ('InstanceNormalization', dict(epsilon=1e-5)),
                  ('ReduceMean', dict(axes=[2, 3])), ('LogSoftmax', {}), ('Cast', dict(to=1))):
        A('unsupported ' + op, (1, 2, 3, 3), op, **a)
    for op in ('Sub', 'Div'):
        m = M('unsupported ' + op, (1, 3), False, group='bad')
        a = m.op('Relu')
        m.op(op, ['input', a])
        L.append(fin(m))
    for s in ((1, 2, 3, 3), (1, 2, 3)):
        L.append(one('output of %d dimensions' % len(s), s, 'Relu', False, grp='bad', post=False))
        L[-1].outs = [L[-1].nodes[-1][2][0]] if L[-1].nodes[-1][0] == 'Flatten' else L[-1].outs
        if L[-1].nodes[-1][0] == 'Flatten':
            L[-1].nodes.pop()
    m = M('two outputs', (1, 3), False, group='bad')
    a = m.op('Relu')
    b = m.op('Clip', ['input'], min=0.0, max=1.0)
    L.append(m.output(a, b))
    m = M('matrix times matrix', (1, 3), False, group='bad')
    m.op('MatMul', [m.w('w', 2, 1), 'input'])
    L.append(m.done())
    m = M('product of two tensors', (1, 3), False, group='bad')
    a = m.op('Gemm', ['input', m.w('w', 3, 3), m.w('b', 3)], transB=1)
    b = m.op('Gemm', ['input', m.w('w2', 9, 3), m.w('b2', 9)], transB=1)
    c = m.op('Reshape', [b, m.w('s', 2, vals=[3, 3], ints=True)])
    m.op('MatMul', [a, c])
    L.append(m.done())
    m = M('product of three dimensions', (1, 2, 3), False, group='bad')
    m.op('MatMul', ['input', m.w('w', 3, 4)])
    m.op('Flatten')
    L.append(m.done())
    m = M('product of four dimensions', (1, 2, 2, 3), False, group='bad')
    m.op('MatMul', ['input', m.w('w', 3, 4)])
    m.op('Flatten')
    L.append(m.done())
    m = M('product with the input second', (1, 3), False, group='bad')
    m.op('Relu')
    m.op('MatMul', [m.w('w', 1, 1), 'input'])
    L.append(m.done())
    m = M('computed bias', (1, 3), False, group='bad')
    m.op('Gemm', ['input', m.w('w', 3, 3), m.w('b', 3)], 'g', transB=1)
    m.op('Reshape', ['g', m.w('s', 1, vals=[3], ints=True)], 'r')
    m.op('Gemm', ['input', m.w('w2', 3, 3), 'r'], transB=1)
    L.append(m.done())
    m = M('computed kernel', (1, 1, 3, 3), False, group='bad')
    m.op('Relu', 'input', 'k')
    m.op('Conv', ['input', 'k', m.w('b', 1)], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    m.op('Flatten')
    L.append(m.done())
    m = M('kernel is the input', (1, 1, 3, 3), False, group='bad')
    m.op('Relu')
    m.op('Conv', [m.cur, 'input', m.w('b', 1)], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    m.op('Flatten')
    L.append(m.done())
    m = M('activation of a parameter', (1, 3), False, group='bad')
    m.op('Relu', [m.w('c', 3)], 'r')
    m.op('Add', ['input', 'r'])
    L.append(m.done())
    m = M('activation of a matrix', (1, 3), False, group='bad')
    m.op('Relu', [m.w('c', 1, 3)], 'r')
    m.op('Add', ['input', 'r'])
    L.append(m.done())
    m = M('three operands in an Add', (1, 3), False, group='bad')
    a = m.op('Relu')
    b = m.op('Clip', ['input'], min=0.0, max=1.0)
    m.op('Max', ['input', a, b])
    L.append(m.done())
    m = M('the output is the input', (1, 3), False, group='bad')
    L.append(m.output('input'))
    m = M('the output is also used', (1, 3), False, group='bad')
    m.op('Relu', out='o')
    m.op('Clip', ['o'], 'p', min=0.0, max=1.0)
    L.append(m.output('o'))
    m = M('the output is an inner tensor that another layer reads', (1, 3), False, group='bad')
    m.op('Gemm', ['input', m.w('w', 3, 3), m.w('b', 3)], 'o', transB=1)
    m.op('Relu', ['o'], 'p')
    L.append(m.output('o'))
    m = M('two inputs', (1, 3), False, group='bad')
    m.inputs.append(('second', (1, 3)))
    m.vals['second'] = m.vals['input']
    m.op('Add', ['input', 'second'])
    m.ok = False
    m.beyond = 'a second input'
    L.append(m.done())
    m = M('input of five dimensions', (1, 1, 2, 2, 2), False, group='bad')
    m.op('Relu')
    m.op('Flatten')
    L.append(m.done())
    m = M('Flatten axis 0', (2, 3), False, group='bad')
    m.inputs[0] = ('input', (1, 6))
    m.vals['input'].shape = (1, 6)
    m.op('Flatten', axis=0)
    L.append(m.done())
    m = M('Flatten axis 2', (1, 2, 3, 2), False, group='bad')
    m.op('Flatten', axis=2)
    L.append(m.done())
    m = M('parameter of two dimensions first in a Gemm', (1, 3), False, group='bad')
    m.op('Gemm', [m.w('w', 1, 3), 'input'], transB=1)
    L.append(m.done())
    return L


def nets():
    """networks of several layers"""
    L = []
    A = L.append
    m = M('convolutional network', (1, 1, 8, 8), group='net', name='lenet')
    m.op('Conv', ['input', m.w('c1.w', 2, 1, 3, 3), m.w('c1.b', 2)], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    m.op('Relu')
    m.op('MaxPool', kernel_shape=[2, 2], strides=[2, 2])
    m.op('Conv', [m.cur, m.w('c2.w', 3, 2, 3, 3), m.w('c2.b', 3)], kernel_shape=[3, 3], strides=[1, 1], pads=[0, 0, 0, 0])
    m.op('Relu')
    m.op('Reshape', [m.cur, m.w('shape', 2, vals=[1, -1], ints=True)])
    m.op('Gemm', [m.cur, m.w('f1.w', 5, 12), m.w('f1.b', 5)], transB=1)
    m.op('Relu')
    m.op('Gemm', [m.cur, m.w('f2.w', 3, 5), m.w('f2.b', 3)], transB=1)
    m.op('Softmax', axis=1)
    A(m.done())
    m = M('residual network', (1, 2, 4, 4), group='net')
    a = m.op('Conv', ['input', m.w('w1', 2, 2, 3, 3)], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    a = m.op('BatchNormalization', [a, m.w('g1', 2), m.w('be1', 2), m.w('mu1', 2), m.w('va1', 2)], epsilon=1e-5)
    a = m.op('Relu')
    b = m.op('Conv', [a, m.w('w2', 2, 2, 3, 3), m.w('b2', 2)], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    b = m.op('BatchNormalization', [b, m.w('g2', 2), m.w('be2', 2), m.w('mu2', 2), m.w('va2', 2)], epsilon=1e-5)
    c = m.op('Add', [b, a])
    m.op('Relu')
    m.op('GlobalAveragePool')
    m.op('Flatten')
    m.op('Gemm', [m.cur, m.w('fw', 3, 2), m.w('fb', 3)], transB=1)
    A(m.done())
    m = M('inception block', (1, 2, 4, 4), group='net')
    b1 = m.op('Conv', ['input', m.w('w1', 1, 2, 1, 1), m.w('b1', 1)], kernel_shape=[1, 1], strides=[1, 1])
    b2 = m.op('Conv', ['input', m.w('w2', 2, 2, 3, 3), m.w('b2', 2)], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    b3 = m.op('MaxPool', ['input'], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    m.op('Concat', [b1, b2, b3], axis=1)
    m.op('AveragePool', kernel_shape=[2, 2], strides=[2, 2])
    m.op('LRN', size=3, alpha=0.1, beta=0.75, bias=1.0)
    m.op('GlobalMaxPool')
    m.op('Squeeze', axes=[2, 3])
    m.op('Softmax')
    A(m.done())
    m = M('time series network', (1, 2, 9), group='net')
    m.op('Conv', ['input', m.w('w1', 3, 2, 3), m.w('b1', 3)], kernel_shape=[3], strides=[1], pads=[1, 1])
    m.op('BatchNormalization', [m.cur, m.w('g', 3), m.w('be', 3), m.w('mu', 3), m.w('va', 3)], epsilon=1e-5)
    m.op('Clip', min=0.0, max=6.0)
    m.op('MaxPool', kernel_shape=[3], strides=[2])
    m.op('Conv', [m.cur, m.w('w2', 3, 1, 3)], kernel_shape=[3], strides=[1], group=3)
    m.op('AveragePool', kernel_shape=[2], strides=[1])
    m.op('Flatten')
    m.op('MatMul', [m.cur, m.w('wm', 3, 2)])
    m.op('Add', [m.cur, m.w('bm', 2)])
    m.op('Softmax')
    A(m.done())
    m = M('perceptron', (1, 4), group='net')
    for i, (a, b) in enumerate(((5, 4), (3, 5), (2, 3))):
        m.op('Gemm', [m.cur, m.w('w%d' % i, a, b), m.w('b%d' % i, a)], transB=1)
        if i < 2:
            m.op('Relu')
    A(m.done())
    m = M('scaled input', (1, 1, 3, 3), group='net')
    m.op('Mul', ['input', m.w('scale', vals=[0.00390625])])
    m.op('Pad', pads=[0, 0, 1, 1, 0, 0, 1, 1], mode=b'constant', value=0.0)
    m.op('Conv', [m.cur, m.w('w', 2, 1, 3, 3)], kernel_shape=[3, 3], strides=[2, 2])
    m.op('Transpose', perm=[0, 2, 3, 1])
    m.op('Reshape', [m.cur, m.w('s', 2, vals=[1, 8], ints=True)])
    m.op('Gemm', [m.cur, m.w('fw', 2, 8), m.w('fb', 2)], transB=1)
    A(m.done())
    return L


def params():
    """parameters: order, sharing, missing biases"""
    L = []
    A = L.append
    m = M('with and without bias', (1, 2, 3, 3), group='param')
    m.op('Conv', ['input', m.w('w1', 2, 2, 1, 1)], kernel_shape=[1, 1], strides=[1, 1])
    m.op('Conv', [m.cur, m.w('w2', 2, 2, 1, 1), m.w('b2', 2)], kernel_shape=[1, 1], strides=[1, 1])
    m.op('Conv', [m.cur, m.w('w3', 2, 2, 1, 1)], kernel_shape=[1, 1], strides=[1, 1])
    m.op('Conv', [m.cur, m.w('w4', 1, 2, 3, 3), m.w('b4', 1)], kernel_shape=[3, 3], strides=[1, 1])
    A(fin(m))
    m = M('shared kernel', (1, 2, 3, 3), group='param')
    w = m.w('w', 2, 2, 1, 1)
    m.op('Conv', ['input', w, m.w('b1', 2)], kernel_shape=[1, 1], strides=[1, 1])
    m.op('Conv', [m.cur, w, m.w('b2', 2)], kernel_shape=[1, 1], strides=[1, 1])
    m.op('Conv', [m.cur, m.w('w3', 1, 2, 1, 1), m.w('b3', 1)], kernel_shape=[1, 1], strides=[1, 1])
    A(fin(m))
    m = M('shared bias', (1, 2, 3, 3), group='param')
    b = m.w('b', 2)
    m.op('Conv', ['input', m.w('w1', 2, 2, 1, 1), b], kernel_shape=[1, 1], strides=[1, 1])
    m.op('Conv', [m.cur, m.w('w2', 2, 2, 1, 1), b], kernel_shape=[1, 1], strides=[1, 1])
    m.op('Conv', [m.cur, m.w('w3', 2, 2, 1, 1), m.w('b3', 2)], kernel_shape=[1, 1], strides=[1, 1])
    A(fin(m))
    m = M('shared kernel and bias', (1, 3), group='param')
    w, b = m.w('w', 3, 3), m.w('b', 3)
    m.op('Gemm', ['input', w, b], transB=1)
    m.op('Relu')
    m.op('Gemm', [m.cur, w, b], transB=1)
    m.op('Gemm', [m.cur, m.w('v', 2, 3), m.w('c', 2)], transB=1)
    A(fin(m))
    m = M('shared one-dimensional kernel', (1, 2, 5), group='param')
    w = m.w('w', 2, 2, 3)
    m.op('Conv', ['input', w, m.w('b1', 2)], kernel_shape=[3], strides=[1], pads=[1, 1])
    m.op('Conv', [m.cur, w], kernel_shape=[3], strides=[1])
    A(fin(m))
    m = M('shared matrix', (1, 3), group='param')
    w = m.w('w', 3, 3)
    m.op('MatMul', ['input', w])
    m.op('MatMul', [m.cur, w])
    m.op('MatMul', [m.cur, m.w('v', 3, 2)])
    A(fin(m))
    m = M('batch normalisation parameters shared', (1, 2, 2, 2), group='param')
    mu = m.w('mu', 2)
    m.op('BatchNormalization', ['input', m.w('g1', 2), m.w('be1', 2), mu, m.w('va1', 2)], epsilon=1e-3)
    m.op('BatchNormalization', [m.cur, m.w('g2', 2), m.w('be2', 2), mu, m.w('va2', 2)], epsilon=1e-3)
    A(fin(m))
    m = M('batch normalisation with one vector twice', (1, 2, 2, 2), group='param')
    v = m.w('v', 2)
    m.op('BatchNormalization', ['input', v, m.w('be1', 2), m.w('mu', 2), v], epsilon=1e-3)
    A(fin(m))
    m = M('batch normalisation with equal gamma and beta', (1, 2, 2, 2), group='param')
    v = m.w('v', 2)
    m.op('BatchNormalization', ['input', v, v, m.w('mu', 2), m.w('va', 2)], epsilon=1e-3)
    m.op('Conv', [m.cur, m.w('w', 1, 2, 1, 1), m.w('b', 1)], kernel_shape=[1, 1], strides=[1, 1])
    A(fin(m))
    m = M('initializers in another order', (1, 3), group='param')
    m.w('b2', 2), m.w('w2', 2, 3), m.w('b1', 3), m.w('w1', 3, 3)
    m.op('Gemm', ['input', 'w1', 'b1'], transB=1)
    m.op('Gemm', [m.cur, 'w2', 'b2'], transB=1)
    A(fin(m))
    m = M('an initializer nobody uses', (1, 3), group='param')
    m.w('unused', 4, 4)
    m.op('Gemm', ['input', m.w('w1', 2, 3), m.w('b1', 2)], transB=1)
    A(fin(m))
    m = M('initializers that are not inputs', (1, 3), group='param', inits_listed=False)
    m.op('Gemm', ['input', m.w('w1', 2, 3), m.w('b1', 2)], transB=1)
    m.op('Gemm', [m.cur, m.w('w2', 2, 2), m.w('b2', 2)], transB=1)
    A(fin(m))
    m = M('every kind of parameter', (1, 2, 4, 4), group='param')
    m.op('Conv', ['input', m.w('w1', 2, 2, 3, 3), m.w('b1', 2)], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    m.op('BatchNormalization', [m.cur, m.w('g', 2), m.w('be', 2), m.w('mu', 2), m.w('va', 2)], epsilon=1e-3)
    m.op('Mul', [m.cur, m.w('f', vals=[2.0])])
    m.op('Reshape', [m.cur, m.w('s', 3, vals=[1, 2, 16], ints=True)])
    m.op('Conv', [m.cur, m.w('w2', 1, 2, 3), m.w('b2', 1)], kernel_shape=[3], strides=[4])
    m.op('Flatten')
    m.op('MatMul', [m.cur, m.w('wm', 4, 3)])
    m.op('Add', [m.cur, m.w('a', 3)])
    m.op('Gemm', [m.cur, m.w('wg', 2, 3), m.w('bg', 2)], transB=1)
    A(fin(m))
    m = M('same parameter of a convolution with wide values', (1, 1, 3, 3), group='param')
    m.op('Conv', ['input', m.w('w', 1, 1, 3, 3, vals=[0.0, -0.0, 1.0, -1.5, 1e-38, 3e38, 0.1, 1e-45, 2.5]), m.w('b', 1, vals=[-7.0])], kernel_shape=[3, 3], strides=[1, 1])
    A(fin(m))
    m = M('Add of a vector first', (1, 3), group='param', must=False)
    m.op('Add', ['input', m.w('a', 3)])
    m.op('Gemm', [m.cur, m.w('w', 2, 3)], transB=1)
    A(fin(m))
    m = M('Gemm without bias before one with', (1, 3), group='param')
    m.op('Gemm', ['input', m.w('w1', 3, 3)], transB=1)
    m.op('Gemm', [m.cur, m.w('w2', 2, 3), m.w('b2', 2)], transB=1)
    A(fin(m))
    return L


def names():
    """identifiers"""
    L = []

    def net(label, name='net', iname='input', ns=('c', 'r', 'g'), ts=('x', 'y', 'z', 'out'), ws=('w', 'b', 'fw', 'fb'), must=True):
        m = M(label, (1, 2, 3, 3), must, name=name, iname=iname, group='name')
        m.op('Conv', [iname, m.w(ws[0], 2, 2, 3, 3), m.w(ws[1], 2)], ts[0], ns[0], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
        m.op('Relu', None, ts[1], ns[1])
        m.op('Flatten', None, ts[2], 'flat')
        m.op('Gemm', [m.cur, m.w(ws[2], 2, 18), m.w(ws[3], 2)], ts[3], ns[2], transB=1)
        m.done()
        L.append(m)
    net('plain names')
    net('dots', ns=('layer1.0.conv', 'layer1.0.relu', 'fc.0'), ts=('layer1.x', 'layer1.y', 'z.1', 'out.0'), ws=('conv.weight', 'conv.bias', 'fc.weight', 'fc.bias'))
    net('slashes and colons', iname='data:0', ns=('model/conv', 'model/relu:0', 'a/b/c'), ts=('t/x:0', 't/y:0', 't/z:0', 'out:0'), ws=('k/w:0', 'k/b:0', 'k/fw', 'k/fb'))
    net('numbers', iname='0', ns=('Conv_0', 'Relu_1', 'Gemm_3'), ts=('11', '12', '13', '14'), ws=('1', '2', '3', '4'))
    net('no node names', ns=('', '', ''), ts=('11', '12', '13', '14'), ws=('1', '2', '3', '4'))
    net('model name with underscore', name='my_net_v2')
    net('node names that only differ in punctuation', ns=('a.b', 'a/b', 'a:b'))
    net('node name a.b next to a_b', ns=('a.b', 'a_b', 'g'))
    net('tensor names that only differ in punctuation', ts=('x.y', 'x/y', 'x:y', 'out'))
    net('tensor name x.y next to x_y', ts=('x.y', 'x_y', 'z', 'out'))
    net('parameter names that only differ in punctuation', ws=('w.1', 'b', 'w/1', 'fb'))
    net('bias names that only differ in punctuation', ws=('w', 'b.1', 'fw', 'b_1'))
    net('parameter and tensor that only differ in punctuation', ts=('p.q', 'y', 'z', 'out'), ws=('p_q', 'b', 'fw', 'fb'))
    net('dashes in node names', ns=('conv-1', 'relu-1', 'fc-1'))
    net('dashes in tensor names', ts=('x-1', 'y-1', 'z-1', 'out-1'))
    net('dashes in parameter names', ws=('w-1', 'b-1', 'fw-1', 'fb-1'))
    net('dash in the input name', iname='in-put')
    net('spaces', ns=('conv 1', 'relu 1', 'fc 1'), ts=('x 1', 'y 1', 'z 1', 'out 1'))
    net('leading digits in node names', ns=('1conv', '2relu', '3fc'))
    net('quotes in node names', ns=('a"b', 'c"d', "e'f"), must=False)
    net('backslash in a node name', ns=('a\\b', 'r', 'g'), must=False)
    net('keywords', ns=('class', 'int', 'new'), ts=('class', 'float', 'delete', 'this'), ws=('static', 'for', 'if', 'else'), must=False)
    net('names of the generated class', ns=('Network', 'kernels', 'biases'), ts=('kernels', 'biases', 'run', 'net'), must=False)
    net('same name for a node and its tensor', ns=('x', 'y', 'g'), ts=('x', 'y', 'z', 'out'))
    net('non-ASCII node name', ns=('caf\u00e9', 'r', 'g'), must=False)
    net('newline in a node name', ns=('a\nb', 'r', 'g'), must=False)
    net('comment in a node name', ns=('a/*b', 'r*/', 'g//'), must=False)
    net('backslash at the end of a node name', ns=('a\\', 'r', 'g\\'), must=False)
    net('trigraph in a node name', ns=('a??/', 'r', 'g'), must=False)
    net('brackets', ns=('a[0]', 'b(1)', 'c{2}'), ts=('x[0]', 'y(1)', 'z<2>', 'o,3'), must=False)
    net('percent and braces', ns=('{{a}}', '%s', '{0}'), ts=('{x}', '{{ y }}', '%d', 'out'), must=False)
    net('equal node names', ns=('n', 'n', 'n'), must=False)
    net('input named like a buffer', iname='buffer_x', must=False)
    net('long names', ns=('c' * 120, 'r' * 120, 'g' * 120), ws=('w' * 130, 'b' * 130, 'v' * 130, 'u' * 130))
    net('names of 98, 99 and 100 characters', ns=('c' * 98, 'r' * 99, 'g' * 100))
    net('names of 99 and 101 characters', ns=('c' * 99, 'r' * 99, 'g' * 101))
    net('long model name', name='m' * 140)
    net('names of sixty characters', ns=('c' * 60, 'r' * 60, 'g' * 60), ws=('w' * 60, 'b' * 60, 'v' * 60, 'u' * 60))
    net('names that only differ in case', ns=('Aa', 'aA', 'AA'), ts=('Tt', 'tT', 'TT', 'tt'), ws=('Ww', 'wW', 'WW', 'ww'))
    net('names that only differ in the last of many characters', ns=tuple('n' * 40 + c for c in 'abc'), ts=tuple('t' * 40 + c for c in 'abcd'), ws=tuple('w' * 40 + c for c in 'abcd'))
    net('names that only differ in the first character', ns=tuple(c + 'n' * 30 for c in 'abc'), ts=tuple(c + 't' * 30 for c in 'abcd'), ws=tuple(c + 'w' * 30 for c in 'abcd'))
    net('names that differ by trailing underscores', ns=('n', 'n_', 'n__'), ts=('t_', 't', 't__', '_t'), ws=('w', 'w_', '_w', '__w'), must=False)
    net('names that differ by digits', ns=('1', '11', '111'), ts=('1', '01', '001', '10'), ws=('0', '00', '000', '0000'))
    net('one name for node, tensors and parameters', ns=('a.0', 'b.0', 'c.0'), ts=('a.0', 'b.0', 'c.0', 'd.0'), ws=('a/0', 'b/0', 'c/0', 'd/0'))
    net('no node names, punctuation', ns=('', '', ''), ts=('1.1', '1/1', '1:1', '1-1'), ws=('w.1', 'w/1', 'w:1', 'w-1'))
    net('names of locals of the generated programs', ns=('net', 'main', 'run'), ts=('input_tensor', 'output_tensor', 'net', 'i'), ws=('input', 'output', 'kernels_', 'argc'), iname='x')
    net('names of library types', ns=('Tensor', 'Convolution', 'pico_cnn'), ts=('naive', 'pico_cnn', 'std', 'uint32_t'), ws=('fp_t', 'size_t', 'NULL', 'assert'), must=False)
    net('names with a layer suffix', ns=('a', 'a_layer', 'g'), must=False)
    m = M('names of attribute arrays', (1, 1, 4, 4), False, group='name')
    m.op('Conv', ['input', m.w('w', 1, 1, 3, 3)], 'a', 'n', kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
    m.op('MaxPool', ['a'], 'b', 'n_padding', kernel_shape=[2, 2], strides=[1, 1])
    m.op('AveragePool', ['b'], 'c', 'n_stride', kernel_shape=[2, 2], strides=[1, 1])
    L.append(fin(m))
    m = M('concatenations with colliding names', (1, 2, 2, 2), False, group='name')
    a = m.op('Relu', ['input'], 'a', 'r')
    b = m.op('Concat', ['input', a], 'b', 'c.1', axis=1)
    m.op('Concat', [b, a], 'c', 'c_1', axis=1)
    L.append(fin(m))
    m = M('concatenations with other names', (1, 2, 2, 2), True, group='name')
    a = m.op('Relu', ['input'], 'a', 'r')
    b = m.op('Concat', ['input', a], 'b', 'c.1', axis=1)
    m.op('Concat', [b, a], 'c', 'c.2', axis=1)
    L.append(fin(m))
    m = M('concatenation with a dash', (1, 2, 2, 2), False, group='name')
    a = m.op('Relu', ['input'], 'a', 'r')
    b = m.op('Concat', ['input', a], 'b', 'c-1', axis=1)
    L.append(fin(m))
    return L


def folding():
    """constants, shape chains and operators without effect"""
    L = []
    A = L.append

    def flat(label, build, must=True, shape=(1, 2, 3, 2), tail=True):
        m = M(label, shape, must, group='fold')
        m.op('Relu')
        build(m)
        if tail:
            m.op('Clip', min=-2.0, max=2.0)
        A(fin(m))
    flat('shape from a Constant', lambda m: m.op('Reshape', [m.cur, m.op('Constant', [], 'c', value=m.const(2, vals=[1, 12]))] if False else [m.nodes[0][3][0], cst(m, [1, 12])]))
    flat('shape from a Constant with -1', lambda m: m.op('Reshape', ['t1', cst(m, [1, -1])]))

    def chain(m, last=-1):
        sh = m.op('Shape', ['t1'], 'sh')
        i = m.op('Constant', [], 'ix', value=m.const(vals=[0]))
        g = m.op('Gather', ['sh', 'ix'], 'g', axis=0)
        m.op('Unsqueeze', ['g'], 'gu', axes=[0])
        m.op('Constant', [], 'mi', value=m.const(1, vals=[last]))
        m.op('Concat', ['gu', 'mi'], 'ns', axis=0)
        m.op('Reshape', ['t1', 'ns'], 'flat')
    flat('shape computed from a shape', chain, False)
    flat('shape computed from a shape, last known', lambda m: chain(m, 12), False)

    def chain2(m):
        m.op('Shape', ['t1'], 'sh')
        m.op('Constant', [], 'ix', value=m.const(1, vals=[0]))
        m.op('Gather', ['sh', 'ix'], 'g', axis=0)
        m.op('Constant', [], 'mi', value=m.const(1, vals=[-1]))
        m.op('Concat', ['g', 'mi'], 'ns', axis=0)
        m.op('Reshape', ['t1', 'ns'], 'flat')
    flat('shape computed from a shape, one-element index', chain2, False)

    def chain_many(m, ax, front):
        m.op('Shape', ['t1'], 'sh')
        m.op('Constant', [], 'ix', value=m.const(len(front), vals=list(range(len(front)))))
        m.op('Gather', ['sh', 'ix'], 'g', axis=0)
        m.op('Constant', [], 'mi', value=m.const(4 - len(front), vals=[2, 3, 2][len(front) - 1:]))
        m.op('Concat', ['g', 'mi'], 'ns', axis=ax)
        m.op('Reshape', ['t1', 'ns'], 'same')
    flat('shape joined from several numbers', lambda m: chain_many(m, 0, [1]), False)
    flat('shape joined from two and two numbers', lambda m: chain_many(m, 0, [1, 2]), False)
    flat('shape joined from several numbers, negative axis', lambda m: chain_many(m, -1, [1, 2]), False)

    def chain3(m):
        m.op('Shape', ['t1'], 'sh')
        m.op('Reshape', ['t1', 'sh'], 'same')
    flat('reshape to its own shape', chain3, False)

    def chain4(m):
        m.op('Shape', ['input'], 'sh')
        m.op('Conv', ['t1', m.w('w', 2, 2, 1, 1), m.w('b', 2)], 'cv', 'cv', kernel_shape=[1, 1], strides=[1, 1])
        m.op('Reshape', ['cv', 'sh'], 'same')
    flat('reshape to the shape of another tensor', chain4, False)
    flat('reshape without effect', lambda m: m.op('Reshape', ['t1', m.w('s', 4, vals=[1, 2, 3, 2], ints=True)]))
    flat('reshape that only moves a dimension', lambda m: m.op('Reshape', ['t1', m.w('s', 4, vals=[1, 3, 2, 2], ints=True)]))
    flat('reshape with the last dimension changed', lambda m: m.op('Reshape', ['t1', m.w('s', 4, vals=[1, 2, 6, 1], ints=True)]))
    flat('reshape that adds a dimension', lambda m: m.op('Reshape', ['t1', m.w('s', 4, vals=[1, 2, 3, 1], ints=True)]), shape=(1, 2, 3))
    flat('reshape that drops a dimension', lambda m: m.op('Reshape', ['t1', m.w('s', 3, vals=[1, 2, 3], ints=True)]), shape=(1, 2, 3, 1))
    flat('reshape with -1 that has no effect', lambda m: m.op('Reshape', ['t1', m.w('s', 4, vals=[1, -1, 3, 2], ints=True)]))
    flat('two reshapes that undo each other', lambda m: (m.op('Reshape', ['t1', m.w('s', 2, vals=[1, 12], ints=True)], 'f'), m.op('Reshape', ['f', m.w('s2', 4, vals=[1, 2, 3, 2], ints=True)], 'g2')))
    flat('two reshapes with one shape tensor', lambda m: (m.op('Reshape', ['t1', m.w('s', 2, vals=[1, 12], ints=True)], 'f'), m.op('Clip', ['f'], 'g', min=0.0, max=1.0), m.op('Reshape', ['g', 's'], 'h')))

    def used_twice(m):
        r = m.op('Reshape', ['t1', m.w('s', 4, vals=[1, 2, 3, 2], ints=True)], 'r')
        a = m.op('Clip', ['r'], 'a', min=-1.0, max=1.0)
        m.op('Add', ['r', 'a'], 'sum')
    flat('reshape without effect used twice', used_twice)

    def usq(m):
        m.op('Unsqueeze', ['t1'], 'u', axes=[0])
        m.op('Squeeze', ['u'], 'q', axes=[0])
    flat('unsqueeze and squeeze', usq, False, (1, 2, 3))
    flat('unsqueeze to output', lambda m: (m.op('Unsqueeze', ['t1'], 'u', axes=[0]), m.op('Reshape', ['u', m.w('s', 2, vals=[1, 6], ints=True)])), False, (1, 2, 3))
    m = M('unsqueeze is the output', (1, 3), False, group='fold')
    m.op('Relu')
    m.op('Reshape', [m.cur, m.w('s', 1, vals=[3], ints=True)], 'v')
    m.op('Unsqueeze', ['v'], 'u', axes=[0])
    A(m.done())
    m = M('unsqueeze of a parameter', (1, 3), False, group='fold')
    m.op('Unsqueeze', [m.w('b', 3)], 'bu', axes=[0])
    m.op('Add', ['input', 'bu'], 'o')
    A(m.done())
    m = M('computed constant as a parameter', (1, 3), False, group='fold')
    m.op('Constant', [], 'c', value=m.const(1, 3, vals=[0.5, -1.0, 2.0], ints=False))
    m.op('Add', ['input', 'c'], 'o')
    A(m.done())
    m = M('computed constant as a factor', (1, 3), False, group='fold')
    m.op('Constant', [], 'c', value=m.const(vals=[0.5], ints=False))
    m.op('Mul', ['input', 'c'], 'o')
    A(m.done())
    def picked(label, shape, vals, ax, ix, rank, want):
        m = M('computed constant: ' + label, (1, want), False, group='fold')
        m.op('Constant', [], 'c', value=m.const(*shape, vals=vals, ints=False))
        m.op('Constant', [], 'ix', value=m.const(*([len(ix)] if rank else []), vals=ix))
        m.op('Gather', ['c', 'ix'], 'g', axis=ax)
        if rank:
            m.op('Squeeze', ['g'], 's', axes=[ax])
        m.op('Add', ['input', 's' if rank else 'g'], 'o')
        A(m.done())
    six = [0.5, -1.0, 2.0, 3.5, -4.0, 8.0]
    def element(label, shape, vals, picks):
        m = M('computed constant as a factor: ' + label, (1, 3), True, group='fold')
        m.op('Constant', [], 'g0', value=m.const(*shape, vals=vals, ints=False))
        for k, (ax, ix) in enumerate(picks):
            m.op('Constant', [], 'ix%d' % k, value=m.const(*([1] if type(ix) is list else []), vals=ix if type(ix) is list else [ix]))
            m.op('Gather', ['g%d' % k, 'ix%d' % k], 'g%d' % (k + 1), axis=ax)
        m.op('Mul', ['input', 'g%d' % len(picks)], 'o')
        A(m.done())
    nums = [0.5, -1.0, 2.0, 3.5, -4.0, 8.0]
    element('element of a list', (3,), nums[:3], [(0, [1])])
    element('column, then row', (2, 3), nums, [(1, [2]), (0, [1])])
    element('row, then column', (2, 3), nums, [(0, [1]), (1, [2])])
    element('column, then row, scalar indices', (2, 3), nums, [(1, 1), (0, [1])])
    element('last element', (2, 3), nums, [(0, [-1]), (-1, [-1])])
    picked('row of a matrix', (2, 3), six, 0, [1], 0, 3)
    picked('column of a matrix', (2, 3), six, 1, [1], 0, 2)
    picked('column of a matrix, list of indices', (2, 3), six, 1, [2], 1, 2)
    picked('row of a matrix, list of indices', (3, 2), six, 0, [1], 1, 2)
    m = M('computed constant: joined', (1, 3), False, group='fold')
    m.op('Constant', [], 'c1', value=m.const(1, vals=[0.5], ints=False))
    m.op('Constant', [], 'c2', value=m.const(2, vals=[-1.0, 4.0], ints=False))
    m.op('Concat', ['c1', 'c2'], 'c', axis=0)
    m.op('Add', ['input', 'c'], 'o')
    A(m.done())
    m = M('computed constant: joined columns', (1, 2), False, group='fold')
    m.op('Constant', [], 'c1', value=m.const(2, 1, vals=[0.5, 3.0], ints=False))
    m.op('Constant', [], 'c2', value=m.const(2, 2, vals=[-1.0, 4.0, 7.0, 9.0], ints=False))
    m.op('Concat', ['c1', 'c2'], 'c', axis=1)
    m.op('Constant', [], 'ix', value=m.const(vals=[1]))
    m.op('Gather', ['c', 'ix'], 'g', axis=1)
    m.op('Add', ['input', 'g'], 'o')
    A(m.done())
    m = M('computed constant: cast and squeezed twice', (1, 2), False, group='fold')
    m.op('Constant', [], 'c', value=m.const(1, 2, 1, vals=[0.5, 3.0], ints=False))
    m.op('Squeeze', ['c'], 's', axes=[0, 2])
    m.op('Add', ['input', 's'], 'o')
    A(m.done())
    m = M('dropout at the end', (1, 3), True, group='fold')
    m.op('Relu')
    m.op('Dropout', ratio=0.25)
    A(m.done())
    m = M('dropout with a mask', (1, 3), False, group='fold')
    m.op('Relu')
    m.op('Dropout', None, ['d', 'mask'], ratio=0.25)
    m.op('Clip', ['d'], min=-1.0, max=1.0)
    A(m.done())
    m = M('two dropouts in a row', (1, 3), True, group='fold')
    m.op('Relu')
    m.op('Dropout', ratio=0.25)
    m.op('Dropout', ratio=0.75)
    m.op('Gemm', [m.cur, m.w('w', 2, 3), m.w('b', 2)], transB=1)
    A(m.done())
    m = M('a branch nobody uses', (1, 3), False, group='fold')
    a = m.op('Relu')
    m.op('Gemm', [a, m.w('w', 2, 3), m.w('b', 2)], transB=1)
    m.op('Clip', [a], 'o', min=-1.0, max=1.0)
    A(m.output('o'))
    S4 = [1, 2, 3, 2]

    def nop(m, x, out, sh=S4):
        return m.op('Reshape', [x, m.w('s' + out, len(sh), vals=sh, ints=True)], out)
    flat('sum of a tensor and its reshape without effect', lambda m: m.op('Add', ['t1', nop(m, 't1', 'r')]))
    flat('sum of a reshape without effect and its tensor', lambda m: m.op('Add', [nop(m, 't1', 'r'), 't1']))
    flat('sum of a reshape without effect with itself', lambda m: m.op('Add', [nop(m, 't1', 'r')] * 2), False)
    flat('concatenation of a reshape without effect, twice', lambda m: m.op('Concat', [nop(m, 't1', 'r'), 't1', 'r'], axis=1), False)
    flat('two reshapes without effect in a row', lambda m: nop(m, nop(m, 't1', 'r'), 'q'))
    flat('three reshapes without effect in a row, the middle one used', lambda m: m.op('Add', [nop(m, nop(m, nop(m, 't1', 'r'), 'q'), 'p'), 'q']), False)
    flat('two reshapes without effect of one tensor', lambda m: m.op('Add', [nop(m, 't1', 'r'), nop(m, 't1', 'q')]), False)
    flat('reshape without effect of the input', lambda m: m.op('Add', [nop(m, 'input', 'r'), 't1']))
    flat('reshape without effect of the input alone', lambda m: m.op('Clip', [nop(m, 'input', 'r')], min=-1.0, max=1.0))

    def last(n):
        def f(m):
            a = m.op('Reshape', ['t1', m.w('fs', 2, vals=[1, 12], ints=True)], 'fl')
            m.op('Gemm', [a, m.w('w', 2, 12), m.w('b', 2)], 'g', transB=1)
            for k in range(n):
                m.op('Reshape', [m.cur, m.w('ns%d' % k, 2, vals=[1, 2], ints=True)], 'n%d' % k)
        return f
    for n in (1, 2, 3):
        flat('%d reshapes without effect at the end' % n, last(n), tail=False)

    def drop_nop(m):
        last(1)(m)
        m.op('Dropout', ratio=0.5)
    flat('reshape without effect and dropout at the end', drop_nop, tail=False)

    def nop_drop(m):
        a = m.op('Reshape', ['t1', m.w('fs', 2, vals=[1, 12], ints=True)], 'fl')
        m.op('Dropout', [a], 'd', ratio=0.5)
        m.op('Reshape', ['d', m.w('ns', 2, vals=[1, 12], ints=True)], 'n')
        m.op('Add', ['n', 'fl'], 'sum')
    flat('dropout and reshape without effect joined with what they copy', nop_drop)
    flat('reshape without effect of three dimensions', lambda m: nop(m, 't1', 'r', [1, 2, 3]), shape=(1, 2, 3))
    flat('reshape without effect of two dimensions', lambda m: nop(m, 't1', 'r', [1, 6]), shape=(1, 6))
    flat('reshape that keeps all but the last dimensions', lambda m: nop(m, 't1', 'r', [1, 4, 3, 1]))
    flat('reshape that keeps the outer dimensions only', lambda m: nop(m, 't1', 'r', [1, 3, 2, 2]), shape=(1, 2, 3, 2))
    flat('reshape with zeros and no effect', lambda m: nop(m, 't1', 'r', [0, 2, 0, 2]))
    flat('reshape by zero and -1 without effect', lambda m: nop(m, 't1', 'r', [0, 0, 0, -1]))

    def dead(label, build, outs='o', must=False):
        m = M(label, (1, 2, 3, 2), must, group='fold')
        m.op('Relu', out='r')
        build(m)
        A(m.output(outs))
    dead('the shape of the output is taken and not used', lambda m: (m.op('Flatten', ['r'], 'o'), m.op('Shape', ['o'], 'sh')), must=True)
    dead('the shape of the output goes through an unused chain', lambda m: (
        m.op('Flatten', ['r'], 'o'), m.op('Shape', ['o'], 'sh'), m.op('Constant', [], 'ix', value=m.const(vals=[1])), m.op('Gather', ['sh', 'ix'], 'g', axis=0)), must=True)
    dead('the shape of an inner tensor is taken and not used', lambda m: (m.op('Shape', ['r'], 'sh'), m.op('Flatten', ['r'], 'o')), must=True)
    dead('the shape of an inner tensor nobody else uses', lambda m: (m.op('Clip', ['r'], 'c', min=0.0, max=1.0), m.op('Shape', ['c'], 'sh'), m.op('Flatten', ['r'], 'o')), must=True)
    dead('the shape of the input', lambda m: (m.op('Shape', ['input'], 'sh'), m.op('Flatten', ['r'], 'o')), must=True)
    dead('a constant nobody uses', lambda m: (m.op('Constant', [], 'c', value=m.const(2, vals=[1, 2])), m.op('Flatten', ['r'], 'o')), must=True)
    dead('the shape of the output shapes another tensor', lambda m: (
        m.op('Flatten', ['r'], 'o'), m.op('Shape', ['o'], 'sh'), m.op('Reshape', ['r', 'sh'], 'q')), must=True)
    dead('a chain of operators nobody uses', lambda m: (m.op('Flatten', ['r'], 'o'), m.op('MaxPool', ['r'], 'p', kernel_shape=[2, 2], strides=[1, 1]), m.op('Relu', ['p'], 'q')), must=True)
    dead('the shape of the product shapes the output', lambda m: (
        m.op('Flatten', ['r'], 'f'), m.op('Gemm', ['f', m.w('w', 12, 12)], 'g', transB=1), m.op('Shape', ['f'], 'sh'), m.op('Reshape', ['g', 'sh'], 'q'), m.op('Relu', ['q'], 'o')), must=True)
    m = M('transpose of a parameter', (1, 3), False, group='fold')
    m.op('Transpose', [m.w('w', 2, 3)], 'wt', perm=[1, 0])
    m.op('MatMul', ['input', 'wt'], 'o')
    A(m.done())
    return L


def cst(m, vals):
    n = 'c%d' % len(m.nodes)
    cur = m.cur
    m.op('Constant', [], n, value=m.const(len(vals), vals=vals))
    m.cur = cur
    return n


def shapes():
    """intermediate shapes the model does not state"""
    L = []

    def mk(label, f, shape, must=True, last=None):
        for known in (True, False):
            m = M('%s, shapes %s' % (label, 'stated' if known else 'not stated'), shape, must, group='shape')
            f(m)
            if len(m.shape_of(m.cur)) != 2 or last:
                m.op('Reshape', [m.cur, m.w('fs', 2, vals=[1, prod(m.shape_of(m.cur))], ints=True)])
            m.done()
            if not known:
                m.no_info = {t for n in m.nodes for t in n[3]} - set(m.outs)
            L.append(m)

    def pooled(m):
        m.op('MaxPool', ['input'], kernel_shape=[3, 2], strides=[2, 1], pads=[1, 0, 0, 1])
        m.op('BatchNormalization', [m.cur, m.w('g', 2), m.w('be', 2), m.w('mu', 2), m.w('va', 2)], epsilon=1e-3)
        m.op('AveragePool', kernel_shape=[2, 2], strides=[1, 2])
        m.op('Clip', min=-1.0, max=1.0)
        m.op('Relu')
        m.op('Transpose', perm=[0, 2, 3, 1])
    mk('pooling chain', pooled, (1, 2, 6, 7))

    def pool1(m):
        m.op('MaxPool', ['input'], kernel_shape=[3], strides=[2], pads=[1, 0])
        m.op('AveragePool', kernel_shape=[2], strides=[1])
        m.op('Relu')
    mk('pooling chain of one dimension', pool1, (1, 2, 8))

    def dense(m):
        m.op('Gemm', ['input', m.w('w', 4, 3), m.w('b', 4)], transB=1)
        m.op('Relu')
        m.op('MatMul', [m.cur, m.w('wm', 4, 2)])
        m.op('Add', [m.cur, m.w('bm', 2)])
        m.op('Softmax')
        m.op('Clip', min=0.0, max=1.0)
    mk('dense chain', dense, (1, 3))

    def reshaped(m):
        m.op('Relu', ['input'])
        m.op('Reshape', [m.cur, m.w('s1', 3, vals=[0, 3, -1], ints=True)])
        m.op('Clip', min=-1.0, max=1.0)
        m.op('Reshape', [m.cur, m.w('s2', 4, vals=[1, 4, 1, 3], ints=True)])
        m.op('Squeeze', axes=[2])
        m.op('Relu')
    mk('reshape chain', reshaped, (1, 2, 3, 2))

    def concat(m):
        a = m.op('Relu', ['input'])
        b = m.op('Clip', ['input'], min=0.0, max=1.0)
        m.op('Concat', [a, b], axis=1)
        m.op('Relu')
    mk('concatenation', concat, (1, 2, 3, 2))

    def added(m):
        a = m.op('Relu', ['input'])
        b = m.op('Clip', ['input'], min=0.0, max=1.0)
        m.op('Add', [a, b])
        m.op('MaxPool', kernel_shape=[2, 2], strides=[1, 1])
    mk('addition', added, (1, 2, 3, 2))

    def conv(m):
        m.op('Conv', ['input', m.w('w', 2, 1, 3, 3), m.w('b', 2)], kernel_shape=[3, 3], strides=[1, 1])
        m.op('Relu')
        m.op('GlobalAveragePool')
    mk('convolution', conv, (1, 1, 5, 5), False)

    for sh, ax in (((1, 1, 2, 3), [1]), ((1, 1, 1, 3), [1, 2]), ((1, 1, 1, 3), [0, 2]), ((1, 1, 1, 3), [0, 1, 2]), ((1, 3, 1, 1), [2, 3]), ((1, 1, 3), [0, 1]), ((1, 3, 1, 1), [-1])):
        def sq(m, ax=ax):
            m.op('Relu', ['input'])
            m.op('Squeeze', axes=ax)
            m.op('Clip', min=-1.0, max=1.0)
        mk('squeeze %s of %s' % (ax, sh), sq, sh, True, last=True)
    for sh, ax in (((1, 1, 1, 3), [0, 1, 2]), ((1, 1, 1, 3), [1, 2]), ((1, 1, 3), [0, 1]), ((1, 1, 3), [1]), ((1, 3, 1, 1), [0, 2, 3]), ((1, 3, 1, 1), [2, 3]), ((1, 3, 1, 1), [-1, -2]), ((1, 3, 1, 1), [3, -2]),
                   ((1, 1, 1, 3), [-2, 1])):
        def sg(m, ax=ax):
            m.op('Relu', ['input'])
            m.op('Squeeze', axes=ax)
            if len(m.shape_of(m.cur)) == 1:
                m.op('Unsqueeze', axes=[0])
            m.op('Gemm', [m.cur, m.w('w', 2, 3), m.w('b', 2)], transB=1)
        mk('product after squeezing %s of %s' % (ax, sh), sg, sh)
    for sh, ax, k in (((1, 2, 4), [2], [1, 2]), ((1, 2, 4), [3], [3, 1]), ((1, 4), [1, 3], [2, 1]), ((1, 4), [1, 2], [1, 2]), ((1, 4), [1], [2])):
        def up(m, ax=ax, k=k):
            m.op('Relu', ['input'])
            m.op('Unsqueeze', axes=ax)
            m.op('MaxPool', kernel_shape=k, strides=[1] * len(k))
        mk('pooling after unsqueezing %s of %s' % (ax, sh), up, sh)
    for sh, ax in (((1, 2, 3), [2]), ((1, 2, 3), [3]), ((1, 2, 3), [1]), ((1, 5), [1, 2]), ((1, 5), [0, 3]), ((1, 5), [2])):
        def us(m, ax=ax):
            m.op('Relu', ['input'])
            m.op('Unsqueeze', axes=ax)
            m.op('Clip', min=-1.0, max=1.0)
        mk('unsqueeze %s of %s' % (ax, sh), us, sh, True, last=True)
    for kind in ('MaxPool', 'AveragePool'):
        for k, st, pad in (((2, 3), (1, 2), (0, 0, 1, 0)), ((3, 2), (3, 1), (1, 0, 0, 1)), ((1, 3), (1, 2), (0, 2, 0, 1)), ((4, 4), (1, 1), (0, 0, 0, 0)), ((3, 3), (2, 3), (2, 2, 2, 2))):
            def pw(m):
                m.op(kind, ['input'], kernel_shape=list(k), strides=list(st), pads=list(pad))
                m.op('Clip', min=-1.0, max=1.0)
            mk('%s %s %s %s' % (kind, k, st, pad), pw, (1, 2, 4, 5))
        for k, st, pad in ((2, 2, (0, 0)), (2, 2, (0, 1)), (3, 2, (2, 0)), (4, 3, (1, 2))):
            def pw1(m):
                m.op(kind, ['input'], kernel_shape=[k], strides=[st], pads=list(pad))
                m.op('Clip', min=-1.0, max=1.0)
            mk('%s %s %s %s of one dimension' % (kind, k, st, pad), pw1, (1, 2, 6))
    for pm in ((0, 2, 3, 1), (0, 3, 1, 2), (0, 1, 3, 2)):
        def tr(m, pm=pm):
            m.op('Relu', ['input'])
            m.op('Transpose', perm=list(pm))
            m.op('Clip', min=-1.0, max=1.0)
        mk('transposition %s' % (pm,), tr, (1, 2, 3, 4))
    for sh, to in (((1, 2, 3, 2), [0, 0, -1]), ((1, 2, 3, 2), [-1, 2, 6]), ((1, 12), [1, 0, 1, 1]), ((1, 12), [0, 2, -1, 3]), ((1, 2, 6), [0, 0, 2, 3]), ((1, 2, 6), [1, -1])):
        def rs(m, to=to):
            m.op('Relu', ['input'])
            m.op('Reshape', [m.cur, m.w('s1', len(to), vals=to, ints=True)])
            m.op('Clip', min=-1.0, max=1.0)
        mk('reshape of %s to %s' % (sh, to), rs, sh, True, last=True)

    def concat3(m):
        a = m.op('Relu', ['input'])
        b = m.op('Concat', [a, 'input', a], axis=1)
        c = m.op('Concat', [b, a], axis=1)
        m.op('MaxPool', kernel_shape=[2, 2], strides=[1, 1])
    mk('concatenation of concatenations', concat3, (1, 2, 2, 3), False)

    def mats(m):
        m.op('MatMul', ['input', m.w('w', 3, 5)])
        m.op('Gemm', [m.cur, m.w('w2', 2, 5)], transB=1)
        m.op('Relu')
        m.op('Gemm', [m.cur, m.w('w3', 4, 2), m.w('b3', 4)], transB=1)
        m.op('Softmax')
    mk('products of three sizes', mats, (1, 3))

    def flat(m):
        m.op('Relu', ['input'])
        m.op('Flatten')
        m.op('Gemm', [m.cur, m.w('w', 2, 12), m.w('b', 2)], transB=1)
    mk('flatten', flat, (1, 2, 3, 2), False)
    for batch in ('N', 0, 4):
        m = M('batch dimension %r' % (batch,), (1, 2, 4, 4), True, group='shape')
        m.batch = batch
        m.op('Conv', ['input', m.w('w', 3, 2, 3, 3), m.w('b', 3)], kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])
        m.op('Relu')
        m.op('MaxPool', kernel_shape=[2, 2], strides=[2, 2])
        m.op('Flatten')
        m.op('Gemm', [m.cur, m.w('w2', 2, 12), m.w('b2', 2)], transB=1)
        L.append(m.done())
    return L


def rand(seed, count):
    """networks put together at random from what the importer supports"""
    L = []
    R = random.Random(seed)
    for no in range(count):
        shape = R.choice([(1, R.randint(1, 4), R.randint(4, 7), R.randint(4, 7))] * 3 + [(1, R.randint(1, 4), R.randint(5, 9)), (1, R.randint(2, 6))])
        m = M('random network %d.%d' % (seed, no), shape, True, group='rand', name='rnd')
        live = ['input']        # tensors of the current shape
        nw = 0

        def w(*dims):
            nonlocal nw
            nw += 1
            return m.w('p%d' % nw, *dims)
        for _ in range(R.randint(2, 6)):
            s = m.shape_of(m.cur)
            r = len(s)
            sp = s[2:]
            can = ['Relu', 'Clip', 'Mul']
            if r >= 3:
                can += ['Conv', 'Conv', 'Pool', 'Pool', 'BN', 'Concat']
            if r == 4:
                can += ['LRN', 'Transpose', 'Pad']
            if r == 2:
                can += ['Gemm', 'Gemm', 'MatMul', 'Softmax', 'MatMulAdd', 'Concat']
            if len(live) > 1:
                can += ['Add', 'Add']
            op = R.choice(can)
            if prod(s) > 160 and op in ('Conv', 'Concat', 'Pad', 'LRN'):
                op = 'Pool' if r > 2 else 'Relu'
            k = None
            if op in ('Conv', 'Pool'):
                ks, pads, st = [], [], []
                for d in sp:
                    k = R.choice([1, 3, 3] if op == 'Conv' else [1, 2, 3])
                    p0, p1 = R.choice([(0, 0), (0, 0), (1, 1), (1, 0), (0, 1)]) if k > 1 else (0, 0)
                    if d + p0 + p1 < k:
                        k, p0, p1 = 1, 0, 0
                    ks.append(k)
                    st.append(R.choice([1, 1, 2]))
                    pads.append((p0, p1))
                if op == 'Pool' and len(ks) == 2 and ks == [1, 1]:
                    pads = [(0, 0), (0, 0)]
                a = dict(kernel_shape=ks, strides=st)
                if any(sum(p) for p in pads) or R.random() < 0.3:
                    a['pads'] = [p[0] for p in pads] + [p[1] for p in pads]
            if op == 'Conv':
                g = R.choice([d for d in range(1, s[1] + 1) if s[1] % d == 0])
                oc = g * R.randint(1, 2)
                if g != 1:
                    a['group'] = g
                m.op('Conv', [m.cur, w(oc, s[1] // g, *ks)] + ([w(oc)] if R.random() < 0.6 else []), **a)
            elif op == 'Pool':
                o = R.choice(['MaxPool', 'AveragePool', 'AveragePool', 'GlobalAveragePool', 'GlobalMaxPool', 'MaxPool'])
                if o.startswith('Global'):
                    m.op(o)
                else:
                    if o == 'AveragePool' and R.random() < 0.4:
                        a['count_include_pad'] = R.randint(0, 1)
                    m.op(o, **a)
            elif op == 'BN':
                m.op('BatchNormalization', [m.cur] + [w(s[1]) for _ in range(4)], epsilon=R.choice([1e-3, 1e-5]))
            elif op == 'LRN':
                m.op('LRN', size=R.choice([3, 5]), alpha=0.5, beta=0.75, bias=1.0)
            elif op == 'Transpose':
                m.op('Transpose', perm=R.choice([[0, 2, 3, 1], [0, 3, 1, 2], [0, 1, 3, 2], [0, 2, 1, 3]]))
            elif op == 'Pad':
                p = [R.randint(0, 1) for _ in range(4)]
                m.op('Pad', pads=[0, 0, p[0], p[1], 0, 0, p[2], p[3]], mode=b'constant', value=R.choice([0.0, 1.5]))
            elif op == 'Gemm':
                o = R.randint(1, 5)
                m.op('Gemm', [m.cur, w(o, s[1])] + ([w(o)] if R.random() < 0.7 else []), transB=1)
            elif op in ('MatMul', 'MatMulAdd'):
                o = R.randint(1, 5)
                m.op('MatMul', [m.cur, w(s[1], o)])
                if op == 'MatMulAdd':
                    m.op('Add', [m.cur, w(o)])
            elif op == 'Softmax':
                m.op('Softmax')
            elif op == 'Clip':
                m.op('Clip', min=R.choice([-0.5, 0.0]), max=R.choice([0.5, 6.0]))
            elif op == 'Mul':
                m.op('Mul', [m.cur, m.w('p%d' % (nw + 1), *R.choice([(), (1,)]), vals=[R.choice([0.5, 2.0, -1.0])])])
                nw += 1
            elif op == 'Concat':
                m.op('Concat', R.sample(live, min(len(live), 2)) + [m.cur], axis=1)
            elif op == 'Add':
                m.op('Add', R.sample(live, 2))
            else:
                m.op('Relu')
            live = [t for t in live if m.shape_of(t) == m.shape_of(m.cur)] + [m.cur]
        s = m.shape_of(m.cur)
        if len(s) != 2:
            m.op('Flatten')
            s = m.shape_of(m.cur)
        if R.random() < 0.5:
            o = R.randint(1, 4)
            m.op('Gemm', [m.cur, w(o, s[1]), w(o)], transB=1)
            if R.random() < 0.5:
                m.op('Softmax')
        L.append(m.done())
    return L


GROUPS = {'op': ops, 'bad': bad, 'net': nets, 'param': params, 'name': names, 'fold': folding, 'shape': shapes}
_cache = {}


def group(*gs):
    out = []
    for g in gs:
        if type(g) is tuple:
            out += rand(*g)
            continue
        if g not in _cache:
            _cache[g] = GROUPS[g]()
        out += _cache[g]
    return out
