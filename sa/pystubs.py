"""Summaries of the modules the importer uses (numpy, onnx, jinja2, struct, os, ...), over symbolic tensor contents. No third-party module is
loaded: an array is its shape and a list of elements, each a number of the context or a symbol."""
import abc
import bisect
import collections
import contextlib
import copy
import dataclasses
import enum
import functools
import heapq
import importlib
import itertools
import keyword
import math
import numbers
import operator
import os
import posixpath
import re
import string
import struct as _struct
import textwrap
import types
import typing
import warnings
from .pyabs import Undecided, Exit


# -------------------------------------------------------------------- symbols
class Syms:
    """the symbols of one analysis; `text` is how generated code refers to one"""
    cur = None

    def __init__(self, it):
        self.it = it
        self.by = {}
        self.list = []

    def name(self, s):
        k = s.key
        if k not in self.by:
            self.by[k] = len(self.list)
            self.list.append(s)
        return 'picosym_%d' % self.by[k]


class Sym:
    """an unknown number; key: ('w', tensor, index) or ('op', ...)"""
    __slots__ = ('key',)

    def __init__(self, *key):
        self.key = key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return Syms.cur.name(self)
    __str__ = __repr__

    def __format__(self, spec):
        return Syms.cur.name(self)

    def __bool__(self):
        return Syms.cur.it.decide(('ne', self.key, 0.0))

    def _b(self, op, o, r=False):
        if isinstance(o, AbsArray):
            return NotImplemented
        k = o.key if isinstance(o, Sym) else o
        return Sym('op', op, k, self.key) if r else Sym('op', op, self.key, k)

    def _c(self, op, o):
        k = o.key if isinstance(o, Sym) else o
        if k == self.key:
            return op in ('eq', 'le', 'ge')
        if isinstance(k, float) and not math.isfinite(k):       # parameters of a model are numbers
            return op == 'ne' or k > 0 and op in ('lt', 'le') or k < 0 and op in ('gt', 'ge')
        return SymBool(op, self.key, k)

    def __eq__(self, o):
        if isinstance(o, (Sym, int, float)):
            return self._c('eq', o)
        if isinstance(o, AbsArray):
            return NotImplemented
        return False

    def __ne__(self, o):
        if isinstance(o, (Sym, int, float)):
            return self._c('ne', o)
        if isinstance(o, AbsArray):
            return NotImplemented
        return True

    def item(self):
        return self

    def astype(self, t):
        return self

    def is_integer(self):
        raise Undecided('kind of a symbolic number')

    def __float__(self):
        raise Undecided('value of a symbolic number')
    __int__ = __index__ = __round__ = __float__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Undecided('attribute %s of a symbolic number' % n)


class SymBool:
    __slots__ = ('k',)
    NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}

    def __init__(self, *k):
        self.k = k

    def __bool__(self):
        return Syms.cur.it.decide(self.k, (self.NEG[self.k[0]],) + self.k[1:])

    def __invert__(self):
        return SymBool(self.NEG[self.k[0]], *self.k[1:])

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    setattr(Sym, '__%s__' % _n, (lambda op: lambda s, o: s._b(op, o))(_n))
    setattr(Sym, '__r%s__' % _n, (lambda op: lambda s, o: s._b(op, o, True))(_n))
for _n in ('lt', 'le', 'gt', 'ge'):
    setattr(Sym, '__%s__' % _n, (lambda op: lambda s, o: s._c(op, o))(_n))
Sym.__neg__ = lambda s: Sym('op', 'neg', s.key)
Sym.__pos__ = lambda s: s
Sym.__abs__ = lambda s: Sym('op', 'abs', s.key)


class NpInt(int):
    def item(self):
        return int(self)

    def astype(self, t):
        return AbsDtype.of(t).conv(int(self))
    dtype = property(lambda s: INT64)
    shape = ()
    ndim = 0
    size = 1

    def tolist(self):
        return int(self)


class NpFloat(float):
    def item(self):
        return float(self)

    def astype(self, t):
        return AbsDtype.of(t).conv(float(self))
    dtype = property(lambda s: FLOAT32)
    shape = ()
    ndim = 0
    size = 1

    def tolist(self):
        return float(self)


def f32(x):
    try:
        return _struct.unpack('<f', _struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class AbsDtype:
    def __init__(self, name, kind, size, code):
        self.name, self.kind, self.itemsize, self.char = name, kind, size, code
        self.__name__ = name

    type = property(lambda s: s)
    str = property(lambda s: '<%s%d' % (s.kind, s.itemsize))

    def conv(self, x):
        if isinstance(x, (Sym, SymBool)):
            if self.kind != 'f':
                raise Undecided('symbolic number as %s' % self.name)
            return x
        if self.kind == 'f':
            return f32(float(x)) if self.itemsize == 4 else float(x)
        if self.kind == 'b':
            return bool(x)
        v = int(x)
        w = 8 * self.itemsize
        v &= (1 << w) - 1
        return v - (1 << w) if self.kind == 'i' and v >> (w - 1) else v

    def __call__(self, x=0):
        if isinstance(x, AbsArray):
            return x.astype(self)
        if isinstance(x, (list, tuple)):
            return array(x, self)
        v = self.conv(x)
        return v if isinstance(v, Sym) else NpFloat(v) if self.kind == 'f' else NpInt(v) if self.kind in 'iu' else v

    def newbyteorder(self, *a):
        raise Undecided('byte order of a data type')

    def __eq__(self, o):
        try:
            return AbsDtype.of(o) is self
        except Undecided:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name

    def __repr__(self):
        return "dtype('%s')" % self.name

    @staticmethod
    def of(t):
        if t is None:
            return FLOAT64
        if isinstance(t, AbsDtype):
            return t
        if t is float or t == float:
            return FLOAT64
        if t is int:
            return INT64
        if t is bool:
            return BOOL
        if isinstance(t, str):
            s = t.lstrip('<=')
            for d in DTYPES:
                if s in (d.name, d.char, '%s%d' % (d.kind, d.itemsize)):
                    return d
            if s == 'int':
                return INT64
            if s == 'float':
                return FLOAT64
        raise Undecided('data type %s' % (t,))


FLOAT32 = AbsDtype('float32', 'f', 4, 'f')
FLOAT64 = AbsDtype('float64', 'f', 8, 'd')
FLOAT16 = AbsDtype('float16', 'f', 2, 'e')
INT64 = AbsDtype('int64', 'i', 8, 'q')
INT32 = AbsDtype('int32', 'i', 4, 'i')
INT16 = AbsDtype('int16', 'i', 2, 'h')
INT8 = AbsDtype('int8', 'i', 1, 'b')
UINT8 = AbsDtype('uint8', 'u', 1, 'B')
UINT16 = AbsDtype('uint16', 'u', 2, 'H')
UINT32 = AbsDtype('uint32', 'u', 4, 'I')
UINT64 = AbsDtype('uint64', 'u', 8, 'Q')
BOOL = AbsDtype('bool', 'b', 1, '?')
DTYPES = [FLOAT32, FLOAT64, FLOAT16, INT64, INT32, INT16, INT8, UINT8, UINT16, UINT32, UINT64, BOOL]


def prod(s):
    n = 1
    for d in s:
        n *= d
    return n


def scal(x, dt=None):
    if type(x) is int:
        return NpInt(x)
    if type(x) is float:
        return NpFloat(x)
    return x


class AbsArray:
    """ndarray"""
    __array_priority__ = 10

    def __init__(self, shape, data, dtype=FLOAT32):
        self.shape_, self.data_, self.dtype = tuple(int(d) for d in shape), data, dtype
        assert len(data) == prod(self.shape_)

    __hash__ = None

    @property
    def shape(self):
        return self.shape_

    @shape.setter
    def shape(self, s):
        self.shape_ = self.reshape(s).shape_

    ndim = property(lambda s: len(s.shape_))
    size = property(lambda s: len(s.data_))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: len(s.data_) * s.dtype.itemsize)
    T = property(lambda s: s.transpose())

    @property
    def flat(self):
        return iter([scal(x) for x in self.data_])

    def __len__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        return self.shape_[0]

    def row(self, i):
        n = prod(self.shape_[1:])
        if len(self.shape_) == 1:
            return scal(self.data_[i])
        return AbsArray(self.shape_[1:], self.data_[i * n:(i + 1) * n], self.dtype)

    def __iter__(self):
        if not self.shape_:
            raise TypeError('iteration over a 0-d array')
        return iter([self.row(i) for i in range(self.shape_[0])])

    def _one(self):
        if len(self.data_) != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous')
        return self.data_[0]

    def __bool__(self):
        if not self.data_:
            return False
        return bool(self._one())

    def conv1(self, f):
        if len(self.data_) != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        x = self.data_[0]
        return f(x)

    def __int__(self):
        return self.conv1(int)

    def __float__(self):
        return self.conv1(float)

    def __index__(self):
        return self.conv1(operator.index)

    def item(self, *ix):
        if not ix:
            if len(self.data_) != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            return self.data_[0]
        return self[ix if len(ix) > 1 else ix[0]] if len(ix) == len(self.shape_) else self.data_[ix[0]]

    def tolist(self):
        if not self.shape_:
            return self.data_[0]
        return [x if not isinstance(x, AbsArray) else x.tolist() for x in (self.row(i) for i in range(self.shape_[0]))] if len(self.shape_) > 1 \
            else list(self.data_)

    def copy(self, order='C'):
        return AbsArray(self.shape_, list(self.data_), self.dtype)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, copy=True, **k):
        t = AbsDtype.of(t)
        return AbsArray(self.shape_, [t.conv(x) for x in self.data_], t)

    def flatten(self, order='C'):
        if order not in ('C', 'K', 'A'):
            return self.transpose().flatten()
        return AbsArray((len(self.data_),), list(self.data_), self.dtype)

    def ravel(self, order='C'):
        return self.flatten(order)

    def reshape(self, *s, **k):
        if k.get('order', 'C') != 'C':
            raise Undecided('reshape order')
        if len(s) == 1:
            s = s[0]
        if isinstance(s, AbsArray):
            s = s.tolist()
        s = [int(x) for x in ([s] if isinstance(s, int) else s)]
        if s.count(-1) > 1:
            raise ValueError('can only specify one unknown dimension')
        if -1 in s:
            n = prod(x for x in s if x != -1)
            if n == 0 or len(self.data_) % n:
                raise ValueError('cannot reshape array of size %d into shape %s' % (len(self.data_), tuple(s)))
            s[s.index(-1)] = len(self.data_) // n
        if prod(s) != len(self.data_):
            raise ValueError('cannot reshape array of size %d into shape %s' % (len(self.data_), tuple(s)))
        return AbsArray(s, self.data_, self.dtype)

    def transpose(self, *p):
        if len(p) == 1 and (p[0] is None or isinstance(p[0], (tuple, list, AbsArray))):
            p = p[0]
        n = len(self.shape_)
        if not p:
            p = list(range(n))[::-1]
        p = [int(x) for x in p]
        if sorted(x % n if n else x for x in p) != list(range(n)):
            raise ValueError("axes don't match array")
        p = [x % n for x in p]
        sh = [self.shape_[x] for x in p]
        st = strides(self.shape_)
        st = [st[x] for x in p]
        return AbsArray(sh, [self.data_[o] for o in offs(sh, st)], self.dtype)

    def swapaxes(self, a, b):
        p = list(range(len(self.shape_)))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def squeeze(self, axis=None):
        s = self.shape_
        if axis is None:
            r = [d for d in s if d != 1]
        else:
            ax = [axis] if isinstance(axis, int) else list(axis)
            ax = [a if a >= 0 else a + len(s) for a in ax]
            for a in ax:
                if not 0 <= a < len(s):
                    raise ValueError('axis %d is out of bounds' % a)
                if s[a] != 1:
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
            r = [d for i, d in enumerate(s) if i not in ax]
        return AbsArray(r, self.data_, self.dtype)

    def tobytes(self, order='C'):
        if order != 'C':
            return self.transpose().tobytes()
        return pack('<%d%s' % (len(self.data_), self.dtype.char), *self.data_)
    tostring = tobytes

    def tofile(self, f, sep='', format='%s'):
        f.write(self.tobytes())

    def fill(self, v):
        self.data_[:] = [v] * len(self.data_)

    def view(self, *a):
        if a:
            raise Undecided('view of an array')
        return self

    # indexing
    def _ix(self, k):
        """(result shape, offsets)"""
        if not isinstance(k, tuple):
            k = (k,)
        k = list(k)
        for x in k:
            if isinstance(x, (AbsArray, list)):
                if len(k) == 1:
                    x = x if isinstance(x, AbsArray) else array(x)
                    n = prod(self.shape_[1:])
                    if x.dtype is BOOL or (x.data_ and isinstance(x.data_[0], (bool, SymBool))):
                        if x.shape_ == self.shape_:
                            o = [i for i, b in enumerate(x.data_) if b]
                            return (len(o),), o
                        ii = [i for i, b in enumerate(x.data_) if b]
                        return (len(ii),) + self.shape_[1:], [i * n + j for i in ii for j in range(n)]
                    ii = [chk(int(i), self.shape_[0]) for i in x.data_]
                    return x.shape_ + self.shape_[1:], [i * n + j for i in ii for j in range(n)]
                if all(isinstance(y, (AbsArray, list)) for y in k):
                    arrs = [y if isinstance(y, AbsArray) else array(y) for y in k]
                    if len({y.shape_ for y in arrs}) == 1 and all(y.dtype.kind in 'iu' for y in arrs):
                        m = len(arrs)
                        st = strides(self.shape_)
                        n = prod(self.shape_[m:])
                        o = [sum(chk(int(y.data_[q]), self.shape_[d]) * st[d] for d, y in enumerate(arrs)) for q in range(arrs[0].size)]
                        return arrs[0].shape_ + self.shape_[m:], [z + j for z in o for j in range(n)]
                raise Undecided('array index')
        used = sum(1 for x in k if x is not None and x is not Ellipsis)
        if used > len(self.shape_):
            raise IndexError('too many indices for array')
        if not any(x is Ellipsis for x in k):
            k.append(Ellipsis)
        i = next(j for j, x in enumerate(k) if x is Ellipsis)
        k = k[:i] + [slice(None)] * (len(self.shape_) - used) + k[i + 1:]
        st = strides(self.shape_)
        sh, ss, base, d = [], [], 0, 0
        for x in k:
            if x is None:
                sh.append(1)
                ss.append(0)
                continue
            n = self.shape_[d]
            if isinstance(x, slice):
                a, b, c = slice(*(None if y is None else operator.index(y) for y in (x.start, x.stop, x.step))).indices(n)
                sh.append(len(range(a, b, c)))
                ss.append(st[d] * c)
                base += a * st[d] if sh[-1] else 0
            else:
                base += chk(operator.index(x), n) * st[d]
            d += 1
        return tuple(sh), [base + o for o in offs(sh, ss)]

    def __getitem__(self, k):
        if isinstance(k, int) and not isinstance(k, bool) and self.shape_:
            return self.row(chk(k, self.shape_[0]))
        sh, o = self._ix(k)
        if not sh and not any(isinstance(x, slice) for x in (k if isinstance(k, tuple) else (k,))):
            return scal(self.data_[o[0]])
        return AbsArray(sh, [self.data_[x] for x in o], self.dtype)

    def __setitem__(self, k, v):
        sh, o = self._ix(k)
        if isinstance(v, (list, tuple)):
            v = array(v)
        if isinstance(v, AbsArray):
            w = broadcast_to(v, sh).data_
        else:
            w = [v] * len(o)
        for x, y in zip(o, w):
            self.data_[x] = self.dtype.conv(y)

    # arithmetic
    def _bin(self, o, f, r=False, cmp=False):
        if isinstance(o, (list, tuple)):
            o = array(o)
        if not isinstance(o, AbsArray):
            if not isinstance(o, (int, float, Sym, bool)):
                return NotImplemented
            o = AbsArray((), [o], self.dtype if not (isinstance(o, float) and self.dtype.kind != 'f') else FLOAT64)
        sh = broadcast_shapes(self.shape_, o.shape_)
        a, b = broadcast_to(self, sh).data_, broadcast_to(o, sh).data_
        if r:
            a, b = b, a
        dt = BOOL if cmp else (self.dtype if self.dtype is o.dtype else FLOAT64 if 'f' in self.dtype.kind + o.dtype.kind and
                               (self.dtype.itemsize == 8 or o.dtype.itemsize == 8) else FLOAT32 if 'f' in self.dtype.kind + o.dtype.kind else INT64)
        out = [f(x, y) for x, y in zip(a, b)]
        if not cmp and any(type(x) is float for x in out) and dt.kind != 'f':
            dt = FLOAT64
        return AbsArray(sh, out, dt) if sh else scal(out[0])

    def __matmul__(self, o):
        return matmul(self, o)

    def __neg__(self):
        return AbsArray(self.shape_, [-x for x in self.data_], self.dtype)

    def __abs__(self):
        return AbsArray(self.shape_, [abs(x) for x in self.data_], self.dtype)

    def __invert__(self):
        return AbsArray(self.shape_, [not x for x in self.data_], BOOL)

    def __contains__(self, v):
        return any(bool(x == v) for x in self.data_)

    # reductions
    def _red(self, f, axis=None, keepdims=False, dtype=None, **k):
        if axis is None:
            r = f(self.data_)
            return scal(r) if not keepdims else AbsArray((1,) * len(self.shape_), [r], self.dtype)
        if isinstance(axis, (tuple, list)):
            raise Undecided('reduction over several axes')
        axis %= len(self.shape_)
        sh = self.shape_[:axis] + self.shape_[axis + 1:]
        p = [i for i in range(len(self.shape_)) if i != axis] + [axis]
        t = self.transpose(p)
        n = self.shape_[axis]
        d = [f(t.data_[i * n:(i + 1) * n]) for i in range(prod(sh))]
        if keepdims:
            sh = self.shape_[:axis] + (1,) + self.shape_[axis + 1:]
        return AbsArray(sh, d, self.dtype)

    def all(self, axis=None, **k):
        return self._red(lambda xs: all(bool(x) for x in xs), axis, **k)

    def any(self, axis=None, **k):
        return self._red(lambda xs: any(bool(x) for x in xs), axis, **k)

    def sum(self, axis=None, **k):
        return self._red(lambda xs: functools.reduce(operator.add, xs, 0), axis, **k)

    def prod(self, axis=None, **k):
        return self._red(lambda xs: functools.reduce(operator.mul, xs, 1), axis, **k)

    def min(self, axis=None, **k):
        return self._red(smin, axis, **k)

    def max(self, axis=None, **k):
        return self._red(smax, axis, **k)

    def mean(self, axis=None, **k):
        return self._red(lambda xs: functools.reduce(operator.add, xs, 0) / len(xs), axis, **k)

    def nonzero(self):
        return where(self)

    def __str__(self):
        if not self.shape_:
            return str(self.data_[0])
        if len(self.shape_) == 1:
            return '[' + ' '.join(str(x) for x in self.data_) + ']'
        return '[' + '\n '.join(str(x) for x in self) + ']'

    def __repr__(self):
        return 'array(%s)' % self.tolist()

    def __format__(self, spec):
        if spec and not self.shape_:
            return format(self.data_[0], spec)
        if spec:
            raise TypeError('unsupported format string passed to numpy.ndarray.__format__')
        return str(self)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n not in known_names('ndarray'):
            raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % n)
        raise Undecided('array attribute %s' % n)


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and_', 'or_'):
    _m = _n.rstrip('_')
    setattr(AbsArray, '__%s__' % _m, (lambda f: lambda s, o: s._bin(o, f))(getattr(operator, _n)))
    setattr(AbsArray, '__r%s__' % _m, (lambda f: lambda s, o: s._bin(o, f, True))(getattr(operator, _n)))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    def _mk(f, nm):
        def g(s, o):
            if o is None:
                return AbsArray(s.shape_, [nm == 'ne'] * len(s.data_), BOOL) if nm in ('eq', 'ne') else NotImplemented
            try:
                return s._bin(o, f, cmp=True)
            except ValueError:
                return nm == 'ne'
        return g
    setattr(AbsArray, '__%s__' % _n, _mk(getattr(operator, _n), _n))


def smin(xs):
    if not xs:
        raise ValueError('zero-size array')
    m = xs[0]
    for x in xs[1:]:
        m = x if x < m else m
    return m


def smax(xs):
    if not xs:
        raise ValueError('zero-size array')
    m = xs[0]
    for x in xs[1:]:
        m = x if x > m else m
    return m


def chk(i, n):
    if not -n <= i < n:
        raise IndexError('index %d is out of bounds for axis with size %d' % (i, n))
    return i % n if n else i


def strides(s):
    out, n = [], 1
    for d in reversed(s):
        out.append(n)
        n *= d
    return out[::-1]


def offs(sh, st):
    o = [0]
    for d, s in zip(sh, st):
        o = [x + i * s for x in o for i in range(d)]
    return o


def broadcast_shapes(*ss):
    n = max((len(s) for s in ss), default=0)
    out = []
    for i in range(n):
        d = 1
        for s in ss:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    raise ValueError('operands could not be broadcast together with shapes %s' % ' '.join(map(str, ss)))
                d = s[j]
        out.append(d)
    return tuple(out)


def broadcast_to(a, sh):
    a = asarray(a)
    if a.shape_ == tuple(sh):
        return a
    if broadcast_shapes(a.shape_, tuple(sh)) != tuple(sh):
        raise ValueError('cannot broadcast')
    st = [0] * (len(sh) - len(a.shape_)) + [0 if d == 1 else s for d, s in zip(a.shape_, strides(a.shape_))]
    return AbsArray(sh, [a.data_[o] for o in offs(sh, st)], a.dtype)


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, AbsArray):
        return x.astype(dtype) if dtype is not None else x.copy()

    def shape(v):
        if isinstance(v, AbsArray):
            return v.shape_
        if isinstance(v, (list, tuple, range)):
            v = list(v)
            if not v:
                return (0,)
            ss = {shape(y) for y in v}
            if len(ss) != 1:
                raise ValueError('setting an array element with a sequence')
            return (len(v),) + ss.pop()
        return ()

    def flat(v):
        if isinstance(v, AbsArray):
            return list(v.data_)
        if isinstance(v, (list, tuple, range)):
            return [z for y in v for z in flat(y)]
        return [v]
    if not isinstance(x, (list, tuple, range, int, float, Sym, bool)):
        raise Undecided('array of %s' % type(x).__name__)
    sh, d = shape(x), flat(x)
    if dtype is None:
        def sub(v):
            if isinstance(v, AbsArray):
                return v.dtype
            if isinstance(v, (list, tuple)) and v:
                return sub(v[0])
            return None
        dt = sub(x) or (BOOL if d and all(isinstance(y, bool) for y in d) else INT64 if d and all(isinstance(y, int) for y in d) else FLOAT64)
    else:
        dt = AbsDtype.of(dtype)
    return AbsArray(sh, [y if isinstance(y, Sym) and dt.kind == 'f' else dt.conv(y) for y in d], dt)


def asarray(x, dtype=None, **k):
    return x if isinstance(x, AbsArray) and dtype is None else array(x, dtype)


def _sh(s):
    if isinstance(s, AbsArray):
        s = s.tolist()
    if isinstance(s, int):
        return (int(s),)
    return tuple(operator.index(d) for d in s)


def full(shape, v, dtype=None, **k):
    shape = _sh(shape)
    if any(d < 0 for d in shape):
        raise ValueError('negative dimensions are not allowed')
    n = prod(shape)
    if n > 3000000:
        raise Undecided('large array')
    dt = AbsDtype.of(dtype) if dtype is not None else INT64 if type(v) is int else FLOAT64
    return AbsArray(shape, [v if isinstance(v, Sym) else dt.conv(v)] * n, dt)


def zeros(shape, dtype=None, **k):
    return full(shape, 0.0, dtype or FLOAT64)


def ones(shape, dtype=None, **k):
    return full(shape, 1.0, dtype or FLOAT64)


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    sa, sb = a.shape_, b.shape_
    if not sa or not sb:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    pa = pb = False
    if len(sa) == 1:
        a, pa = a.reshape((1,) + sa), True
    if len(sb) == 1:
        b, pb = b.reshape(sb + (1,)), True
    sa, sb = a.shape_, b.shape_
    if sa[-1] != sb[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    bs = broadcast_shapes(sa[:-2], sb[:-2])
    A, B = broadcast_to(a, bs + sa[-2:]), broadcast_to(b, bs + sb[-2:])
    m, k, n = sa[-2], sa[-1], sb[-1]
    out = []
    for q in range(prod(bs)):
        for i in range(m):
            for j in range(n):
                s = 0.0
                for t in range(k):
                    x, y = A.data_[q * m * k + i * k + t], B.data_[q * k * n + t * n + j]
                    if not (type(x) is float and x == 0.0 and type(y) is float) and not (type(y) is float and y == 0.0 and type(x) is float):
                        s = s + x * y
                out.append(s)
    sh = bs + (m, n)
    if pa:
        sh = sh[:-2] + sh[-1:]
    if pb:
        sh = sh[:-1]
    return AbsArray(sh, out, a.dtype)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if len(a.shape_) <= 2 and len(b.shape_) <= 2:
        return matmul(a, b)
    raise Undecided('dot')


def expand_dims(a, axis):
    a = asarray(a)
    ax = [axis] if isinstance(axis, int) else [int(x) for x in axis]
    n = len(a.shape_) + len(ax)
    ax = [x % n if -n <= x < n else x for x in ax]
    if any(x >= n for x in ax):
        raise ValueError('axis out of bounds')
    it = iter(a.shape_)
    return AbsArray([1 if i in ax else next(it) for i in range(n)], a.data_, a.dtype)


def concatenate(xs, axis=0, **k):
    xs = [asarray(x) for x in xs]
    if not xs:
        raise ValueError('need at least one array to concatenate')
    n = len(xs[0].shape_)
    if axis is None:
        xs, axis, n = [x.flatten() for x in xs], 0, 1
    if not -n <= axis < n:
        raise ValueError('axis %d is out of bounds for array of dimension %d' % (axis, n))
    axis %= n
    for x in xs:
        if len(x.shape_) != n or any(x.shape_[i] != xs[0].shape_[i] for i in range(n) if i != axis):
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    sh = list(xs[0].shape_)
    sh[axis] = sum(x.shape_[axis] for x in xs)
    out = []
    for o in range(prod(sh[:axis])):
        for x in xs:
            m = prod(x.shape_[axis:])
            out += x.data_[o * m:(o + 1) * m]
    return AbsArray(sh, out, xs[0].dtype)


def stack(xs, axis=0):
    return concatenate([expand_dims(x, axis) for x in xs], axis)


def take(a, ix, axis=None, **k):
    a, ix = asarray(a), asarray(ix)
    if axis is None:
        a, axis = a.flatten(), 0
    axis %= len(a.shape_)
    n, m = a.shape_[axis], prod(a.shape_[axis + 1:])
    out = []
    ii = [chk(int(i), n) for i in ix.data_]
    for o in range(prod(a.shape_[:axis])):
        for i in ii:
            b = (o * n + i) * m
            out += a.data_[b:b + m]
    sh = a.shape_[:axis] + ix.shape_ + a.shape_[axis + 1:]
    return AbsArray(sh, out, a.dtype) if sh else scal(out[0])


def where(c, *xy):
    if xy:
        x, y = (asarray(z) for z in xy)
        c = asarray(c)
        sh = broadcast_shapes(c.shape_, x.shape_, y.shape_)
        C, A, B = (broadcast_to(z, sh).data_ for z in (c, x, y))
        return AbsArray(sh, [a if bool(q) else b for q, a, b in zip(C, A, B)], x.dtype)
    c = asarray(c)
    ii = [i for i, b in enumerate(c.data_) if bool(b)]
    st = strides(c.shape_)
    return tuple(AbsArray((len(ii),), [i // s % d for i in ii], INT64) for s, d in zip(st, c.shape_))


def arange(*a, **k):
    r = list(range(*[operator.index(x) for x in a]))
    return AbsArray((len(r),), r, AbsDtype.of(k['dtype']) if 'dtype' in k else INT64)


def pad(a, w, mode='constant', constant_values=0, **k):
    if mode != 'constant':
        raise Undecided('numpy pad mode')
    a = asarray(a)
    if isinstance(w, int):
        w = [(w, w)] * len(a.shape_)
    w = [tuple(int(y) for y in x) for x in w]
    out = full([d + x + y for d, (x, y) in zip(a.shape_, w)], constant_values, a.dtype)
    out[tuple(slice(x, x + d) for d, (x, y) in zip(a.shape_, w))] = a
    return out


def elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, AbsArray):
            return AbsArray(x.shape_, [f(y) for y in x.data_], x.dtype)
        return scal(f(x))
    return g


def red(name):
    def g(x, axis=None, **k):
        return getattr(asarray(x), name)(axis=axis, **k)
    return g


def meth(name):
    def g(x, *a, **k):
        return getattr(asarray(x), name)(*a, **k)
    return g


def sfn(n, f):
    def g(x):
        return Sym('op', n, x.key) if isinstance(x, Sym) else f(x)
    return elementwise(g)


@functools.lru_cache(None)
def known_names(module):
    """names of a module (of any release of numpy), or None"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'numpy_names.txt')) as f:
        d = {l.split()[0]: set(l.split()[1:]) for l in f if l.strip()}
    if module in ('numpy', 'ndarray'):
        return d[module]
    if module == 'numpy.random':
        return d['random']
    if module in ('struct', 'os', 'os.path', 'math', 'operator', 'functools', 'itertools', 're', 'sys', 'collections', 'copy', 'glob', 'shutil', 'argparse', 'posixpath'):
        return set(dir(importlib.import_module(module)))
    return None


class Strict(types.ModuleType):
    """a summarised module: a name that it has and that is not summarised leaves the analysis undecided"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        k = known_names(self.__name__)
        if k is not None and n not in k:
            raise AttributeError("module '%s' has no attribute '%s'" % (self.__name__, n))
        raise Undecided('%s.%s has no summary' % (self.__name__, n))


def mod(name, /, **kw):
    m = Strict(name)
    m.__dict__.update(kw)
    return m


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    return a.shape_ == b.shape_ and all(bool(x == y) for x, y in zip(a.data_, b.data_))


def frombuffer(b, dtype=None, **k):
    dt = AbsDtype.of(dtype)
    if isinstance(b, AbsBytes):
        raise Undecided('array from symbolic bytes')
    n = len(b) // dt.itemsize
    return AbsArray((n,), list(_struct.unpack('<%d%s' % (n, dt.char), bytes(b))), dt)


def symfinite(name):
    """math.isinf and its like, for parameters too"""
    f = getattr(math, name)
    return lambda x: name == 'isfinite' if isinstance(x, Sym) else f(x)


FINITE = {n: symfinite(n) for n in ('isinf', 'isnan', 'isfinite')}


def math_module():
    return mod('math', **dict({n: getattr(math, n) for n in dir(math) if not n.startswith('__')}, **FINITE))


def numpy_module():
    fl = lambda x: float(math.floor(x)) if isinstance(x, float) else x
    m = mod('numpy', ndarray=AbsArray, array=array, asarray=asarray, ascontiguousarray=asarray, zeros=zeros, ones=ones, full=full, empty=zeros,
            zeros_like=lambda a, dtype=None, **k: zeros(asarray(a).shape_, dtype or asarray(a).dtype),
            ones_like=lambda a, dtype=None, **k: ones(asarray(a).shape_, dtype or asarray(a).dtype),
            empty_like=lambda a, dtype=None, **k: zeros(asarray(a).shape_, dtype or asarray(a).dtype),
            full_like=lambda a, v, dtype=None, **k: full(asarray(a).shape_, v, dtype or asarray(a).dtype),
            arange=arange, matmul=matmul, dot=dot, expand_dims=expand_dims, concatenate=concatenate, stack=stack, take=take, where=where,
            nonzero=where, pad=pad, transpose=lambda a, axes=None: asarray(a).transpose(axes),
            reshape=lambda a, s, **k: asarray(a).reshape(s), squeeze=lambda a, axis=None: asarray(a).squeeze(axis),
            ravel=meth('ravel'), copy=meth('copy'), swapaxes=meth('swapaxes'), broadcast_shapes=broadcast_shapes, broadcast_to=broadcast_to,
            prod=red('prod'), product=red('prod'), sum=red('sum'), all=red('all'), any=red('any'), min=red('min'), max=red('max'), amin=red('min'), amax=red('max'),
            mean=red('mean'), floor=elementwise(fl), ceil=elementwise(lambda x: float(math.ceil(x)) if isinstance(x, float) else x),
            sqrt=sfn('sqrt', lambda x: math.sqrt(x)), abs=elementwise(abs), absolute=elementwise(abs), isscalar=lambda x: isinstance(x, (int, float, Sym)),
            array_equal=array_equal, shape=lambda a: asarray(a).shape_, ndim=lambda a: asarray(a).ndim, size=lambda a: asarray(a).size,
            frombuffer=frombuffer, atleast_1d=lambda a: asarray(a) if asarray(a).shape_ else asarray(a).reshape((1,)),
            dtype=AbsDtype.of, newaxis=None, inf=math.inf, nan=math.nan, pi=math.pi, float32=FLOAT32, float64=FLOAT64, float16=FLOAT16, int64=INT64, int32=INT32,
            int16=INT16, int8=INT8, uint8=UINT8, uint16=UINT16, uint32=UINT32, uint64=UINT64, bool_=BOOL, float=float, int=int, bool=bool, double=FLOAT64,
            single=FLOAT32, intp=INT64, add=lambda a, b: asarray(a) + b, multiply=lambda a, b: asarray(a) * b, subtract=lambda a, b: asarray(a) - b,
            ndindex=lambda *s: itertools.product(*(range(d) for d in (s[0] if len(s) == 1 and isinstance(s[0], tuple) else s))),
            ndenumerate=lambda a: zip(itertools.product(*(range(d) for d in a.shape_)), list(a.flat)),
            vstack=lambda xs: concatenate([x if x.ndim > 1 else x.reshape((1, -1)) for x in map(asarray, xs)], 0), generic=(NpInt, NpFloat), number=numbers.Number,
            integer=NpInt, floating=NpFloat,
            isposinf=elementwise(lambda x: not isinstance(x, Sym) and x == math.inf), isneginf=elementwise(lambda x: not isinstance(x, Sym) and x == -math.inf),
            **{n: elementwise(f) for n, f in FINITE.items()})
    return m


# ----------------------------------------------------------------------- bytes
class AbsBytes:
    """bytes, some of which are bytes (symbol, format, k) of a packed symbol"""
    __slots__ = ('b',)

    def __init__(self, b=()):
        self.b = list(b)

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(self.b)

    def __add__(self, o):
        return AbsBytes(self.b + items(o))

    def __radd__(self, o):
        return AbsBytes(items(o) + self.b)

    def __iadd__(self, o):
        return AbsBytes(self.b + items(o))

    def __mul__(self, n):
        return AbsBytes(self.b * n)

    def __getitem__(self, k):
        return AbsBytes(self.b[k]) if isinstance(k, slice) else self.b[k]

    def __bool__(self):
        return bool(self.b)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Undecided('symbolic bytes: %s' % n)

    def __eq__(self, o):
        raise Undecided('comparison of symbolic bytes')
    __hash__ = None


class AbsByteArray(AbsBytes):
    __slots__ = ()

    def __init__(self, b=(), *enc):
        self.b = [0] * b if isinstance(b, int) and not isinstance(b, bool) else items(b.encode(*enc) if isinstance(b, str) else b)

    def extend(self, o):
        self.b += items(o)

    def append(self, x):
        self.b.append(x)

    def __iadd__(self, o):
        self.b += items(o)
        return self

    def decode(self, *a):
        return bytes(self.b).decode(*a)

    def clear(self):
        self.b = []


def items(o):
    if isinstance(o, AbsBytes):
        return list(o.b)
    if isinstance(o, (bytes, bytearray)):
        return list(o)
    if isinstance(o, (list, tuple)):
        return list(o)
    if hasattr(o, '__iter__'):
        return list(o)
    raise TypeError('a bytes-like object is required, not %r' % type(o).__name__)


def mkbytes(b):
    return bytes(b) if all(isinstance(x, int) for x in b) else AbsBytes(b)


def joinbytes(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i and sep:
            out += list(sep)
        out += items(x)
    return mkbytes(out)


def to_bytes(x=b'', *enc):
    if isinstance(x, AbsBytes):
        return AbsBytes(x.b)
    if isinstance(x, AbsArray):
        return x.tobytes()
    if isinstance(x, str):
        return bytes(x, *enc)
    if isinstance(x, (int, bytes, bytearray)):
        return bytes(x)
    xs = list(x)
    return mkbytes(xs)


class BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bytes, AbsBytes)) and not isinstance(o, AbsByteArray)

    def __call__(cls, *a):
        return to_bytes(*a)

    def __eq__(cls, o):
        return o is bytes or o is BytesType

    def __hash__(cls):
        return hash(bytes)


class BytesType(metaclass=BytesMeta):
    fromhex = bytes.fromhex
    join = staticmethod(lambda s, xs: joinbytes(s, xs))
    decode = bytes.decode


def fmt(f):
    order = '<'
    if f and f[0] in '@=<>!':
        order = {'@': '@', '=': '<', '<': '<', '>': '>', '!': '>'}[f[0]]
        f = f[1:]
    else:
        order = '@'
    out = []
    for n, c in re.findall(r'\s*(\d*)([a-zA-Z?])', f):
        out.append((int(n) if n else None, c))
    return order, out


def pack(f, *vals):
    if isinstance(f, bytes):
        f = f.decode()
    if not any(isinstance(v, Sym) for v in vals):
        vs = [v if not isinstance(v, AbsArray) else v.item() for v in vals]
        if not any(isinstance(v, Sym) for v in vs):
            try:
                return _struct.pack(f, *vs)
            except _struct.error as e:
                raise StructError(str(e))
        vals = vs
    order, its = fmt(f)
    out, vals = [], list(vals)
    for n, c in its:
        if c in 'sp':
            v = vals.pop(0)
            out += list(_struct.pack('%d%s' % (1 if n is None else n, c), v))
            continue
        for _ in range(1 if n is None else n):
            if c == 'x':
                out.append(0)
                continue
            if not vals:
                raise StructError('pack expected more items')
            sz = _struct.calcsize(('=' if order != '@' else '@') + c)
            if order == '@':
                while len(out) % _struct.calcsize('@' + c):
                    out.append(0)
            v = vals.pop(0)
            if isinstance(v, Sym):
                if c not in 'fd':
                    raise Undecided('symbolic number packed as %s' % c)
                bs = [(v, c, k) for k in range(sz)]
                out += bs[::-1] if order == '>' else bs
            else:
                try:
                    out += list(_struct.pack((order if order != '@' else '=') + c, v))
                except _struct.error as e:
                    raise StructError(str(e))
    if vals:
        raise StructError('pack expected fewer items')
    return mkbytes(out)


class StructError(Exception):
    pass


class Struct_:
    def __init__(self, f):
        self.format = f
        self.size = _struct.calcsize(f)

    def pack(self, *v):
        return pack(self.format, *v)


def struct_module():
    return mod('struct', pack=pack, calcsize=_struct.calcsize, error=StructError, Struct=Struct_, unpack=_struct.unpack)


# ------------------------------------------------------------------- filesystem
class FS:
    def __init__(self, it, repo):
        self.it, self.repo = it, repo
        self.files, self.dirs = {}, set()
        self.writes = []

    def key(self, p):
        if not isinstance(p, str):
            p = p.__fspath__()
        return posixpath.normpath(posixpath.join('/work', p))

    def isdir(self, p):
        k = self.key(p)
        if k.startswith(self.repo):
            import os
            return os.path.isdir(k)
        return k == '/work' or k in self.dirs

    def exists(self, p):
        k = self.key(p)
        if k.startswith(self.repo):
            import os
            return os.path.exists(k)
        return k in self.files or self.isdir(p)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        k = self.key(p)
        if k in self.dirs and not exist_ok:
            raise FileExistsError(k)
        while k not in ('/', '/work'):
            self.dirs.add(k)
            k = posixpath.dirname(k)

    def open(self, p, mode='r', *a, **kw):
        if hasattr(p, '__fspath__'):
            p = p.__fspath__()
        if not isinstance(p, str):
            raise Undecided('open of %r' % (p,))
        k = self.key(p)
        if 'r' in mode and '+' not in mode:
            if k in self.files:
                return RFile(self.files[k], 'b' in mode)
            if k.startswith(self.repo):
                import os
                if os.path.isfile(k):
                    d = open(k, 'rb').read()
                    return RFile(d if 'b' in mode else d.decode('utf-8'), 'b' in mode)
            raise FileNotFoundError(k)
        if posixpath.dirname(k) not in self.dirs and posixpath.dirname(k) != '/work':
            raise FileNotFoundError(k)
        f = WFile(self, k, 'b' in mode)
        if 'a' in mode and k in self.files:
            f.parts = items(self.files[k]) if 'b' in mode else [self.files[k]]
        self.files[k] = b'' if 'b' in mode else ''
        f.flush()
        self.writes.append(k)
        return f


class WFile:
    def __init__(self, fs, k, binary):
        self.fs, self.k, self.binary, self.parts, self.closed, self.name = fs, k, binary, [], False, k

    def write(self, x):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.binary:
            if isinstance(x, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            b = items(x) if not isinstance(x, AbsArray) else items(x.tobytes())
            self.parts += b
            return len(b)
        if not isinstance(x, str):
            raise TypeError('write() argument must be str, not %s' % type(x).__name__)
        self.parts.append(x)
        return len(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        self.fs.files[self.k] = mkbytes(self.parts) if self.binary else ''.join(self.parts)

    def tell(self):
        return len(self.parts) if self.binary else sum(map(len, self.parts))

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class RFile:
    def __init__(self, d, binary):
        self.d, self.binary, self.p = d, binary, 0

    def read(self, n=-1):
        r = self.d[self.p:] if n is None or n < 0 else self.d[self.p:self.p + n]
        self.p += len(r)
        return r

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class AbsBytesIO:
    def __init__(self, b=b''):
        self.b = items(b)
        self.closed = False

    def write(self, x):
        if isinstance(x, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.b += items(x) if not isinstance(x, AbsArray) else items(x.tobytes())
        return len(items(x))

    def getvalue(self):
        return mkbytes(self.b)
    getbuffer = getvalue

    def tell(self):
        return len(self.b)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Undecided('BytesIO.%s' % n)


def path_class(fs):
    import pathlib

    class AbsPath(pathlib.PurePosixPath):
        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            if not parents and not fs.isdir(str(self.parent)):
                raise FileNotFoundError(str(self))
            fs.makedirs(str(self), exist_ok=exist_ok)

        def open(self, mode='r', *a, **k):
            return fs.open(str(self), mode)

        def write_text(self, t, *a, **k):
            with fs.open(str(self), 'w') as f:
                return f.write(t)

        def write_bytes(self, t):
            with fs.open(str(self), 'wb') as f:
                return f.write(t)

        def read_text(self, *a, **k):
            return fs.open(str(self)).read()

        def exists(self):
            return fs.exists(str(self))

        def is_dir(self):
            return fs.isdir(str(self))

        def is_file(self):
            return fs.exists(str(self)) and not fs.isdir(str(self))

        def resolve(self, *a):
            return type(self)(fs.key(str(self)))

        def absolute(self):
            return type(self)(fs.key(str(self)))

        @classmethod
        def cwd(cls):
            return cls('/work')
    return AbsPath


def os_module(fs):
    pm = mod('os.path', **{k: getattr(posixpath, k) for k in ('join', 'basename', 'dirname', 'split', 'splitext', 'normpath', 'isabs', 'sep', 'relpath', 'commonpath')})
    pm.__dict__.update(abspath=fs.key, realpath=fs.key, exists=fs.exists, isdir=fs.isdir, isfile=lambda p: fs.exists(p) and not fs.isdir(p),
                       expanduser=lambda p: p)

    def mkdir(p, mode=0o777):
        if not fs.isdir(posixpath.dirname(fs.key(p))):
            raise FileNotFoundError(p)
        fs.makedirs(p)
    return mod('os', path=pm, makedirs=fs.makedirs, mkdir=mkdir, sep='/', linesep='\n', getcwd=lambda: '/work', environ={}, getenv=lambda k, d=None: d, name='posix',
               fspath=lambda p: p if isinstance(p, (str, bytes)) else p.__fspath__(), _exit=do_exit, pathsep=':', curdir='.'), pm


def do_exit(code=None):
    raise Exit(code)


# ------------------------------------------------------------------------ onnx
class Proto:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def HasField(self, n):
        v = self.__dict__.get(n)
        return v is not None and not isinstance(v, RepField)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Undecided('field %s of a protobuf message' % n)

    def __deepcopy__(self, memo):
        return self

    def SerializeToString(self):
        return b'model'

    def WhichOneof(self, n):
        raise Undecided('WhichOneof')


class RepField(list):
    def add(self, **kw):
        p = Proto(**kw)
        self.append(p)
        return p


class AttributeProto(Proto):
    """one of f, i, s, t, floats, ints, strings is set"""
    UNDEFINED, FLOAT, INT, STRING, TENSOR, GRAPH, FLOATS, INTS, STRINGS, TENSORS, GRAPHS = range(11)

    def __init__(self, name, v):
        self.name = name
        self.floats, self.ints, self.strings = RepField(), RepField(), RepField()
        self.f_, self.i_, self.s_, self.t_ = None, None, None, None
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float):
            self.f_, self.type = f32(v), self.FLOAT
        elif isinstance(v, int):
            self.i_, self.type = v, self.INT
        elif isinstance(v, (bytes, str)):
            self.s_, self.type = v if isinstance(v, bytes) else v.encode(), self.STRING
        elif isinstance(v, Tensor):
            self.t_, self.type = v, self.TENSOR
        elif all(isinstance(x, int) for x in v):
            self.ints, self.type = RepField(v), self.INTS
        elif all(isinstance(x, float) for x in v):
            self.floats, self.type = RepField(f32(x) for x in v), self.FLOATS
        else:
            self.strings, self.type = RepField(v), self.STRINGS

    def HasField(self, n):
        return self.__dict__.get(n + '_') is not None if n in 'fist' else n in ('name', 'type')

    @property
    def f(self):
        return 0.0 if self.f_ is None else self.f_

    @f.setter
    def f(self, v):
        self.f_ = f32(v)

    @property
    def i(self):
        return 0 if self.i_ is None else self.i_

    @i.setter
    def i(self, v):
        self.i_ = v

    s = property(lambda q: q.s_ if q.s_ is not None else b'')
    t = property(lambda q: q.t_)

    @property
    def value(self):
        return self.f_ if self.f_ is not None else self.i_ if self.i_ is not None else self.s_ if self.s_ is not None else self.t_ if self.t_ is not None \
            else list(self.ints or self.floats or self.strings)


class Tensor(Proto):
    """TensorProto"""

    def __init__(self, name, arr):
        self.name, self.arr = name, arr
        self.dims = RepField(arr.shape_)
        self.data_type = {'float32': 1, 'int64': 7, 'int32': 6, 'float64': 11}[arr.dtype.name]

    def HasField(self, n):
        return n in ('name', 'data_type')
    float_data = property(lambda s: list(s.arr.data_))
    int64_data = property(lambda s: list(s.arr.data_))
    raw_data = property(lambda s: s.arr.tobytes())


class Dim(Proto):
    """dim_value and dim_param are alternatives"""

    def __init__(self, d):
        self.__dict__['v_'] = d

    def has_value(self):
        return isinstance(self.v_, int)

    def HasField(self, n):
        return n == ('dim_value' if isinstance(self.v_, int) else 'dim_param')

    def WhichOneof(self, n):
        return 'dim_value' if isinstance(self.v_, int) else 'dim_param'

    def ClearField(self, n):
        self.__dict__['v_'] = ''

    def __setattr__(self, n, v):
        if n not in ('dim_value', 'dim_param'):
            raise AttributeError(n)
        self.__dict__['v_'] = int(v) if n == 'dim_value' else v
    dim_value = property(lambda s: s.v_ if isinstance(s.v_, int) else 0)
    dim_param = property(lambda s: '' if isinstance(s.v_, int) else s.v_)


def dim(d):
    return Dim(d)


def value_info(name, shape, elem=1):
    return Proto(name=name, type=Proto(tensor_type=Proto(elem_type=elem, shape=Proto(dim=RepField(dim(d) for d in shape)))))


def node_proto(op, name, inputs, outputs, attrs):
    return Proto(op_type=op, name=name, input=RepField(inputs), output=RepField(outputs), attribute=RepField(AttributeProto(k, v) for k, v in attrs.items()),
                 domain='', doc_string='')


def eliminate_nop_dropout(g):
    """the optimizer's pass: the input of a Dropout of ratio 0 takes the place of its outputs, and the name of one that is a network output"""
    for n in list(g.node):
        if n.op_type != 'Dropout' or not any(a.name == 'ratio' and a.f_ == 0.0 for a in n.attribute):
            continue
        g.node.remove(n)
        new = n.input[0]
        for o in n.output:
            if any(v.name == o for v in g.output):
                for k in g.node:
                    k.output[:] = [o if x == new else x for x in k.output]
                    k.input[:] = [o if x == new else x for x in k.input]
                new = o
            else:
                for k in g.node:
                    k.input[:] = [new if x == o else x for x in k.input]


def onnx_modules(shape_of):
    """shape_of(model): fills in value_info"""
    NH = mod('onnx.numpy_helper', to_array=lambda t: t.arr if isinstance(t, Tensor) else und('numpy_helper.to_array'),
             from_array=lambda a, name='': Tensor(name, a))
    H = mod('onnx.helper', get_attribute_value=lambda a: a.value, tensor_dtype_to_np_dtype=lambda t: FLOAT32)
    B = type('BackendRep', (object,), {})
    BB = mod('onnx.backend.base', BackendRep=B, Backend=type('Backend', (object,), {}), Device=type('Device', (object,), {}))

    def ident(m, *a, **k):
        return m
    ck = mod('onnx.checker', check_model=lambda *a, **k: None, check_graph=lambda *a, **k: None, ValidationError=type('ValidationError', (Exception,), {}))
    si = mod('onnx.shape_inference', infer_shapes=lambda m, *a, **k: shape_of(m))
    def optimize(m, passes=None, *a, **k):
        if passes is None or 'eliminate_nop_dropout' in passes:
            eliminate_nop_dropout(m.graph)
        return m
    opt = mod('onnx.optimizer', optimize=optimize, get_available_passes=lambda: [])
    ut = mod('onnx.utils', polish_model=ident)
    be = mod('onnx.backend', base=BB)
    tp = mod('onnx.TensorProto', FLOAT=1, INT32=6, INT64=7, DOUBLE=11, UNDEFINED=0)
    o = mod('onnx', numpy_helper=NH, helper=H, checker=ck, shape_inference=si, optimizer=opt, utils=ut, backend=be, AttributeProto=AttributeProto, TensorProto=tp,
            ModelProto=Proto, GraphProto=Proto, NodeProto=Proto, ValueInfoProto=Proto, save=lambda *a, **k: None, save_model=lambda *a, **k: None,
            load=lambda *a: und('onnx.load'), mapping=mod('onnx.mapping'))
    return {'onnx': o, 'onnx.numpy_helper': NH, 'onnx.helper': H, 'onnx.backend': be, 'onnx.backend.base': BB, 'onnx.checker': ck, 'onnx.shape_inference': si,
            'onnx.optimizer': opt, 'onnx.utils': ut, 'onnxoptimizer': opt, 'onnx.mapping': o.mapping}


def und(w):
    raise Undecided(w)


# ------------------------------------------------------------------- the rest
class Logger:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def sys_module():
    s = Proto2()
    return mod('sys', exit=do_exit, stderr=s, stdout=s, argv=['onnx_to_pico_cnn.py'], path=[], byteorder='little', version_info=(3, 8, 0, 'final', 0), maxsize=2 ** 63 - 1,
               platform='linux', modules={}, float_info=__import__('sys').float_info, version='3.8.0')


class Proto2:
    def write(self, x):
        return len(x)

    def flush(self):
        pass


def builtin(it, fs):
    def prn(*a, **k):
        for x in a:
            str(x)
        f = k.get('file')
        if isinstance(f, WFile):
            f.write(k.get('sep', ' ').join(str(x) for x in a) + k.get('end', '\n'))

    def rnd(x, n=None):
        if isinstance(x, AbsArray) and x.size == 1:
            x = x.item()
        if isinstance(x, Sym):
            return Sym('op', 'round', x.key, n if isinstance(n, int) else 0)
        return round(x, n) if n is not None else round(x)

    def flt(x=0.0):
        return x if isinstance(x, Sym) else x.item() if isinstance(x, AbsArray) and x.size == 1 and isinstance(x.item(), Sym) else float(x)

    class FloatMeta(type):
        def __instancecheck__(c, o):
            return isinstance(o, (float, Sym))

        def __call__(c, *a):
            return flt(*a)

        def __eq__(c, o):
            return o is float or o is c

        def __hash__(c):
            return hash(float)

    class Float(metaclass=FloatMeta):
        fromhex = float.fromhex

    def sumf(xs, start=0):
        for x in xs:
            start = start + x
        return start

    def typ(*a):
        if len(a) == 1:
            t = type(a[0])
            return bytes if t is AbsBytes else t
        return type(*a)
    return {'open': fs.open, 'print': prn, 'exit': do_exit, 'quit': do_exit, 'bytes': BytesType, 'bytearray': AbsByteArray, 'round': rnd, 'float': Float, 'sum': sumf,
            '__file__': None, '__debug__': True}


def modules(it, fs, shape_of, jinja):
    osm, pm = os_module(fs)
    P = path_class(fs)
    log = mod('logging', getLogger=lambda *a: Logger(), basicConfig=lambda **k: None, DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50,
              **{k: (lambda *a, **kk: None) for k in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'warn')})
    import io
    np = numpy_module()
    out = {'typing': typing, 'collections': collections, 'collections.abc': collections.abc, 'functools': functools, 'itertools': itertools, 'math': math_module(), 'enum': enum,
           'dataclasses': dataclasses, 'abc': abc, 'operator': operator, 're': re, 'string': string, 'copy': copy, 'textwrap': textwrap, 'contextlib': contextlib,
           'numbers': numbers, 'types': types, 'warnings': mod('warnings', warn=lambda *a, **k: None, filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None),
           'bisect': bisect, 'heapq': heapq, 'keyword': keyword, 'typing_extensions': typing, 'builtins': mod('builtins', **it.builtins),
           'struct': struct_module(), 'os': osm, 'os.path': pm, 'pathlib': mod('pathlib', Path=P, PurePath=P, PurePosixPath=P, PosixPath=P), 'numpy': np,
           'sys': sys_module(), 'logging': log, 'io': mod('io', BytesIO=AbsBytesIO, StringIO=io.StringIO, open=fs.open),
           'argparse': mod('argparse', ArgumentParser=lambda *a, **k: und('argparse'), Namespace=types.SimpleNamespace),
           'inspect': mod('inspect', isclass=lambda x: isinstance(x, type), cleandoc=lambda s: __import__('inspect').cleandoc(s), isabstract=__import__('inspect').isabstract),
           'time': mod('time', time=lambda: 0.0, perf_counter=lambda: 0.0), 'shutil': mod('shutil'), 'six': mod('six', text_type=str, string_types=(str,)),
           'pprint': mod('pprint', pprint=lambda *a, **k: None, pformat=lambda *a, **k: ''), 'traceback': mod('traceback', print_exc=lambda *a, **k: None, format_exc=lambda *a: ''),
           '__future__': mod('__future__'), 'importlib': mod('importlib', import_module=lambda n, p=None: it.load(n))}
    out.update(onnx_modules(shape_of))
    out.update(jinja)
    for n in list(out):
        if '.' in n:
            top, _, leaf = n.rpartition('.')
            if top in out and isinstance(out[top], types.ModuleType) and leaf not in out[top].__dict__:
                out[top].__dict__[leaf] = out[n]
    return out
