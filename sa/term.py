"""Value numbers: hash-consed terms for real-valued data and conditions on it.

Addition and multiplication are n-ary and sorted (associativity and
commutativity of the reals), maxima and minima are recognised from their
conditional form.  `Eval` gives the value of a term for one assignment of the
input elements; it is used only to show that two different value numbers really
denote different functions (a witness), never to claim that they are equal."""
import math
import random

INF = float('inf')


class T:
    __slots__ = ('k', 'a', 'id', 'cond')
    tab = {}
    n = 0

    def __repr__(self):
        return show(self)


def mk(k, *a, cond=False):
    key = (k,) + tuple(('#', x.id) if type(x) is T else (type(x).__name__, x) for x in a)
    t = T.tab.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.cond = k, a, cond
        T.n += 1
        t.id = T.n
        T.tab[key] = t
    return t


def reset():
    T.tab.clear()


def const(x):
    if type(x) is float and x.is_integer() and abs(x) < 2 ** 53:
        x = int(x)
    return mk('c', x)


def is_c(t):
    return t.k == 'c'


ZERO = None


def lift(x):
    if type(x) is T:
        return x
    if x is True or x is False:
        return const(1 if x else 0)
    return const(x)


def inp(base, off):
    return mk('in', base, off)


def _key(t):
    return t.id


def add(*xs):
    c, parts = 0, []
    for x in xs:
        x = lift(x)
        if x.k == 'c':
            c = c + x.a[0]
        elif x.k == 'sum':
            for y in x.a:
                if y.k == 'c':
                    c = c + y.a[0]
                else:
                    parts.append(y)
        else:
            parts.append(x)
    if not parts:
        return const(c)
    if c != 0:
        parts.append(const(c))
    if len(parts) == 1:
        return parts[0]
    parts.sort(key=_key)
    # x + -x
    if len(parts) == 2:
        a, b = parts
        if neg(a) is b:
            return const(0)
    return mk('sum', *parts)


def neg(x):
    return mul(-1, x)


def sub(a, b):
    if a is b:
        return const(0)
    return add(a, neg(b))


def mul(*xs):
    c, parts = 1, []
    for x in xs:
        x = lift(x)
        if x.k == 'c':
            c = c * x.a[0]
        elif x.k == 'mul':
            for y in x.a:
                if y.k == 'c':
                    c = c * y.a[0]
                else:
                    parts.append(y)
        else:
            parts.append(x)
    if not parts:
        return const(c)
    if c == 0:
        return const(0)
    if len(parts) == 1 and parts[0].k == 'sum' and c == -1:
        return add(*[mul(-1, y) for y in parts[0].a])
    if c != 1:
        parts.append(const(c))
    if len(parts) == 1:
        return parts[0]
    parts.sort(key=_key)
    return mk('mul', *parts)


def div(a, b):
    a, b = lift(a), lift(b)
    if b.k == 'c' and b.a[0] not in (0, INF, -INF):
        if a.k == 'c':
            return const(a.a[0] / b.a[0])
        return mul(a, 1.0 / b.a[0]) if b.a[0] not in (1, -1) else mul(a, b)
    if a is b and b.k != 'c':
        return const(1)
    return mk('div', a, b)


def fn(name, *xs):
    xs = [lift(x) for x in xs]
    if all(x.k == 'c' for x in xs):
        v = apply_fn(name, [x.a[0] for x in xs])
        if v is not None and v == v:
            return const(v)
    if name == 'pow' and xs[1].k == 'c':
        e = xs[1].a[0]
        if e == 2:
            return mul(xs[0], xs[0])
        if e == 1:
            return xs[0]
        if e == 0.5:
            return fn('sqrt', xs[0])
        if e == -1:
            return div(1, xs[0])
    return mk('fn', name, *xs)


def maximum(*xs):
    s, c = {}, None
    for x in xs:
        x = lift(x)
        for y in (x.a if x.k == 'max' else (x,)):
            if y.k == 'c':
                c = y.a[0] if c is None else max(c, y.a[0])
            else:
                s[y.id] = y
    if not s:
        return const(c)
    if c == INF:
        return const(INF)
    ps = list(s.values())
    if c is not None and c != -INF:
        ps.append(const(c))
    if len(ps) == 1:
        return ps[0]
    ps.sort(key=_key)
    return mk('max', *ps)


def minimum(*xs):
    s, c = {}, None
    for x in xs:
        x = lift(x)
        for y in (x.a if x.k == 'min' else (x,)):
            if y.k == 'c':
                c = y.a[0] if c is None else min(c, y.a[0])
            else:
                s[y.id] = y
    if not s:
        return const(c)
    if c == -INF:
        return const(-INF)
    ps = list(s.values())
    if c is not None and c != INF:
        ps.append(const(c))
    if len(ps) == 1:
        return ps[0]
    ps.sort(key=_key)
    return mk('min', *ps)


# conditions: True / False or a T with cond=True -----------------------------
def lt(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return False
    if a.k == 'c' and b.k == 'c':
        return a.a[0] < b.a[0]
    if a.k == 'c' and a.a[0] in (INF, -INF):
        return a.a[0] < 0
    if b.k == 'c' and b.a[0] in (INF, -INF):
        return b.a[0] > 0
    return mk('lt', a, b, cond=True)


def le(a, b):
    a, b = lift(a), lift(b)
    if a.k == 'c' and b.k == 'c':
        return a.a[0] <= b.a[0]
    if a.k == 'c' and a.a[0] == -INF or b.k == 'c' and b.a[0] == INF:
        return True
    if a.k == 'c' and a.a[0] == INF or b.k == 'c' and b.a[0] == -INF:
        return False
    return mk('le', a, b, cond=True)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return True
    if a.k == 'c' and b.k == 'c':
        return a.a[0] == b.a[0]
    if a.k == 'c' and a.a[0] in (INF, -INF) or b.k == 'c' and b.a[0] in (INF, -INF):
        return False
    if b.id < a.id:
        a, b = b, a
    return mk('eq', a, b, cond=True)


def fpclass(v, mask):
    """class test of a floating-point value (mask as in llvm.is.fpclass)"""
    v = lift(v)
    if v.k == 'c':
        return in_class(v.a[0], mask)
    return mk('fpc', mask, v, cond=True)


def in_class(x, mask):
    if x != x:
        return bool(mask & 3)
    if x in (INF, -INF):
        b = 9 if x > 0 else 2
    elif x == 0:
        b = 5 if math.copysign(1, x) < 0 else 6
    else:
        b = (8 if x > 0 else 3) if abs(x) >= 2.0 ** -126 else (7 if x > 0 else 4)
    return bool(mask >> b & 1)


def c_not(c):
    if c is True or c is False:
        return not c
    if c.k == 'not':
        return c.a[0]
    return mk('not', c, cond=True)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True or a is b:
        return a
    if c_not(a) is b:
        return False
    if b.id < a.id:
        a, b = b, a
    return mk('and', a, b, cond=True)


def c_or(a, b):
    return c_not(c_and(c_not(a), c_not(b)))


def sel(c, a, b):
    """numeric conditional"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if (a is True or a is False or (type(a) is T and a.cond)) and (b is True or b is False or (type(b) is T and b.cond)):
        return c_or(c_and(c, a), c_and(c_not(c), b))
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if c.k == 'not':
        c, a, b = c.a[0], b, a
    if c.k == 'lt' or c.k == 'le':
        x, y = c.a
        if a is y and b is x:
            return maximum(x, y)
        if a is x and b is y:
            return minimum(x, y)
        # clamps to a constant interval
        if a is y and y.k == 'c' and b.k == 'min' and len(b.a) == 2 and x in b.a and any(z.k == 'c' and z.a[0] >= y.a[0] for z in b.a):
            return minimum(maximum(x, y), *[z for z in b.a if z.k == 'c'])
        if a is x and x.k == 'c' and b.k == 'max' and len(b.a) == 2 and y in b.a and any(z.k == 'c' and z.a[0] <= x.a[0] for z in b.a):
            return minimum(maximum(y, *[z for z in b.a if z.k == 'c']), x)
    if a.k == 'sel' and a.a[0] is c:
        a = a.a[1]
    if b.k == 'sel' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('sel', c, a, b)


def apply_fn(name, v):
    try:
        if name == 'exp':
            return math.exp(v[0])
        if name == 'sqrt':
            return math.sqrt(v[0])
        if name == 'pow':
            return math.pow(v[0], v[1])
        if name == 'tanh':
            return math.tanh(v[0])
        if name == 'log':
            return math.log(v[0])
        if name == 'abs':
            return abs(v[0])
        if name == 'floor':
            return float(math.floor(v[0]))
        if name == 'ceil':
            return float(math.ceil(v[0]))
        if name == 'round':
            return float(math.floor(abs(v[0]) + .5)) * (1 if v[0] >= 0 else -1)
        if name == 'trunc':
            return math.trunc(v[0])
        if name == 'exp2':
            return 2.0 ** v[0]
        if name in ('cosh', 'sinh', 'log1p', 'expm1'):
            return getattr(math, name)(v[0])
        if name == 'frem':
            return math.fmod(v[0], v[1])
        if name == 'bswap32':
            return int.from_bytes((int(v[0]) & 0xffffffff).to_bytes(4, 'little'), 'big')
    except (OverflowError,):
        return INF
    except (ValueError, ZeroDivisionError):
        return float('nan')
    return None


class Opaque(Exception):
    pass


class Eval:
    """value of terms under one assignment of the input elements"""

    def __init__(self, profile, seed):
        self.profile, self.seed = profile, seed
        self.memo = {}
        self.inputs = {}

    def data(self, base, off):
        v = self.inputs.get((base, off))
        if v is None:
            r = random.Random('%s|%s|%s|%s' % (self.seed, self.profile, base, off))
            if type(base) is str and base.startswith(('byte:', 'text:')):
                v = r.randrange(256) if base[0] == 'b' else r.randrange(32, 127)
            else:
                v = PROFILES[self.profile](r, base)
            self.inputs[(base, off)] = v
        return v

    def __call__(self, t):
        if t is True or t is False or type(t) is not T:
            return t
        m = self.memo
        if t.id in m:
            return m[t.id]
        # iterative post-order
        st = [t]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            todo = [y for y in x.a if type(y) is T and y.id not in m]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            m[x.id] = self.one(x)
        return m[t.id]

    def one(self, x):
        k, a, m = x.k, x.a, self.memo
        if k == 'c':
            return a[0]
        if k == 'in':
            return self.data(a[0], a[1])
        if k in ('opq', 'undef'):
            return None
        v = [m[y.id] if type(y) is T else y for y in a]
        if k == 'sel':
            if v[0] is None:
                return None
            return v[1] if v[0] else v[2]
        if None in v:
            return None
        try:
            if k == 'sum':
                return math.fsum(v) if all(abs(z) < 1e300 for z in v) else sum(v)
            if k == 'mul':
                r = 1
                for z in v:
                    r *= z
                return r
            if k == 'div':
                if v[1] == 0:
                    return float('nan') if v[0] == 0 or v[0] != v[0] else math.copysign(INF, v[0])
                return v[0] / v[1]
            if k == 'max':
                return max(v)
            if k == 'min':
                return min(v)
            if k == 'lt':
                return v[0] < v[1]
            if k == 'le':
                return v[0] <= v[1]
            if k == 'eq':
                return v[0] == v[1]
            if k == 'not':
                return not v[0]
            if k == 'and':
                return bool(v[0] and v[1])
            if k == 'fn':
                return apply_fn(v[0], v[1:])
            if k == 'iop':
                return iop(v[0], v[1], int(v[2]), int(v[3]))
            if k == 'icmp':
                return icmp(v[0], v[1], int(v[2]), int(v[3]))
            if k == 'fpc':
                return in_class(v[1], v[0])
            if k == 'fptoi':
                z = v[1]
                if z != z or z in (INF, -INF):
                    return None
                return math.trunc(z) & ((1 << v[0]) - 1)
            if k == 'itofp':
                z = int(v[2])
                if v[1]:
                    w = v[0]
                    z &= (1 << w) - 1
                    if z >> (w - 1):
                        z -= 1 << w
                return float(z)
        except OverflowError:
            return float('nan')
        return None


def iop(op, w, a, b):
    M = (1 << w) - 1
    a &= M
    b &= M

    def s(x):
        return x - (1 << w) if x >> (w - 1) else x
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
        return None
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    if op == 'sdiv':
        q = abs(s(a)) // abs(s(b))
        return (q if (s(a) < 0) == (s(b) < 0) else -q) & M
    if op == 'srem':
        r = abs(s(a)) % abs(s(b))
        return (r if s(a) >= 0 else -r) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & M if b < w else None
    if op == 'lshr':
        return a >> b if b < w else None
    if op == 'ashr':
        return (s(a) >> b) & M if b < w else None
    if op == 'sext':
        return s(a)
    raise KeyError(op)


def icmp(pred, w, a, b):
    M = (1 << w) - 1
    a &= M
    b &= M
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 's':
        a = a - (1 << w) if a >> (w - 1) else a
        b = b - (1 << w) if b >> (w - 1) else b
    r = pred[1:]
    return a < b if r == 'lt' else a <= b if r == 'le' else a > b if r == 'gt' else a >= b


def _pos(base):
    return 'variance' in base or base in ('alpha', 'beta', 'epsilon')


PROFILES = {
    'normal': lambda r, b: abs(r.gauss(0, 1)) + .1 if _pos(b) else r.gauss(0, 1),
    'negative': lambda r, b: abs(r.gauss(0, 1)) + .1 if _pos(b) else -abs(r.gauss(0, 2)) - .25,
    'positive': lambda r, b: abs(r.gauss(0, 2)) + .25,
    'ties': lambda r, b: float(r.choice((1, 1, 2))) if _pos(b) else float(r.choice((-1, 0, 0, 1, 2))),
    'hugeneg': lambda r, b: abs(r.gauss(0, 1)) + .1 if _pos(b) else -1e30 * (1 + r.random()),
    'scale': lambda r, b: abs(r.gauss(0, 1)) + .1 if _pos(b) else r.gauss(0, 1) * 10 ** r.choice((-3, 0, 1, 2)),
}


ATOL = {'hugeneg': 1e21}
CONSTS = []


def _consts(r, b):
    if _pos(b):
        return abs(r.gauss(0, 1)) + .1
    if not CONSTS:
        return r.gauss(0, 3)
    c = r.choice(CONSTS)
    return r.choice((c, c * 1.25 + .1, c * .75 - .1, c + r.gauss(0, 1), -c))


PROFILES['consts'] = _consts


def differ(a, b, atol=1e-9):
    """do two values differ beyond what reordering real arithmetic explains?"""
    if a is None or b is None:
        return False
    if a is True or a is False or b is True or b is False:
        return bool(a) != bool(b)
    if a != a or b != b:
        return False
    if a in (INF, -INF) or b in (INF, -INF):
        return a != b and not (abs(a) > 1e37 and abs(b) > 1e37 and (a > 0) == (b > 0))
    return abs(a - b) > 1e-5 * max(abs(a), abs(b)) + atol


def show(t, d=5):
    if type(t) is not T:
        return str(t)
    if d == 0:
        return '..'
    k, a = t.k, t.a

    def s(x):
        return show(x, d - 1)
    if k == 'c':
        return '%g' % a[0] if type(a[0]) is float else str(a[0])
    if k == 'in':
        return '%s[%s]' % (a[0].replace('.data', ''), a[1] // 4 if type(a[1]) is int and a[1] % 4 == 0 else a[1])
    if k in ('sum', 'mul'):
        j = ' + ' if k == 'sum' else '*'
        xs = [s(x) for x in a[:8]]
        return '(' + j.join(xs) + (' ..%d more' % (len(a) - 8) if len(a) > 8 else '') + ')'
    if k == 'sel':
        return '(%s ? %s : %s)' % tuple(s(x) for x in a)
    return '%s(%s)' % (k if k != 'fn' else a[0], ', '.join(s(x) for x in (a[1:] if k == 'fn' else a)[:8]))


def leaves(t, kinds):
    """all sub-terms of the given kinds"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if type(x) is not T or x.id in seen:
            continue
        seen.add(x.id)
        if x.k in kinds:
            out.append(x)
        st.extend(x.a)
    return out
