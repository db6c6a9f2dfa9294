"""Symbolic values for the static engine: polynomials over interned atoms,
conditions, and a small bound prover.  Numbers are mathematical integers /
reals (machine wrap-around is modelled explicitly where the engine cannot
exclude it; NaN is not modelled)."""
from fractions import Fraction
import itertools
import random
import math

INF = float('inf')


# --------------------------------------------------------------------------
# atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'isint', 'free', 'height', 'deps')
    table = {}
    by_id = []

    def __repr__(self):
        return atom_str(self)


def atom(kind, *args, isint=False):
    key = (kind, args, isint)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom.by_id)
        a.kind, a.args, a.isint = kind, args, isint
        fr, h = set(), 0
        for x in args:
            f, hh = _free_of(x)
            fr |= f
            h = max(h, hh)
        if kind in ('sum', 'maxr'):
            binders = args[0]
            h = h + len(binders)
            for b, n in binders:
                fr.discard(b)
        elif kind == 'sym':
            fr = {a}
        elif kind == 'bind':
            fr = {a}
        elif kind == 'carry':
            fr.add(args[0])
        a.free = frozenset(fr)
        a.height = h
        Atom.table[key] = a
        Atom.by_id.append(a)
    return a


def _free_of(x):
    if isinstance(x, Poly):
        return x.free, x.height
    if isinstance(x, Cond):
        return x.free, x.height
    if isinstance(x, Atom):
        return x.free, x.height
    if callable(x):
        return frozenset(), 0
    if isinstance(x, (tuple, frozenset)):
        fr, h = set(), 0
        for y in x:
            f, hh = _free_of(y)
            fr |= f
            h = max(h, hh)
        return fr, h
    return frozenset(), 0


# --------------------------------------------------------------------------
# polynomials
class Poly:
    __slots__ = ('terms', 'key', '_h', 'free', 'height', 'isint')
    table = {}

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __add__(self, o):
        o = P(o)
        if not self.terms:
            return o
        if not o.terms:
            return self
        t = dict(self.terms)
        for m, c in o.terms.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
        return mk(t)

    __radd__ = __add__

    def __neg__(self):
        return mk({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.terms or not o.terms:
            return ZERO
        if len(self.terms) == 1 and () in self.terms:
            c = self.terms[()]
            if c == 1:
                return o
            return mk({m: v * c for m, v in o.terms.items()})
        if len(o.terms) == 1 and () in o.terms:
            return o * self
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m, cc = mono_mul(m1, m2)
                v = t.get(m, 0) + c1 * c2 * cc
                if v == 0:
                    t.pop(m, None)
                else:
                    t[m] = v
        return mk(t)

    __rmul__ = __mul__

    def const(self):
        """the constant value or None"""
        if not self.terms:
            return 0
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def atoms(self):
        s = set()
        for m in self.terms:
            s.update(m)
        return [Atom.by_id[i] for i in s]

    def __repr__(self):
        return poly_str(self)


def mono_mul(m1, m2):
    """product of monomials; x * (1/x) cancels"""
    m = list(m1) + list(m2)
    m.sort()
    inv = [i for i in m if Atom.by_id[i].kind == 'inv']
    for i in inv:
        base = Atom.by_id[i].args[0]
        if len(base.terms) == 1:
            (bm, bc), = base.terms.items()
            if bc == 1 and len(bm) == 1 and bm[0] in m and i in m:
                m.remove(bm[0])
                m.remove(i)
    return tuple(m), 1


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mk(t):
    t = {m: _norm(c) for m, c in t.items() if c != 0}
    key = tuple(sorted(t.items(), key=lambda kv: kv[0]))
    p = Poly.table.get(key)
    if p is None:
        p = Poly()
        p.terms = t
        p.key = key
        p._h = hash(key)
        fr, h, isint = set(), 0, True
        for m, c in t.items():
            if not isinstance(c, int):
                isint = False
            for i in m:
                a = Atom.by_id[i]
                fr |= a.free
                h = max(h, a.height)
                isint = isint and a.isint
        p.free, p.height, p.isint = frozenset(fr), h, isint
        Poly.table[key] = p
    return p


ZERO = mk({})
ONE = mk({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return mk({(): x})
    if isinstance(x, float):
        if x in (INF, -INF) or x != x:
            return A(atom('fconst', repr(x)))
        return mk({(): Fraction(x)})
    if isinstance(x, Atom):
        return mk({(x.id,): 1})
    raise TypeError(repr(x))


def A(a):
    return mk({(a.id,): 1})


def sym(name, isint=True):
    return A(atom('sym', name, isint=isint))


def single_atom(p):
    """p == 1*atom -> atom else None"""
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1:
            return Atom.by_id[m[0]]
    return None


# --------------------------------------------------------------------------
# conditions
class Cond:
    __slots__ = ('kind', 'arg', 'free', 'height', '_h', 'cid')
    table = {}

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return cond_str(self)


def _cond(kind, arg):
    key = (kind, arg)
    c = Cond.table.get(key)
    if c is None:
        c = Cond()
        c.kind, c.arg = kind, arg
        c._h = hash(key)
        fr, c.height = _free_of(arg)
        if kind == 'ex':
            fr = set(fr)
            fr.discard(arg[0])
            c.height += 1
        c.free = frozenset(fr)
        c.cid = len(Cond.table)
        Cond.table[key] = c
    return c


TRUE = _cond('const', True)
FALSE = _cond('const', False)


def B(x):
    return TRUE if x else FALSE


def _scale_int(p, strict):
    g = 0
    for m, c in p.terms.items():
        if m != ():
            g = math.gcd(g, abs(c))
    if g > 1:
        t = {}
        for m, c in p.terms.items():
            t[m] = (c // g)  # floor: valid for p >= 0 over integers
        p = mk(t)
    return p


def _scale_real(p):
    lead = None
    for m, c in p.key:
        if m != ():
            lead = abs(c)
            break
    if lead and lead != 1:
        p = mk({m: Fraction(c) / lead for m, c in p.terms.items()})
    return p


def ge0(p):
    """p >= 0"""
    p = P(p)
    c = p.const()
    if c is not None:
        return B(c >= 0)
    if p.isint:
        p = _scale_int(p, False)
        if prove_ge0(p):
            return TRUE
        if prove_ge0(-p - 1):
            return FALSE
        return _cond('ge', p)
    p = _scale_real(p)
    if prove_ge0(p):
        return TRUE
    return _cond('ge', p)


def gt0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return B(c > 0)
    if p.isint:
        return ge0(p - 1)
    p = _scale_real(p)
    if prove_ge0(-p):
        return FALSE
    return _cond('gt', p)


def _signnorm(p):
    for m, c in p.key:
        if m != ():
            return -p if c < 0 else p
    return p


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return B(c == 0)
    p = _signnorm(p)
    if p.isint:
        if prove_ge0(p - 1) or prove_ge0(-p - 1):
            return FALSE
        if prove_ge0(p) and prove_ge0(-p):
            return TRUE
        # x*y - x*c  with x>0 : y == c
    return _cond('eq', p)


def c_not(c):
    k = c.kind
    if k == 'const':
        return B(not c.arg)
    if k == 'ge':
        if c.arg.isint:
            return ge0(-c.arg - 1)
        return _cond('gt', _scale_real(-c.arg))
    if k == 'gt':
        return _cond('ge', _scale_real(-c.arg))
    if k == 'eq':
        return _cond('ne', c.arg)
    if k == 'ne':
        return _cond('eq', c.arg)
    if k == 'and':
        return c_or(*[c_not(x) for x in c.arg])
    if k == 'or':
        return c_and(*[c_not(x) for x in c.arg])
    if k == 'not':
        return c.arg
    return _cond('not', c)


def c_and(*cs):
    s = set()
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.kind == 'and':
            s |= c.arg
        else:
            s.add(c)
    for c in list(s):
        if c_not_quick(c) in s:
            return FALSE
    # absorb: a and (a or b) = a ; a and (not a or b) = a and b
    changed = True
    while changed:
        changed = False
        for c in list(s):
            if c.kind == 'or':
                rest = s - {c}
                if c.arg & rest:
                    s.discard(c)
                    changed = True
                    break
                drop = {x for x in c.arg if c_not_quick(x) in rest}
                if drop:
                    s.discard(c)
                    n = c_or(*(c.arg - drop))
                    if n is FALSE:
                        return FALSE
                    if n is not TRUE:
                        s |= n.arg if n.kind == 'and' else {n}
                    changed = True
                    break
    s = _prune_ge(s, True)
    if s is None:
        return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _cond('and', frozenset(s))


def _prune_ge(s, conj):
    """integer comparisons that differ by a constant: keep the tighter (and) or
    looser (or); spot contradictions."""
    ge = {}
    out = set()
    for c in s:
        if c.kind == 'ge' and c.arg.isint:
            k = c.arg.terms.get((), 0)
            body = c.arg - k
            if body in ge:
                ge[body] = min(ge[body], k) if conj else max(ge[body], k)
            else:
                ge[body] = k
        else:
            out.add(c)
    for b, k in ge.items():
        nb = -b
        if nb in ge:
            # b + k >= 0 and -b + k2 >= 0  -> -k <= b <= k2
            if conj and k + ge[nb] < 0:
                return None
            if not conj and k + ge[nb] >= -1:
                return None
        out.add(_cond('ge', b + k))
    if conj:
        # eq/ne against ge with the same body
        for c in list(out):
            if c.kind == 'ne':
                b = c.arg - c.arg.terms.get((), 0)
                k = c.arg.terms.get((), 0)
                for bb, sgn in ((b, 1), (-b, -1)):
                    if bb in ge:
                        # bb + g >= 0 ; excluded value bb == -sgn*k
                        if -ge[bb] == -sgn * k:
                            out.discard(c)
                            out.discard(_cond('ge', bb + ge[bb]))
                            ge[bb] -= 1
                            out.add(_cond('ge', bb + ge[bb]))
            elif c.kind == 'eq':
                b = c.arg - c.arg.terms.get((), 0)
                k = c.arg.terms.get((), 0)
                for bb, sgn in ((b, 1), (-b, -1)):
                    if bb in ge:
                        if -sgn * k + ge[bb] < 0:
                            return None
                        out.discard(_cond('ge', bb + ge[bb]))
    return out


def c_not_quick(c):
    k = c.kind
    if k == 'ge':
        if c.arg.isint:
            return Cond.table.get(('ge', _scale_int(-c.arg - 1, False)))
        return Cond.table.get(('gt', _scale_real(-c.arg)))
    if k == 'gt':
        return Cond.table.get(('ge', _scale_real(-c.arg)))
    if k == 'eq':
        return Cond.table.get(('ne', c.arg))
    if k == 'ne':
        return Cond.table.get(('eq', c.arg))
    if k == 'not':
        return c.arg
    return Cond.table.get(('not', c)) if k not in ('and', 'or') else c_not(c)


def c_or(*cs):
    s = set()
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.kind == 'or':
            s |= c.arg
        else:
            s.add(c)
    # factor:  (a & b) | (a & !b) -> a ;   a | (a & b) -> a ;  a | (!a & b) -> a | b
    changed = True
    while changed:
        changed = False
        lst = sorted(s, key=lambda c: c.cid)
        for i, x in enumerate(lst):
            xs = x.arg if x.kind == 'and' else frozenset([x])
            for y in lst[i + 1:]:
                ys = y.arg if y.kind == 'and' else frozenset([y])
                if xs <= ys:
                    s.discard(y)
                    changed = True
                    break
                if ys <= xs:
                    s.discard(x)
                    changed = True
                    break
                dx, dy = xs - ys, ys - xs
                n = None
                if len(dx) == 1 and len(dy) == 1 and c_not(next(iter(dx))) is next(iter(dy)):
                    n = c_and(*(xs & ys))
                elif len(dx) == 1 and c_not(next(iter(dx))) in dy:
                    n2 = c_and(*(ys - {c_not(next(iter(dx)))}))
                    if n2 is not y:
                        s.discard(y)
                        s |= (n2.arg if n2.kind == 'or' else {n2})
                        changed = True
                        break
                elif len(dy) == 1 and c_not(next(iter(dy))) in dx:
                    n2 = c_and(*(xs - {c_not(next(iter(dy)))}))
                    if n2 is not x:
                        s.discard(x)
                        s |= (n2.arg if n2.kind == 'or' else {n2})
                        changed = True
                        break
                if n is not None:
                    s.discard(x)
                    s.discard(y)
                    if n is TRUE:
                        return TRUE
                    s |= (n.arg if n.kind == 'or' else {n})
                    changed = True
                    break
            if changed:
                break
    s = _prune_ge(s, False)
    if s is None:
        return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return _cond('or', frozenset(s))


def opaque_cond(tag):
    return _cond('op', tag)


def exists(binder_sym, n, c):
    """exists binder in [0,n): c"""
    s = single_atom(binder_sym)
    if c is FALSE:
        return FALSE
    if s not in c.free:
        return c_and(gt0(n), c)
    h = c.height + 1
    b = atom('bind', h, isint=True)
    c2 = c.subst_map({s: A(b)}) if False else subst_c(c, {s: A(b)})
    return _cond('ex', (b, n, c2))


def implies(a, b):
    """syntactic: a implies b"""
    if b is TRUE or a is FALSE or a is b:
        return True
    sa = a.arg if a.kind == 'and' else frozenset([a])
    sb = b.arg if b.kind == 'and' else frozenset([b])
    if sb <= sa:
        return True
    if b.kind == 'or' and (b.arg & sa):
        return True
    return c_and(a, c_not(b)) is FALSE


# --------------------------------------------------------------------------
# constructors of compound atoms
def mk_sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    # min / max
    if c.kind in ('ge', 'gt'):
        d = a - b
        if d.isint:
            for k in (0, -1):
                if c.arg is _scale_int(d + k, False) and _scale_int(d + k, False) is d + k:
                    return mk_max(a, b)
                if c.arg is -d + k:
                    return mk_min(a, b)
        else:
            sd = _scale_real(d)
            if c.arg is sd:
                return mk_max(a, b)
            if c.arg is -sd:
                return mk_min(a, b)
    # nested select on the same condition
    aa, ba = single_atom(a), single_atom(b)
    if aa is not None and aa.kind == 'sel' and aa.args[0] is c:
        return mk_sel(c, aa.args[1], b)
    if ba is not None and ba.kind == 'sel' and ba.args[0] is c:
        return mk_sel(c, a, ba.args[2])
    if ba is not None and ba.kind == 'sel' and ba.args[1] is a:
        return mk_sel(c_or(c, ba.args[0]), a, ba.args[2])
    if aa is not None and aa.kind == 'sel' and aa.args[2] is b:
        return mk_sel(c_and(c, aa.args[0]), aa.args[1], b)
    # canonical polarity
    nc = c_not(c)
    if nc.kind == 'ne' or (c.kind not in ('and',) and nc.kind == 'and') or \
            (nc.kind == c.kind and nc.cid < c.cid) or (c.kind == 'ne'):
        if c.kind == 'ne' or c.kind == 'or' or (nc.kind == c.kind and nc.cid < c.cid and c.kind != 'eq'):
            return A(atom('sel', nc, b, a, isint=a.isint and b.isint))
    return A(atom('sel', c, a, b, isint=a.isint and b.isint))


def _mm_args(kind, ps):
    out = []
    for p in ps:
        a = single_atom(p)
        if a is not None and a.kind == kind:
            out.extend(a.args[0])
        else:
            out.append(p)
    return out


def _mm(kind, ps):
    args = _mm_args(kind, ps)
    uniq = []
    for p in args:
        if p not in uniq:
            uniq.append(p)
    keep = []
    for i, p in enumerate(uniq):
        dom = False
        for j, q in enumerate(uniq):
            if i == j:
                continue
            d = (q - p) if kind == 'max' else (p - q)
            if prove_ge0(d) and not (j > i and prove_ge0(-d)):
                dom = True
                break
        if not dom:
            keep.append(p)
    keep = absorb_red(kind, keep)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda p: p.key)
    return A(atom(kind, tuple(keep), isint=all(p.isint for p in keep)))


def absorb_red(kind, args):
    """max(e, max_j body(j)) = max_j body(j) when e is body at some j in range"""
    if kind != 'max' or len(args) < 2:
        return args
    out = []
    for p in args:
        drop = False
        for q in args:
            if q is p:
                continue
            a = single_atom(q)
            if a is not None and a.kind == 'maxr':
                binders, body = a.args
                m = {b: ZERO for b, n in binders}
                if subst(body, m) is p and all(prove_ge0(subst(n, m) - 1) for b, n in binders):
                    drop = True
                    break
        if not drop:
            out.append(p)
    return out


def mk_max(*ps):
    return _mm('max', [P(p) for p in ps])


def mk_min(*ps):
    return _mm('min', [P(p) for p in ps])


def mk_fn(name, *args):
    args = tuple(P(a) for a in args)
    return A(atom('fn', name, args))


def mk_inv(p):
    """1/p over the reals"""
    c = p.const()
    if c is not None:
        if c == 0:
            return A(atom('fconst', 'inf'))
        return P(Fraction(1) / c)
    # pull out monomial content
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        r = P(Fraction(1) / c)
        for i in m:
            a = Atom.by_id[i]
            if a.kind == 'inv':
                r = r * a.args[0]
            else:
                r = r * A(atom('inv', A(a)))
        return r
    lead = p.key[0][1]
    q = p * (Fraction(1) / lead)
    return A(atom('inv', q)) * (Fraction(1) / lead)


def mk_div(a, b):
    return a * mk_inv(b)


def poly_divmod(p, q):
    """multivariate division of p by q; quotient and remainder with respect to
    q's lexicographically greatest monomial (integers only when exact)."""
    if not q.terms:
        return None
    # leading term: highest degree, then key
    lm = max(q.terms, key=lambda m: (len(m), m))
    lc = q.terms[lm]
    quo, rem = ZERO, ZERO
    work = p
    steps = 0
    while work.terms and steps < 200:
        steps += 1
        hit = None
        for m in sorted(work.terms, key=lambda m: (len(m), m), reverse=True):
            r = mono_div(m, lm)
            if r is not None and work.terms[m] % lc == 0:
                hit = (m, r)
                break
        if hit is None:
            break
        m, r = hit
        t = mk({r: work.terms[m] // lc if isinstance(work.terms[m], int) and isinstance(lc, int)
                else Fraction(work.terms[m]) / lc})
        quo = quo + t
        work = work - t * q
    return quo, work


def mono_div(m, d):
    m = list(m)
    for x in d:
        if x in m:
            m.remove(x)
        else:
            return None
    return tuple(m)


def mk_floordiv(p, q):
    """floor(p/q), q > 0 assumed"""
    p, q = P(p), P(q)
    cp, cq = p.const(), q.const()
    if cq is not None and cp is not None and cq != 0:
        return P(cp // cq)
    if cq == 1:
        return p
    if p is ZERO:
        return ZERO
    if cq is not None and cq > 0:
        t, r = {}, {}
        for m, c in p.terms.items():
            t[m] = c // cq
            r[m] = c % cq
        quo, rem = mk(t), mk(r)
    else:
        quo, rem = poly_divmod(p, q)
    if rem is ZERO:
        return quo
    if prove_ge0(rem) and prove_ge0(q - rem - 1):
        return quo
    if rem is not p:
        return quo + mk_floordiv(rem, q)
    d = FACTS.fdef.get((p, q))
    if d is not None:
        return d
    # canonical: remainder with constant in (-q, 0] ambiguous; keep as is
    return A(atom('fdiv', p, q, isint=True))


def mk_mod(p, q):
    return p - P(q) * mk_floordiv(p, q)


def ceildiv(p, q):
    return mk_floordiv(P(p) + P(q) - 1, q)


def mk_sum(s, n, body):
    """sum_{s in [0,n)} body   (s: Atom)"""
    if body is ZERO:
        return ZERO
    if s not in body.free:
        return n * body
    out = ZERO
    groups = {}
    for m, c in body.terms.items():
        dep = tuple(i for i in m if s in Atom.by_id[i].free)
        ind = tuple(i for i in m if s not in Atom.by_id[i].free)
        if not dep:
            out = out + n * mk({m: c})
        else:
            groups.setdefault(dep, {})
            groups[dep][ind] = groups[dep].get(ind, 0) + c
    for dep, ind in groups.items():
        out = out + mk(ind) * _sum_atom(s, n, mk({dep: 1}))
    return out


def _sum_atom(s, n, body):
    a = single_atom(body)
    binders = [(s, n)]
    inner = body
    if a is not None and a.kind == 'sum' and s not in set().union(*[x[1].free for x in a.args[0]]):
        inner = a.args[1]
        inner_b = list(a.args[0])
        # rename inner binders to temporaries
        mp = {}
        for b, nn in inner_b:
            t = fresh_bind()
            mp[b] = A(t)
        inner = subst(inner, mp)
        binders += [(single_atom(mp[b]), subst(nn, mp)) for b, nn in inner_b]
    return canon_red('sum', binders, inner)


_fresh = itertools.count(10 ** 6)


def fresh_bind():
    return atom('bind', next(_fresh), isint=True)


def canon_red(kind, binders, body):
    # every binder independent of the others' ranges here, or a single binder
    base = 0
    for b, n in binders:
        base = max(base, n.height)
    base = max(base, body.height)
    ns = [n for b, n in binders]
    dep = any(b2 in n.free for b2, _ in binders for _, n in binders)
    names = [atom('bind', base + 1 + i, isint=True) for i in range(len(binders))]
    if dep:
        perms = [tuple(range(len(binders)))]
    else:
        order = sorted(range(len(binders)), key=lambda i: ns[i].key)
        groups = []
        for i in order:
            if groups and ns[groups[-1][0]].key == ns[i].key:
                groups[-1].append(i)
            else:
                groups.append([i])
        perms = [()]
        for g in groups:
            perms = [p + q for p in perms for q in itertools.permutations(g)]
            if len(perms) > 120:
                perms = perms[:120]
    best = None
    for p in perms:
        mp = {binders[i][0]: A(names[k]) for k, i in enumerate(p)}
        bd = subst(body, mp)
        if best is None or bd.key < best[0].key:
            best = (bd, tuple((names[k], subst(ns[i], mp)) for k, i in enumerate(p)))
    bd, bs = best
    return A(atom(kind, bs, bd, isint=(bd.isint and kind == 'sum') or bd.isint))


def mk_maxr(s, n, body):
    if s not in body.free:
        return body
    a = single_atom(body)
    if a is not None and a.kind == 'max':
        return mk_max(*[mk_maxr(s, n, x) for x in a.args[0]])
    binders = [(s, n)]
    inner = body
    if a is not None and a.kind == 'maxr' and s not in set().union(*[x[1].free for x in a.args[0]]):
        inner = a.args[1]
        mp = {}
        for b, nn in a.args[0]:
            mp[b] = A(fresh_bind())
        inner = subst(inner, mp)
        binders += [(single_atom(mp[b]), subst(nn, mp)) for b, nn in a.args[0]]
    return canon_red('maxr', binders, inner)


# --------------------------------------------------------------------------
# substitution
def subst(p, m):
    """p with the atoms in m (Atom -> Poly) replaced"""
    if not m or not (p.free & m.keys()) and not _has_keyed(p, m):
        return p
    memo = {}
    return _subst(p, m, memo)


def _has_keyed(p, m):
    # placeholders are not 'sym'; they register themselves in free via kind
    return False


def _subst(p, m, memo):
    if not (p.free & m.keys()):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    plain = {}
    for mono, c in p.terms.items():
        if all(not (Atom.by_id[i].free & m.keys()) for i in mono):
            plain[mono] = c
            continue
        t = P(c)
        for i in mono:
            t = t * _subst_atom(Atom.by_id[i], m, memo)
        out = out + t
    out = out + mk(plain)
    memo[p] = out
    return out


def _subst_atom(a, m, memo):
    if a in m:
        return m[a]
    if not (a.free & m.keys()):
        return A(a)
    k = a.kind
    if k == 'sel':
        return mk_sel(_subst_c(a.args[0], m, memo), _subst(a.args[1], m, memo), _subst(a.args[2], m, memo))
    if k == 'max':
        return mk_max(*[_subst(x, m, memo) for x in a.args[0]])
    if k == 'min':
        return mk_min(*[_subst(x, m, memo) for x in a.args[0]])
    if k == 'fdiv':
        return mk_floordiv(_subst(a.args[0], m, memo), _subst(a.args[1], m, memo))
    if k == 'inv':
        return mk_inv(_subst(a.args[0], m, memo))
    if k in ('sum', 'maxr'):
        binders, body = a.args
        m2 = dict(m)
        for b, n in binders:
            m2.pop(b, None)
        ren = {}
        bs = []
        for b, n in binders:
            t = fresh_bind()
            ren[b] = A(t)
            bs.append((t, n))
        body = subst(body, ren)
        bs = [(t, subst(subst(n, ren), m2)) for t, n in bs]
        body = subst(body, m2)
        r = body
        for t, n in reversed(bs):
            r = mk_sum(t, n, r) if k == 'sum' else mk_maxr(t, n, r)
        return r
    if k == 'carry':
        off = _subst(a.args[1], m, memo)
        f = m.get(a.args[0])
        if f is not None:
            return f(off)
        return A(atom('carry', a.args[0], off, isint=a.isint))
    if k == 'ld':
        return A(atom('ld', subst_any(a.args[0], m), _subst(a.args[1], m, memo), a.args[2], isint=a.isint))
    if k == 'fn':
        from . import fold
        return fold.fn(a.args[0], [_subst(x, m, memo) for x in a.args[1]], a.isint)
    return A(atom(k, *[subst_any(x, m) for x in a.args], isint=a.isint))


def subst_any(x, m):
    if isinstance(x, Poly):
        return subst(x, m)
    if isinstance(x, Cond):
        return subst_c(x, m)
    if isinstance(x, Atom):
        return x
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


def subst_c(c, m):
    if not m or not (c.free & m.keys()):
        return c
    return _subst_c(c, m, {})


def _subst_c(c, m, memo):
    if not (c.free & m.keys()):
        return c
    k = c.kind
    if k == 'ge':
        return ge0(_subst(c.arg, m, memo))
    if k == 'gt':
        return gt0(_subst(c.arg, m, memo))
    if k == 'eq':
        return eq0(_subst(c.arg, m, memo))
    if k == 'ne':
        return c_not(eq0(_subst(c.arg, m, memo)))
    if k == 'and':
        return c_and(*[_subst_c(x, m, memo) for x in c.arg])
    if k == 'or':
        return c_or(*[_subst_c(x, m, memo) for x in c.arg])
    if k == 'not':
        return c_not(_subst_c(c.arg, m, memo))
    if k == 'ex':
        b, n, body = c.arg
        t = fresh_bind()
        body = subst_c(body, {b: A(t)})
        m2 = {x: v for x, v in m.items() if x is not b}
        return exists(A(t), subst(n, m2), subst_c(body, m2))
    if k == 'op':
        return _cond('op', subst_any(c.arg, m))
    return c


# --------------------------------------------------------------------------
# facts and the bound prover
class Facts:
    def __init__(self):
        self.lo = {}      # Atom -> int lower bound
        self.hi = {}      # Atom -> Poly upper bound (inclusive)
        self.ge = []      # Polys known >= 0
        self.fdef = {}    # (num, den) -> Poly: names given to quotients
        self.memo = {}
        self.points = []  # sample shapes: refute a bound quickly before trying to prove it

    def add_point(self, vals):
        """vals: name -> int; kept when it satisfies the facts"""
        pt = Point({atom('sym', n, isint=True): v for n, v in vals.items()}, len(self.points))
        for a, v in pt.base.items():
            if a in self.lo and v < self.lo[a]:
                return False
        for g in self.ge:
            v = pt.eval(g)
            if v is None or v < 0:
                return False
        for (n, d), q in self.fdef.items():
            a, b, c = pt.eval(n), pt.eval(d), pt.eval(q)
            if None in (a, b, c) or b == 0 or a // b != c:
                return False
        self.points.append(pt)
        return True

    def touch(self):
        self.memo.clear()
        for pt in self.points:
            pt.reset()

    def set_lo(self, p, v):
        a = p if isinstance(p, Atom) else single_atom(p)
        self.lo[a] = max(v, self.lo.get(a, v))
        self.touch()

    def set_hi(self, p, h):
        a = p if isinstance(p, Atom) else single_atom(p)
        if self.hi.get(a) is not h:
            self.hi[a] = h
            self.touch()

    def drop_hi(self, p):
        a = p if isinstance(p, Atom) else single_atom(p)
        if self.hi.pop(a, None) is not None:
            self.touch()

    def add_ge(self, p):
        if p not in self.ge:
            self.ge.append(p)
            self.memo.clear()


class Point:
    """a concrete shape; iteration symbols get a value inside their range"""

    def __init__(self, base, seed):
        self.base, self.seed = base, seed
        self.vals = dict(base)
        self.memo = {}

    def reset(self):
        self.vals = dict(self.base)
        self.memo = {}

    def atom(self, a):
        v = self.vals.get(a)
        if v is not None:
            return v if v != 'x' else None
        v = self._atom(a)
        self.vals[a] = 'x' if v is None else v
        return v

    def _atom(self, a):
        k = a.kind
        if k == 'sym' or k == 'bind':
            lo = FACTS.lo.get(a, 0 if k == 'bind' else None)
            if lo is None:
                return None
            h = FACTS.hi.get(a)
            r = random.Random((self.seed * 7919 + a.id) & 0xffffff)
            if h is None:
                return lo + r.choice((0, 1, 2, 3, 5, 7))
            h = self.eval(h)
            if h is None or h < lo:
                return None
            w = r.randrange(3)
            return lo if w == 0 else h if w == 1 else r.randint(lo, int(h))
        if k == 'fdiv':
            n, d = self.eval(a.args[0]), self.eval(a.args[1])
            return None if n is None or not d else n // d
        if k in ('max', 'min'):
            vs = [self.eval(x) for x in a.args[0]]
            return None if None in vs else (max if k == 'max' else min)(vs)
        if k == 'sel':
            c = self.cond(a.args[0])
            return None if c is None else self.eval(a.args[1] if c else a.args[2])
        return None

    def cond(self, c):
        k = c.kind
        if k == 'const':
            return c.arg
        if k in ('ge', 'gt', 'eq', 'ne'):
            v = self.eval(c.arg)
            if v is None:
                return None
            return {'ge': v >= 0, 'gt': v > 0, 'eq': v == 0, 'ne': v != 0}[k]
        if k in ('and', 'or'):
            vs = [self.cond(x) for x in c.arg]
            if k == 'and':
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if k == 'not':
            v = self.cond(c.arg)
            return None if v is None else not v
        return None

    def eval(self, p):
        t = 0
        for m, c in p.terms.items():
            v = c
            for i in m:
                x = self.vals.get(Atom.by_id[i])
                if x is None:
                    x = self.atom(Atom.by_id[i])
                if x is None or x == 'x':
                    return None
                v = v * x
            t = t + v
        return t


FACTS = Facts()


def set_facts(f):
    global FACTS
    FACTS = f


def lower(a):
    """known constant lower bound of an atom, or None"""
    if a in FACTS.lo:
        return FACTS.lo[a]
    if a.kind == 'bind':
        return 0
    if a.kind == 'fdiv':
        if prove_ge0(a.args[0], 3):
            return 0
        return None
    if a.kind == 'max':
        best = None
        for x in a.args[0]:
            c = x.const()
            if c is not None:
                best = c if best is None else max(best, c)
            else:
                y = single_atom(x)
                if y is not None:
                    l = lower(y)
                    if l is not None:
                        best = l if best is None else max(best, l)
        return best
    if a.kind == 'min':
        vals = []
        for x in a.args[0]:
            c = x.const()
            if c is None:
                if prove_ge0(x - 1, 4):
                    c = 1
                elif prove_ge0(x, 4):
                    c = 0
                else:
                    return None
            vals.append(c)
        return min(vals)
    if a.kind == 'fn' and a.args[0] in ('exp',):
        return 0
    if a.kind == 'ulim':
        return 0
    return None


_budget = [None]
MAXDEPTH = 6


def prove_ge0(p, depth=MAXDEPTH, extra=()):
    """sound, incomplete: p >= 0 under FACTS"""
    c = p.const()
    if c is not None:
        return c >= 0
    memo = FACTS.memo
    r = memo.get(p)
    if r is True:
        return True
    if r is not None and r >= depth:
        return False          # failed before with at least this depth
    for pt in FACTS.points:
        v = pt.eval(p)
        if v is not None and v < 0:
            memo[p] = 99
            return False
    top = _budget[0] is None
    if top:
        _budget[0] = 300
    else:
        _budget[0] -= 1
        if _budget[0] < 0:
            return False
    memo[p] = depth           # cycle guard
    ok = _prove(p, depth, ())
    if _budget[0] < 0 and not ok and not top:
        memo.pop(p, None)     # gave up, not refuted
    else:
        memo[p] = True if ok else depth
    if top:
        _budget[0] = None
    return ok


def _all_nonneg(p):
    """substitute x = x' + lo and look at the signs"""
    los = {}
    for a in p.atoms():
        l = lower(a)
        if l is None:
            return False
        los[a] = l
    t = {(): 0}
    for m, c in p.terms.items():
        if all(los[Atom.by_id[i]] == 0 for i in m):
            t[m] = t.get(m, 0) + c
            continue
        # expand product of (x' + lo)
        parts = [((), c)]
        for i in m:
            l = los[Atom.by_id[i]]
            nx = []
            for mm, cc in parts:
                nx.append((tuple(sorted(mm + (i,))), cc))
                if l:
                    nx.append((mm, cc * l))
            parts = nx
        for mm, cc in parts:
            t[mm] = t.get(mm, 0) + cc
    return all(c >= 0 for c in t.values())


def lin_in(p, a):
    """p = c*a + r with a not in c, r (degree <= 1) -> (c, r) or None"""
    c, r = {}, {}
    for m, v in p.terms.items():
        n = m.count(a.id)
        if n == 0:
            r[m] = v
        elif n == 1:
            mm = list(m)
            mm.remove(a.id)
            c[tuple(mm)] = v
        else:
            return None
    return mk(c), mk(r)


def _prove(p, depth, extra):
    c = p.const()
    if c is not None:
        return c >= 0
    if len(p.terms) > 60:
        return False
    if _all_nonneg(p):
        return True
    # iteration symbols, innermost first: put in the bound that minimises p
    for a in sorted((a for a in p.atoms() if a in FACTS.hi), key=lambda a: -a.id):
        lr = lin_in(p, a)
        if lr is None:
            continue
        co, r = lr
        sg = _sgn(co, max(depth, 3))
        if sg is None:
            continue
        if sg > 0:
            l = FACTS.lo.get(a)
            if l is None:
                continue
            q = co * l + r
        else:
            q = co * FACTS.hi[a] + r
        if prove_ge0(q, depth, extra):
            return True
        break
    if depth <= 0:
        return False
    rec = (lambda q, d=depth - 1: prove_ge0(q, d, extra))
    atoms = sorted(p.atoms(), key=lambda a: -a.id)
    # min/max/select: case split or pick
    for a in atoms:
        if a.kind in ('max', 'min', 'sel'):
            lr = lin_in(p, a)
            if lr is None:
                continue
            co, r = lr
            args = a.args[0] if a.kind != 'sel' else a.args[1:]
            pos = _sgn(co, depth)
            if pos is None:
                continue
            if a.kind == 'sel':
                return all(rec(co * x + r) for x in args)
            need_all = (a.kind == 'max') == (pos < 0)
            # co>0 & max: enough for one arg; co<0 & max: all args
            if need_all:
                if all(rec(co * x + r) for x in args):
                    return True
            else:
                if any(rec(co * x + r) for x in args):
                    return True
    # floor divisions
    for a in atoms:
        if a.kind == 'fdiv':
            lr = lin_in(p, a)
            if lr is None:
                continue
            co, r = lr
            num, den = a.args
            q, rm = poly_divmod(co, den)
            if rm is ZERO:
                # q*den*floor(num/den)
                s = _sgn(q, depth)
                if s is not None:
                    if s < 0 and rec(q * num + r):
                        return True
                    if s > 0 and rec(q * (num - den + 1) + r):
                        return True
            k = co.const()
            if k == 1 and rec(num + den * r):
                return True
            if k == -1 and rec(den * (r + 1) - 1 - num):
                return True
            if k is None and r.terms:
                q2, rm2 = poly_divmod(r, co)
                if q2 is not ZERO and rec(A(a) + q2) and rec(co) and rec(rm2):
                    return True
            s = _sgn(co, depth)
            if s is not None:
                if s > 0 and prove_ge0(num, depth - 1, extra) and rec(r):
                    return True
                if s < 0 and prove_ge0(num, depth - 1, extra) and rec(co * num + r):
                    return True
    # use a known inequality
    if depth >= 2:
        for f in list(extra) + FACTS.ge:
            shared = set(f.free) & set(p.free)
            if not shared:
                continue
            for mult in _mults(p, f):
                q = p - mult * f
                if len(q.terms) < len(p.terms) + 1 and q is not p:
                    if prove_ge0(q, min(depth - 1, 4), extra):
                        return True
    return False


def _mults(p, f):
    out = []
    for m, c in f.terms.items():
        if m == () or c >= 0:
            # a negative term of p to be covered must match a negative term of f
            pass
        if m == ():
            continue
        for pm, pc in p.terms.items():
            d = mono_div(pm, m)
            if d is None or pc * c <= 0:
                continue
            k = Fraction(pc) / c
            if k <= 0 or any(Atom.by_id[i] not in FACTS.lo and lower(Atom.by_id[i]) is None for i in d):
                continue
            mm = mk({d: k})
            if mm not in out:
                out.append(mm)
    return out[:6]


def _sgn(c, depth):
    k = c.const()
    if k is not None:
        return 1 if k >= 0 else -1
    if prove_ge0(c, min(depth - 1, 3)):
        return 1
    if prove_ge0(-c, min(depth - 1, 3)):
        return -1
    return None


# --------------------------------------------------------------------------
# printing
def poly_str(p):
    if not p.terms:
        return '0'
    parts = []
    for m, c in p.key:
        fs = [atom_str(Atom.by_id[i]) for i in m]
        if not fs:
            parts.append(str(c))
        elif c == 1:
            parts.append('*'.join(fs))
        elif c == -1:
            parts.append('-' + '*'.join(fs))
        else:
            parts.append(str(c) + '*' + '*'.join(fs))
    return ' + '.join(parts).replace('+ -', '- ')


def base_str(b):
    if isinstance(b, tuple):
        if b[0] == 'obj':
            return b[1]
        if b[0] == 'ld':
            return '%s[%s]' % (base_str(b[1]), b[2])
        return ':'.join(str(x) for x in b)
    return str(b)


def atom_str(a):
    k = a.kind
    if k == 'sym':
        return a.args[0]
    if k == 'bind':
        return '$%s' % a.args[0]
    if k == 'ld':
        off = a.args[1]
        sz = a.args[2]
        if sz > 1 and all(isinstance(c, int) and c % sz == 0 for c in off.terms.values()):
            off = mk({m: c // sz for m, c in off.terms.items()})
        return '%s[%s]' % (base_str(a.args[0]), off)
    if k == 'sel':
        return '(%s ? %s : %s)' % (a.args[0], a.args[1], a.args[2])
    if k in ('max', 'min'):
        return '%s(%s)' % (k, ', '.join(map(str, a.args[0])))
    if k == 'fdiv':
        return 'floor((%s)/(%s))' % (a.args[0], a.args[1])
    if k == 'inv':
        return '1/(%s)' % a.args[0]
    if k in ('sum', 'maxr'):
        return '%s{%s}(%s)' % (k, ', '.join('%s<%s' % (atom_str(b), n) for b, n in a.args[0]), a.args[1])
    if k == 'fn':
        return '%s(%s)' % (a.args[0], ', '.join(map(str, a.args[1])))
    return '%s<%s>' % (k, ','.join(map(str, a.args)))


def cond_str(c):
    k = c.kind
    if k == 'const':
        return str(c.arg)
    if k == 'ge':
        return '%s>=0' % c.arg
    if k == 'gt':
        return '%s>0' % c.arg
    if k == 'eq':
        return '%s==0' % c.arg
    if k == 'ne':
        return '%s!=0' % c.arg
    if k == 'and':
        return '(' + ' && '.join(sorted(map(str, c.arg))) + ')'
    if k == 'or':
        return '(' + ' || '.join(sorted(map(str, c.arg))) + ')'
    if k == 'not':
        return '!(%s)' % c.arg
    if k == 'ex':
        return 'exists %s<%s: %s' % (atom_str(c.arg[0]), c.arg[1], c.arg[2])
    return '?%s' % (c.arg,)
