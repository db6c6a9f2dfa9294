"""Normal forms of the scalar functions the library uses."""
from .sym import *


def fn(name, args, isint=False):
    if name == 'pow':
        x, y = args
        c = y.const()
        if c is not None and c == int(c) and 0 <= c <= 8:
            r = ONE
            for _ in range(int(c)):
                r = r * x
            return r
        if c is not None and c == -1:
            return mk_inv(x)
        if c is not None and c * 2 == 1:
            return fn('sqrt', [x])
    elif name == 'abs':
        c = args[0].const()
        if c is not None:
            return P(abs(c))
        # |x| = |-x|
        x = args[0]
        if (-x).key < x.key:
            x = -x
        return A(atom('fn', 'abs', (x,), isint=x.isint))
    elif name == 'exp':
        if args[0] is ZERO:
            return ONE
        # exp(a+b) is kept; exp(-x) canonical as 1/exp(x) when the lead is negative
        x = args[0]
        if x.key and x.key[0][1] < 0:
            return mk_inv(A(atom('fn', 'exp', (-x,))))
        return A(atom('fn', 'exp', (x,)))
    elif name == 'tanh':
        x = args[0]
        if x.key and x.key[0][1] < 0:
            return -A(atom('fn', 'tanh', (-x,)))
    elif name == 'sqrt':
        c = args[0].const()
        if c is not None and c >= 0:
            import math
            from fractions import Fraction
            f = Fraction(c)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return P(Fraction(n, d))
    return A(atom('fn', name, tuple(args), isint=isint))
