"""Exact identities between terms: rational functions (complex ones included) over opaque atoms.

is_zero(t) decides whether a term is identically zero as a rational function of its
opaque atoms (sqrt(x)^2 = x, abs(x)^2 = x^2, 1j^2 = -1).  Nothing is sampled or run.
"""
from fractions import Fraction

from .state import T

LIMIT = 500000


class TooBig(Exception):
    pass


class Poly(dict):
    """{mono: coefficient}, mono = sorted tuple of (key, positive exponent)"""


_keys = {}
_rev = []


def key(k):
    i = _keys.get(k)
    if i is None:
        i = _keys[k] = len(_rev)
        _rev.append(k)
    return i


def pconst(c):
    return {(): c} if c else {}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items())), 1


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, s = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2 * s
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return reduce(r)


def reduce(p):
    """sqrt(x)^2 -> x, abs(x)^2 -> x^2 (polynomial arguments only)"""
    for m in p:
        for a, e in m:
            if e >= 2 and _rev[a][0] in ('sqrt', 'abs'):
                break
        else:
            continue
        break
    else:
        return p
    r = {}
    for m, c in p.items():
        f = {(): c}
        for a, e in m:
            k = _rev[a]
            if e >= 2 and k[0] in ('sqrt', 'abs'):
                base = dict(k[1])
                sq = base if k[0] == 'sqrt' else pmul(base, base)
                for _ in range(e // 2):
                    f = pmul(f, sq)
                if e % 2:
                    f = pmul(f, {((a, 1),): 1})
            else:
                f = pmul(f, {((a, e),): 1})
        r = padd(r, f)
    return reduce(r)


class R:
    """complex rational function: (re + i im) / den with a real polynomial den"""
    __slots__ = ('re', 'im', 'den')

    def __init__(self, re, im=None, den=None):
        self.re, self.im, self.den = re, im or {}, den if den is not None else {(): 1}

    def __add__(a, b):
        if a.den == b.den:
            return R(padd(a.re, b.re), padd(a.im, b.im), a.den)
        return R(padd(pmul(a.re, b.den), pmul(b.re, a.den)), padd(pmul(a.im, b.den), pmul(b.im, a.den)), pmul(a.den, b.den))

    def neg(a):
        return R({m: -c for m, c in a.re.items()}, {m: -c for m, c in a.im.items()}, a.den)

    def __sub__(a, b):
        return a + b.neg()

    def __mul__(a, b):
        re = padd(pmul(a.re, b.re), pmul(a.im, b.im), -1)
        im = padd(pmul(a.re, b.im), pmul(a.im, b.re))
        return R(re, im, pmul(a.den, b.den))

    def inv(a):
        n = padd(pmul(a.re, a.re), pmul(a.im, a.im)) if a.im else a.re
        if a.im:
            return R(pmul(a.re, a.den), {m: -c for m, c in pmul(a.im, a.den).items()}, n)
        if not n:
            raise TooBig()
        return R(a.den, {}, n)

    def pow(a, n):
        if n < 0:
            return a.inv().pow(-n)
        r = R({(): 1})
        for _ in range(n):
            r = r * a
        return r

    def zero(a):
        return not a.re and not a.im


def freeze(p):
    return tuple(sorted(p.items()))


def sqrt_of(r):
    """sqrt of a real rational function n/d: sqrt(n d)/d up to the sign of d"""
    if r.im:
        raise TooBig()
    if r.den == {(): 1}:
        return R({((key(('sqrt', freeze(r.re))), 1),): 1})
    nd = pmul(r.re, r.den)
    return R({((key(('sqrt', freeze(nd))), 1),): 1}, {}, r.den)


def conv(t, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    k = T.rev[t]
    if k[0] == 'c' or k[0] == 'b':
        r = R(pconst(Fraction(k[1]) if not isinstance(k[1], bool) else int(k[1])))
    elif k[0] == 'k' and k[1] == 'complex':
        z = complex(k[2])
        r = R(pconst(Fraction(z.real)), pconst(Fraction(z.imag)))
    elif k[0] == 'p':
        r = R({})
        for m, c in k[1]:
            x = R(pconst(Fraction(c)))
            for a, e in m:
                x = x * conv(a, memo).pow(e)
            r = r + x
    elif k[0] == 'a':
        op, args = k[1], k[2:]
        if op == 'cpx':
            r = conv(args[0], memo)
            if len(args) > 1:
                r = r + conv(args[1], memo) * R({}, {(): 1})
        elif op in ('real', 'imag') and len(args) == 1:
            x = conv(args[0], memo)
            r = R(x.re if op == 'real' else x.im, {}, x.den)
        elif op == 'abs':
            x = conv(args[0], memo)
            if x.im:
                r = sqrt_of(R(padd(pmul(x.re, x.re), pmul(x.im, x.im)), {}, pmul(x.den, x.den)))
            elif x.den == {(): 1}:
                r = R({((key(('abs', freeze(x.re))), 1),): 1})
            else:
                r = R({((key(('abs', freeze(x.re))), 1),): 1}, {}, {((key(('abs', freeze(x.den))), 1),): 1})
        elif op == 'sqrt':
            r = sqrt_of(conv(args[0], memo))
        elif op == 'nrm' and isinstance(args[0], str):
            cs = [conv(a, memo) for a in args[1:]]
            s = R({})
            for x in cs:
                s = s + x * x
            r = cs[int(args[0])] * sqrt_of(s).inv()
        elif op == '+':
            r = conv(args[0], memo) + conv(args[1], memo)
        elif op == '*':
            r = conv(args[0], memo) * conv(args[1], memo)
        elif op == '/':
            r = conv(args[0], memo) * conv(args[1], memo).inv()
        elif op == 'conj':
            x = conv(args[0], memo)
            r = R(x.re, {m: -c for m, c in x.im.items()}, x.den)
        else:
            r = R({((key(('t', t)), 1),): 1})
    else:
        r = R({((key(('t', t)), 1),): 1})
    memo[t] = r
    return r


def is_zero(t):
    """True / False / None (too large)"""
    try:
        return conv(t).zero()
    except TooBig:
        return None


def multiple(t, base):
    """(k, c) with t = k * base + c for rational constants, else None"""
    pt, pb = T.poly(t), T.poly(base)
    pb0 = {m: v for m, v in pb.items() if m}
    pt0 = {m: v for m, v in pt.items() if m}
    if not pb0 or set(pb0) != set(pt0):
        return None
    m0 = next(iter(pb0))
    k = Fraction(pt0[m0]) / Fraction(pb0[m0])
    if any(Fraction(pt0[m]) != k * Fraction(v) for m, v in pb0.items()):
        return None
    return k, Fraction(pt.get((), 0)) - k * Fraction(pb.get((), 0))
