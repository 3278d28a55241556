"""Hash-consed value-numbering terms.

Every abstract value carries a *term*: an interned integer naming the value it
stands for (global value numbering / Herbrand equivalence).  Two values with the
same term are equal on every execution; different terms say nothing.  Arithmetic
terms are kept in a normal form (Laurent polynomials over opaque atoms, with
rational coefficients), so that algebraic rearrangement of the source does not
change the term.
"""
from fractions import Fraction

MAXMONO = 48


class TermTable:
    def __init__(self):
        self.tab = {}
        self.rev = []
        self._mention = {}
        self.ZERO = self.const(0)
        self.ONE = self.const(1)
        self.TRUE = self._mk(('b', True))
        self.FALSE = self._mk(('b', False))
        self.NONE = self._mk(('none',))

    # -- interning ---------------------------------------------------------
    def _mk(self, key):
        i = self.tab.get(key)
        if i is None:
            i = len(self.rev)
            self.tab[key] = i
            self.rev.append(key)
        return i

    def atom(self, op, *args):
        return self._mk(('a', op) + args)

    def const(self, v):
        if isinstance(v, bool):
            return self._mk(('b', v))
        if v is None:
            return self._mk(('none',))
        if isinstance(v, (int, float)):
            try:
                f = Fraction(v)
            except (ValueError, OverflowError):
                return self._mk(('a', 'special', repr(v)))
            return self._mk(('c', f.numerator if f.denominator == 1 else f))
        if isinstance(v, Fraction):
            return self._mk(('c', v.numerator if v.denominator == 1 else v))
        return self._mk(('k', type(v).__name__, repr(v)))

    def is_const(self, t):
        return self.rev[t][0] in ('c', 'b', 'none', 'k')

    def num(self, t):
        """Fraction if t is a constant number, else None."""
        k = self.rev[t]
        if k[0] == 'c':
            return k[1]
        if k[0] == 'b':
            return int(k[1])
        return None

    def op(self, t):
        k = self.rev[t]
        return k[1] if k[0] == 'a' else None

    def args(self, t):
        k = self.rev[t]
        return k[2:] if k[0] == 'a' else ()

    # -- polynomials -------------------------------------------------------
    def poly(self, t):
        """dict mono -> coef ; mono = tuple of (atom, exp)"""
        k = self.rev[t]
        if k[0] == 'c':
            return {(): k[1]} if k[1] else {}
        if k[0] == 'b':
            return {(): 1} if k[1] else {}
        if k[0] == 'p':
            return dict(k[1])
        return {((t, 1),): 1}

    def from_poly(self, d):
        d = {m: (c if type(c) is int or c.denominator != 1 else c.numerator) for m, c in d.items() if c}
        if not d:
            return self.ZERO
        if len(d) == 1:
            (m, c), = d.items()
            if m == ():
                return self.const(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return self._mk(('p', tuple(sorted(d.items()))))

    def add(self, a, b):
        if a == self.ZERO:
            return b
        if b == self.ZERO:
            return a
        pa, pb = self.poly(a), self.poly(b)
        if len(pa) + len(pb) > MAXMONO:
            return self.atom('+', *sorted((a, b)))
        for m, c in pb.items():
            pa[m] = pa.get(m, 0) + c
        return self.from_poly(pa)

    def neg(self, a):
        return self.from_poly({m: -c for m, c in self.poly(a).items()})

    def sub(self, a, b):
        if a == b:
            return self.ZERO
        return self.add(a, self.neg(b))

    @staticmethod
    def _mm(m1, m2):
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
            if d[a] == 0:
                del d[a]
        return tuple(sorted(d.items()))

    def mul(self, a, b):
        if a == self.ZERO or b == self.ZERO:
            return self.ZERO
        pa, pb = self.poly(a), self.poly(b)
        if len(pa) * len(pb) > MAXMONO:
            return self.atom('*', *sorted((a, b)))
        r = {}
        for m1, c1 in pa.items():
            for m2, c2 in pb.items():
                m = self._mm(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return self.from_poly(r)

    @staticmethod
    def _norm(f):
        return f.numerator if f.denominator == 1 else f

    def _q(self, c):
        return self._norm(Fraction(1) / c)

    def inv(self, b):
        pb = self.poly(b)
        if len(pb) == 1:
            (m, c), = pb.items()
            return self.from_poly({tuple(sorted((a, -e) for a, e in m)): self._q(c)})
        # normalise sign/scale so that 1/(a-b) and 1/(b-a) share an atom
        lead = sorted(pb.items())[0][1]
        nb = self.from_poly({m: self._norm(Fraction(c) / lead) for m, c in pb.items()})
        return self.from_poly({((nb, -1),): self._q(lead)})

    def div(self, a, b):
        if b == self.ZERO:
            return self.atom('/', a, b)
        if a == b:
            return self.ONE
        return self.mul(a, self.inv(b))

    def pow(self, a, n):
        r = self.ONE
        if n < 0:
            return self.inv(self.pow(a, -n))
        for _ in range(n):
            r = self.mul(r, a)
        return r

    # -- queries -----------------------------------------------------------
    def mentions(self, t, x):
        """does term t contain sub-term x?"""
        if t == x:
            return True
        key = (t, x)
        r = self._mention.get(key)
        if r is not None:
            return r
        self._mention[key] = False
        r = False
        for s in self.subterms(t):
            if self.mentions(s, x):
                r = True
                break
        self._mention[key] = r
        return r

    def subterms(self, t):
        k = self.rev[t]
        if k[0] == 'p':
            for m, c in k[1]:
                for a, e in m:
                    yield a
        elif k[0] == 'a':
            yield from self._walk(k[2:])

    def _walk(self, args):
        for a in args:
            if isinstance(a, bool):
                continue
            if isinstance(a, int):
                yield a
            elif isinstance(a, tuple):
                yield from self._walk(a)

    def any_op(self, t, ops, _seen=None):
        """does t contain an atom whose operator is in ops?"""
        seen = _seen if _seen is not None else set()
        if t in seen:
            return False
        seen.add(t)
        if self.op(t) in ops:
            return True
        return any(self.any_op(s, ops, seen) for s in self.subterms(t))

    def find(self, t, pred, _seen=None):
        """all subterms satisfying pred"""
        seen = _seen if _seen is not None else set()
        out = []
        if t in seen:
            return out
        seen.add(t)
        if pred(t):
            out.append(t)
        for s in self.subterms(t):
            out += self.find(s, pred, seen)
        return out

    def subst(self, t, x, y):
        """replace sub-term x by y (rebuilding normal forms)"""
        if t == x:
            return y
        if not self.mentions(t, x):
            return t
        k = self.rev[t]
        if k[0] == 'p':
            r = self.ZERO
            for m, c in k[1]:
                term = self.const(c)
                for a, e in m:
                    term = self.mul(term, self.pow(self.subst(a, x, y), e))
                r = self.add(r, term)
            return r

        def w(a):
            if isinstance(a, bool):
                return a
            if isinstance(a, int):
                return self.subst(a, x, y)
            if isinstance(a, tuple):
                return tuple(w(b) for b in a)
            return a
        return self._mk(('a', k[1]) + tuple(w(a) for a in k[2:]))

    def replace(self, t, fn, memo=None):
        """replace every sub-term x (top down) by fn(x) where that is not None"""
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        r = fn(t)
        if r is None:
            k = self.rev[t]
            if k[0] == 'p':
                r = self.ZERO
                for m, c in k[1]:
                    term = self.const(c)
                    for a, e in m:
                        term = self.mul(term, self.pow(self.replace(a, fn, memo), e))
                    r = self.add(r, term)
            elif k[0] == 'a':
                def w(a):
                    if isinstance(a, bool):
                        return a
                    if isinstance(a, int):
                        return self.replace(a, fn, memo)
                    if isinstance(a, tuple):
                        return tuple(w(b) for b in a)
                    return a
                r = self._mk(('a', k[1]) + tuple(w(a) for a in k[2:]))
            else:
                r = t
        memo[t] = r
        return r

    def show(self, t, depth=4):
        k = self.rev[t]
        if k[0] == 'c':
            return str(float(k[1]) if k[1].denominator != 1 else int(k[1]))
        if k[0] == 'b':
            return str(k[1])
        if k[0] == 'none':
            return 'None'
        if k[0] == 'k':
            return k[2]
        if depth <= 0:
            return '#%d' % t
        if k[0] == 'p':
            out = []
            for m, c in k[1]:
                f = [self.show(a, depth - 1) + ('' if e == 1 else '^%d' % e) for a, e in m]
                if c != 1 or not f:
                    f.insert(0, self.show(self.const(c)))
                out.append('*'.join(f))
            return '(' + ' + '.join(out) + ')'

        def w(a):
            if isinstance(a, bool):
                return str(a)
            if isinstance(a, int):
                return self.show(a, depth - 1)
            if isinstance(a, tuple):
                return '(' + ','.join(w(b) for b in a) + ')'
            return str(a)
        return '%s(%s)' % (k[1], ','.join(w(a) for a in k[2:]))
