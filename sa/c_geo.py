"""Geometry primitives: exact identities of what they return (C18)."""
import itertools

from .program import Program, AnalysisBroken
from . import terms, ratfun
from .engine import Engine
from .entry import run_driver, invec, innum, mkobj, pos
from .state import T, V, NUM
from .base import resolved, show
from .c_poly import REPO

_dp = {}


def driver_program():
    if 'p' not in _dp:
        p = Program(REPO)
        p.drivers()
        _dp['p'] = p
    return _dp['p']


def vecs(names, dim=2):
    return lambda eng, st: {n: invec(st, n, dim) for n in names}


def c(name, i):
    return T.atom('c', T.atom('in', name), str(i), T.ZERO)


def cross(a, b):
    return T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))


def sub(a, b):
    return [T.sub(x, y) for x, y in zip(a, b)]


def pt(name):
    # components of an input vector; the read version is 0 (nothing is written)
    return [c(name, 0), c(name, 1)]


def run(rep, fname, build, clients=()):
    eng = Engine(driver_program(), list(clients))
    eng.exact = True
    res = run_driver(eng, 'geometry', fname, build)
    rep.absorb(eng)
    rep.entries.append('geometry.' + fname)
    if not res:
        raise AnalysisBroken('no path through %s' % fname)
    return eng, res


def out_comps(eng, st, v, n=2):
    """term list of a returned vector / tuple, or None"""
    ks = [k for k in v.kinds]
    if len(ks) != 1 or ks[0][0] != 'ref':
        return None
    o = st.heap.get(ks[0][1])
    if o is None:
        return None
    if o.kind == 'vec':
        cs, d = eng.comps(st, v)
        return [x.term for x in cs] if cs is not None else None
    if o.items is not None:
        return [x.term for x in o.items]
    return None


def is_none(v):
    return bool(v.kinds) and all(k[0] == 'none' for k in v.kinds)


def atoms_ok(t, allowed, seen=None):
    """only opaque atoms from `allowed` occur (so that the identity test is definite)"""
    seen = set() if seen is None else seen
    if t in seen or t in allowed:
        return True
    seen.add(t)
    k = T.rev[t]
    if k[0] in ('c', 'b', 'k'):
        return True
    if k[0] == 'p':
        return all(atoms_ok(a, allowed, seen) for m, _ in k[1] for a, e in m)
    if k[0] == 'a' and k[1] in ('sqrt', 'abs', 'nrm', 'cpx', 'real', 'imag', '+', '*', '/', 'conj', 'lt', 'eq', 'not', 'and', 'or'):
        return all(atoms_ok(a, allowed, seen) for a in k[2:] if isinstance(a, int))
    return False


def normalise_reads(t):
    """drop the heap version of component reads (the drivers write nothing)"""
    from .base import strip
    return strip(t)


def at_file(what):
    return 'bpypolyskel/bpyeuclid.py: ' + what


def decide_zero(rep, rule, what, t, allowed, detail=''):
    what = at_file(what)
    z = ratfun.is_zero(t)
    if z is None and atoms_ok(t, allowed):
        # too large to expand: refute by specialising the unknowns (an identity survives every specialisation)
        for k in range(3):
            u = t
            for i, a in enumerate(sorted(allowed)):
                u = T.subst(u, a, T.const((i * i * (k + 2) + 3 * i + k + 1) % 17 + i))
            if ratfun.is_zero(u) is False:
                z = False
                break
    if z is True:
        rep.ok(rule, what, 'identity holds')
    elif z is False and atoms_ok(t, allowed):
        rep.bad(rule, what, 'the returned value is not the one geometry requires', detail)
    else:
        rep.und(rule, what, 'identity not decided', detail)


def sign_known(eng, st, forms, neg):
    """is  form < 0  (neg) / form >= 0  known for one of the equivalent forms?"""
    for f in forms:
        r = eng.fact(st, ('lt', f))
        if r is neg:
            return True
    return False


def understood(st, bases):
    """every path fact is a sign statement about a rational multiple (plus constant) of a known base quantity"""
    for k in st.facts:
        if k[0] in ('lt', 'eq'):
            x = k[1]
            for a in T.find(x, lambda z: T.op(z) == 'abs'):
                x = T.subst(x, a, T.args(a)[0])
            for a in T.find(x, lambda z: T.op(z) == 'sqrt'):
                x = T.subst(x, a, T.ONE)       # a length: does not change the sign
            c = T.poly(x).get(())
            if c and len(T.poly(x)) > 1:
                x = T.sub(x, T.const(c))       # a threshold
            if not any(ratfun.multiple(x, b) for b in bases):
                return False
        elif k[0] not in ('isnone', 'truth', 'isinst'):
            return False
    return True


def intersections(rep):
    for fname, rays in (('line_line', (0, 0)), ('ray_ray', (1, 1)), ('line_ray', (0, 1)), ('edge_line', (0, 0))):
        names = 'abqw' if fname == 'edge_line' else 'pvqw'
        eng, res = run(rep, fname, vecs(names))
        if fname == 'edge_line':
            p, v = pt('a'), sub(pt('b'), pt('a'))
        else:
            p, v = pt('p'), pt('v')
        q, w = pt('q'), pt('w')
        allowed = {x for n in names for x in pt(n)}
        d = cross(v, w)
        na, nb = cross(sub(q, p), w), cross(sub(q, p), v)
        ua, ub = T.div(na, d), T.div(nb, d)
        bases = [d, ua, ub, T.mul(na, d), T.mul(nb, d)]
        points = nones = 0
        for i, (st, r) in enumerate(res):
            rep.count('intersection paths')
            at = '%s path %d' % (fname, i + 1)
            if is_none(r):
                nones += 1
                reasons = [eng.fact(st, ('eq', d)) is True]
                if rays[0]:
                    reasons.append(sign_known(eng, st, [ua, T.mul(na, d)], True))
                if rays[1]:
                    reasons.append(sign_known(eng, st, [ub, T.mul(nb, d)], True))
                if any(reasons):
                    rep.ok('missing-only-if', fname, 'nothing returned: parallel, or behind the start of a ray')
                elif understood(st, bases):
                    rep.bad('missing-only-if', fname, 'no intersection returned although there is one', facts(st))
                else:
                    rep.und('missing-only-if', fname, 'condition of the missing intersection not understood', facts(st))
                continue
            cs = out_comps(eng, st, r)
            if cs is None or len(cs) < 2:
                rep.und('on-both', fname, 'returned value not resolved')
                continue
            points += 1
            P = [normalise_reads(x) for x in cs[:2]]
            decide_zero(rep, 'on-both', fname + ': on the first carrier', cross(sub(P, p), v), allowed, show(P[0])[:200])
            decide_zero(rep, 'on-both', fname + ': on the second carrier', cross(sub(P, q), w), allowed, show(P[0])[:200])
            for k, (ray, forms) in enumerate(((rays[0], [ua, T.mul(na, d)]), (rays[1], [ub, T.mul(nb, d)]))):
                if not ray:
                    continue
                if sign_known(eng, st, forms, False):
                    rep.ok('not-behind', '%s: ray %d' % (fname, k + 1), 'the point is not behind the start of the ray')
                elif understood(st, bases):
                    rep.bad('not-behind', '%s: ray %d' % (fname, k + 1), 'the point may lie behind the start of the ray', facts(st))
                else:
                    rep.und('not-behind', '%s: ray %d' % (fname, k + 1), 'position on the ray not understood', facts(st))
        if not points:
            rep.bad('on-both', fname, 'never returns a point') if nones == len(res) else rep.und('on-both', fname, 'no resolved point')


def facts(st):
    return '; '.join('%s(%s)=%s' % (k[0], show(k[1])[:80], v) for k, v in st.facts.items() if k[0] in ('lt', 'eq'))


def distance(rep):
    eng, res = run(rep, 'line_distance', vecs('pvq'))
    p, v, q = pt('p'), pt('v'), pt('q')
    allowed = {x for n in 'pvq' for x in pt(n)}
    cr = cross(sub(q, p), v)
    want = T.div(T.mul(cr, cr), T.add(T.mul(v[0], v[0]), T.mul(v[1], v[1])))
    for st, r in res:
        rep.count('distance paths')
        t = normalise_reads(r.term)
        decide_zero(rep, 'distance', 'line_distance', T.sub(T.mul(t, t), want), allowed)


def circle(rep):
    eng, res = run(rep, 'circle', vecs('abc'))
    a, b, cc = pt('a'), pt('b'), pt('c')
    allowed = {x for n in 'abc' for x in pt(n)}
    coll = cross(sub(b, a), sub(cc, a))
    sides = [T.ONE] + [T.add(T.mul(x, x), T.mul(y, y)) for x, y in (sub(b, a), sub(cc, a), sub(cc, b))]
    for st, r in res:
        rep.count('circle paths')
        if is_none(r):
            ok = False
            for k, v in st.facts.items():
                if k[0] == 'eq' and v is True:
                    x = normalise_reads(k[1])
                    for s in sides:
                        for kk in (1, -1, 2, -2):
                            if ratfun.is_zero(T.sub(T.mul(x, s), T.mul(T.const(kk), coll))):
                                ok = True
                    try:
                        z = ratfun.conv(x)
                        for u, w in ((a, b), (a, cc), (b, cc)):
                            dx, dy = sub(u, w)
                            for sg in (1, -1):
                                if not ratfun.padd(z.re, ratfun.conv(T.mul(T.const(sg), dx)).re, -1) and \
                                        not ratfun.padd(z.im, ratfun.conv(T.mul(T.const(sg), dy)).re, -1):
                                    ok = True
                    except ratfun.TooBig:
                        pass
            if ok:
                rep.ok('circle-missing', 'circle', 'nothing returned: the points are collinear or coincide')
            else:
                rep.und('circle-missing', 'circle', 'condition of the missing circle not understood', facts(st))
            continue
        cs = out_comps(eng, st, r)
        ctr = None
        if cs is not None and len(cs) == 2 and r.kinds:
            o = st.heap[list(r.kinds)[0][1]]
            if o.items is not None:
                ctr = out_comps(eng, st, o.items[0])
                rad = normalise_reads(o.items[1].term)
        if ctr is None:
            rep.und('equidistant', 'circle', 'returned value not resolved')
            continue
        # change of variables: second and third point relative to the first
        new = {}
        for nm, base in (('b', b), ('c', cc)):
            for k in (0, 1):
                new[base[k]] = T.add(a[k], T.atom('rel', nm, str(k)))

        def chg(t):
            for x, y in new.items():
                t = T.subst(t, x, y)
            return t
        allowed |= {T.atom('rel', nm, str(k)) for nm in 'bc' for k in (0, 1)}
        C = [chg(normalise_reads(x)) for x in ctr]
        rad = chg(rad)
        pa, pb, pc = a, [chg(x) for x in b], [chg(x) for x in cc]

        def d2(u):
            x, y = sub(C, u)
            return T.add(T.mul(x, x), T.mul(y, y))
        decide_zero(rep, 'equidistant', 'circle: first and second point', T.sub(d2(pa), d2(pb)), allowed)
        decide_zero(rep, 'equidistant', 'circle: first and third point', T.sub(d2(pa), d2(pc)), allowed)
        hit = False
        if T.op(rad) == 'abs':
            z = T.args(rad)[0]
            for u in (pa, pb, pc):
                for sg in (1, -1):
                    dx, dy = [T.mul(T.const(sg), x) for x in sub(C, u)]
                    if ratfun.is_zero(T.sub(T.atom('real', z), dx)) and ratfun.is_zero(T.sub(T.atom('imag', z), dy)):
                        hit = True
        if hit:
            rep.ok('equidistant', 'circle: radius', 'identity holds')
            continue
        decide_zero(rep, 'equidistant', 'circle: radius', T.sub(T.mul(rad, rad), d2(pa)), allowed)


def edges(rep, names=('edge_points', 'edge_given', 'edge_indexed', 'edge_indexed_own')):
    for fname in names:
        if fname in ('edge_points', 'edge_given'):
            eng, res = run(rep, fname, vecs('ab' if fname == 'edge_points' else 'abn'))
            a, b, n = pt('a'), pt('b'), pt('n')
            allowed = {x for m in 'abn' for x in pt(m)}
        else:
            def build(eng, st):
                d = {'verts': mkobj(st, 'verts', 'list', elem=invec(st, 'vert', 3)), 'i': innum('i'), 'j': innum('j'),
                     'center': invec(st, 'center', 3)}
                pos(eng, st, st.heap['in:verts'].length)
                if fname == 'edge_indexed':
                    d['n'] = invec(st, 'n', 3, weights=False)
                return d
            eng, res = run(rep, fname, build)

            def at(ix):
                e = T.atom('idx', T.atom('in', 'verts'), T.atom('in', ix), T.ZERO)
                return [T.sub(T.atom('c', e, str(k), T.ZERO), c('center', k)) for k in (0, 1)]
            a, b, n = at('i'), at('j'), pt('n')
            allowed = {x for m in ('center', 'n') for x in pt(m)} | {T.atom('in', 'i'), T.atom('in', 'j')} | \
                {T.atom('c', T.atom('idx', T.atom('in', 'verts'), T.atom('in', ix), T.ZERO), str(k), T.ZERO) for ix in 'ij' for k in (0, 1)}
        for st, r in res:
            rep.count('edge paths')
            cs = out_comps(eng, st, r)
            if cs is None:
                rep.und('edge', fname, 'returned value not resolved')
                continue
            cs = [normalise_reads(x) for x in cs]
            for k in (0, 1):
                decide_zero(rep, 'edge-ends', '%s: first end' % fname, T.sub(cs[k], a[k]), allowed, show(cs[k]))
                decide_zero(rep, 'edge-ends', '%s: second end' % fname, T.sub(cs[2 + k], b[k]), allowed, show(cs[2 + k]))
            x, y = sub(b, a)
            if fname in ('edge_given', 'edge_indexed'):
                for k in (0, 1):
                    decide_zero(rep, 'edge-direction', '%s: direction given' % fname, T.sub(cs[4 + k], n[k]), allowed, show(cs[4 + k]))
            else:
                ln = T.atom('sqrt', T.add(T.mul(x, x), T.mul(y, y)))
                decide_zero(rep, 'edge-direction', '%s: own direction' % fname, T.sub(T.mul(cs[4], ln), x), allowed, show(cs[4]))
                decide_zero(rep, 'edge-direction', '%s: own direction' % fname, T.sub(T.mul(cs[5], ln), y), allowed, show(cs[5]))
            if fname in ('edge_points', 'edge_given'):
                decide_zero(rep, 'edge-length', '%s: squared length' % fname, T.sub(cs[6], T.add(T.mul(x, x), T.mul(y, y))), allowed, show(cs[6]))
            else:
                decide_zero(rep, 'edge-ends', '%s: index of the first end' % fname, T.sub(cs[6], T.atom('in', 'i')), allowed)
                decide_zero(rep, 'edge-ends', '%s: index of the second end' % fname, T.sub(cs[7], T.atom('in', 'j')), allowed)


def evalb(t, signs):
    """value of a term under a sign assignment {polynomial: sign}; None if not determined"""
    k = T.rev[t]
    if k[0] == 'c':
        return k[1]
    if k[0] == 'b':
        return int(k[1])
    if k[0] == 'a':
        op, a = k[1], k[2:]
        if op in ('lt', 'eq'):
            s = sign(a[0], signs)
            return None if s is None else int(s < 0) if op == 'lt' else int(s == 0)
        if op == 'not':
            v = evalb(a[0], signs)
            return None if v is None else int(not v)
        if op in ('and', 'or'):
            vs = [evalb(x, signs) for x in a]
            if op == 'and':
                return 0 if any(v == 0 for v in vs) else None if None in vs else 1
            return 1 if any(v for v in vs) else None if None in vs else 0
        return None
    if k[0] == 'p':
        tot = 0
        for m, cf in k[1]:
            x = cf
            for a, e in m:
                v = evalb(a, signs)
                if v is None or e < 0:
                    return None
                x *= v ** e
            tot += x
        return tot
    return None


ALIEN = []


def pure(t):
    """a polynomial of degree <= 2 in components of the arguments"""
    return all(sum(e for _, e in m) <= 2 and all(e > 0 and T.op(a) == 'c' for a, e in m) for m in T.poly(t)) and len(T.poly(t)) > 1


def sign(t, signs):
    n = T.num(t)
    if n is not None:
        return (n > 0) - (n < 0)
    for p, s in signs.items():
        m = ratfun.multiple(t, p)
        if m and m[1] == 0:
            return s if m[0] > 0 else -s
    for (p, s), (q, r) in itertools.combinations(list(signs.items()), 2):
        m = ratfun.multiple(t, T.mul(p, q))
        if m and m[1] == 0:
            return s * r if m[0] > 0 else -s * r
    if pure(t):
        ALIEN.append(t)
        return None
    v = evalb(t, signs)
    return None if v is None else (v > 0) - (v < 0)


def turns(rep):
    def orient(a, b, cc):
        return cross(sub(b, a), sub(cc, a))
    for fname, names in (('left_turn', 'abc'), ('segments', 'abcd')):
        eng, res = run(rep, fname, vecs(names))
        p = {n: pt(n) for n in names}
        if fname == 'left_turn':
            quant = [orient(p['a'], p['b'], p['c'])]
        else:
            quant = [orient(p['a'], p['c'], p['d']), orient(p['b'], p['c'], p['d']),
                     orient(p['a'], p['b'], p['c']), orient(p['a'], p['b'], p['d'])]
        for signs in itertools.product((1, -1), repeat=len(quant)):
            env = dict(zip(quant, signs))
            want = signs[0] > 0 if fname == 'left_turn' else (signs[0] != signs[1] and signs[2] != signs[3])
            rep.count('sign cases')
            name = '%s %s' % (fname, ''.join('+' if s > 0 else '-' for s in signs))
            got, vague = set(), False
            del ALIEN[:]
            for st, r in res:
                feas = True
                for k, v in st.facts.items():
                    if k[0] in ('lt', 'eq'):
                        x = normalise_reads(k[1])
                        s = sign(x, env)
                        if s is None:
                            vague = True
                        elif ((s < 0) if k[0] == 'lt' else (s == 0)) != v:
                            feas = False
                            break
                    elif k[0] == 'truth':
                        s = evalb(normalise_reads(k[1]), env)
                        if s is None:
                            vague = True
                        elif bool(s) != v:
                            feas = False
                            break
                if not feas:
                    continue
                x = evalb(normalise_reads(r.term), env)
                if x is None:
                    vague = True
                else:
                    got.add(bool(x))
            rule = 'orientation' if fname == 'left_turn' else 'crossing'
            if not vague and got == {want}:
                rep.ok(rule, at_file(name), 'right answer')
            elif ALIEN and got != {want}:
                rep.bad(rule, at_file(name), 'the answer depends on a quantity that is none of the orientations of the points', show(ALIEN[0])[:200])
            elif not vague and got and want not in got:
                rep.bad(rule, at_file(name), 'wrong answer for these orientations of the points', 'returns %s' % sorted(got))
            else:
                rep.und(rule, at_file(name), 'answer not determined')


def check_geometry(rep, tier):
    rep.rule('on-both', 'a returned intersection satisfies the equations of both carriers (identity of rational functions)')
    rep.rule('missing-only-if', 'nothing is returned only on paths that imply parallel carriers or a point behind the start of a ray')
    rep.rule('not-behind', 'a point returned for a ray is at a ray parameter known to be >= 0 on that path')
    rep.rule('distance', 'the squared distance from a line equals cross^2 / length^2')
    rep.rule('equidistant', 'the centre of the fitted circle is equidistant from its three points, at the returned radius')
    rep.rule('circle-missing', 'no circle is returned only for collinear or coincident points')
    rep.rule('edge-ends', 'an edge starts at its first and ends at its second point (minus the centre, when built from indices)')
    rep.rule('edge-direction', 'its direction is the given one, or (second - first) / length')
    rep.rule('edge-length', 'its squared length is |second - first|^2')
    rep.rule('orientation', 'the left-turn test is true exactly for left turns (points in general position)')
    rep.rule('crossing', 'the segment test is true exactly if each segment separates the end points of the other (general position)')
    old = terms.MAXMONO
    terms.MAXMONO = 600
    try:
        intersections(rep)
        distance(rep)
        circle(rep)
        edges(rep)
        turns(rep)
    finally:
        terms.MAXMONO = old
    rep.require('intersection paths', 4)
    rep.require('edge paths', 3)
    rep.require('sign cases', 18)
    rep.assumptions.append('real arithmetic (rounding ignored)')
