"""Counting crossings: which pairs of arcs the test looks at and when it counts one, path by path (exact fractions)."""
from fractions import Fraction

from . import terms, ratfun
from .program import AnalysisBroken
from .state import T
from .base import refs, resolved, show, strip
from .entry import MOD, skeleton_of
from .c_poly import new_engine
from .c_merge import parts, k_of, trip_of, field_of, node_no, SK, SKS

EDGE = 0.01        # how near to its ends an arc may be cut without counting


class Watch:
    always = True

    def __init__(self):
        self.grown, self.backs, self.rets, self.breaks = [], [], [], []
        self.fn = None
        self.cuts = []

    def on_cut(self, eng, st, node, base, result, lo, hi, step):
        if lo is None and hi is None:
            return
        part = [x for x in (lo, hi) if x is not None]
        if (base.term == SK or field_of(base.term, 'sinks') is not None) and all(T.num(x.term) is not None for x in part):
            self.cuts.append((node, base.term, result.term))

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if not eng.quiet:
            es = [elem] if op in ('append', 'insert') and elem is not None else list(exact) if exact else [None]
            for e in es:
                self.grown.append((target.term, e, tuple(eng.loopstack), st.copy(), node))
        st.marks['grown'] = st.marks.get('grown', 0) + 1

    def on_comp(self, eng, st, node, target, elem):
        if not eng.quiet:
            self.grown.append((target.term, elem, tuple(eng.loopstack), st.copy(), node))
        st.marks['grown'] = st.marks.get('grown', 0) + 1

    def on_backedge(self, eng, st, node, lk):
        if not eng.quiet:
            self.backs.append((lk, node, dict(st.facts), dict(st.frames[-1][1]), st.marks.get('grown', 0)))
        st.marks.pop('grown', None)

    def on_loopbreak(self, eng, st, node, lk, enters):
        if not eng.quiet:
            self.breaks.append((lk, node))

    def on_return(self, eng, st, node, fn, value, env):
        if fn is self.fn and not eng.quiet:
            self.rets.append(value)


def ends(t, found):
    """coordinates of end points of listed edges in a term: (list, number, which end, which coordinate)"""
    def is_end(x):
        if T.op(x) != 'c':
            return False
        a = T.args(x)
        if not isinstance(a[0], int):
            return False
        b = a[0]
        if T.op(b) == 'sel' and T.args(b)[1] in ('.p1', '.p2'):
            e, w = T.args(b)[0], T.args(b)[1][-1]
        elif T.op(b) == 'idx' and T.num(T.args(b)[1]) in (0, 1):
            e, w = T.args(b)[0], str(1 + int(T.num(T.args(b)[1])))
        else:
            return False
        if T.op(e) != 'idx':
            return False
        found[x] = (T.args(e)[0], T.args(e)[1], w, str(a[1]))
        return True
    for x in T.find(t, is_end):
        is_end(x)


def constant_of(t, unknowns):
    """the constant a term is equal to, if it is one (identity of rational functions)"""
    u = t
    for i, a in enumerate(sorted(unknowns)):
        u = T.subst(u, a, T.const((i * i * 5 + 3 * i + 2) % 17 + i))
    try:
        r = ratfun.conv(u)
    except ratfun.TooBig:
        return None
    if r.im or any(m for m in r.re) or any(m for m in r.den):
        return None
    c = Fraction(r.re.get((), 0)) / Fraction(r.den.get((), 1))
    return c if ratfun.is_zero(T.sub(t, T.const(c))) is True else None


def check_crossing(rep, tier):
    rep.rule('arcs', 'every arc from every node takes part: from the position of its node to its end')
    rep.rule('pairs', 'every pair of arcs is looked at once; the search does not stop early')
    rep.rule('counted', 'a pair is counted, by one, exactly if the point common to both carriers lies inside both arcs (exact identity for both parameters)')
    rep.rule('result', 'the number of counted pairs is returned')
    old = terms.MAXMONO
    terms.MAXMONO = 600
    try:
        eng = new_engine(rep, [], tier)
        st = eng.initial_state([MOD])
        try:
            fn = eng.find_fn(MOD, 'checkEdgeCrossing')
        except AnalysisBroken:
            fn = None
        if fn is None or len(fn.node.args.args) != 1:
            rep.und('counted', None, 'the function that counts crossings is not found under its name and parameters')
            return
        w = Watch()
        w.fn = fn
        eng.clients = [w]
        eng.exact_fns = parts(eng, fn)
        SKS.clear()
        SKS.add(SK)
        eng.call_fn(st, fn.node, fn, [skeleton_of(eng, st)], {}, '')
        rep.absorb(eng)
        rep.entries.append('checkEdgeCrossing(any skeleton), every path kept apart')
        judge(rep, eng, w)
    finally:
        terms.MAXMONO = old


def side(facts, coord):
    """conditions of a path: {(parameter, way): constant} for parameter*way < constant ..., whether the carriers are parallel, understood"""
    def p(e, w):
        return [coord[(e, w, '0')], coord[(e, w, '1')]]

    def sub(a, b):
        return [T.sub(x, y) for x, y in zip(a, b)]

    def cross(a, b):
        return T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))
    a, b, c, d = p(0, '1'), p(0, '2'), p(1, '1'), p(1, '2')
    den = cross(sub(b, a), sub(d, c))
    r = T.div(cross(sub(c, a), sub(d, c)), den)
    s = T.div(cross(sub(c, a), sub(b, a)), den)
    unknowns = set(coord.values())
    out, par, odd = {}, None, []
    for f, v in facts.items():
        if f[0] not in ('lt', 'eq') or v not in (True, False):
            continue
        x = strip(f[1])
        fd = {}
        ends(x, fd)
        if not fd:
            continue
        if f[0] == 'eq':
            m = ratfun.multiple(x, den)
            if m and m[1] == 0:
                par = v
            else:
                odd.append(x)
            continue
        for name, q in (('r', r), ('s', s)):
            hit = False
            for sg in (1, -1):
                cst = constant_of(T.sub(x, q) if sg == 1 else T.add(x, q), unknowns)
                if cst is not None:
                    out[(name, sg, v)] = cst
                    hit = True
            if hit:
                break
        else:
            odd.append(x)
    return out, par, odd


def judge(rep, eng, w):
    # the pair loop: the one with conditions about ends of two listed edges
    pairs = []
    for lk, node, facts, env, g in w.backs:
        found = {}
        for f in facts:
            if f[0] in ('lt', 'eq') and isinstance(f[1], int):
                ends(strip(f[1]), found)
        if found:
            pairs.append((lk, node, facts, env, found))
    lks = {p[0] for p in pairs}
    if len(lks) != 1:
        rep.und('counted', None, 'the loop over the pairs is not recognised')
        return
    lk = lks.pop()
    found = {}
    for p in pairs:
        found.update(p[4])
    lists = {v[0] for v in found.values()}
    nums = sorted({v[1] for v in found.values()})
    k = k_of(lk)
    combs = [n for n in nums if T.op(n) == 'ci' and T.args(n)[0] == k]
    node = pairs[0][1]
    if len(lists) != 1 or len(nums) != 2:
        rep.und('pairs', None, 'the pairs are not taken from one list')
        return
    if len(combs) != 2:
        if T.num(T.sub(nums[0], nums[1])) is not None and all(T.mentions(n, k) for n in nums):
            rep.bad('pairs', node, 'only arcs that follow each other in the list are compared', show(nums[0]) + ' ; ' + show(nums[1]))
        else:
            rep.und('pairs', node, 'how the pairs are chosen', show(nums[0]) + ' ; ' + show(nums[1]))
    elif getattr(eng, 'other_pairs', None):
        rep.bad('pairs', node, 'a pair of arcs is looked at twice')
    elif any(b[0] == lk for b in w.breaks):
        rep.bad('pairs', node, 'the search for crossings stops before all pairs have been looked at')
    else:
        rep.ok('pairs', node, 'every pair is looked at once')
    coord = {(nums.index(v[1]), v[2], v[3]): x for x, v in found.items()}
    if len(coord) != 8:
        miss = [key for key in ((e, p, c) for e in (0, 1) for p in '12' for c in '01') if key not in coord]
        for key in miss:
            rep.bad('counted', node, 'the test does not look at one of the coordinates of the ends of the two arcs', '%s end, coordinate %s' % key[1:])
        return
    # the counter
    names = set()
    for p in w.backs:
        if p[0] == lk:
            for n, v in p[3].items():
                if v is not None and getattr(v, 'term', None) is not None and T.op(base(v.term)) == 'phi' and lk in str(T.args(base(v.term))):
                    names.add((n, base(v.term)))
    steps = {}
    for lk2, nd, facts, env, g in w.backs:
        if lk2 != lk:
            continue
        for n, ph in names:
            v = env.get(n)
            d = T.sub(v.term, ph) if v is not None and v.term is not None else None
            steps.setdefault(n, []).append((T.num(d) if d is not None else None, nd, facts))
    ret = [v.term for v in w.rets]
    cnt = [(n, ph) for n, ph in names if any(s[0] for s in steps[n]) or ph in ret]
    if len(cnt) != 1:
        rep.und('counted', node, 'the counter is not recognised')
        return
    n, ph = cnt[0]
    for t in ret:
        if T.rev[t][0] == 'b' or T.op(t) == 'truth' or T.op(t) == 'bool' or T.op(t) in ('lt', 'eq', 'not'):
            rep.bad('result', node, 'a truth value is returned, not the number of counted pairs', show(t))
        elif t == ph:
            rep.ok('result', node, 'the counter is returned')
        elif T.num(T.sub(t, ph)) is not None:
            rep.bad('result', node, 'something else than the number of counted pairs is returned', show(t))
        else:
            rep.und('result', node, 'returned number', show(t))
    for d, nd, facts in steps[n]:
        rep.count('paths through the test of a pair')
        got, par, odd = side(facts, coord)
        if d is None:
            rep.und('counted', nd, 'change of the counter')
            continue
        if d not in (0, 1):
            rep.bad('counted', nd, 'a pair of arcs is counted other than once', str(d))
            continue
        if d == 1:
            # inside both: -r < -lo, r < hi (or the negation of the opposite)
            lack, far = [], []
            for q in 'rs':
                lo = [-c if False else c for (nm, sg, v), c in got.items() if nm == q and ((sg == -1 and v) or (sg == 1 and not v))]
                hi = [c for (nm, sg, v), c in got.items() if nm == q and ((sg == 1 and v) or (sg == -1 and not v))]
                # sg -1, v: c - q < 0 -> q > c;   sg 1, not v: q + c >= 0 -> q >= -c
                lows = [c if sg == -1 else -c for (nm, sg, v), c in got.items() if nm == q and ((sg == -1 and v) or (sg == 1 and not v))]
                highs = [-c if sg == 1 else c for (nm, sg, v), c in got.items() if nm == q and ((sg == 1 and v) or (sg == -1 and not v))]
                for what, xs, want in (('start', lows, 0), ('end', highs, 1)):
                    if not xs:
                        lack.append((q, what))
                    else:
                        x = max(xs) if want == 0 else min(xs)
                        inw = x if want == 0 else 1 - x
                        if not 0 <= inw <= EDGE:
                            far.append((q, what, float(x)))
            if far:
                rep.bad('counted', nd, 'the range in which a common point counts as a crossing is not the inside of the arc', str(far))
            elif lack and odd:
                rep.bad('counted', nd, 'a pair is counted under a condition that is not the position of the common point on the arcs', show(odd[0])[:300]) \
                    if all(resolved(x) for x in odd) and rational(odd) else rep.und('counted', nd, 'condition not understood', show(odd[0])[:200])
            elif lack:
                rep.bad('counted', nd, 'a pair is counted though the common point may lie beyond the %s of an arc' % lack[0][1])
            elif odd:
                rep.bad('counted', nd, 'a pair is counted only under a further condition', show(odd[0])[:300]) if all(resolved(x) for x in odd) and rational(odd) \
                    else rep.und('counted', nd, 'condition not understood', show(odd[0])[:200])
            elif par is not False:
                rep.bad('counted', nd, 'parallel arcs are not excluded')
            else:
                rep.ok('counted', nd, 'counted exactly for a common point inside both arcs')
        else:
            out = par is True
            for (nm, sg, v), c in got.items():
                # q < x / q > x known here, with x at the ends
                if (sg == 1 and v) or (sg == -1 and not v):
                    x = -c if sg == 1 else c
                    out = out or 0 <= x <= EDGE
                if (sg == -1 and v) or (sg == 1 and not v):
                    x = c if sg == -1 else -c
                    out = out or 0 <= 1 - x <= EDGE
            if out:
                rep.ok('counted', nd, 'not counted: parallel, or the common point is not inside both arcs')
            elif odd and not (all(resolved(x) for x in odd) and rational(odd)):
                rep.und('counted', nd, 'condition not understood', show(odd[0])[:200])
            else:
                rep.bad('counted', nd, 'on one path a pair is passed over that may cross', show(odd[0])[:300] if odd else '')
    # the list of arcs
    L = lists.pop()
    rows = [g for g in w.grown if strip(g[0]) == strip(L) or g[0] == L]
    if not rows:
        rep.und('arcs', node, 'the list of arcs is not recognised')
    for t, e, loops, s, nd in rows:
        rep.count('places that list an arc')
        arc_ok(rep, eng, t, e, loops, s, nd)
    into = {g[2][-1] for g in rows if g[2]}
    for lk2, nd, facts, env, g in w.backs:
        if lk2 in into:
            sink = sinks_loop(facts, lk2)
            if sink is None:
                rep.und('arcs', nd, 'loop over something else than the ends of a node')
            elif not g and any((f[0] == 'eq' or f[0] == 'truth' and T.op(f[1]) == 'same') and v is True and isinstance(f[1], int) and mention_ends(f[1:]) for f, v in facts.items()):
                rep.und('arcs', nd, 'an arc is passed over under an equation')
            elif g != 1:
                rep.bad('arcs', nd, 'on one path an arc is listed %s' % ('not at all' if not g else 'more than once'))
            else:
                rep.ok('arcs', nd, 'listed once on this path')
    for nd, b, t in w.cuts:
        if any(T.mentions(x[1].term, t) or x[2] for x in rows if x[1] is not None):
            rep.bad('arcs', nd, 'only a part of the list is looked at', show(b))
    for lk2, nd in w.breaks:
        if lk2 in into or any(lk2 in g[2] for g in rows):
            rep.bad('arcs', nd, 'the list of arcs is left early')


def rational(ts):
    """all of it is made of coordinates of the ends"""
    from .c_geo import atoms_ok
    for t in ts:
        f = {}
        ends(t, f)
        if not atoms_ok(t, set(f)):
            return False
    return True


def base(t):
    """x + constant -> x"""
    p = T.poly(t)
    n = T.num(T.sub(t, T.from_poly({m: c for m, c in p.items() if m})))
    r = T.from_poly({m: c for m, c in p.items() if m})
    return r if n is not None else t


def mention_ends(args):
    return any(isinstance(a, int) and T.find(a, lambda x: field_of(x, 'source') is not None or T.op(x) == 'idx' and field_of(T.args(x)[0], 'sinks') is not None)
               for a in args)


def sinks_loop(facts, lk):
    t = trip_of(facts, lk)
    if t is not None and T.op(t) in ('lenof', 'lenin') and isinstance(T.args(t)[0], int):
        return field_of(strip(T.args(t)[0]), 'sinks') if field_of(T.args(t)[0], 'sinks') is None else field_of(T.args(t)[0], 'sinks')
    return None


def whole(eng, st, v):
    """a vector built from the two coordinates of another one stands for it"""
    try:
        cs, d = eng.comps(st, v)
    except Exception:
        return v.term
    if cs is not None and len(cs) >= 2:
        a = [strip(x.term) for x in cs[:2]]
        if all(T.op(x) == 'c' for x in a) and T.args(a[0])[0] == T.args(a[1])[0] and [str(T.args(x)[1]) for x in a] == ['0', '1']:
            return T.args(a[0])[0]
    return v.term


def arc_ok(rep, eng, t, e, loops, st, nd):
    if e is None:
        rep.und('arcs', nd, 'listed arc')
        return
    fs = {}
    for r in refs(e):
        o = st.heap.get(r)
        if o is not None and o.kind == 'inst':
            for q in ('p1', 'p2'):
                if o.fields.get(q) is not None:
                    fs.setdefault(q, set()).add(whole(eng, st, o.fields[q]))
        elif o is not None and o.items is not None and len(o.items) == 2:
            for q, x in zip(('p1', 'p2'), o.items):
                fs.setdefault(q, set()).add(whole(eng, st, x))
    if set(fs) != {'p1', 'p2'} or any(len(v) != 1 for v in fs.values()):
        rep.und('arcs', nd, 'ends of the listed arc')
        return
    a, b = fs['p1'].pop(), fs['p2'].pop()
    na, nb = field_of(a, 'source'), field_of(b, 'source')
    got = []
    for x in (a, b):
        if field_of(x, 'source') is not None:
            got.append(('source', field_of(x, 'source')))
        elif T.op(x) == 'idx' and field_of(T.args(x)[0], 'sinks') is not None:
            got.append(('sink', field_of(T.args(x)[0], 'sinks'), T.args(x)[1]))
        else:
            got.append(None)
    if None in got:
        rep.und('arcs', nd, 'ends of the listed arc', show(a) + ' ; ' + show(b))
        return
    kinds = sorted(g[0] for g in got)
    if kinds == ['sink', 'source'] and got[0][1] == got[1][1]:
        n = got[0][1]
        k = [g[2] for g in got if g[0] == 'sink'][0]
        if loops and k == k_of(loops[-1]) and len(loops) > 1 and n == k_of(loops[-2]):
            tr = trip_of(st.facts, loops[-2])
            if tr == T.atom('lenin', 'skeleton'):
                rep.ok('arcs', nd, 'from the position of the node to the end of the arc, for all nodes')
            elif tr is not None and resolved(tr):
                rep.bad('arcs', nd, 'not all nodes of the skeleton are looked at', show(tr))
            else:
                rep.und('arcs', nd, 'number of nodes')
        else:
            rep.und('arcs', nd, 'number of the arc', show(k))
    else:
        rep.bad('arcs', nd, 'an edge is listed that is not an arc of the skeleton', show(a) + ' ; ' + show(b))
