"""What a wavefront vertex proposes: the events found for one vertex and the one that is chosen."""
import ast

from .program import AnalysisBroken
from . import ratfun
from .state import T, V
from .base import refs, resolved, show, strip
from .c_wave import Wave, inst_classes, field, base, EMPTY

NONEV = ('none', 'isect')


class Vecs:
    """terms of attributes and components in one state"""

    def __init__(self, eng, st, node):
        self.eng, self.st, self.node = eng, st, node

    def get(self, v, *attrs):
        for a in attrs:
            r = self.eng.getattr(self.st.copy(), self.node, v, a)
            v = r[0][1]
        return v

    def xy(self, v):
        cs, d = self.eng.comps(self.st, v)
        return tuple(strip(c.term) for c in cs[:2]) if cs else None


def line_key(eng, st, node, v):
    """(point, direction) of a line-like object"""
    q = Vecs(eng, st, node)
    if not inst_classes(eng, st, v):
        return None
    try:
        p, d = q.xy(q.get(v, 'p')), q.xy(q.get(v, 'v'))
    except Exception:
        return None
    return (p, d) if p and d else None


def cross2(a, b):
    return T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))


def same_line(a, b):
    """True: the same line by identity; False: other point or direction; None: unknown"""
    if a is None or b is None:
        return None
    if a == b:
        return True
    z = ratfun.is_zero(cross2(a[1], b[1]))
    d = ratfun.is_zero(cross2((T.sub(a[0][0], b[0][0]), T.sub(a[0][1], b[0][1])), b[1]))
    if z is True and d is True:
        return True
    if z is False or d is False:
        return False
    return None


class Geo:
    """intersections and distances as uninterpreted functions of the lines they are asked for"""

    def __init__(self, eng):
        self.eng = eng
        self.lines = {}
        self.isects = {}           # term of the result -> (line, line)
        self.dists = {}            # term of the result -> (line, point term)
        self.stubs = {}
        for f in eng.prog.fns.values():
            if f.qual.endswith('.intersect') and len(f.node.args.args) == 2:
                self.stubs[f.fid] = self.isect(f)
            if f.qual.endswith('.distance') and len(f.node.args.args) == 2 and f.node._mod.name.endswith('bpyeuclid'):
                self.stubs[f.fid] = self.dist(f)
        if not self.stubs:
            raise AnalysisBroken('no methods intersect / distance found')

    def isect(self, fn):
        a, b = [x.arg for x in fn.node.args.args]

        def stub(eng, st, n, env):
            la, lb = line_key(eng, st, n, env[a]), line_key(eng, st, n, env[b])
            if la is None or lb is None:
                t = T.atom('unk', 'isect', eng.key(n))
            else:
                key = lambda l: [x for p in l for x in p]
                t = T.atom('isect', *[x for l in sorted([la, lb]) for x in key(l)])
                self.isects[t] = (la, lb)
            st = st.copy()
            oid = eng.alloc(st, n, 'vec')
            st.heap[oid].dim = 2
            st.heap[oid].ver = t
            return [(st, V(t, frozenset([('ref', oid), NONEV]), None))]
        return stub

    def dist(self, fn):
        a, b = [x.arg for x in fn.node.args.args]

        def stub(eng, st, n, env):
            l = line_key(eng, st, n, env[a])
            p = strip(env[b].term)
            if l is None:
                t = T.atom('unk', 'dist', eng.key(n))
            else:
                t = T.atom('dist', p, *[x for q in l for x in q])
                self.dists[t] = (l, p)
            return [(st, eng.num(t, None))]
        return stub


class Rec:
    """one run over a finder: the events made, where they are kept, what is chosen, what is returned"""
    always = True

    def __init__(self, w, fid):
        self.w, self.fid = w, fid
        self.news, self.rets, self.keys, self.firsts = [], [], [], {}

    def on_new(self, eng, st, node, cls, obj):
        if cls.cid not in self.w.events:
            return
        o = st.heap[next(iter(refs(obj)))]
        self.news.append((cls.cid, dict(o.fields), st.copy(), node))
        fs = tuple(sorted((f, strip(v.term)) for f, v in o.fields.items()))
        st.marks['made'] = st.marks.get('made', EMPTY) | {(cls.cid, fs)}
        st.marks['open'] = st.marks.get('open', EMPTY) | {(obj.term, node)}

    def put(self, st, t, into):
        p = st.marks.get('open')
        if p and any(x[0] == t for x in p):
            st.marks['open'] = frozenset(x for x in p if x[0] != t)
            st.marks['lists'] = st.marks.get('lists', EMPTY) | {(frozenset(refs(into)), x[1]) for x in p if x[0] == t}

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        for x in exact if exact is not None else [elem] if elem is not None and op in ('append', 'insert') else ():
            self.put(st, x.term, target)

    def on_keyed(self, eng, st, node, what, source, elem, key):
        self.keys.append((node, what, source, elem, key, st.copy()))
        st.marks['chosen'] = st.marks.get('chosen', EMPTY) | refs(source)

    def on_return(self, eng, st, node, fn, value, env):
        if fn.fid == self.fid:
            self.rets.append((st.copy(), value))


def run_finder(w, fid):
    eng = w.eng
    fn, env, st, node, ctx, fst = w.scan.lastcall[fid]
    geo = Geo(eng)
    rc = Rec(w, fid)
    eng.clients = [rc]
    eng.exact_fns = frozenset([fid])
    eng.ctx, eng.fstack = list(ctx), list(fst)
    eng.quiet, eng.loopdepth, eng.loopcache = 0, 0, {}
    eng.stubs = geo.stubs
    a = fn.node.args
    s2 = st.copy()
    s2.marks = {m: v for m, v in s2.marks.items() if m in () or m.startswith(('L:', 'D:', 'globals', 'nonlocals'))}
    eng.call_fn(s2, node, fn, [env[y.arg] for y in a.posonlyargs + a.args], {y.arg: env[y.arg] for y in a.kwonlyargs}, '')
    eng.stubs, eng.clients, eng.exact_fns = {}, [], frozenset()
    return fn, env, rc, geo


def any_same(keys, l):
    r = [same_line(k, l) for k in keys]
    return True if True in r else None if None in r else False


def facts_lt(st):
    """(f, True/False): f < 0 is known to hold / not to hold"""
    for k, v in st.facts.items():
        if k[0] == 'lt' and isinstance(k[1], int):
            yield strip(k[1]), v


def near(t, k):
    """t = k up to a tolerance"""
    c = T.num(T.sub(t, k))
    return c is not None and abs(c) <= 0.001


def check_found(rep, tier):
    rep.rule('meet', 'the place of an edge event is where the bisectors of its two neighbouring vertices meet')
    rep.rule('split place', 'the place of a split event lies on the bisector of its vertex')
    rep.rule('distance', 'the distance of an event is measured from its place to a footprint edge of the event')
    rep.rule('reflex', 'only a reflex vertex proposes split events')
    rep.rule('own', 'a vertex does not split one of the two edges it lies between')
    rep.rule('region', 'the place of a split event has been tested to lie between the bisectors of both ends of the edge and inside of the edge')
    rep.rule('both', 'an edge event is proposed with each neighbour whose bisector meets the own one')
    rep.rule('neighbours', 'an edge event joins a vertex with the one before or after it, the two always named in the same order of the ring')
    rep.rule('nearest', 'of all events found the one nearest to the vertex is proposed')
    rep.assumptions += ['intersect and distance compute what their names say (decided by C18)']
    w = Wave(rep, tier)
    eng = w.eng
    place, dist = w.roles()
    tops = [f for f in w.finders if f in w.scan.lastcall and not any(g.fid in w.finders for g in w.scan.lastcall[f][5])]
    if not tops:
        raise AnalysisBroken('no function that finds the next event of a vertex')
    # what returns an event without being given a vertex only hands it on
    if not [fid for fid in tops if one_finder(rep, w, fid, place, dist)]:
        raise AnalysisBroken('no function that is given a vertex and finds its next event')
    rep.absorb(eng)
    for n in ('edge events', 'split events', 'paths to the end of a search'):
        rep.require(n)


def one_finder(rep, w, fid, place, dist):
    fn, env, rc, geo = run_finder(w, fid)
    eng = w.eng
    selfs = [v for v in env.values() if inst_classes(eng, rc.rets[0][0] if rc.rets else None, v) & {w.vertex}] if rc.rets else []
    if len(selfs) != 1:
        return False
    me = selfs[0]
    met = strip(me.term)
    for cid, f, st, node in rc.news:
        q = Vecs(eng, st, node)
        bis = lambda v: line_key(eng, st, node, q.get(v, 'bisector'))
        edge = lambda v: line_of_edge(q, v)
        p = f[place].term
        vs = [x for x in f if inst_classes(eng, st, f[x]) == {w.vertex}]
        pt = strip(p)
        iso = geo.isects.get(p)
        if len(vs) == 2:
            rep.count('edge events')
            a, b = f[vs[0]], f[vs[1]]
            nb = [x for x in (a, b) if strip(x.term) != met]
            side = [s for s in ('prev', 'next') if len(nb) == 1 and strip(q.get(me, s).term) == strip(nb[0].term)]
            if side:
                # which field holds the earlier vertex of the ring
                first = (vs[1] if strip(a.term) == met else vs[0]) if side[0] == 'prev' else (vs[0] if strip(a.term) == met else vs[1])
                rc.firsts.setdefault(cid, {}).setdefault(first, []).append(node)
            rep.decide(True if side else False if len(nb) != 1 or resolved(strip(nb[0].term)) else None, 'neighbours', node, 'the edge event joins the vertex with the one before or after it')
            what = 'edge event'
            if iso is not None:
                want = [bis(a), bis(b)]
                got = [[same_line(g, x) for x in want] for g in iso]
                ok = (got[0][0] is True and got[1][1] is True) or (got[0][1] is True and got[1][0] is True)
                no = not any(x is None for r in got for x in r) and all(x is not None for x in want)
                rep.decide(True if ok else False if no else None, 'meet', node, what + ': place is the meeting point of the bisectors of its vertices')
            else:
                rep.decide(False if resolved(pt) else None, 'meet', node, what + ': place is the meeting point of the bisectors of its vertices', show(pt))
            edges = [edge(q.get(v, e)) for v in (a, b) for e in ('edge_prev', 'edge_next')]
        else:
            rep.count('split events')
            what = 'split event'
            opp = [f[x] for x in f if x not in vs and x not in (place, dist)]
            if iso is not None:
                r = any_same(iso, bis(me))
                rep.decide(r, 'split place', node, what + ': place lies on the own bisector')
            else:
                rep.decide(False if resolved(pt) else None, 'split place', node, what + ': place lies on the own bisector', show(pt))
            edges = [edge(v) for v in opp] + [edge(q.get(me, e)) for e in ('edge_prev', 'edge_next')]
            rt = q.get(me, 'is_reflex').term
            rep.decide(st.facts.get(('truth', rt)) is True, 'reflex', node, 'made only for a reflex vertex')
            for o in opp:
                split_edge(rep, eng, w, q, st, node, me, o, pt)
        d = f[dist].term
        got = geo.dists.get(d)
        if got is None:
            inner = T.find(d, lambda x: x in geo.dists)
            rest = free(strip(d), (T.atom('c', pt, '0', T.ZERO), T.atom('c', pt, '1', T.ZERO)))
            away = not any(T.mentions(rest, y) for e in edges if e for x in e for y in x if not T.is_const(y))
            rep.decide(False if (inner or away) and resolved(strip(d)) else None, 'distance', node, what + ': distance of its place from its edge', show(d))
        elif got[1] != pt:
            rep.decide(False if got[1] in {strip(x) for x in geo.isects} or resolved(got[1]) else None, 'distance', node,
                       what + ': distance of its place from its edge', 'measured from another point: ' + show(got[1])[:120])
        else:
            rep.decide(any_same([e for e in edges if e is not None], got[0]), 'distance', node, what + ': distance of its place from its edge')
    for st, v in rc.rets:
        rep.count('paths to the end of a search')
        blurred = st.marks.get('blurred')
        q = Vecs(eng, st, fn.node)
        mine = line_key(eng, st, fn.node, q.get(me, 'bisector'))
        for side in ('prev', 'next'):
            nb = q.get(me, side)
            nt = strip(nb.term)
            l = line_key(eng, st, fn.node, q.get(nb, 'bisector'))
            made = any({x for f, x in fs} >= {met, nt} for c, fs in st.marks.get('made', EMPTY))
            t = T.atom('isect', *[x for y in sorted([mine, l]) for z in y for x in z]) if mine and l else None
            missing = t is not None and (st.facts.get(('isnone', t)) is True or st.facts.get(('truth', t)) is False)
            rep.decide(True if made or missing else None if blurred else False, 'both', fn.node,
                       'the event with the %s vertex is proposed, or the bisectors do not meet' % side)
        ch = st.marks.get('chosen', EMPTY)
        for t, n in st.marks.get('open', EMPTY):
            if t == v.term or T.mentions(v.term, t):
                continue
            rep.decide(False if ch and not blurred else None, 'nearest', n, 'the event found here takes part in the choice')
        for l, n in st.marks.get('lists', EMPTY):
            if not ch and any(eng.fact(st, ('eq', st.heap[r].length)) is True or st.facts.get(('truth', T.atom('obj', r))) is False
                              for r in l if r in st.heap):
                continue           # the list is known to be empty: not a path
            # one element of the list is handed back, and nothing was compared on this path
            bare = not ch and not blurred and T.op(v.term) == 'idx' and T.args(v.term)[0] in {T.atom('obj', r) for r in l}
            rep.decide(True if l & ch else False if bare else None, 'nearest', n, 'the event found here takes part in the choice')
    for cid, d in rc.firsts.items():
        l = [n for ns in d.values() for n in ns]
        rep.decide(len(d) == 1, 'neighbours', l[-1], 'the two vertices are given in the same order in every edge event')
    kinds = {}
    for node, what, source, elem, key, st in rc.keys:
        if not (inst_classes(eng, st, elem) & w.events):
            continue
        q = Vecs(eng, st, node)
        own, pl = q.xy(q.get(me, 'point')), q.xy(q.get(elem, place))
        ok = [strip(q.get(elem, dist).term)]
        if own and pl:
            sq = T.add(*[T.mul(T.sub(x, y), T.sub(x, y)) for x, y in zip(own, pl)])
            ok += [sq, T.atom('sqrt', sq)]
        k = strip(key.term)
        good = k in ok or any(ratfun.is_zero(T.sub(k, x)) is True for x in ok)
        back = T.neg(k) in ok
        if good or back:
            kinds.setdefault(node, set()).add(k == ok[0] or T.neg(k) == ok[0])
            if len(kinds[node]) > 1:
                rep.bad('nearest', node, 'some events are chosen by the distance from the vertex, others by the distance from an edge')
        if what == 'min':
            rep.decide(True if good else False if resolved(k) else None, 'nearest', node, 'chosen by the distance from the vertex', show(k)[:200])
        elif what == 'max':
            rep.decide(False if good else True if back else None, 'nearest', node, 'chosen by the distance from the vertex')
        else:
            rep.und('nearest', node, 'order of the events found')
    return True


def line_of_edge(q, e):
    p1, p2 = q.xy(q.get(e, 'p1')), q.xy(q.get(e, 'p2'))
    if not p1 or not p2:
        return None
    return p1, (T.sub(p2[0], p1[0]), T.sub(p2[1], p1[1]))


def free(t, P):
    """t with the coordinates of P as unknowns"""
    for i, x in enumerate(P):
        t = T.subst(t, x, T.atom('in', 'place', str(i)))
    return t


def nrm(v):
    return (T.atom('nrm', '0', *v), T.atom('nrm', '1', *v))


def minus(a, b):
    return (T.sub(a[0], b[0]), T.sub(a[1], b[1]))


def split_edge(rep, eng, w, q, st, node, me, opp, pt):
    ot = strip(opp.term)
    direct = strip(q.get(me, 'original_edges').term)
    for e in ('edge_prev', 'edge_next'):
        et = strip(q.get(me, e).term)
        known = False
        for k, v in st.facts.items():
            if k[0] == 'truth' and v is False and T.op(k[1]) in ('same', 'eqv'):
                if {strip(x) for x in T.args(k[1]) if isinstance(x, int)} == {ot, et}:
                    known = True
        fromlist = T.mentions(ot, direct)
        rep.decide(True if known else False if fromlist else None, 'own', node, 'the split edge is not the own %s' % e)
    if T.op(ot) != 'sel':
        rep.und('region', node, 'the edge is not an entry of the edge table')
        return
    entry = [x for x in refs_of_entry(eng, st, opp)]
    base_t = T.args(opp.term)[0]
    ent = V(base_t, frozenset(entry), None) if entry else None
    if ent is None:
        rep.und('region', node, 'table entry not found')
        return
    P = (T.atom('c', pt, '0', T.ZERO), T.atom('c', pt, '1', T.ZERO))
    tests = []
    for name, sign in (('bisector_prev', 1), ('bisector_next', -1)):
        b = q.get(ent, name)
        bp, bv = q.xy(q.get(b, 'p')), q.xy(q.get(b, 'v'))
        if bp and bv:
            tests.append((name, cross2(nrm(bv), nrm(minus(P, bp))), sign, bp))
    en, e1 = q.xy(q.get(opp, 'norm')), q.xy(q.get(opp, 'p1'))
    if en and e1:
        tests.append(('edge', cross2(en, nrm(minus(P, e1))), -1, e1))
    ends = [t[3] for t in tests]
    for name, k, sign, anchor in tests:
        hit, wrong, other = False, False, False
        for f, v in facts_lt(st):
            # sign*K < eps
            g = f if v else T.neg(f)
            if near(g, T.mul(T.const(sign), k)):
                hit = True
            elif near(g, T.mul(T.const(-sign), k)):
                wrong = True
            else:
                h = free(f, P)
                if h != f and any(T.mentions(h, x) for x in anchor):
                    # a test with nothing but the edge's own line says nothing about the bisector at its end
                    for x in [y for l in ends + ([en] if en and name != 'edge' else []) for y in l]:
                        h = T.subst(h, x, T.ONE)
                    if name == 'edge' or T.find(h, lambda y: T.op(y) in ('c', 'sel', 'idx', 'nrm') and not T.mentions(y, T.atom('in', 'place', '0')) and not T.mentions(y, T.atom('in', 'place', '1'))):
                        other = True
        rep.decide(True if hit else False if wrong else None if other else False, 'region', node,
                   'tested against the %s' % ('edge itself' if name == 'edge' else name.replace('_', ' ') + ' vertex of the edge'))


def refs_of_entry(eng, st, opp):
    """objects whose field is the value opp"""
    bt = T.args(opp.term)[0]
    for oid, o in st.heap.items():
        if o.kind == 'inst' and 'edge' in o.fields and 'bisector_prev' in o.fields:
            yield ('ref', oid)
