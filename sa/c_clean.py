"""Cleaning the traced faces: which vertices leave a face, and which edge a face starts with."""
import math

from .program import AnalysisBroken
from .state import T
from .base import refs, resolved, show, strip
from .entry import MOD, run_polygonize, mkobj, innum, pos
from .c_poly import none_v
from .c_graph import setup, method
from .c_poly import new_engine, stub_skeletonize

EMPTY = frozenset()
FACES = T.atom('in', 'tracedFaces')


class Rec:
    def __init__(self, node, st, loops, **kw):
        self.node, self.facts, self.loops = node, dict(st.facts), tuple(loops)
        self.__dict__.update(kw)


class Watch:
    always = True

    def __init__(self):
        self.fn = self.first = None
        self.cuts, self.puts, self.on = [], [], False
        self.rounds, self.breaks, self.counted = [], [], {}

    def on_counted(self, eng, st, node, elem, oid):
        if self.on:
            self.counted[oid] = (node, elem.term, tuple(eng.loopstack))

    def on_backedge(self, eng, st, node, lk):
        if self.on and not eng.quiet:
            self.rounds.append((lk, node, dict(st.facts), st.marks.get('put', EMPTY)))
        st.marks.pop('put', None)

    def on_loopbreak(self, eng, st, node, lk, enters):
        if self.on and not eng.quiet:
            self.breaks.append((lk, node, dict(st.facts), st.marks.get('put', EMPTY)))

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if not self.on or eng.quiet:
            return
        v = kw.get('value')
        if op in ('remove', 'pop', 'delitem', 'setitem', 'clear', 'setslice', 'delslice', 'insert', 'reverse', 'sort'):
            self.cuts.append(Rec(node, st, eng.loopstack, op=op, target=target, value=getattr(v, 'term', None), ix=kw.get('index'), state=st.copy()))

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if not self.on:
            return
        if elem is not None:
            st.marks['put'] = st.marks.get('put', EMPTY) | {(target.term, elem.term, node)}
        if not eng.quiet:
            self.puts.append(Rec(node, st, eng.loopstack, target=target, elem=elem, rhs=rhs, op=op, exact=exact))


def walk(rep, tier):
    eng = new_engine(rep, [], tier)
    eng.initial_state([MOD])
    stub_skeletonize(eng)
    w = Watch()
    eng.clients = [w]
    for f in eng.prog.fns.values():
        if f.qual.endswith('.circular_embedding'):
            def emb(e, st, n, env):
                return [(st.copy(), e.unk(n, 'embedding'))]
            eng.stubs[f.fid] = emb
        if f.qual.endswith('.faces'):
            def faces(e, st, n, env):
                st = st.copy()
                w.on = True
                names = [a.arg for a in f2.node.args.args]
                w.first = env[names[2]].term if len(names) > 2 else None
                v = mkobj(st, 'tracedFaces', 'list', elem=mkobj(st, 'face', 'list', single=False, elem=innum('vertex')))
                return [(st, v)]
            f2 = f
            eng.stubs[f.fid] = faces
    fn = eng.find_fn(MOD, 'polygonize')
    w.fn = fn
    eng.exact_fns = frozenset([fn.fid])

    def override(eng, st, env):
        for p in ('holesInfo', 'unitVectors', 'faces'):
            if p in env:
                env[p] = none_v()
        pos(eng, st, env['height'].term)
    run_polygonize(eng, override)
    rep.absorb(eng)
    return eng, fn, w


# ------------------------------------------------------------------ the vertices of one round
class Place:
    """face, and three consecutive vertices of it, as seen by a round of the loop over its vertices"""

    def __init__(self, face, lk):
        self.face, self.k = face, T.atom('k', lk)

    def at(self, t):
        """-1, 0, 1: before, here, after"""
        if T.op(t) != 'idx' or T.args(t)[0] != self.face:
            return None
        p = T.args(t)[1]
        if T.op(p) == 'mod':
            p = T.args(p)[0]
        n = T.num(T.sub(p, self.k))
        return int(n) if n in (-1, 0, 1) else None


def is_face(t):
    return T.op(t) == 'idx' and T.args(t)[0] == FACES


def places(facts, lk, also=()):
    k = T.atom('k', lk)
    out = []
    for t in [f[1] for f in facts if f[0] in ('lt', 'eq')] + list(also):
        for x in T.find(t, lambda x: T.op(x) == 'idx' and is_face(T.args(x)[0]) and T.mentions(T.args(x)[1], k)):
            if T.args(x)[0] not in out:
                out.append(T.args(x)[0])
    return [Place(f, lk) for f in out]


VERTS = T.atom('in', 'verts')
# three vertices of something else, six of the footprint, three of a hole; then the roof vertices
SIZES = {T.atom('lenin', 'verts'): 12.0, T.atom('in', 'firstVertIndex'): 3.0, T.atom('in', 'numVerts'): 6.0}


def samples():
    dirs = [(1, 0), (0.9988, 0.05), (0.9988, -0.05), (0.96, 0.28), (0.96, -0.28), (0, 1), (0, -1), (-1, 0), (-0.9988, 0.05), (-0.9988, -0.05),
            (-0.96, 0.28), (-0.96, -0.28)]
    for ln, lk in ((2.0, 0.5), (0.5, 2.0)):
        for d in dirs:
            for base in ((1, 0), (0.6, 0.8)):
                u = (base[0] * d[0] - base[1] * d[1], base[0] * d[1] + base[1] * d[0])
                yield (ln * base[0], ln * base[1]), (lk * u[0], lk * u[1])
    for z in ((0.0, 0.0), (1.0, 0.0)):
        yield (0.0, 0.0), z
        yield z, (0.0, 0.0)


class Case:
    def __init__(self, s0, s1, cnt, rel, ln, known):
        self.s0, self.s1, self.cnt, self.rel, self.ln, self.known = s0, s1, cnt, rel, ln, known
        self.p = {0: (0.25, 0.5), -1: (0.25 - s0[0], 0.5 - s0[1]), 1: (0.25 + s1[0], 0.5 + s1[1])}
        self.memo, self.tables = {}, ()
        l0, l1 = math.hypot(*s0), math.hypot(*s1)
        self.zero = l0 == 0 or l1 == 0
        self.cos = None if self.zero else (s0[0] * s1[0] + s0[1] * s1[1]) / l0 / l1
        self.cross = s0[0] * s1[1] - s0[1] * s1[0]

    def __str__(self):
        return 'edges %s and %s' % (self.s0, self.s1)


class Vague(Exception):
    pass


def evaluate(t, case, place):
    if t in case.memo:
        return case.memo[t]
    k = T.rev[t]
    if k[0] == 'c':
        r = float(k[1])
    elif k[0] == 'p':
        r = 0.0
        for mono, c in k[1]:
            x = float(c)
            for a, e in mono:
                v = evaluate(a, case, place)
                if v == 0 and e < 0:
                    raise Vague
                x *= v ** e
            r += x
    elif T.op(t) == 'sqrt':
        v = evaluate(T.args(t)[0], case, place)
        r = math.sqrt(v if v > 0 else 0.0)
    elif T.op(t) == 'abs':
        r = abs(evaluate(T.args(t)[0], case, place))
    elif T.op(t) == 'c' and T.op(T.args(t)[0]) == 'idx' and T.args(T.args(t)[0])[0] == VERTS:
        at = place.at(T.args(T.args(t)[0])[1])
        ax = T.args(t)[1]
        ax = int(ax) if str(ax) in ('0', '1', '2') else None
        if at is None:
            raise Vague
        r = case.p[at][ax] if ax in (0, 1) else (3.0, 7.0, 1.0)[at + 1]
    elif t in SIZES:
        r = SIZES[t]
    elif T.op(t) == 'idx' and place.at(t) is not None:
        # neighbours are of the other kind
        r = 12.0 + (case.rel if place.at(t) == 0 else 3 * place.at(t) + (8 if case.rel < 0 else -8))
    elif T.op(t) == 'lenof' and T.args(t)[0] == place.face:
        r = float(case.ln)
    elif T.op(t) == 'idx' and place.at(T.args(t)[1]) is not None and T.args(t)[0] in case.tables:
        r = float(case.cnt if place.at(T.args(t)[1]) == 0 else 4 if case.cnt < 3 else 1)
    else:
        raise Vague
    case.memo[t] = r
    return r


def about(t, place):
    """the fact speaks about the vertex or its neighbours"""
    return bool(T.find(t, lambda x: T.op(x) == 'idx' and place.at(x) is not None))


def consistent(facts, case, place):
    """True / False / None: the facts of the path hold for the case"""
    sure = True
    for f, v in facts.items():
        if v not in (True, False):
            continue
        if f[0] in ('lt', 'eq', 'truth'):
            if not about(f[1], place) and not T.find(f[1], lambda x: T.op(x) == 'lenof' and T.args(x)[0] == place.face):
                continue
            if T.find(f[1], lambda x: x == place.k) and not about(f[1], place):
                continue
            try:
                x = evaluate(f[1], case, place)
            except Vague:
                sure = None
                continue
            if ((x < -1e-12) if f[0] == 'lt' else (abs(x) < 1e-12) == (f[0] == 'eq')) != v:
                return False
        elif f[0] == 'in' and place.at(f[1]) == 0:
            if case.known != v:
                return False
        elif any(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(T.rev) and about(x, place) for x in f[1:]):
            sure = None
    return sure


def straight(c):
    """the roof vertex may go: in two faces only, and the edges go on in one direction or one has no length"""
    return c.ln > 3 and c.cnt < 3 and c.rel >= 0 and (c.zero or abs(c.cos - 1) < 0.01)


def spike(c):
    return c.ln > 3 and not c.zero and abs(c.cos + 1) < 0.01 and c.cross > -1e-6


def cases(tabs, full):
    for s0, s1 in samples():
        for ln in (3, 4):
            for cnt in (1, 2, 3, 4) if full else (2,):
                for rel in (-1, -4, 0, 1) if full else (1,):
                    for known in (False, True) if full else (False,):
                        c = Case(s0, s1, cnt, rel, ln, known)
                        c.tables = tabs
                        yield c


def never_judged(loops, every, wanted):
    """a case that should be acted on, and that no round of the loops is for"""
    for (lk, face), rs in loops.items():
        left = []
        for c in every:
            c.memo = {}
            if wanted(c) and all(consistent(facts, c, pl) is False for _, facts, _, _, pl in rs):
                left.append(c)
        every = left
    return left[0] if left else None


def exactly(facts, place, every, wanted, chosen):
    """-> (case that contradicts, whether some fact was not understood)"""
    vague = False
    for c in every:
        c.memo = {}
        r = consistent(facts, c, place)
        if r is False:
            continue
        if r is None:
            vague = True
        want = wanted(c)
        if chosen != want and not (want and c.known):
            if r is True:
                return c, False
    return None, vague


def check_cleaning(rep, tier):
    rep.rule('straight', 'a vertex leaves a face with more than three corners exactly if it is a roof vertex in at most two faces and its two edges '
             'go on in one direction, or one of them has no length')
    rep.rule('double', 'of two equal neighbours in a face one is removed, other vertices are not')
    rep.rule('spike', 'a spike is a vertex of a face with more than three corners where the way goes back on itself, turning left')
    rep.rule('first edge', 'a traced face is cut before an edge with both ends in the footprint')
    rep.rule('handed over', 'a traced face is handed over, as the starts of its edges, exactly if it has a roof vertex')
    rep.rule('own face', 'vertices are taken out of the face they were found in')
    rep.rule('counted', 'the number of faces of a vertex is counted over all faces')
    eng, fn, w = walk(rep, tier)
    rep.entries.append('polygonize after the faces are traced, every path kept apart')
    tabs = tuple(T.atom('obj', oid) for oid in w.counted)
    for oid, (node, e, loops) in w.counted.items():
        good = True if T.op(e) == 'idx' and is_face(T.args(e)[0]) else None
        if good and any(T.mentions(T.args(T.args(e)[0])[1], T.atom('k', lk)) for lk in loops):
            good = False            # of the face at hand only
        if good and left_out(T.args(e)[0]):
            good = False
        rep.decide(good, 'counted', node, 'all faces are counted', show(e)[:160])
    if w.first is not None:
        rep.decide(True if w.first == T.atom('lenin', 'verts') else False if resolved(w.first) else None, 'handed over', fn.node,
                   'roof vertices are those appended to the list', show(w.first)[:120])
    straight_vertices(rep, w, tabs)
    doubles(rep, w)
    spikes(rep, w, tabs)
    own(rep, w)
    handed_over(rep, tier)
    rep.require('rounds judged')


def left_out(face, facts=()):
    """'first' / 'last': some faces are not among those gone through"""
    i = T.args(face)[1]
    ks = T.find(i, lambda x: T.op(x) in ('k', 'ko'))
    if len(ks) != 1:
        return None
    n = T.num(T.sub(i, ks[0]))
    if n is not None and n > 0:
        return 'first'
    for f, v in dict(facts).items():
        # the loop goes on while k < number of faces - c
        if f[0] == 'lt' and v is True and T.op(f[1]) is None and T.mentions(f[1], ks[0]):
            rest = T.sub(f[1], ks[0])
            ls = [a for m in T.poly(rest) for a, e in m]
            c = T.poly(rest).get((), 0)
            if not T.mentions(rest, ks[0]) and len(ls) == 1 and T.mentions(ls[0], FACES) is False and c > 0 and 'tracedFaces:len' in show(ls[0]):
                return 'last'
    return None


def put_at(puts, pl):
    return {pl.at(e): n for _, e, n in puts if pl.at(e) is not None}


def geometric(facts, pl):
    return any(f[0] in ('lt', 'eq') and T.find(f[1], lambda x: T.op(x) == 'c' and T.op(T.args(x)[0]) == 'idx' and T.args(T.args(x)[0])[0] == VERTS and
                                               pl.at(T.args(T.args(x)[0])[1]) is not None) for f in facts)


def loops_of(w, what):
    """rounds of the loops over the vertices of a face, by loop"""
    by = {}
    for brk, rs in ((False, w.rounds), (True, w.breaks)):
        for lk, node, facts, puts in rs:
            for pl in places(facts, lk, [e for _, e, _ in puts]):
                by.setdefault((lk, pl.face), []).append((node, facts, puts, brk, pl))
    return {k: v for k, v in by.items() if what(v)}


def straight_vertices(rep, w, tabs):
    ls = loops_of(w, lambda rs: any(geometric(f, pl) for _, f, _, _, pl in rs) and any(put_at(p, pl) for _, _, p, _, pl in rs))
    for (lk, face), rs in ls.items():
        every = list(cases(tabs, True))
        for node, facts, puts, brk, pl in rs:
            at = put_at(puts, pl)
            if brk:
                rep.und('straight', node, 'the search for straight vertices is left early')
                continue
            if set(at) - {0}:
                rep.bad('straight', node, 'a neighbour of the vertex that was judged is removed')
                continue
            rep.count('rounds judged')
            c, vague = exactly(facts, pl, every, straight, 0 in at)
            what = 'a vertex is removed' if 0 in at else 'a vertex stays'
            o = left_out(pl.face, facts)
            if o:
                rep.bad('straight', node, 'the %s face is left out' % o)
            elif c is not None:
                rep.bad('straight', at.get(0, node), 'wrongly ' + what, '%s, in %d faces, %s, face of %d' %
                        (c, c.cnt, 'roof vertex' if c.rel >= 0 else 'footprint vertex', c.ln))
            elif vague:
                rep.und('straight', at.get(0, node), what)
            else:
                rep.ok('straight', at.get(0, node), what)
    c = never_judged(ls, list(cases(tabs, True)), straight) if ls else None
    if c is not None:
        rep.bad('straight', list(ls.values())[0][0][0], 'a vertex is not judged', 'face of %d' % c.ln)
    if not ls:
        rep.und('straight', w.fn.node, 'the search for straight vertices was not found')


def doubles(rep, w):
    ls = loops_of(w, lambda rs: not any(geometric(f, pl) for _, f, _, _, pl in rs) and any(put_at(p, pl) for _, _, p, _, pl in rs))
    for (lk, face), rs in ls.items():
        for node, facts, puts, brk, pl in rs:
            at = put_at(puts, pl)
            rep.count('rounds judged')
            node = list(at.values())[0] if at else node
            vague, wrong = False, None
            for vs in ((5, 7, 9), (9, 7, 5), (5, 5, 9), (9, 9, 5), (5, 9, 9), (9, 5, 5)):
                r = indices_fit(facts, pl, vs)
                if r is False:
                    continue
                double = [a for a in at if any(vs[a + 1] == vs[b + 1] for b in (a - 1, a + 1) if -1 <= b <= 1)]
                if len(double) != len(at):
                    wrong, vague = (vs, vague) if r else (wrong, True)
            if wrong:
                rep.bad('double', node, 'a vertex without an equal neighbour is removed', 'vertices %s' % (wrong,))
            elif vague:
                rep.und('double', node, 'a vertex is removed')
            else:
                rep.ok('double', node, 'of equal neighbours one is removed' if at else 'a vertex stays')


def indices_fit(facts, pl, vs):
    sure = True
    for f, v in facts.items():
        if f[0] in ('lt', 'eq', 'truth') and v in (True, False) and about(f[1], pl):
            try:
                x = plain(f[1], pl, vs)
            except Vague:
                sure = None
                continue
            if ((x < 0) if f[0] == 'lt' else (x == 0) == (f[0] == 'eq')) != v:
                return False
        elif f[0] not in ('lt', 'eq', 'truth') and any(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(T.rev) and about(x, pl) for x in f[1:]):
            sure = None
    return sure


def plain(t, pl, vs):
    a = pl.at(t)
    if a is not None:
        return vs[a + 1]
    k = T.rev[t]
    if k[0] == 'c':
        return k[1]
    if k[0] == 'p':
        r = 0
        for mono, c in k[1]:
            for b, e in mono:
                c = c * plain(b, pl, vs) ** e
            r += c
        return r
    raise Vague


def spikes(rep, w, tabs):
    ls = loops_of(w, lambda rs: any(geometric(f, pl) for _, f, _, _, pl in rs) and any(b for _, _, _, b, _ in rs) and
                  not any(put_at(p, pl) for _, _, p, _, pl in rs))
    for (lk, face), rs in ls.items():
        every = list(cases(tabs, False))
        for node, facts, puts, brk, pl in rs:
            rep.count('rounds judged')
            c, vague = exactly(facts, pl, every, spike, brk)
            what = 'taken as a spike' if brk else 'not taken as a spike'
            o = left_out(pl.face, facts)
            if o:
                rep.bad('spike', node, 'the %s face is left out' % o)
            elif c is not None:
                rep.bad('spike', node, 'wrongly ' + what, '%s, face of %d' % (c, c.ln))
            elif vague:
                rep.und('spike', node, what)
            else:
                rep.ok('spike', node, what)
    c = never_judged(ls, list(cases(tabs, False)), spike) if ls else None
    if c is not None:
        rep.bad('spike', list(ls.values())[0][0][0], 'a vertex is not judged', 'face of %d' % c.ln)
    if not ls:
        rep.und('spike', w.fn.node, 'the search for spikes was not found')


def own(rep, w):
    found = {}
    for lk, node, facts, puts in w.rounds:
        for pl in places(facts, lk, [e for _, e, _ in puts]):
            for target, e, n in puts:
                if pl.at(e) is not None:
                    found.setdefault(target, set()).add(pl.face)
    for r in w.cuts:
        if r.op != 'remove' or r.value is None or T.op(r.value) != 'idx' or T.args(r.value)[0] not in found:
            continue
        fs = found[T.args(r.value)[0]]
        rep.count('removals')
        other = is_face(r.target.term) and (T.num(T.args(r.target.term)[1]) is not None or T.op(T.args(r.target.term)[1]) is None and 'tracedFaces:len' in
                                            show(T.args(r.target.term)[1]))
        rep.decide(True if fs == {r.target.term} else False if other or resolved(r.target.term) else None, 'own face', r.node,
                   'the vertex is taken out of the face it was found in', show(r.target.term)[:160])


# ------------------------------------------------------------------ faces handed over by the graph
NUM = T.atom('in', 'n')


class Hand(Watch):
    def __init__(self):
        Watch.__init__(self)
        self.on = True
        self.places, self.slices, self.lists = {}, [], {}

    def on_comp(self, eng, st, node, target, elem):
        if eng.quiet:
            return
        if T.op(elem.term) == 'k':
            ends = {strip(T.add(f[1], NUM)) for f, v in st.facts.items() if f[0] == 'lt' and v is True and T.mentions(f[1], NUM) and
                    not T.mentions(T.add(f[1], NUM), NUM)}
            self.places.setdefault(target.term, []).append((node, ends))
        self.lists.setdefault(target.term, []).append((node, elem.term))

    def on_cut(self, eng, st, node, base, result, lo, hi, step):
        if not eng.quiet:
            self.slices.append((node, base.term, lo and lo.term, hi and hi.term))


def handed_over(rep, tier):
    eng, st, ci, g = setup(rep, tier)
    fn = method(ci, 'faces')
    w = Hand()
    eng.clients = [w]
    eng.exact_fns = frozenset(f.fid for f in eng.prog.fns.values() if f.node._mod is fn.node._mod)
    emb = mkobj(st, 'embedding', 'dict', elem=mkobj(st, 'ring', 'list', single=False, elem=innum('next')))
    st.heap['in:embedding'].key = innum('vertex')
    res = eng.call_fn(st, fn.node, fn, [g, emb, innum('n')], {}, '')
    rep.absorb(eng)
    rep.entries.append('%s.faces' % ci.name)
    out = {v.term for _, v in res}
    # the edge a face starts with
    for node, base, lo, hi in w.slices:
        for b in (lo, hi):
            ps = [p for p in w.places if b is not None and T.mentions(b, p)]
            if len(ps) != 1:
                continue
            at = T.find(b, lambda x: T.op(x) == 'next' and T.args(x)[-1] == ps[0] or T.op(x) == 'idx' and T.args(x)[0] == ps[0])
            shift = T.num(T.sub(b, at[0])) if len(at) == 1 else None
            first = len(at) == 1 and (T.op(at[0]) == 'next' or T.num(T.args(at[0])[1]) is not None)
            rep.count('rotations')
            if shift is None or not first:
                rep.und('first edge', node, 'where the face is cut', show(b)[:120])
                continue
            rep.decide(shift == 0, 'first edge', node, 'the face is cut before a footprint edge', 'shift %s' % shift)
            for n, ends in w.places[ps[0]]:
                rep.decide(True if len(ends) >= 2 else False if all(resolved(x) for x in ends) else None, 'first edge', n,
                           'both ends of the first edge are footprint vertices', '%d ends asked' % len(ends))
    # which faces
    for r in w.puts:
        if r.target.term not in out or r.elem is None:
            continue
        rep.count('faces handed over')
        x = r.elem.term
        for n, e in w.lists.get(x, ()):
            i = T.num(T.args(e)[1]) if T.op(e) == 'idx' else None
            ks = T.op(e) == 'idx' and T.op(T.args(e)[0]) == 'idx' and T.op(T.args(T.args(e)[0])[1]) == 'k'
            rep.decide(None if not ks or i is None else i in (0, -2), 'handed over', n, 'a face is the list of the starts of its edges', show(e)[:120])
        got = roof(r.facts, x)
        rep.decide(None if got is None else got is True, 'handed over', r.node, 'a face with a roof vertex is handed over', 'asked: %s' % got)
    for lk, node, facts, puts in w.rounds:
        if any(t in out for t, _, _ in puts):
            continue
        for x in {e for f in facts for e in T.find(f[1], lambda y: T.op(y) in ('anyof', 'allof')) if f[0] == 'truth'}:
            if T.args(x)[0] in w.lists:
                got = roof(facts, T.args(x)[0])
                rep.decide(None if got is None else got is False, 'handed over', node, 'only faces without a roof vertex are kept back')


def roof(facts, x):
    """True/False: some vertex of the list is a roof vertex on this path; 'other' if something else was asked"""
    for f, v in facts.items():
        if f[0] != 'truth' or v not in (True, False) or T.op(f[1]) not in ('anyof', 'allof') or T.args(f[1])[0] != x:
            continue
        c = T.args(f[1])[3]
        neg = False
        while T.op(c) == 'not':
            c, neg = T.args(c)[0], not neg
        if T.op(c) != 'lt':
            return None
        d = T.args(c)[0]
        s = T.add(d, NUM)
        if not T.mentions(s, NUM):                 # x - n (+ c) < 0
            up, cst = 1, T.poly(s).get((), 0)
        else:
            s = T.sub(NUM, d)                      # n - x (+ c) < 0
            if T.mentions(s, NUM):
                return None
            up, cst = -1, -T.poly(s).get((), 0)
        # up 1: x < n - cst; up -1: x > n + cst
        if up == 1:
            small = cst == 0
            roofy = neg
        else:
            small = cst == -1
            roofy = not neg
        if not small:
            return 'border at %s' % cst
        if T.op(f[1]) == 'anyof':
            return v if roofy else 'some footprint vertex: %s' % v
        return 'roof vertices only: %s' % v if roofy else not v
    return None
