"""Checks on index bookkeeping: contours handed to the skeletonization and to the face graph."""
import ast

from .program import AnalysisBroken
from .entry import MOD
from .state import T
from .base import refs, resolved, show
from .c_poly import (poly_run, elem_comps, Appended, LENV, VERTS, SKEL, LENS, FIRST, NUMV, HF, HN)

UV = T.atom('in', 'unitVectors')


class NoValue(Exception):
    pass


def ev(t, env):
    """value of an index expression (affine / modulo / min / max) in a small instance"""
    k = T.rev[t]
    if t in env:
        return env[t]
    if k[0] == 'c':
        return k[1]
    if k[0] == 'b':
        return int(k[1])
    if k[0] == 'p':
        r = 0
        for m, c in k[1]:
            x = c
            for a, e in m:
                if e < 0:
                    raise NoValue()
                x = x * ev(a, env) ** e
            r += x
        return r
    if k[0] == 'a':
        op, a = k[1], k[2:]
        if op == 'mod':
            d = ev(a[1], env)
            if not d:
                raise NoValue()
            return ev(a[0], env) % d
        if op == 'floordiv':
            d = ev(a[1], env)
            if not d:
                raise NoValue()
            return ev(a[0], env) // d
        if op == 'lenof' and T.op(a[0]) == 'range':
            r = T.args(a[0])
            lo, hi, s = (ev(x, env) for x in r)
            return len(range(int(lo), int(hi), int(s)))
        if op == 'range':
            raise NoValue()
        if op == 'max':
            return max(ev(x, env) for x in a)
        if op == 'min':
            return min(ev(x, env) for x in a)
    raise NoValue(show(t))


def loop_indices(ts):
    out = set()
    for t in ts:
        out |= set(T.find(t, lambda x: T.op(x) == 'k'))
    return sorted(out)


def instances(ts, facts, env, limit=8):
    """all values of the terms ts over the loop indices they mention, under the decidable path facts"""
    ks = loop_indices(ts)
    dec = []
    for f, v in facts.items():
        if f[0] in ('lt', 'eq') and isinstance(v, bool):
            more = [k for k in loop_indices([f[1]]) if k not in ks]
            if more:
                continue
            dec.append((f, v))
    out = []

    def rec(i, e):
        if i == len(ks):
            for f, v in dec:
                try:
                    x = ev(f[1], e)
                except NoValue:
                    continue
                if (x < 0 if f[0] == 'lt' else x == 0) != v:
                    return
            out.append(tuple(ev(t, e) for t in ts))
            return
        for j in range(limit):
            e2 = dict(e)
            e2[ks[i]] = j
            rec(i + 1, e2)
    rec(0, env)
    return out


class Site:
    def __init__(self, node, stack, facts):
        self.node, self.stack, self.facts = node, stack, dict(facts)


class Edges:
    def __init__(self):
        self.edges = []
        self.adds = []
        self.comps = []
        self.appends = []
        self.skel = []

    def on_new(self, eng, st, node, cls, obj):
        if cls.name == 'Edge2' and eng.fstack:
            s = Site(node, eng.cstr(), st.facts)
            for f in ('i1', 'i2', 'p1', 'p2', 'norm'):
                v = eng.getfield(st, node, obj, f)
                setattr(s, f, v)
                if f in ('p1', 'p2', 'norm'):
                    setattr(s, f + 'c', elem_comps(eng, st, v) if v is not None else None)
            self.edges.append(s)

    def on_call(self, eng, st, node, fn, env):
        if fn.qual.endswith('add_edge') and 'edge' in env:
            s = Site(node, eng.cstr(), st.facts)
            s.items = None
            for oid in refs(env['edge']):
                o = st.heap[oid]
                if o.items is not None and len(o.items) == 2:
                    s.items = tuple(i.term for i in o.items)
                elif o.kind in ('tuple', 'list'):
                    a = [r for r in eng.getitem(st.copy(), node, env['edge'], eng.const(0), quiet=True)]
                    b = [r for r in eng.getitem(st.copy(), node, env['edge'], eng.const(1), quiet=True)]
                    if len(a) == 1 and len(b) == 1:
                        s.items = (a[0][1].term, b[0][1].term)
            self.adds.append(s)

    def on_comp(self, eng, st, node, target, elem):
        s = Site(node, eng.cstr(), st.facts)
        s.target, s.elem = target.term, elem.term
        s.i1 = None
        self.comps.append(s)

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if op in ('append', 'insert') and elem is not None:
            s = Site(node, eng.cstr(), st.facts)
            s.target, s.elem = target.term, elem.term
            self.comps.append(s)
        if 'in:verts' in refs(target):
            self.appends.append((node, by, st.copy(), elem))


def vertex_of(cs):
    """index expressions v with component i = coordinate i of verts[v] (plus terms without vertices)"""
    ix = []
    for i, c in enumerate(cs[:2]):
        f = [m for m in T.poly(c.term) if len(m) == 1 and m[0][1] == 1 and T.op(m[0][0]) == 'c' and T.poly(c.term)[m] == 1
             and T.op(T.args(m[0][0])[0]) == 'idx' and T.args(T.args(m[0][0])[0])[0] == VERTS]
        if len(f) != 1:
            return None
        a = f[0][0][0]
        if T.args(a)[1] != str(i):
            return 'axis'
        ix.append(T.args(T.args(a)[0])[1])
    return ix[0] if len(set(ix)) == 1 else 'axis'


def uv_index(cs):
    ix = []
    for i, c in enumerate(cs[:2]):
        t = c.term
        if T.op(t) != 'c' or T.op(T.args(t)[0]) != 'idx' or T.args(T.args(t)[0])[0] != UV:
            return None
        if T.args(t)[1] != str(i):
            return 'axis'
        ix.append(T.args(T.args(t)[0])[1])
    return ix[0] if len(set(ix)) == 1 else 'axis'


CASES = ((0, 3), (0, 5), (4, 3), (7, 4))
HOLES = (((20, 3), (25, 4)), ((30, 5), (40, 3)))


def phi_env(eng, env, sizes):
    """values of the loop-carried offsets at the start of iteration len(sizes) of the loop over the holes"""
    out = dict(env)
    # only what is carried along by the loop over the holes
    own = {eng.philoop.get(p) for p in eng.phis if any(T.mentions(x, HN) or T.mentions(x, HF) for x in eng.phistep.get(p, ()))}
    for p, inits in eng.phis.items():
        if eng.philoop.get(p) not in own:
            continue
        steps = eng.phistep.get(p, set())
        if len(inits) != 1 or len(steps) != 1:
            continue
        try:
            v = ev(next(iter(inits)), env)
            for hf, hn in sizes:
                e = dict(env)
                e[HF], e[HN] = hf, hn
                e[p] = v
                v = ev(next(iter(steps)), e)
            out[p] = v
        except NoValue:
            continue
    return out


def environments(eng, hole):
    for f, n in CASES:
        base = {FIRST: f, NUMV: n, T.atom('lenin', 'holesInfo'): 2, LENV: 60, T.atom('lenin', 'unitVectors'): n + 7}
        if not hole:
            yield base, f, n, 0
            continue
        for hs in HOLES:
            for j in (0, 1):
                e = dict(base)
                e[HF], e[HN] = hs[j]
                off = n + sum(x[1] for x in hs[:j])
                e = phi_env(eng, e, hs[:j])
                e[HF], e[HN] = hs[j]
                yield e, hs[j][0], hs[j][1], off


def is_hole(*ts):
    return any(T.mentions(t, HF) or T.mentions(t, HN) for t in ts)


def judge(rep, rule, node, what, ok, detail=''):
    rep.decide(ok, rule, node, what, detail)


def check_contours(rep, tier):
    rep.rule('edge-ends', 'an edge built for the skeletonization lies between the vertices its two stored indices name')
    rep.rule('edge-successor', 'its second index is the cyclic successor of the first inside the same contour block')
    rep.rule('edge-cover', 'the edges of a contour start at every vertex of its block, once each')
    rep.rule('unit-vector', 'with given unit vectors the edge starting at position j of the contour (blocks of the outer contour and of '
             'the holes concatenated) gets unit vector j')
    rep.rule('own-direction', 'without unit vectors the direction of an edge is the normalised difference of its own end points')
    rep.rule('graph-successor', 'contour edges entered into the face graph connect cyclic neighbours of the block and cover it once')
    for uv in ('none', 'full'):
        for ho in ('none', 'full'):
            c = Edges()
            eng, res = poly_run(rep, c, tier, unitVectors=uv, holesInfo=ho, faces='none', height='pos')
            label = 'unit vectors %s, holes %s' % ('given' if uv == 'full' else 'not given', 'given' if ho == 'full' else 'none')
            contour_edges(rep, eng, c, uv, ho, label)
            graph_edges(rep, eng, c, ho, label)
    rep.rule('all-in-order', 'the edges built are handed to the skeletonization, none left out, in the order of their block')
    kept_edges(rep, tier)
    rep.rule('edge-direction', 'the edge object takes the direction it is given, or the normalised difference of its own end points')
    from . import terms
    from .c_geo import edges
    old, terms.MAXMONO = terms.MAXMONO, 600
    try:
        edges(rep, ('edge_indexed', 'edge_indexed_own'))
    finally:
        terms.MAXMONO = old
    rep.require('edge constructions', 4)
    rep.require('contour edges in the graph', 4)


def contour_edges(rep, eng, c, uv, ho, label):
    cover = {False: {}, True: {}}
    fuzzy = {False: False, True: False}
    for s in c.edges:
        rep.count('edge constructions')
        if s.i1 is None or s.i2 is None:
            rep.und('edge-ends', s.node, 'indices not stored')
            fuzzy = {False: True, True: True}
            continue
        a, b = s.i1.term, s.i2.term
        for nm, cs, ix in (('first', s.p1c, a), ('second', s.p2c, b)):
            if cs is None:
                rep.und('edge-ends', s.node, '%s end' % nm)
                continue
            for one in cs:
                v = vertex_of(one)
                if v == 'axis':
                    rep.bad('edge-ends', s.node, 'the coordinates of the %s end are mixed up' % nm)
                elif v is None:
                    rep.und('edge-ends', s.node, '%s end' % nm, ', '.join(show(x.term) for x in one))
                else:
                    ok = True if v == ix else False if resolved(v) and resolved(ix) else None
                    if ok is False:
                        try:
                            ok = all(x == y for e, f, n, off in environments(eng, is_hole(a, b))
                                     for x, y in instances((v, ix), s.facts, e))
                        except NoValue:
                            ok = None
                    rep.decide(ok, 'edge-ends', s.node, 'the %s end is the vertex of its index' % nm, 'verts[%s], index %s' % (show(v), show(ix)))
        hole = is_hole(a, b)
        # successor
        ts = (a, b)
        u = None
        if uv == 'full' and s.normc is not None:
            us = {uv_index(x) for x in s.normc}
            u = us.pop() if len(us) == 1 else None
            if u == 'axis':
                rep.bad('unit-vector', s.node, 'the components of the unit vector are mixed up')
                u = None
            elif u is None:
                if all(resolved(x.term) for y in s.normc for x in y):
                    rep.bad('unit-vector', s.node, 'the edge direction is not the given unit vector (%s)' % label,
                            ', '.join(show(x.term) for x in s.normc[0]))
                else:
                    rep.und('unit-vector', s.node, 'direction not resolved')
        for env, first, n, off in environments(eng, hole):
            try:
                inst = instances((a, b) + ((u,) if u is not None else ()), s.facts, env)
            except NoValue as x:
                rep.und('edge-successor', s.node, 'index expressions not evaluated', str(x))
                fuzzy[hole] = True
                if not hole and not T.mentions(a, FIRST):
                    fuzzy[True] = True
                continue
            for row in inst:
                i, j = row[0], row[1]
                inside = first <= i < first + n
                judge(rep, 'edge-successor', s.node, 'edge leads to the next vertex of its contour (%s)' % label,
                      inside and j == first + (i - first + 1) % n,
                      'block %d..%d: edge %s -> %s' % (first, first + n - 1, i, j) if not (inside and j == first + (i - first + 1) % n) else '')
                if u is not None and inside:
                    want = off + i - first
                    g = row[2]
                    judge(rep, 'unit-vector', s.node, 'edge gets its own unit vector (%s)' % label, g == want,
                          'position %s of the contours gets unit vector %s' % (want, g) if g != want else '')
                cover[hole].setdefault((first, n, off, env[FIRST], env[NUMV]), {}).setdefault(i, set()).add((s.node, s.stack))
        if uv == 'none':
            own_direction(rep, s)
    node = eng.find_fn(MOD, 'polygonize').node
    for hole in ((False,) if ho == 'none' else (False, True)):
        for env, first, n, off in environments(eng, hole):
            got = cover[hole].get((first, n, off, env[FIRST], env[NUMV]), {})
            miss = [i for i in range(first, first + n) if i not in got]
            rep.decide(True if not miss else None if fuzzy[hole] else False, 'edge-cover', node,
                       '%s: an edge starts at every vertex (%s)' % ('hole' if hole else 'outer contour', label),
                       'no edge starts at %s of block %d..%d' % (miss, first, first + n - 1) if miss else '')


def own_direction(rep, s):
    if s.normc is None or s.p1c is None or s.p2c is None or len(s.p1c) != 1 or len(s.p2c) != 1:
        rep.und('own-direction', s.node, 'direction not known')
        return
    d = tuple(T.sub(q.term, p.term) for p, q in zip(s.p1c[0], s.p2c[0]))
    for cs in s.normc:
        for i, x in enumerate(cs):
            if x.term == T.atom('nrm', i, *d) or x.term == T.atom('nrm', str(i), *d):
                rep.ok('own-direction', s.node, 'direction is normalised(second end - first end)')
            elif T.op(x.term) == 'nrm':
                rep.bad('own-direction', s.node, 'direction of an edge is not that of its own end points', show(x.term))
            elif not resolved(x.term):
                rep.und('own-direction', s.node, 'direction not resolved', show(x.term))
            elif x.term == d[i]:
                rep.bad('own-direction', s.node, 'direction of an edge is not normalised', show(x.term))
            else:
                ln = [q for q in T.find(x.term, lambda q: T.op(q) in ('len', 'vlen', 'sqrt', 'norm', 'nrm'))]
                rep.decide(None if ln else False, 'own-direction', s.node, 'direction of an edge', show(x.term))


def graph_edges(rep, eng, c, ho, label):
    cover = {False: {}, True: {}}
    fuzzy = {False: False, True: False}
    for s in c.adds:
        if s.items is None:
            fuzzy = {False: True, True: True}
            rep.und('graph-successor', s.node, 'edge not resolved')
            continue
        a, b = s.items
        if T.mentions(a, LENV) or T.mentions(b, LENV):
            continue
        hole = is_hole(a, b)
        if not resolved(a) or not resolved(b):
            if not (T.mentions(a, FIRST) or hole):
                fuzzy = {False: True, True: True}
                rep.und('graph-successor', s.node, 'edge not resolved', '%s, %s' % (show(a), show(b)))
                continue
            fuzzy[hole] = True
            rep.und('graph-successor', s.node, 'edge not resolved', '%s, %s' % (show(a), show(b)))
            continue
        rep.count('contour edges in the graph')
        for env, first, n, off in environments(eng, hole):
            try:
                inst = instances((a, b), s.facts, env)
            except NoValue:
                fuzzy[hole] = True
                if not hole and not T.mentions(a, FIRST):
                    fuzzy[True] = True
                rep.und('graph-successor', s.node, 'edge not evaluated', '%s, %s' % (show(a), show(b)))
                continue
            for i, j in inst:
                good = first <= i < first + n and first <= j < first + n and (j - i) % n in (1, n - 1)
                rep.decide(good, 'graph-successor', s.node, 'connects neighbours of the contour (%s)' % label,
                           '' if good else 'block %d..%d: edge %s - %s' % (first, first + n - 1, i, j))
                low = i if (j - i) % n == 1 else j
                cover[hole].setdefault((first, n, off, env[FIRST], env[NUMV]), set()).add(low)
    node = eng.find_fn(MOD, 'polygonize').node
    for hole in ((False,) if ho == 'none' else (False, True)):
        for env, first, n, off in environments(eng, hole):
            got = cover[hole].get((first, n, off, env[FIRST], env[NUMV]), set())
            miss = [i for i in range(first, first + n) if i not in got]
            rep.decide(True if not miss else None if fuzzy[hole] else False, 'graph-successor', node,
                       '%s: all contour edges enter the graph (%s)' % ('hole' if hole else 'outer contour', label),
                       'missing from %s' % miss if miss else '')


# ------------------------------------------------------------------ nodes
def leaves(eng, t, facts, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if T.op(t) == 'phi' and t in eng.alts:
        for a, f in list(eng.alts[t].items()):
            yield from leaves(eng, a, f, seen)
    else:
        yield t, facts


def node_of(t):
    """(index, field) when t reads a field of node index of the skeleton"""
    if T.op(t) == 'sel' and T.op(T.args(t)[0]) == 'idx' and T.args(T.args(t)[0])[0] == SKEL:
        return T.args(T.args(t)[0])[1], T.args(t)[1]
    return None


def strip_axis(t):
    if T.op(t) == 'c':
        return T.args(t)[0], T.args(t)[1]
    return None


def sames(facts):
    for f, v in facts.items():
        if f[0] == 'truth' and v is True and T.op(f[1]) == 'same':
            yield T.args(f[1])


def sink_of(t):
    """node index whose sink list t is an element of"""
    if T.op(t) == 'idx':
        n = node_of(T.args(t)[0])
        if n is not None and n[1] == '.sinks':
            return n[0]
    return None


def check_nodes(rep, tier):
    rep.rule('one-per-node', 'the vertex list grows by exactly the number of skeleton nodes')
    rep.rule('in-order', 'the appended vertices are built from the nodes in node order, x and y taken from the same node as the height')
    rep.rule('arc-source', 'a skeleton arc entered into the face graph starts at (original length) + (number of its node)')
    rep.rule('arc-sink', 'it ends at the index of the contour vertex that starts the edge whose first end equals the sink, or at '
             '(original length) + (number of the node whose position equals the sink)')
    rep.rule('every-arc', 'every sink of every node gets its arc')
    for ho in ('none', 'full'):
        c = Edges()
        eng, res = poly_run(rep, c, tier, keepalts=True, faces='none', holesInfo=ho, height='pos', unitVectors='none')
        node = eng.find_fn(MOD, 'polygonize').node
        for s, v in res:
            ln = s.heap['in:verts'].length
            d = T.sub(ln, LENV)
            if d == LENS:
                rep.ok('one-per-node', node, 'vertex list grew by the number of nodes')
            elif T.any_op(d, {'phi', 'len?', 'unk', 'sum'}):
                rep.und('one-per-node', node, 'growth of the vertex list', show(d))
            else:
                rep.bad('one-per-node', node, 'the vertex list grows by something else than one vertex per node', show(d))
        for nd, by, st, elem in c.appends:
            rep.count('append sites')
            cs = elem_comps(eng, st, elem) if elem is not None else None
            if cs is None:
                rep.und('in-order', nd, 'appended vertex not resolved')
                continue
            for one in cs:
                ix = set()
                fz = False
                for i, x in enumerate(one[:3]):
                    found = []
                    for m, cf in T.poly(x.term).items():
                        for a, e in m:
                            sa = strip_axis(a)
                            n = node_of(sa[0]) if sa else node_of(a)
                            if n is not None:
                                found.append((n[0], n[1], sa[1] if sa else None, cf if len(m) == 1 else None, e))
                    if not resolved(x.term) and not found:
                        fz = True
                        continue
                    if i < 2:
                        good = [q for q in found if q[1] == '.source']
                        if len(good) == 1 and good[0][2] == str(i) and good[0][3] == 1 and good[0][4] == 1:
                            rep.ok('in-order', nd, 'axis %d comes from the node position' % i)
                            ix.add(good[0][0])
                        elif resolved(x.term):
                            rep.bad('in-order', nd, 'axis %d of an appended vertex is not the node position' % i, show(x.term))
                        else:
                            fz = True
                    else:
                        ix |= {q[0] for q in found if q[1] == '.height'}
                if fz or not ix or any(not resolved(q) for q in ix):
                    rep.und('in-order', nd, 'node number not resolved')
                    continue
                if len(ix) > 1:
                    rep.bad('in-order', nd, 'position and height of an appended vertex come from different nodes', ', '.join(show(q) for q in ix))
                    continue
                q = next(iter(ix))
                ks = loop_indices([q])
                if T.op(q) == 'k':
                    trip = st.facts
                    rep.ok('in-order', nd, 'vertices appended in node order')
                elif len(ks) == 1 and split_k(q, ks[0]) not in (None, 1):
                    rep.bad('in-order', nd, 'vertices are not appended in node order', 'node number %s' % show(q))
                elif len(ks) == 1 and split_k(q, ks[0]) == 1:
                    rep.bad('in-order', nd, 'vertices are appended from a shifted node number', 'node number %s' % show(q))
                elif not ks:
                    rep.bad('in-order', nd, 'always the same node is used', 'node number %s' % show(q))
                else:
                    rep.und('in-order', nd, 'node number', show(q))
        n = 0
        for s in c.adds:
            if s.items is None:
                rep.und('arc-source', s.node, 'arc not resolved')
                continue
            a, b = s.items
            if is_hole(a, b) or T.mentions(a, FIRST) or T.mentions(b, FIRST):
                continue
            rep.count('arc sites')
            arc(rep, eng, c, s, a, b)
    rep.require('append sites', 1)
    rep.require('arc sites', 1)
    from .c_nodes import check
    check(rep, tier)


def split_k(q, k):
    p = T.poly(q)
    cf = [c for m, c in p.items() if any(T.mentions(a, k) for a, e in m)]
    ms = [m for m in p if any(T.mentions(a, k) for a, e in m)]
    if len(ms) == 1 and ms[0] == ((k, 1),):
        return cf[0]
    return None


def arc(rep, eng, c, s, a, b):
    # which end is the node itself?
    def own(t):
        d = T.sub(t, LENV)
        return d if T.op(d) == 'k' else None
    na, nb = own(a), own(b)
    if na is None and nb is not None:
        a, b, na, nb = b, a, nb, na
    if na is None:
        for t in (a, b):
            if T.op(t) == 'k' and any(f[0] == 'lt' and v is True and f[1] == T.sub(t, LENS) for f, v in s.facts.items()):
                rep.bad('arc-source', s.node, 'the node number is used without the offset of the appended vertices', show(t))
                return
        if resolved(a) and T.mentions(a, LENV):
            d = T.sub(T.sub(a, LENV), T.ZERO)
            ks = loop_indices([d])
            if len(ks) == 1 and split_k(d, ks[0]) is not None:
                rep.bad('arc-source', s.node, 'the arc starts at a shifted or reordered node index', show(a))
                return
        rep.und('arc-source', s.node, 'start of the arc', show(a))
        return
    rep.ok('arc-source', s.node, 'the arc starts at original length + node number')
    for t, facts in leaves(eng, b, s.facts):
        sink(rep, eng, c, s, na, t, facts)


def sink(rep, eng, c, s, na, t, facts):
    node = s.node
    if T.num(t) is not None:
        v = T.num(t)
        rep.decide(True if v < 0 else False, 'arc-sink', node, 'constant end of an arc', str(v))
        return
    d = T.sub(t, LENV)
    has_off = not T.mentions(d, LENV)

    def elems(o):
        """elements of the list object term o: (element, facts)"""
        return [(x.elem, x.facts) for x in c.comps if x.target == o]

    def node_index(e, fs):
        """does the path establish sink == position of node e ?"""
        res = None
        for x, y in sames(fs):
            for p, q in ((x, y), (y, x)):
                sk, n = sink_of(p), node_of(q)
                if n is None or sk is None:
                    continue
                if sk != na:
                    if resolved(sk):
                        return False
                    continue
                if n[1] == '.source':
                    if n[0] == e:
                        return True
                    if resolved(n[0]) and resolved(e):
                        res = False
        return res

    def is_node_number(e, fs):
        return T.op(e) == 'k' and any(f[0] == 'lt' and v is True and f[1] == T.sub(e, LENS) for f, v in fs.items())
    if has_off:
        cand = [(d, facts)]
        if T.op(d) == 'idx':
            cand = elems(T.args(d)[0])
        if not cand:
            rep.und('arc-sink', node, 'node end of an arc', show(t))
        for e, fs in cand:
            r = node_index(e, fs)
            rep.decide(r, 'arc-sink', node, 'the arc ends at the node whose position equals the sink', show(t))
        return
    # no offset: must be a contour vertex
    if T.op(t) == 'idx' and elems(T.args(t)[0]):
        for e, fs in elems(T.args(t)[0]):
            if is_node_number(e, fs):
                rep.bad('arc-sink', node, 'a node number is used without the offset of the appended vertices', show(t))
            elif T.op(e) == 'sel' and T.args(e)[1] in ('.i1', '.i2'):
                edge_end(rep, node, na, T.args(e)[0], T.args(e)[1], fs)
            else:
                rep.und('arc-sink', node, 'contour end of an arc', show(e))
        return
    if T.op(t) == 'sel' and T.args(t)[1] in ('.i1', '.i2'):
        e = T.args(t)[0]
        if T.op(e) == 'idx' and elems(T.args(e)[0]):
            for el, fs in elems(T.args(e)[0]):
                edge_end(rep, node, na, el, T.args(t)[1], fs)
        else:
            edge_end(rep, node, na, e, T.args(t)[1], facts)
        return
    if is_node_number(t, facts):
        rep.bad('arc-sink', node, 'a node number is used without the offset of the appended vertices', show(t))
        return
    rep.und('arc-sink', node, 'end of an arc', show(t))


def edge_end(rep, node, na, e, field, fs):
    """the index field of edge e is used for a sink: the path must say sink == the end of the same index"""
    want = {'.i1': '.p1', '.i2': '.p2'}[field]
    res = None
    for x, y in sames(fs):
        for p, q in ((x, y), (y, x)):
            sk = sink_of(p)
            if sk is None or T.op(q) != 'sel' or T.args(q)[1] not in ('.p1', '.p2'):
                continue
            if sk != na and resolved(sk):
                res = False
            elif T.args(q)[0] == e:
                res = T.args(q)[1] == want
    rep.decide(res, 'arc-sink', node, 'the arc ends at the contour vertex equal to the sink')


# ------------------------------------------------------------------ edges built and edges handed over
def held(st, r):
    """some list or tuple contains the object"""
    return any(r in refs(v) for o in st.heap.values() if o.kind in ('list', 'tuple', 'iter', 'set', 'dict')
               for v in tuple(o.items if isinstance(o.items, tuple) else ()) + ((o.elem,) if o.elem is not None else ()))


class Kept:
    """edges that are built, and the lists they are put into, on every path up to the skeletonization"""
    always = True

    def __init__(self):
        self.backs, self.cuts, self.turned, self.filtered, self.inserts = [], [], [], [], {}
        self.reach, self.args, self.lost = set(), set(), []

    def is_edge(self, eng, st, v):
        rs = refs(v) if v is not None else ()
        return bool(rs) and all(r in st.heap and st.heap[r].kind == 'inst' and st.heap[r].cls in eng.classes and
                                eng.classes[st.heap[r].cls].name == 'Edge2' for r in rs)

    def on_new(self, eng, st, node, cls, obj):
        if cls.name == 'Edge2':
            st.marks['made'] = st.marks.get('made', frozenset()) | {node}
            for r in refs(obj) if not any(f.is_gen for f in eng.fstack) else ():
                st.marks['pend'] = st.marks.get('pend', frozenset()) | {(r, eng.loopstack[-1] if eng.loopstack else None, node)}

    def put(self, eng, st, node, target, elem, op):
        rs = refs(elem) if elem is not None else ()
        if rs and all(r in st.heap and st.heap[r].kind == 'list' and st.heap[r].elem is not None and
                      self.is_edge(eng, st, st.heap[r].elem) for r in rs):
            st.marks['kept'] = st.marks.get('kept', frozenset()) | frozenset(refs(target)) | frozenset(rs)
            st.marks['placed'] = st.marks.get('placed', frozenset()) | frozenset(rs)
        if self.is_edge(eng, st, elem):
            st.marks['kept'] = st.marks.get('kept', frozenset()) | frozenset(refs(target))
            st.marks['pend'] = frozenset(x for x in st.marks.get('pend', frozenset()) if x[0] not in refs(elem))
            if op == 'insert' and T.num(self.inserts.get(node, T.NONE)) == 0 and eng.loopstack and any(
                    T.mentions(f[1], T.atom('k', eng.loopstack[-1])) for f in st.facts if f[0] == 'lt'):
                self.turned.append((node, refs(target), 'are put in from the front'))

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if op == 'insert' and kw.get('index') is not None:
            self.inserts[node] = kw['index'].term
        if op in ('sort', 'reverse') and not st.marks.get('over'):
            self.turned.append((node, refs(target), 'are %s' % ('sorted' if op == 'sort' else 'turned round')))

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if op in ('append', 'insert') and elem is not None:
            self.put(eng, st, node, target, elem, op)
        for e in exact or ():
            self.put(eng, st, node, target, e, op)
        if rhs is not None:
            st.marks['kept'] = st.marks.get('kept', frozenset()) | frozenset(refs(target))

    def on_comp(self, eng, st, node, target, elem):
        self.put(eng, st, node, target, elem, 'comp')
        if not self.is_edge(eng, st, elem) or not any(g.ifs for g in getattr(node, 'generators', ())):
            return
        old = T.op(elem.term) == 'idx'
        for f in st.facts:
            for x in f[1:]:
                if isinstance(x, int) and not isinstance(x, bool) and (
                        old and T.mentions(x, elem.term) or T.find(x, lambda y: T.op(y) == 'idx' and T.args(y)[0] == VERTS)):
                    self.filtered.append((node, refs(target)))
                    return

    def on_cut(self, eng, st, node, base, result, lo, hi, step):
        if step is not None and T.num(step.term) == -1:
            self.cuts.append((node, refs(result)))

    def on_sorted(self, eng, st, node, target, kw, result):
        self.cuts.append((node, refs(result)))

    def on_backedge(self, eng, st, node, lk):
        made, kept, placed = (st.marks.pop(x, frozenset()) for x in ('made', 'kept', 'placed'))
        pend = st.marks.get('pend', frozenset())
        here = [x for x in pend if x[1] == lk and not held(st, x[0])]
        st.marks['pend'] = frozenset(x for x in pend if x[1] != lk)
        if here and not eng.quiet and not st.marks.get('over') and isinstance(node, (ast.For, ast.While)):
            self.lost.append((here[0][2], eng.cstr()))
        if not eng.quiet and made and not st.marks.get('over') and isinstance(node, (ast.For, ast.While)):
            self.backs.append((lk, node, kept, placed))


def kept_edges(rep, tier):
    from .c_poly import new_engine, none_v, without_none, truthy_list, pos
    from .entry import run_polygonize, skeleton_of
    eng = new_engine(rep, [], tier)
    eng.initial_state([MOD])
    sk, fn = eng.find_fn(MOD, 'skeletonize'), eng.find_fn(MOD, 'polygonize')
    c = Kept()
    eng.clients = [c]

    def stub(eng, st, n, env):
        rep.count('contours handed over')
        todo, seen = [k for v in env.values() for k in refs(v)], set()
        while todo:
            r = todo.pop()
            o = st.heap.get(r)
            if r in seen or o is None or o.kind not in ('list', 'tuple'):
                continue
            seen.add(r)
            for v in (o.items or ()) + ((o.elem,) if o.elem is not None else ()):
                todo += list(refs(v))
        # what these lists were copied or filled from
        c.reach |= seen
        for f, v in st.facts.items():
            if f[0] == 'copyof' and isinstance(v, tuple):
                c.args.add((f[1], v[0]))
        if not eng.quiet:
            c.lost += [(x[2], '') for x in st.marks.get('pend', frozenset()) if x[1] is None and not held(st, x[0])]
        st = st.copy()
        st.marks['over'] = True
        return [(st, skeleton_of(eng, st))]
    for f in eng.prog.fns.values():
        if f.qual.endswith(('.circular_embedding', '.faces', '.add_edge')):
            eng.stubs[f.fid] = lambda eng, st, n, env: []
    eng.stubs[sk.fid] = stub
    eng.exact_fns = frozenset([fn.fid])

    def override(eng, st, env):
        env['faces'] = none_v()
        env['unitVectors'] = none_v()
        env['holesInfo'] = without_none(env['holesInfo'])
        truthy_list(eng, st, env['holesInfo'])
        pos(eng, st, env['height'].term)
    run_polygonize(eng, override)
    rep.entries.append('polygonize(holes) up to the skeletonization, every path kept apart')
    if not c.reach:
        rep.und('all-in-order', fn.node, 'the lists of edges are not known')
        return
    rep.ok('all-in-order', fn.node, 'lists of edges handed to the skeletonization')
    for node, rs, how in c.turned:
        if rs and rs <= c.reach:
            rep.bad('all-in-order', node, 'the edges of a contour %s' % how)
    for node, rs in c.cuts:
        if rs and rs <= c.reach:
            rep.bad('all-in-order', node, 'the edges of a contour come in another order')
    for node, rs in c.filtered:
        if rs and rs <= c.reach:
            rep.bad('all-in-order', node, 'edges are left out depending on their coordinates')
    for node, how in c.lost:
        rep.bad('all-in-order', node, 'on one path an edge is built and left out')
    for lk, node, kept, placed in c.backs:
        # lists that are handed over on another path
        late = {r for r in kept if r in c.reach and any(r in b[3] for b in c.backs if b[0] == lk)}
        if late - placed:
            rep.bad('all-in-order', node, 'on one path of the loop the edges of a contour are left out')
        elif kept & c.reach:
            rep.ok('all-in-order', node, 'the edges built in this pass are handed over')
        elif not kept:
            rep.bad('all-in-order', node, 'on one path of the loop an edge is built and left out')
        else:
            rep.und('all-in-order', node, 'the edges built go into another list first')
