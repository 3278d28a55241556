"""The roof graph: edges kept symmetrically, neighbours in angular order, faces traced edge by edge."""
import ast

from .program import AnalysisBroken
from . import ratfun
from .state import T, V, NUM
from .base import refs, resolved, show, strip
from .entry import mkobj, invec, innum, GRA
from .c_wave import EMPTY

NAME = 'poly2FacesGraph'


def setup(rep, tier):
    from .c_poly import new_engine
    eng = new_engine(rep, [], tier)
    st = eng.initial_state([GRA])
    ci = [c for c in eng.classes.values() if c.name == NAME]
    if not ci:
        raise AnalysisBroken('class %s is gone' % NAME)
    ci = ci[0]
    ctor = ci.find('__init__')
    obj = mkobj(st, 'graph', 'inst', cls=ci.cid)
    field = None
    if ctor is not None:
        for s, _ in eng.call_fn(st.copy(), ctor.node, ctor, [obj], {}, ''):
            for f, v in s.heap['in:graph'].fields.items():
                if any(s.heap[r].kind == 'dict' for r in refs(v)):
                    field = f
    if field is None:
        raise AnalysisBroken('the graph has no table of neighbours')
    nb = mkobj(st, 'neighbours', 'list', single=False, elem=innum('neighbour'))
    tab = mkobj(st, 'table', 'dict', elem=nb)
    st.heap['in:table'].key = innum('vertex')
    st.heap['in:graph'].fields[field] = tab
    return eng, st, ci, obj


def method(ci, name):
    fn = ci.find(name)
    if fn is None:
        raise AnalysisBroken('%s.%s is gone' % (NAME, name))
    return fn


TABLE = T.atom('in', 'table')


class Adds:
    always = True

    def __init__(self, fid):
        self.fid, self.out = fid, []

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        t = strip(target.term)
        if elem is not None:
            st.marks['grew'] = True
        if T.op(t) == 'idx' and T.args(t)[0] == TABLE and elem is not None:
            one = op in ('append', 'insert', 'add')
            st.marks['adds'] = st.marks.get('adds', ()) + ((T.args(t)[1], strip(elem.term) if one else None, node),)

    def on_mutate(self, eng, st, node, target, op, structural, index=None, value=None, **kw):
        if strip(target.term) == TABLE and op == 'setitem' and index is not None:
            k = strip(index.term)
            known = [v for f, v in st.facts.items() if f[0] == 'in' and strip(f[1]) == k and strip(f[2]) == TABLE]
            empty = value is not None and refs(value) and all(st.heap[r].kind == 'list' and st.heap[r].items == () for r in refs(value))
            st.marks['sets'] = st.marks.get('sets', ()) + ((k, known[-1] if known else None, bool(empty), node),)

    def on_return(self, eng, st, node, fn, value, env):
        if fn.fid == self.fid and not eng.quiet:
            self.out.append((node, st.copy()))


def end_of(eng, st, t):
    """0/1: the term is the first / second end of the edge given; (k, n) for the n-th element popped from the set of both"""
    if t in (T.atom('in', 'a'), T.atom('in', 'b')):
        return 'ab'.index('a' if t == T.atom('in', 'a') else 'b')
    if T.op(t) == 'pop':
        return ('pop', T.args(t)[0])
    if T.op(t) == 'idx' and T.num(T.args(t)[1]) in (0, 1):
        return int(T.num(T.args(t)[1]))
    return None


def add_edge(rep, tier):
    eng, st, ci, g = setup(rep, tier)
    fn = method(ci, 'add_edge')
    a = Adds(fn.fid)
    eng.clients = [a]
    eng.exact_fns = frozenset(f.fid for f in ci.methods.values())
    e = mkobj(st, 'ends', 'tuple')
    o = st.heap['in:ends']
    o.items = (innum('a'), innum('b'))
    o.elem = innum('end')
    o.length = T.const(2)
    eng.call_fn(st, fn.node, fn, [g, e], {}, '')
    rep.absorb(eng)
    rep.entries.append('%s.add_edge' % NAME)
    for node, s in a.out:
        rep.count('paths through add_edge')
        adds = s.marks.get('adds', ())
        got = [(end_of(eng, s, x), end_of(eng, s, y) if y is not None else None) for x, y, n in adds]
        loop = [v for f, v in s.facts.items() if f[0] == 'eq' and (two(f[1]) and v is False or same(f[1]) and v is True)]
        if not adds:
            if st_grew(s):
                rep.und('both ends', fn.node, 'what is added')
            elif loop:
                rep.ok('both ends', fn.node, 'nothing is added for an edge between a vertex and itself')
            else:
                rep.decide(None if any(f[0] == 'in' for f in s.facts) else False, 'both ends', fn.node, 'an edge between two vertices is left out')
            continue
        if any(x is None or y is None for x, y in got):
            rep.und('both ends', fn.node, 'what is added', '; '.join('%s -> %s' % (show(x)[:60], show(y)[:60] if y else '?') for x, y, n in adds))
            continue
        x, y = got[0]
        ok = len(got) == 2 and x != y and got[1] == (y, x)
        some = any(f[0] == 'in' for f in s.facts)
        rep.decide(True if ok else None if len(got) < 2 and x != y and membership(s) else False, 'both ends', adds[0][2],
                   'each end becomes a neighbour of the other, once', '; '.join('%s gets %s' % z for z in got))
    for node, s in a.out:
        for k, known, empty, n in s.marks.get('sets', ()):
            if known is True and empty:
                rep.bad('kept', n, 'the neighbours found so far are thrown away')
            elif known is False:
                rep.ok('kept', n, 'a list of neighbours is made only for a new vertex')
            else:
                rep.und('kept', n, 'a list of neighbours is stored')


def st_grew(s):
    return s.marks.get('grew', False)


def membership(s):
    return any(f[0] == 'in' and strip(f[2]) != TABLE for f in s.facts)


def two(t):
    return bool(T.find(t, lambda x: T.op(x) in ('lenof', 'len?', 'lenin')))


def same(t):
    d = T.sub(T.atom('in', 'a'), T.atom('in', 'b'))
    return strip(t) in (d, T.neg(d))


class Order:
    """the order in which the neighbours of a vertex are sorted"""
    always = True

    def __init__(self, top):
        self.top, self.paths, self.stores = top, [], []

    def on_return(self, eng, st, node, fn, value, env):
        if eng.quiet or not eng.fstack:
            return
        if [f.fid for f in eng.fstack] == [self.top] and value is not None:
            self.paths.append((node, value.term, dict(st.facts)))

    def on_sort(self, eng, st, node, target, kw):
        rev = kw.get('reverse')
        c = 0 if rev is None else T.num(rev.term) if T.num(rev.term) is not None else {'True': 1, 'False': 0}.get(str(const_of(rev.term)))
        turn = None if c is None else -1 if c else 1
        st.marks['sorted'] = (strip(target.term), turn, node)

    def turn(self, st):
        s = st.marks.get('sorted')
        if s is not None:
            st.marks['sorted'] = (s[0], -s[1] if s[1] is not None else None, s[2])

    def on_reversed(self, eng, st, node, target):
        self.turn(st)

    def on_sliced(self, eng, st, node, base, lo, hi, step):
        if step is not None and T.num(step.term) == -1:
            self.turn(st)

    def on_mutate(self, eng, st, node, target, op, structural, index=None, value=None, **kw):
        if op == 'setitem' and value is not None and [f.fid for f in eng.fstack] == [self.top] and not eng.quiet:
            self.stores.append((node, strip(index.term), st.marks.get('sorted')))


def const_of(t):
    k = T.rev[t]
    return str(k[2]).strip('"\'') if k[0] == 'k' else None


def signs(t, sub):
    """sign of a term when every direction component is a positive unknown times a known sign; None: not determined"""
    from .ratfun import conv
    try:
        r = conv(T.replace(t, sub))
    except ratfun.TooBig:
        return None
    if r.im:
        return None
    n, d = psign(r.re), psign(r.den)
    return None if n is None or d is None else n * d


def psign(p):
    if not p:
        return 0
    if any(ratfun._rev[a] not in POS and ratfun._rev[a][0] not in ('abs', 'sqrt') for m in p for a, e in m if e % 2):
        return None
    s = {c > 0 for c in p.values()}
    return None if len(s) > 1 else 1 if s.pop() else -1


U = [T.atom('dir', n) for n in ('u1', 'v1', 'u2', 'v2')]
POS = {('t', u) for u in U} | set(U)


class Comparator:
    """the paths of the comparator (or of the key) as an exact function of the two directions"""

    def __init__(self, rep, paths, centre):
        self.rep, self.paths, self.centre = rep, paths, centre
        self.why, self.wrong = None, False

    def classify(self, t):
        """roles of the vertex indices the term reads"""
        out = {}
        for a in T.find(t, lambda x: T.op(x) == 'c' and T.op(T.args(x)[0]) == 'idx' and T.args(T.args(x)[0])[0] == T.atom('in', 'verts')):
            i = T.args(T.args(a)[0])[1]
            if T.num(i) is not None:
                out[a] = ('f', T.args(a)[1])
            elif T.op(i) == 'other':
                out[a] = ('o', T.args(a)[1])
            elif i == self.centre:
                out[a] = ('c', T.args(a)[1])
            else:
                out[a] = ('e', T.args(a)[1], i)
        return out

    def direction(self, t):
        """the term with the differences to the centre written as X1, Y1 (element) and X2, Y2 (the other one)"""
        t = strip(t)
        m = {}
        cs = self.classify(t)
        es = {r[2] for r in cs.values() if r[0] == 'e'}
        if any(r[0] == 'f' for r in cs.values()):
            self.why, self.wrong = 'a fixed vertex is read', True
            return None
        if len(es) > 1:
            self.why = 'positions of %d different vertices are read' % len(es)
            return None
        for a, r in cs.items():
            if r[1] not in ('0', '1'):
                self.why, self.wrong = 'the height of a vertex is read', True
                return None
            if r[0] == 'c':
                continue
            c = [x for x, q in cs.items() if q == ('c', r[1])]
            if not c:
                self.why = 'the position of a neighbour is not taken relative to the vertex'
                return None
            m[a] = T.add(c[0], T.atom('dir', ('x' if r[1] == '0' else 'y') + ('1' if r[0] == 'e' else '2')))
        t = T.replace(t, lambda x: m.get(x))
        cs = self.classify(t)
        if cs:
            self.why = 'the position of the vertex itself does not cancel'
            # a sum in which a coordinate of the vertex is left over as it is
            for x in {t} | set(T.find(t, lambda y: any(T.mentions(y, a) for a in cs))):
                if any(len(m) == 1 and m[0][1] == 1 and m[0][0] in cs for m in T.poly(x)) and len(T.poly(x)) > 1:
                    self.wrong = True
            return None
        return t

    def analyse(self):
        """+1: ascending in the angle (counter-clockwise), -1: descending, 0: no angular order, None: unknown"""
        cases = []
        for node, val, facts in self.paths:
            lts = []
            conds = []
            for f, v in facts.items():
                if f[0] not in ('lt', 'eq', 'truth') or not isinstance(f[1], int) or not isinstance(v, bool):
                    continue
                if not self.classify(strip(f[1])):
                    continue
                d = self.direction(f[1])
                if d is None:
                    return None
                both = T.mentions(d, X1) or T.mentions(d, Y1), T.mentions(d, X2) or T.mentions(d, Y2)
                (lts if all(both) and f[0] != 'truth' else conds).append((f[0], d, v))
            swap = {X1: X2, X2: X1, Y1: Y2, Y2: Y1}
            turned = lambda t: T.replace(t, lambda y: swap.get(y))
            near = [x for x in lts if x[0] == 'lt' and T.poly(x[1]).get(()) and len(T.poly(x[1])) == 2 and
                    T.find(x[1], lambda y: T.op(y) == 'abs' and turned(T.args(y)[0]) == T.neg(T.args(y)[0]))]
            r = T.num(val)
            if near and r and len(near) == len(lts):
                self.why, self.wrong = 'neighbours whose angles are near to each other are ordered by something else', True
                return None
            lts = [x for x in lts if x not in near]
            if r is None:
                d = self.direction(val)
                if d is None:
                    return None
                cases.append((conds, d, 1, node))
                continue
            for k, d, v in lts:
                if k == 'lt' and r != 0:
                    s = (1 if r > 0 else -1) * (-1 if v else 1)
                    cases.append((conds, d, s, node))
        if not cases:
            self.why = 'no comparison of the two neighbours found'
            return None
        return self.orient(cases)

    def orient(self, cases):
        """cases: D and s with s*D > 0 iff the element comes after the other one"""
        Q = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
        two = any(T.mentions(d, X2) or T.mentions(d, Y2) for _, d, _, _ in cases)
        D = {}
        for i, q in enumerate(Q):
            for j, p in enumerate(Q if two else Q[:1]):
                m = {X1: T.mul(T.const(q[0]), U[0]), Y1: T.mul(T.const(q[1]), U[1]), X2: T.mul(T.const(p[0]), U[2]), Y2: T.mul(T.const(p[1]), U[3])}
                sub = lambda x: m.get(x)
                for conds, d, s, node in cases:
                    ok = True
                    for k, c, v in conds:
                        g = signs(c, sub)
                        if g is None:
                            continue
                        if (g < 0 if k == 'lt' else g == 0 if k == 'eq' else g != 0) != v:
                            ok = False
                    if ok:
                        D.setdefault((i, j), set()).add((absolute(T.replace(T.mul(T.const(s), d), sub)), node))
        turn = set()
        for i in range(4):
            for j in range(4 if two else 1):
                if not D.get((i, j)):
                    self.why = 'quadrants %d/%d not covered' % (i + 1, j + 1)
                    return None
        for (i, j), ds in D.items():
            for d, node in ds:
                a = rotation(d, U[0], U[1], Q[i])
                if a is None:
                    self.why = 'the rate of change is not determined: %s' % show(d)[:120]
                    return None
                turn.add(a)
                for x, y in ((U[0], U[1]), (U[2], U[3])):
                    r = radial(d, x, y)
                    if r is not True:
                        self.why = 'the order depends on how far the neighbours are: %s' % show(d)[:120]
                        return None if r is None else 0
                if two:
                    b = rotation(d, U[2], U[3], Q[j])
                    if b is None:
                        self.why = 'the rate of change is not determined: %s' % show(d)[:120]
                        return None
                    turn.add(-b)
        if len(turn) != 1 or 0 in turn:
            self.why = 'the order is not monotone in the angle'
            return 0
        t = turn.pop()
        # the four quadrants follow each other: exactly one break
        for j in range(4 if two else 1):
            breaks = 0
            for i in range(4):
                a = next(iter(D[(i, j)]))[0]
                b = next(iter(D[((i + 1) % 4, j)]))[0]
                zero = U[0] if i % 2 == 0 else U[1]
                x = T.sub(edge(b, zero), edge(a, zero))
                g = signs(x, lambda y: None)
                if g is None:
                    self.why = 'the step between quadrants is not determined'
                    return None
                if g * t < 0:
                    breaks += 1
            if breaks != 1:
                self.why = 'the four quadrants do not follow each other in the angle'
                return 0
        return t


X1, Y1, X2, Y2 = [T.atom('dir', n) for n in ('x1', 'y1', 'x2', 'y2')]


def absolute(t):
    """absolute values of terms of known sign are resolved"""
    def f(x):
        if T.op(x) == 'abs':
            g = signs(T.args(x)[0], lambda y: None)
            if g is not None:
                return T.mul(T.const(g), T.args(x)[0])
        return None
    for _ in range(3):
        u = T.replace(t, f)
        if u == t:
            break
        t = u
    return t


def edge(t, zero):
    return absolute(T.replace(t, lambda x: T.ZERO if x == zero else None))


def rotation(d, u, v, q):
    """sign of the derivative under a counter-clockwise rotation of the direction (q0*u, q1*v)"""
    # x' = -y, y' = x:   q0*u' = -q1*v,  q1*v' = q0*u
    du, dv = T.mul(T.const(-q[0] * q[1]), v), T.mul(T.const(q[0] * q[1]), u)
    a = derive(d, u)
    b = derive(d, v)
    if a is None or b is None:
        return None
    return signs(T.add(T.mul(a, du), T.mul(b, dv)), lambda y: None)


def radial(d, u, v):
    """the term does not change when the direction is made longer"""
    a, b = derive(d, u), derive(d, v)
    if a is None or b is None:
        return None
    return ratfun.is_zero(T.add(T.mul(a, u), T.mul(b, v)))


def derive(t, x):
    if t == x:
        return T.ONE
    if not T.mentions(t, x):
        return T.ZERO
    k = T.rev[t]
    if k[0] != 'p':
        if T.op(t) == 'atan2':
            y, c = T.args(t)[:2]
            dy, dx = derive(y, x), derive(c, x)
            if dy is None or dx is None:
                return None
            return T.div(T.sub(T.mul(dy, c), T.mul(y, dx)), T.add(T.mul(y, y), T.mul(c, c)))
        if T.op(t) == 'sqrt':
            d = derive(T.args(t)[0], x)
            return None if d is None else T.div(d, T.mul(T.const(2), t))
        return None
    r = T.ZERO
    for mono, c in k[1]:
        for n, (a, e) in enumerate(mono):
            da = T.ONE if a == x else derive(a, x) if T.rev[a][0] == 'a' or T.mentions(a, x) else T.ZERO
            if da is None:
                return None
            if da == T.ZERO:
                continue
            m = T.mul(T.const(c * e), da)
            for i, (b, f) in enumerate(mono):
                m = T.mul(m, T.pow(b, f - 1 if i == n else f))
            r = T.add(r, m)
    return r


def embedding(rep, tier, asked):
    out = {}
    for want in sorted({'CCW', 'CW'} | {a for a in asked if a}):
        eng, st, ci, g = setup(rep, tier)
        fn = method(ci, 'circular_embedding')
        c = Order(fn.fid)
        eng.clients = [c]
        eng.exact_fns = frozenset(f.fid for f in eng.prog.fns.values() if f.node._mod is fn.node._mod)
        verts = mkobj(st, 'verts', 'list', elem=invec(st, 'vert', 3))
        eng.call_fn(st, fn.node, fn, [g, verts, eng.const(want)], {}, '')
        rep.absorb(eng)
        rep.entries.append('%s.circular_embedding(%s)' % (NAME, want))
        turns = set()
        for node, key, s in c.stores:
            rep.count('neighbour lists stored')
            if s is None:
                rep.und('own list', node, 'the list stored was not seen sorted')
                turns.add(None)
                continue
            good = s[0] == T.atom('idx', TABLE, key, T.ZERO)
            rep.decide(True if good else False if resolved(s[0]) and resolved(key) else None, 'own list', node,
                       'the sorted neighbours of a vertex are stored under this vertex', '%s for %s' % (show(s[0]), show(key)))
            turns.add(s[1])
        centre = {k for _, k, s in c.stores}
        o = None
        if len(centre) == 1:
            cmp = Comparator(rep, c.paths, centre.pop())
            o = cmp.analyse()
            o = 0 if cmp.wrong else o
            where = c.paths[0][0] if c.paths else fn.node
            rep.decide(None if o is None else o != 0, 'angular order', where,
                       'neighbours are ordered by the angle of their direction from the vertex', cmp.why or '')
        else:
            rep.und('angular order', fn.node, 'the sorted lists were not found')
        out[want] = None if o in (None, 0) or len(turns) != 1 or None in turns else o * turns.pop()
    return out


class Trace:
    """edges appended while the faces are traced"""
    always = True

    def __init__(self):
        self.edges = []

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if eng.quiet or elem is None:
            return
        for k in refs(elem):
            o = st.heap[k]
            if o.kind in ('tuple', 'list') and o.items is not None and len(o.items) == 2:
                a, b = [strip(x.term) for x in o.items]
                if T.find(b, lambda x: T.op(x) == 'idx' and T.args(x)[0] == EMB) or T.find(a, lambda x: T.op(x) == 'idx' and T.args(x)[0] == EMB):
                    self.edges.append((node, a, b))


EMB = T.atom('in', 'embedding')


def faces(rep, tier):
    """-> set of steps taken around the ring of a vertex"""
    eng, st, ci, g = setup(rep, tier)
    fn = method(ci, 'faces')
    c = Trace()
    eng.clients = [c]
    eng.exact_fns = frozenset(f.fid for f in eng.prog.fns.values() if f.node._mod is fn.node._mod)
    emb = mkobj(st, 'embedding', 'dict', elem=mkobj(st, 'ring', 'list', single=False, elem=innum('next')))
    st.heap['in:embedding'].key = innum('vertex')
    eng.call_fn(st, fn.node, fn, [g, emb, innum('n')], {}, '')
    rep.absorb(eng)
    rep.entries.append('%s.faces' % NAME)
    steps = set()
    for node, a, b in c.edges:
        rep.count('traced edges')
        if T.op(b) != 'idx' or T.op(T.args(b)[0]) != 'idx' or T.args(T.args(b)[0])[0] != EMB:
            rep.und('next edge', node, 'the next edge of a face', show(b)[:200])
            steps.add(None)
            continue
        ring, pos = T.args(b)[0], T.args(b)[1]
        at = T.args(ring)[1]
        wrap = None
        if T.op(pos) == 'mod':
            pos, wrap = T.args(pos)[:2]
        ix = T.find(pos, lambda x: T.op(x) == 'm' and T.args(x)[0] == 'index')
        if len(ix) != 1:
            rep.und('next edge', node, 'the place in the ring', show(pos)[:200])
            steps.add(None)
            continue
        step = T.num(T.sub(pos, ix[0]))
        args = T.args(ix[0])[1:]
        rep.decide(True if same_index(at, a) else False if resolved_trace(at) and resolved_trace(a) else None, 'next edge', node,
                   'the next edge starts where the ring belongs to', 'ring of %s, edge from %s' % (show(at)[:120], show(a)[:120]))
        prev = args[1] if len(args) > 1 else None
        e1, e2 = end_of_edge(a), end_of_edge(prev)
        if e1 is None or e2 is None or e1[1] is None or e2[1] is None:
            rep.und('next edge', node, 'the edge just walked', '%s / %s' % (show(a)[:120], show(prev)[:120] if prev else '?'))
        else:
            rep.decide(e1[0] == e2[0] and (e1[1], e2[1]) == (1, 0), 'next edge', node,
                       'the walk arrives from the start of the last edge at its end', '%s / %s' % (show(a)[:120], show(prev)[:120]))
        if step is None:
            rep.und('next edge', node, 'the step in the ring', show(pos)[:200])
        else:
            rep.decide(step in (1, -1), 'next edge', node, 'the next edge is a direct neighbour in the ring', 'step %s' % step)
        if args and strip(args[0]) != ring:
            rep.decide(None if not resolved_trace(args[0]) else False, 'next edge', node, 'the place is looked up in another ring', show(args[0])[:160])
        steps.add(int(step) if step in (1, -1) else None)
    return steps, fn.node


def same_index(a, b):
    if a == b:
        return True
    x, y = end_of_edge(a), end_of_edge(b)
    return x is not None and x == y


def end_of_edge(t):
    """(edge, 0 = start / 1 = end)"""
    if t is None or T.op(t) != 'idx':
        return None
    n = T.num(T.args(t)[1])
    return (T.args(t)[0], {0: 0, 1: 1, -1: 1, -2: 0}.get(n))


def resolved_trace(t):
    e = end_of_edge(t)
    return e is not None and e[1] is not None


def choices(t):
    c = const_of(t)
    if c is None and T.op(t) in ('ite', 'join', 'phi'):
        cs = [const_of(x) for x in T.args(t) if isinstance(x, int)]
        cs = [x for x in cs if isinstance(x, str)]
        if cs:
            return cs
    return [c]


def passed_direction(rep, tier):
    from .c_poly import new_engine, stub_skeletonize
    from .entry import MOD, run_polygonize
    eng = new_engine(rep, [], tier)
    eng.initial_state([MOD])
    stub_skeletonize(eng)
    got = set()
    ci = [c for c in eng.classes.values() if c.name == NAME]
    if not ci:
        raise AnalysisBroken('class %s is gone' % NAME)
    fn = method(ci[0], 'circular_embedding')
    names = [a.arg for a in fn.node.args.args]

    def stub(e, st, n, env):
        v = env[names[2]] if len(names) > 2 else None
        got.update(choices(v.term) if v is not None else [None])
        st = st.copy()
        return [(st, e.unk(n, 'embedding'))]
    eng.stubs[fn.fid] = stub
    eng.exact_fns = frozenset([eng.find_fn(MOD, 'polygonize').fid])
    run_polygonize(eng)
    rep.absorb(eng)
    rep.entries.append('polygonize up to the embedding')
    return got


def check_graph(rep, tier):
    rep.rule('both ends', 'an edge makes each of its two ends a neighbour of the other, once')
    rep.rule('kept', 'adding an edge keeps the neighbours found before')
    rep.rule('own list', 'the list stored for a vertex is made of its own neighbours')
    rep.rule('angular order', 'the comparator orders the directions from the vertex by their angle (the derivative under a rotation has one '
             'sign in every quadrant, and there is one break around the circle)')
    rep.rule('next edge', 'a face goes on, from the end of its last edge, with the direct neighbour of this edge in the ring of that vertex')
    rep.rule('orientation', 'order of the rings, direction asked for by polygonize and step of the walk make faces counter-clockwise')
    add_edge(rep, tier)
    asked = passed_direction(rep, tier)
    order = embedding(rep, tier, asked)
    steps, node = faces(rep, tier)
    if not asked or not steps:
        rep.und('orientation', node, 'the embedding asked for or the walk was not found')
    for d in sorted(asked, key=str):
        o = order.get(d)
        for s in sorted(steps, key=str):
            rep.decide(None if o is None or s is None else o * s == -1, 'orientation', node, 'faces are traced counter-clockwise',
                       'direction %s, ring order %s, step %s' % (d, o, s))
    rep.require('paths through add_edge')
    rep.require('neighbour lists stored', 2)
    rep.require('traced edges')
