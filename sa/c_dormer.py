"""Dormers: which candidates are accepted, and the events made of them."""
import ast
import itertools

from .program import AnalysisBroken
from .state import T, V
from .base import refs, show, strip, FUZZY
from .entry import MOD, EUC, mkobj, invec, innum, edge_contours
from .c_poly import new_engine
from .c_find import Geo

CONTOUR = T.atom('idx', T.atom('in', 'edgeContours'), T.ZERO, T.ZERO)
NONE = ('none', 'in')


def is_contour(t):
    return strip(t) == CONTOUR


# ------------------------------------------------------------------ which candidates are accepted
class Accept:
    always = True

    def __init__(self):
        self.pairs = []            # (node, elem, state, loops, target refs)
        self.reads = []            # (node, base, index, loops)
        self.rets = []

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if not eng.quiet and elem is not None and op in ('append', 'insert'):
            self.put(eng, st, node, target, elem)

    def on_comp(self, eng, st, node, target, elem):
        if not eng.quiet:
            self.put(eng, st, node, target, elem)

    def put(self, eng, st, node, target, elem):
        for r in refs(elem):
            o = st.heap.get(r)
            if o is not None and o.kind in ('tuple', 'list') and o.items is not None and len(o.items) == 2:
                self.pairs.append((node, o.items, st.copy(), tuple(eng.loopstack), refs(target)))

    def on_index(self, eng, st, node, base, index, write, **kw):
        if eng.quiet or write or not isinstance(index, V):
            return
        b = strip(base.term)
        if is_contour(b) or T.op(b) == 'str' or any(k[0] == 'str' for k in base.kinds):
            self.reads.append((node, b, index.term, tuple(eng.loopstack)))


class Mirror:
    """positions relative to the first vertex of the candidate"""

    def __init__(self, x):
        self.x = strip(x)          # the term of the candidate's index list
        self.fail = None
        self.edges, self.chars = set(), set()

    def rel(self, t):
        """index term -> position relative to the first vertex of the candidate"""
        if T.op(t) == 'mod':
            t = T.args(t)[0]
        p = T.poly(t)
        off, base = 0, None
        for m, c in p.items():
            if m == ():
                off = c
            elif len(m) == 1 and m[0][1] == 1 and c == 1 and base is None and T.op(m[0][0]) == 'idx' and T.args(m[0][0])[0] == self.x:
                base = T.num(T.args(m[0][0])[1])
                if base is None:
                    return None
            elif any(T.op(a) in ('lenof', 'lenin', 'len?') for a, e in m):
                continue           # a whole turn around the contour
            else:
                return None
        if base is None:
            return None
        if base < 0:
            base += 4
        r = base + off
        return int(r) if r == int(r) else None

    def label(self, t, memo):
        """replace reads of edges and turn codes by labels (kind, position)"""
        if t in memo:
            return memo[t]
        memo[t] = t
        k = T.rev[t]
        r = t
        if k[0] == 'p':
            r = T.ZERO
            for mono, c in k[1]:
                m = T.const(c)
                for a, e in mono:
                    m = T.mul(m, T.pow(self.label(a, memo), e))
                r = T.add(r, m)
        elif k[0] == 'a':
            if k[1] == 'idx' and is_contour(k[2]):
                p = self.rel(k[3])
                if p is None:
                    self.fail = self.fail or t
                else:
                    self.edges.add(p)
                    r = T.atom('edge', str(p))
            elif k[1] == 'idx' and T.op(k[2]) == 'str':
                p = self.rel(k[3])
                if p is None:
                    self.fail = self.fail or t
                else:
                    self.chars.add(p)
                    r = T.atom('turn', str(p))
            elif k[1] == 'same':
                r = T.atom('same', *sorted(self.label(x, memo) for x in k[2:]))
            elif k[1] == 'abs':
                r = absolute(self.label(k[2], memo))
            else:
                if k[1] in ('unk', 'phi', 'any'):
                    self.fail = self.fail or t
                r = T.atom(k[1], *[self.label(x, memo) if isinstance(x, int) and not isinstance(x, bool) and k[1] != 'c' else x for x in k[2:]]) \
                    if k[1] != 'c' else T.atom('c', self.label(k[2], memo), *k[3:])
        memo[t] = r
        return r


def absolute(t):
    return T.atom('abs', min(t, T.neg(t)))


def flip(t, memo):
    """the labelled term of the mirrored contour: edge p <-> edge 2 - p with its ends exchanged, turn p <-> turn 3 - p"""
    if t in memo:
        return memo[t]
    memo[t] = t
    k = T.rev[t]
    r = t
    if k[0] == 'p':
        r = T.ZERO
        for mono, c in k[1]:
            m = T.const(c)
            for a, e in mono:
                m = T.mul(m, T.pow(flip(a, memo), e))
            r = T.add(r, m)
    elif k[0] == 'a':
        if k[1] == 'edge':
            r = T.atom('edge', str(2 - int(k[2])))
        elif k[1] == 'turn':
            r = T.atom('turn', str(3 - int(k[2])))
        elif k[1] == 'same':
            r = T.atom('same', *sorted(flip(x, memo) for x in k[2:]))
        elif k[1] == 'abs':
            r = absolute(flip(k[2], memo))
        elif k[1] == 'sel' and k[3] in ('.p1', '.p2'):
            r = T.atom('sel', flip(k[2], memo), '.p2' if k[3] == '.p1' else '.p1', *k[4:])
        elif k[1] == 'c':
            # reflected in x
            r = T.atom('c', flip(k[2], memo), *k[3:])
            if str(k[3]) == '0':
                r = T.neg(r)
        else:
            r = T.atom(k[1], *[flip(x, memo) if isinstance(x, int) and not isinstance(x, bool) else x for x in k[2:]])
    memo[t] = r
    return r


def positive(kind, t):
    """orient (kind, polynomial) so that a condition and its complement get one name -> (key, sign)"""
    if kind in ('lt', 'eq'):
        n = T.neg(t)
        if kind == 'eq':
            return (kind, min(t, n)), True
        return ((kind, t), True) if t <= n else ((kind, n), False)
    return (kind, t), True


def detect(rep, tier):
    eng = new_engine(rep, [], tier)
    st = eng.initial_state([MOD, EUC])
    fn = eng.find_fn(MOD, 'detectDormers')
    cs = edge_contours(eng, st)
    slav = mkobj(st, 'slav', 'inst')
    log = Accept()
    eng.clients = [log]
    eng.exact_fns = frozenset([fn.fid])
    args = {'edgeContours': cs, 'slav': slav}
    res = eng.call_fn(st, fn.node, fn, [args.get(a.arg, slav) for a in fn.node.args.args], {}, '')
    rep.absorb(eng)
    rep.entries.append(fn.qual)
    ret = set()
    for s, v in res:
        ret |= refs(v)
    acc = [p for p in log.pairs if p[4] & ret]
    if not acc:
        rep.und('own', fn.node, 'the place where a candidate is accepted was not found')
        return
    loops = set()
    cubes, keys = [], set()
    fail = None
    for node, items, s, ls, _ in acc:
        rep.count('accepting paths')
        x = strip(items[0].term)
        if T.op(x) != 'idx' or not ls:
            rep.und('own', node, 'the candidate', show(x)[:200])
            return
        ks = [a for a in T.find(x, lambda y: T.op(y) == 'k')]
        loops |= {T.args(k)[0] for k in ks if T.args(k)[0] in ls}
        m = Mirror(x)
        memo = {}
        cube = {}
        for f, val in s.facts.items():
            if f[0] not in ('lt', 'eq', 'truth', 'le') or len(f) != 2 or not isinstance(f[1], int):
                continue
            t = strip(f[1])
            if not T.find(t, lambda y: T.op(y) == 'idx' and (is_contour(T.args(y)[0]) or T.op(T.args(y)[0]) == 'str')):
                continue
            lt = m.label(t, memo)
            key, sign = positive(f[0], lt)
            cube[key] = val if sign else not val
            keys.add(key)
        w = strip(items[1].term)
        m2 = Mirror(x)
        lw = m2.label(w, {})
        if m2.fail is not None:
            rep.und('width', node, 'the width of the dormer', show(m2.fail)[:200])
        else:
            rep.decide(m2.edges == {1} and flip(lw, {}) == lw, 'width', node, 'the width of a dormer is taken from its own front edge',
                       'edges %s' % sorted(m2.edges))
        fail = fail or m.fail
        cubes.append(cube)
    node = acc[0][0]
    for n, b, i, ls in log.reads:
        mine = [l for l in loops if l in ls]
        if not mine:
            continue
        rep.count('reads for a candidate')
        t = strip(i)
        own = T.find(t, lambda y: T.op(y) == 'k' and T.args(y)[0] in mine)
        loose = [a for a in T.find(t, lambda y: T.op(y) in FUZZY) if not (T.op(a) == 'phi' and str(T.args(a)[0]) not in mine and str(T.args(a)[0])[:1] == 'L')
                 and not (T.op(a) == 'len?')]
        if own:
            rep.ok('own', n, 'read at a place of the candidate')
        elif loose:
            rep.und('own', n, 'read at a place of the candidate', show(t)[:200])
        else:
            rep.bad('own', n, 'the edge or turn read is the same for every candidate', show(t)[:200])
    if fail is not None:
        rep.und('mirror', node, 'a dormer and its mirror image are accepted alike', show(fail)[:200])
        return
    mk = {}
    for key in keys:
        f = flip(key[1], {})
        mk[key] = positive(key[0], f)
    allkeys = sorted(keys | {v[0] for v in mk.values()}, key=str)
    if len(allkeys) > 14:
        rep.und('mirror', node, 'a dormer and its mirror image are accepted alike', '%d conditions' % len(allkeys))
        return
    diff = None
    for vals in itertools.product((True, False), repeat=len(allkeys)):
        a = dict(zip(allkeys, vals))
        left = any(all(a[k] == v for k, v in c.items()) for c in cubes)
        right = any(all((a[mk[k][0]] == mk[k][1]) == v for k, v in c.items()) for c in cubes)
        if left != right:
            diff = a
            break
    rep.decide(diff is None, 'mirror', node, 'a dormer and its mirror image are accepted alike (%d accepting paths, %d conditions)' % (len(cubes), len(keys)),
               '' if diff is None else 'accepted on one side only if ' + ', '.join('%s %s: %s' % (k[0], show(k[1])[:90], v) for k, v in diff.items() if k in keys)[:300])
    rep.require('accepting paths')


# ------------------------------------------------------------------ the events made of them
class Made:
    always = True

    def __init__(self, evs):
        self.evs = evs             # references of the list of initial events
        self.news, self.filters, self.kept, self.grown, self.cleared = [], {}, [], [], []
        self.loopends = []

    def on_new(self, eng, st, node, cls, obj):
        o = st.heap[next(iter(refs(obj)))]
        if 'eventList' in o.fields:
            self.news.append((node, dict(o.fields), st.copy()))
            self.mark(eng, st, 'event')

    def mark(self, eng, st, what):
        if eng.loopstack:
            st.marks['dormer'] = st.marks.get('dormer', frozenset()) | {(what, eng.loopstack[0])}

    def on_comp(self, eng, st, node, target, elem):
        if eng.quiet:
            return
        t = strip(elem.term)
        if T.op(t) == 'idx' and T.args(t)[0] == EVS:
            if any(g.ifs for g in node.generators):
                for r in refs(target):
                    self.filters[r] = node
            self.kept.append((node, T.args(t)[1], st.copy(), refs(target)))

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        what = rhs if op == 'extend' and rhs is not None else elem
        if not eng.quiet:
            if indices_of(rhs, elem) and not (refs(target) & self.evs):
                self.mark(eng, st, 'taken')
            self.grown.append((node, refs(target), elem, rhs, op, st.copy(), tuple(eng.loopstack)))
            if what is not None and elem is not None:
                t = strip(elem.term)
                if T.op(t) == 'idx' and T.args(t)[0] == EVS and op == 'append':
                    self.kept.append((node, T.args(t)[1], st.copy(), refs(target)))

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if not eng.quiet and refs(target) & self.evs:
            self.cleared.append((node, op))

    def on_backedge(self, eng, st, node, lk):
        m = st.marks.get('dormer', frozenset())
        mine = {w for w, l in m if l == lk}
        if mine:
            if not eng.quiet:
                self.loopends.append((node, mine))
            st.marks['dormer'] = frozenset(x for x in m if x[1] != lk)


EVS = T.atom('in', 'initialEvents')


def cls_id(eng, mod, name):
    v = eng._globs.get((mod, name))
    ks = [k[1] for k in v.kinds if k[0] == 'cls'] if v is not None else []
    if not ks:
        raise AnalysisBroken('class %s is gone' % name)
    return ks[0]


def setup(eng, st):
    oi = mkobj(st, 'oi', 'tuple', single=False)
    o = st.heap['in:oi']
    o.items = tuple(innum('oi%d' % i) for i in range(4))
    o.length = T.const(4)
    dm = mkobj(st, 'dormer', 'tuple', single=False)
    o = st.heap['in:dormer']
    o.items = (oi, innum('width'))
    o.length = T.const(2)
    ds = mkobj(st, 'dormers', 'list', elem=dm)
    bis = mkobj(st, 'bisector', 'inst', single=False, cls=cls_id(eng, EUC, 'Ray2'))
    o = st.heap['in:bisector']
    o.fields['p'] = invec(st, 'bisector.p', 2, weights=False)
    o.fields['v'] = invec(st, 'bisector.v', 2, weights=False)
    vx = mkobj(st, 'wavevertex', 'inst', single=False, cls=cls_id(eng, MOD, '_LAVertex'))
    st.heap['in:wavevertex'].fields['_bisector'] = bis
    st.heap['in:wavevertex'].fields['point'] = invec(st, 'wavevertex.point', 2, weights=False)
    sp = mkobj(st, 'splitevent', 'inst', single=False, cls=cls_id(eng, MOD, '_SplitEvent'))
    ed = mkobj(st, 'edgeevent', 'inst', single=False, cls=cls_id(eng, MOD, '_EdgeEvent'))
    for n in ('splitevent', 'edgeevent'):
        o = st.heap['in:' + n]
        o.fields['distance'] = innum(n + '.distance')
        o.fields['intersection_point'] = invec(st, n + '.place', 2, weights=False)
    st.heap['in:splitevent'].fields.update(vertex=vx, opposite_edge=innum('opposite'))
    st.heap['in:edgeevent'].fields.update(vertex_a=vx, vertex_b=vx)
    ev = V(T.atom('in', 'event'), sp.kinds | ed.kinds | frozenset([NONE]), None)
    return ds, mkobj(st, 'initialEvents', 'list', elem=ev)


def indices_of(rhs, elem):
    src = rhs if rhs is not None else elem
    t = strip(elem.term) if elem is not None else None
    return src is not None and 'in:oi' in refs(src) or t is not None and any(
        T.args(y)[0] == T.atom('in', 'oi') for y in T.find(t, lambda z: T.op(z) == 'idx')) or t in [T.atom('in', 'oi%d' % j) for j in range(4)]


def number_of(t):
    """initialEvents[own index j] -> j"""
    t = strip(t)
    if T.op(t) == 'idx' and T.args(t)[0] == EVS:
        i = T.args(t)[1]
        for j in range(4):
            if i == T.atom('in', 'oi%d' % j):
                return j
    return None


def process(rep, tier):
    eng = new_engine(rep, [], tier)
    st = eng.initial_state([MOD, EUC])
    fn = eng.find_fn(MOD, 'processDormers')
    ds, evs = setup(eng, st)
    log = Made(refs(evs))
    eng.clients = [log]
    geo = Geo(eng)
    eng.stubs.update(geo.stubs)
    eng.exact_fns = frozenset([fn.fid])
    byname = {'dormers': ds, 'initialEvents': evs}
    args = [byname.get(a.arg, [ds, evs][min(i, 1)]) for i, a in enumerate(fn.node.args.args)]
    eng.call_fn(st, fn.node, fn, args, {}, '')
    rep.absorb(eng)
    rep.entries.append(fn.qual)
    split, edge = cls_id(eng, MOD, '_SplitEvent'), cls_id(eng, MOD, '_EdgeEvent')
    for node, f, s in log.news:
        rep.count('dormer events')
        items = None
        for r in refs(f['eventList']):
            o = s.heap.get(r)
            items = o.items if o is not None else None
        if items is None or len(items) != 3:
            rep.und('events', node, 'the events of the dormer')
            continue
        got = [number_of(x.term) for x in items]
        if None in got:
            why = None
            for x in items:
                t = strip(x.term)
                b = T.args(t)[0] if T.op(t) == 'idx' else None
                if b is not None and T.op(b) == 'obj' and T.args(b)[0] in log.filters and T.num(T.args(t)[1]) is not None:
                    why = t
            if why is not None:
                rep.bad('events', node, 'an event is picked by its place in a filtered list, which follows the numbering of the contour and not the dormer', show(why))
            else:
                rep.und('events', node, 'the events of the dormer', ', '.join(show(x.term)[:80] for x in items))
            continue
        rep.decide(got[:2] == [0, 3] and got[2] == 1, 'events', node,
                   'a dormer takes the events of its two reflex ends and of its front, wherever the contour starts', 'corners %s' % got)
        for x, want in zip(items, (split, split, edge)):
            isn = [c for (k, *a), v in s.facts.items() if k == 'isinst' and strip(a[0]) == strip(x.term) and v is True for c in a[1:]]
            no = [c for (k, *a), v in s.facts.items() if k == 'isinst' and strip(a[0]) == strip(x.term) and v is False for c in a[1:]]
            have = {c for k in x.kinds if k[0] == 'ref' for c in [s.heap[k[1]].cls]} if not any(k[0] == 'none' for k in x.kinds) else set()
            ok = want in isn or have == {want}
            rep.decide(True if ok else False if want in no or (isn and want not in isn) or not isn else None, 'kinds', node,
                       'the kind of the event at corner %s was tested' % number_of(x.term))
        p = f.get('intersection_point')
        la = geo.isects.get(strip(p.term)) or geo.isects.get(p.term) if p is not None else None
        if la is None:
            rep.und('place', node, 'the place of the dormer event', show(p.term)[:200] if p is not None else '')
        else:
            who = []
            for l in la:
                ks = {number_of(y) for q in l for c in q for y in T.find(c, lambda z: T.op(z) == 'idx' and T.args(z)[0] == EVS)}
                who.append(ks)
            rep.decide(sorted(map(sorted, who), key=str) == [[0], [3]] if all(None not in w for w in who) else None, 'place', node,
                       'the place of the dormer event is where the bisectors of its two reflex ends meet', str(who))
        d = f.get('distance')
        t = strip(d.term) if d is not None else None
        half = T.mul(T.const(0.5), T.atom('in', 'width'))
        rep.decide(None if t is None or T.any_op(t, FUZZY) else t == half, 'place', node, 'the ridge of a dormer is at half the width of its front', show(t) if t else '')
    # what stays in the list of events
    taken = set()                  # lists of indices of handled dormers
    for node, tg, elem, rhs, op, s, ls in log.grown:
        if indices_of(rhs, elem) and not (tg & log.evs):
            taken |= tg
            rep.count('indices taken')
    for node, what in log.loopends:
        if 'taken' in what:
            rep.decide('event' in what, 'kept', node, 'only the events of a dormer that is handled are taken out')
        else:
            rep.decide(None if not taken else False, 'kept', node, 'the events of a dormer that is handled are taken out')
    used = 0
    for node, k, s, tg in log.kept:
        fs = [(f, v) for f, v in s.facts.items() if f[0] == 'in' and strip(f[1]) == k]
        if not fs or T.op(k) != 'k':
            continue
        for f, v in fs:
            own = T.op(strip(f[2])) == 'obj' and T.args(strip(f[2]))[0] in taken
            if not own:
                continue
            used += 1
            rep.count('events kept')
            rep.decide(v is False, 'kept', node, 'the events kept are those of vertices that belong to no dormer', 'in: %s' % v)
    if not used:
        rep.und('kept', fn.node, 'the events that are kept')
    if not log.news:
        rep.und('events', fn.node, 'no dormer event is made')
    rep.require('dormer events')


# ------------------------------------------------------------------ the list of first events
class First:
    always = True

    def on_return(self, eng, st, node, fn, value, env):
        if not eng.quiet and value is not None:
            r = self.rets.setdefault(fn.fid, [set(), False])
            r[0].add(value.term)
            r[1] = r[1] or any(k[0] == 'none' for k in value.kinds)

    def __init__(self, pf):
        self.pf = pf
        self.adds, self.given, self.rets = [], set(), {}

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if not eng.quiet and elem is not None:
            self.adds.append((node, refs(target), elem, op, st.copy()))

    def on_comp(self, eng, st, node, target, elem):
        if not eng.quiet:
            ifs = [i for g in node.generators for i in g.ifs]
            self.adds.append((node, refs(target), elem, 'filter' if ifs else 'append', st.copy()))

    def on_call(self, eng, st, node, fn, env):
        if fn is self.pf or fn.fid == self.pf.fid:
            ps = [a.arg for a in fn.node.args.args]
            v = env.get('initialEvents', env.get(ps[-1]))
            self.given |= refs(v)


def first_events(rep, tier):
    from .entry import run_skeletonize
    eng = new_engine(rep, [], tier)
    eng.initial_state([MOD])
    pf = eng.find_fn(MOD, 'processDormers')
    log = First(pf)
    eng.clients = [log]

    def stub(e, s, n, env):
        log.on_call(e, s, n, pf, env)
        return [(s, V(T.NONE, frozenset([('none', 'stub')]), None))]
    eng.stubs[pf.fid] = stub
    for f in eng.prog.fns.values():
        if f.node._mod.name == MOD and f.qual.split('.')[-1] in ('mergeNodeClusters', 'removeGhosts'):
            def keep(e, s, n, env, f=f):
                v = env.get(f.node.args.args[0].arg)
                return [(s, v)]
            eng.stubs[f.fid] = keep
    eng.exact_fns = frozenset([eng.find_fn(MOD, 'skeletonize').fid])
    run_skeletonize(eng)
    rep.absorb(eng)
    rep.entries.append('skeletonize up to the dormers')
    if not log.given:
        rep.und('numbering', eng.find_fn(MOD, 'skeletonize').node, 'dormers are not processed')
        return
    groups = {}
    for node, tg, elem, op, s in log.adds:
        if tg & log.given:
            groups.setdefault(node, []).append((elem, op, s))
    for node, g in groups.items():
        rep.count('first events listed')
        if any(op == 'filter' for elem, op, s in g):
            rep.bad('numbering', node, 'vertices without an event are left out of the list, so that its numbering is not that of the contour')
            continue
        none = tested = maybe = False
        for elem, op, s in g:
            t = elem.term
            test = any(len(f) == 2 and f[1] == t and (f[0] == 'isnone' and v is False or f[0] == 'truth' and v is True) for f, v in s.facts.items())
            none = none or any(k[0] == 'none' for k in elem.kinds) and not test
            tested = tested or test
            maybe = maybe or any(t in log.rets[f][0] and log.rets[f][1] for f in log.rets)
        rep.decide(True if none else False if tested or maybe else None, 'numbering', node,
                   'every vertex has its place in the list of first events, also one without an event')


def check_dormers(rep, tier):
    rep.rule('own', 'whether a candidate is accepted depends on edges and turns at its own place')
    rep.rule('mirror', 'the conditions for a candidate and for its mirror image are the same')
    rep.rule('width', 'the width of a dormer is that of its own front edge')
    rep.rule('events', 'a dormer event is made of the events of its own corners, by their place in the dormer')
    rep.rule('kinds', 'the kinds of these events were tested')
    rep.rule('place', 'place and height of a dormer event')
    rep.rule('kept', 'events of vertices that belong to no dormer stay')
    rep.rule('numbering', 'the list of first events is numbered like the contour')
    detect(rep, tier)
    process(rep, tier)
    first_events(rep, tier)
