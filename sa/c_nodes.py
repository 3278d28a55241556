"""From the skeleton to vertices and graph arcs: every node and every arc, path by path."""
import ast

from .program import AnalysisBroken
from .state import T
from .base import refs, resolved, show
from .entry import MOD, run_polygonize, skeleton_of
from .c_poly import (new_engine, elem_comps, none_v, without_none, truthy_list, pos,
                     LENV, LENS, SKEL, FIRST, NUMV)
from .c_contour import node_of, sink_of, strip_axis, sames, loop_indices, split_k

EMPTY = frozenset()


def bounded(facts, k, length):
    """k runs over a collection of this length"""
    d = T.sub(k, length)
    return any(f[0] == 'lt' and v is True and f[1] == d for f, v in facts.items())


def node_loop(facts, lk):
    return bounded(facts, T.atom('k', lk), LENS)


def sinks_loop(facts, lk):
    """-> number of the node whose sinks the loop runs over"""
    k = T.atom('k', lk)
    for f, v in facts.items():
        if f[0] != 'lt' or v is not True:
            continue
        for m, c in T.poly(f[1]).items():
            if len(m) == 1 and c == -1 and T.op(m[0][0]) in ('lenof', 'lenin'):
                n = node_of(T.args(m[0][0])[0]) if isinstance(T.args(m[0][0])[0], int) else None
                if n is not None and n[1] == '.sinks' and T.sub(f[1], k) == T.neg(m[0][0]):
                    return n[0]
    return None


class Put:
    def __init__(self, node, st, loops, **kw):
        self.node, self.st, self.loops = node, st.copy(), tuple(loops)
        self.facts = self.st.facts
        self.__dict__.update(kw)


class Nodes:
    always = True

    def __init__(self, add_fid):
        self.add_fid = add_fid
        self.adds, self.puts, self.verts, self.backs = [], [], [], []
        self.contour = set()
        self.breaks, self.turned, self.inserts = [], [], {}

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if op == 'insert' and isinstance(kw.get('index'), tuple):
            self.inserts[node] = kw['index'].term
        if op in ('sort', 'reverse'):
            self.turned.append((node, refs(target)))

    def on_reversed(self, eng, st, node, target):
        self.turned.append((node, refs(target)))

    def on_loopbreak(self, eng, st, node, lk, enters):
        if not eng.quiet:
            self.breaks.append((lk, node, dict(st.facts)))

    def put(self, eng, st, node, target, elem, op):
        st.marks['put'] = st.marks.get('put', EMPTY) | {(frozenset(refs(target)), node)}
        if not eng.quiet:
            self.puts.append(Put(node, st, eng.loopstack, target=target, elem=elem, op=op, st_eng=eng))

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if 'in:verts' in refs(target) and not eng.quiet:
            self.verts.append(Put(node, st, eng.loopstack, rhs=rhs, elem=elem, op=op, by=by))
        if op in ('append', 'insert') and elem is not None:
            self.put(eng, st, node, target, elem, op)
        elif exact:
            for e in exact:
                self.put(eng, st, node, target, e, op)

    def on_comp(self, eng, st, node, target, elem):
        self.put(eng, st, node, target, elem, 'comp')

    def on_backedge(self, eng, st, node, lk):
        if not eng.quiet:
            self.backs.append((lk, node, dict(st.facts), st.marks.get('put', EMPTY), st.marks.get('arcs', EMPTY), dict(st.env)))
        for m in ('put', 'arcs'):
            st.marks.pop(m, None)

    def on_call(self, eng, st, node, fn, env):
        if self.add_fid is None or fn.fid != self.add_fid:
            return
        ps = [a.arg for a in fn.node.args.args][1:]
        items = None
        v = env.get(ps[0]) if len(ps) == 1 else None
        if v is not None:
            a = eng.getitem(st.copy(), node, v, eng.const(0), quiet=True)
            b = eng.getitem(st.copy(), node, v, eng.const(1), quiet=True)
            if len(a) == 1 and len(b) == 1:
                items = (a[0][1].term, b[0][1].term)
        elif len(ps) == 2:
            items = tuple(env[p].term for p in ps)
        st.marks['arcs'] = st.marks.get('arcs', EMPTY) | {node}
        if not eng.quiet:
            self.adds.append(Put(node, st, eng.loopstack, items=items))


def walk(rep, tier, holes):
    eng = new_engine(rep, [], tier)
    eng.initial_state([MOD])
    sk = eng.find_fn(MOD, 'skeletonize')
    add = [f for f in eng.prog.fns.values() if f.qual.endswith('.add_edge')]
    if len(add) != 1:
        raise AnalysisBroken('the method that enters an edge into the face graph is not found')
    c = Nodes(add[0].fid)
    eng.clients = [c]

    def stub(eng, st, n, env):
        todo, seen = [k for v in env.values() for k in refs(v)], set()
        while todo:
            r = todo.pop()
            o = st.heap.get(r)
            if r in seen or o is None:
                continue
            seen.add(r)
            if o.kind == 'inst':
                c.contour.add(r)
                continue
            if o.kind in ('list', 'tuple'):
                for v in (o.items or ()) + ((o.elem,) if o.elem is not None else ()):
                    todo += list(refs(v))
        return [(st, skeleton_of(eng, st))]
    eng.stubs[sk.fid] = stub
    for f in eng.prog.fns.values():
        # what follows does not touch nodes or arcs any more
        if f.qual.endswith(('.circular_embedding', '.faces')):
            eng.stubs[f.fid] = lambda eng, st, n, env: []
    fn = eng.find_fn(MOD, 'polygonize')
    eng.exact_fns = frozenset([fn.fid])

    def override(eng, st, env):
        env['faces'] = none_v()
        env['unitVectors'] = none_v()
        if holes:
            env['holesInfo'] = without_none(env['holesInfo'])
            truthy_list(eng, st, env['holesInfo'])
        else:
            env['holesInfo'] = none_v()
        pos(eng, st, env['height'].term)
    res = run_polygonize(eng, override)
    rep.absorb(eng)
    rep.entries.append('polygonize(%s) up to the face graph, every path kept apart' % ('holes' if holes else 'no holes'))
    return eng, c, fn, res


def check(rep, tier):
    for holes in (False, True):
        eng, c, fn, res = walk(rep, tier, holes)
        nodes(rep, eng, c, fn)
        arcs(rep, eng, c, fn, holes)
        renumbered(rep, c)


def versions(terms):
    """states of the list of nodes the terms read"""
    return {T.args(a)[2] for t in terms for a in T.find(t, lambda x: T.op(x) == 'idx' and T.args(x)[0] == SKEL)}


def renumbered(rep, c):
    """the nodes are sorted or turned after they have got their vertices"""
    for node, rs in c.turned:
        if rs != {'in:skeleton'}:
            continue
        made = set()
        for p in c.puts:
            cs = elem_comps(p.st_eng, p.st, p.elem) if p.elem is not None else None
            if cs is not None and len(cs) == 1 and len(cs[0]) == 3:
                made |= versions([x.term for x in cs[0]])
        used = versions([x for p in c.adds for f in p.facts for x in f[1:] if isinstance(x, int) and not isinstance(x, bool)])
        if made and used and not made & used:
            rep.bad('arc-source', node, 'the order of the nodes is changed after they have got their vertices')


def behind(meta):
    """the lists an iterator runs over"""
    out = set()
    for x in meta if isinstance(meta, tuple) else ():
        if hasattr(x, 'kinds'):
            out |= refs(x)
        elif isinstance(x, tuple):
            out |= behind(x)
    return out


# ------------------------------------------------------------------ vertices
def nodes(rep, eng, c, fn):
    carriers = set()
    for p in c.verts:
        if p.rhs is not None:
            carriers |= refs(p.rhs)
            for r in refs(p.rhs):
                o = p.st.heap.get(r)
                if o is not None and o.kind == 'iter' and o.meta is not None:
                    carriers |= behind(o.meta)
        if p.op in ('append', 'insert', 'comp'):
            carriers.add('in:verts')
    puts = [p for p in c.puts if refs(p.target) and refs(p.target) <= carriers]
    loops = {}
    for p in puts:
        rep.count('places that build roof vertices')
        inner = p.loops[-1] if p.loops else None
        if p.op == 'insert' and T.num(c.inserts.get(p.node, T.NONE)) is not None:
            rep.bad('in-order', p.node, 'the vertex is inserted before the ones of the nodes before')
        if inner is not None:
            loops.setdefault(inner, set()).update(refs(p.target))
        vertex(rep, eng, p)
    for node, rs in c.turned:
        if rs and rs <= carriers:
            rep.bad('in-order', node, 'the order of the vertices is changed')
    for lk, node, facts in c.breaks:
        if lk in loops and node_loop(facts, lk):
            rep.bad('one-per-node', node, 'the loop over the nodes may end before the last of them has a vertex')
    for lk, node, facts, put, _, _ in c.backs:
        if lk not in loops:
            continue
        n = {x for rs, x in put if rs & loops[lk]}
        over = node_loop(facts, lk)
        if len(n) == 1:
            if over:
                rep.ok('one-per-node', node, 'one vertex for the node on this path')
            else:
                rep.und('one-per-node', node, 'a loop over something else than the nodes')
        elif not n and over:
            rep.bad('one-per-node', node, 'on one path a node gets no vertex')
        elif len(n) > 1 and over:
            rep.bad('one-per-node', node, 'on one path a node gets more than one vertex')
        else:
            rep.und('one-per-node', node, 'vertices made in a loop')


def vertex(rep, eng, p):
    cs = elem_comps(eng, p.st, p.elem)
    if cs is None or len(cs) != 1 or len(cs[0]) != 3:
        return
    own = {}
    for i in (0, 1):
        x = cs[0][i].term
        for m, cf in T.poly(x).items():
            for a, e in m:
                sa = strip_axis(a)
                n = node_of(sa[0]) if sa else None
                sk = sink_of(sa[0]) if sa else None
                if n is not None and n[1] == '.source' and len(m) == 1 and cf == 1 and e == 1 and sa[1] == str(i):
                    own.setdefault(i, set()).add(n[0])
                elif sk is not None:
                    rep.bad('in-order', p.node, 'axis %d of a roof vertex is the position of a sink' % i, show(x))
    k = [T.atom('k', lk) for lk in p.loops if node_loop(p.facts, lk)]
    if len(own) == 2 and k and all(v == {k[-1]} for v in own.values()):
        rep.ok('in-order', p.node, 'x and y are those of the node of the loop')


# ------------------------------------------------------------------ arcs
def searches(c, facts):
    """lists tested on this path: (list term, found, entries)"""
    for f, v in facts.items():
        t = None
        if f[0] == 'truth' and isinstance(v, bool):
            t, found = f[1], v
        elif f[0] == 'eq' and isinstance(v, bool) and T.op(f[1]) in ('lenof', 'len?'):
            t, found = T.args(f[1])[0], not v
        if isinstance(t, int):
            l = [p for p in c.puts if p.target.term == t]
            if l:
                yield t, found, l


def contour_entry(p):
    """the entry is chosen because its starting point equals a sink -> (kind, sink node)"""
    for x, y in sames(p.facts):
        for a, b in ((x, y), (y, x)):
            sk = sink_of(a)
            if sk is None:
                continue
            if T.op(b) == 'sel' and T.args(b)[1] in ('.p1', '.p2'):
                return 'contour', sk, b
            n = node_of(b)
            if n is not None and n[1] == '.source':
                return 'node', sk, b
    return None


def number_part(c, t):
    """t = rest + (a node number or an edge end) -> (kind, part, rest)"""
    for m, cf in T.poly(t).items():
        if len(m) != 1 or m[0][1] != 1 or cf != 1:
            continue
        a = m[0][0]
        rest = T.sub(t, a)
        if T.op(a) == 'sel' and T.args(a)[1] in ('.i1', '.i2'):
            return 'contour', a, rest
        if T.op(a) == 'idx':
            l = [p for p in c.puts if p.target.term == T.args(a)[0]]
            if l and all(T.op(p.elem.term) == 'k' and bounded(p.facts, p.elem.term, LENS) for p in l):
                return 'node', a, rest
            if l and all(T.op(T.sub(p.elem.term, LENV)) == 'k' for p in l):
                return 'node', a, T.add(rest, LENV)
            if l and all(T.op(p.elem.term) == 'sel' and T.args(p.elem.term)[1] in ('.i1', '.i2') for p in l):
                return 'contour', l[0].elem.term, rest
    return None


def arcs(rep, eng, c, fn, holes):
    loops, outer = {}, set()
    for p in c.adds:
        over = [lk for lk in p.loops if node_loop(p.facts, lk)]
        inner = [lk for lk in p.loops if sinks_loop(p.facts, lk) is not None]
        if not over or not inner:
            continue
        rep.count('paths that enter an arc')
        loops[inner[-1]] = p.node
        outer.add(over[0])
        k = T.atom('k', over[0])
        if p.items is None:
            continue
        own = [t for t in p.items if t == T.add(LENV, k)]
        if own:
            rep.ok('arc-source', p.node, 'the arc starts at the vertex of its node')
            other = p.items[1] if p.items[0] == own[0] else p.items[0]
            end(rep, eng, c, p, k, other, holes)
            continue
        near = [t for t in p.items if T.mentions(t, k) and resolved(t) and split_k(t, k) is not None
                and not T.any_op(t, {'idx', 'sel'})]
        if near:
            rep.bad('arc-source', p.node, 'the arc does not start at original length + number of its node', show(near[0]))
        elif all(resolved(t) for t in p.items) and not any(T.mentions(t, k) for t in p.items):
            rep.bad('arc-source', p.node, 'no end of the arc depends on its node', ', '.join(show(t) for t in p.items))
        elif not counter(rep, c, p, over[0]):
            rep.und('arc-source', p.node, 'start of the arc')
    for lk, node, facts, _, adds, _ in c.backs:
        if lk in loops:
            if len(adds) == 1:
                rep.ok('every-arc', node, 'the sink gets its arc on this path')
            elif not adds:
                rep.bad('every-arc', node, 'on one path a sink gets no arc in the graph')
            else:
                rep.und('every-arc', node, 'more than one arc on a path')
    for lk, node, facts in c.breaks:
        if lk in loops or lk in outer:
            rep.bad('every-arc', node, 'the loop over the %s may end before the last one' % ('sinks of a node' if lk in loops else 'nodes'))
    rep.require('paths that enter an arc')


def counter(rep, c, p, lk):
    """a counter that goes along with the nodes has to advance with every one of them"""
    for t in p.items:
        if T.op(t) != 'phi':
            ph = [a for m in T.poly(t) for a, e in m if T.op(a) == 'phi']
        else:
            ph = [t]
        for a in ph:
            steps = {}
            for lk2, node, facts, _, _, env in c.backs:
                if lk2 == lk:
                    for v in env.values():
                        d = T.num(T.sub(v.term, a))
                        if d is not None and d in (0, 1):
                            steps.setdefault(d, node)
            if set(steps) == {0, 1}:
                rep.bad('arc-source', p.node, 'the number of the node is counted, but not on every path of the loop over the nodes')
                return True
    return False


def end(rep, eng, c, p, k, t, holes):
    tests = list(searches(c, p.facts))
    kinds = {}
    for L, found, l in tests:
        for q in l:
            e = contour_entry(q)
            if e is not None:
                kinds.setdefault(e[0], []).append((found, q))
    n = T.num(t)
    if n is not None:
        if any(f for l in kinds.values() for f, q in l):
            rep.bad('arc-sink', p.node, 'no end is taken for an arc although one has been found', show(t))
        elif n >= 0:
            rep.bad('arc-sink', p.node, 'constant end of an arc', show(t))
        elif set(kinds) == {'contour', 'node'}:
            rep.ok('arc-sink', p.node, 'an arc without an end only if nothing lies at the sink')
        else:
            rep.und('arc-sink', p.node, 'constant end of an arc')
    else:
        np = number_part(c, t)
        if np is not None:
            kind, part, rest = np
            want = LENV if kind == 'node' else T.ZERO
            if rest == want:
                for L, found, l in tests:
                    for q in l if found and T.mentions(part, L) else ():
                        choice(rep, p, k, q)
                rep.ok('arc-sink', p.node, 'the arc ends at %s' % ('the vertex of a node' if kind == 'node' else 'a vertex of the contour'))
            elif resolved(rest):
                rep.bad('arc-sink', p.node, 'the arc ends beside the vertex that was found', show(t))
        elif T.op(T.sub(t, LENV)) != 'k' and resolved(t) and not T.any_op(t, {'idx', 'sel', 'k'}):
            rep.bad('arc-sink', p.node, 'the end of the arc depends on neither a node nor an edge', show(t))
    # the search of the contour has to see all edges
    seen = [q for f, q in kinds.get('contour', ())]
    if holes and seen and c.contour:
        rep.count('searches of the contours')
        have = set()
        for q in seen:
            x = contour_entry(q)[2]
            have |= owner(eng, q, x)
        if have is not None and have and not c.contour <= have:
            rep.bad('arc-sink', p.node, 'the contour vertex of a sink is not searched among all edges',
                    'only edges made at %s' % ', '.join(sorted(have))[:80])
        elif have:
            rep.ok('arc-sink', p.node, 'the contour vertex is searched among the edges of all contours')


def choice(rep, p, k, q):
    """what the path says about an entry that is used as the end of an arc"""
    if contour_entry(q) is not None:
        return
    own = {T.atom('k', lk) for lk in q.loops} - {T.atom('k', lk) for lk in p.loops}
    about = [(f, v) for f, v in q.facts.items() if f[0] in ('lt', 'eq', 'truth', 'in') and isinstance(f[1], int)
             and any(T.mentions(f[1], x) for x in own) and T.find(f[1], lambda a: sink_of(a) is not None)]
    eqs = [f for f, v in about if f[0] == 'eq' and v is True]
    if not about:
        return
    if len(eqs) < 2 and all(f[0] in ('lt', 'eq') and resolved(f[1]) for f, v in about):
        rep.bad('arc-sink', p.node, 'the end of the arc is chosen by something else than the position of its sink', show(about[0][0][1]))


def owner(eng, q, x):
    """objects the edge compared in entry q may be"""
    out = set()
    e = T.args(x)[0]
    for fk, env in q.st.frames:
        for v in env.values():
            if v.term == e:
                out |= refs(v)
    return out
