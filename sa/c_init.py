"""The wavefront at the start: one vertex per footprint edge, its bisector, the edge table, the first events."""
import ast

from .program import AnalysisBroken
from . import ratfun
from .state import T, V, NUM
from .base import refs, resolved, show, strip
from .c_wave import note_slice, Wave, inst_classes, field, base, sel, EMPTY
from .c_find import Vecs, cross2, line_key

BIS = 'bisector'


class Setup:
    always = True

    def __init__(self, w, hf, exact):
        self.w, self.hf, self.exact = w, hf, exact
        self.verts, self.table, self.asked = [], [], []
        self.contours = set()
        self.each = {}             # (kind, loop) -> [done, left out, node]
        self.single = []           # (node, what)
        self.filters = []
        self.slices = set()
        self.breaks = []

    def here(self, eng):
        return not any(f.fid in self.hf for f in eng.fstack)

    def did(self, eng, st, kind, node):
        if not eng.loopstack:
            return
        lk = eng.loopstack[-1]
        st.marks['each'] = st.marks.get('each', EMPTY) | {(kind, lk)}
        self.each.setdefault((kind, lk), [0, 0, node])

    def on_backedge(self, eng, st, node, lk):
        m = st.marks.get('each', EMPTY)
        for (kind, l), rec in self.each.items():
            if l != lk or eng.quiet:
                continue
            if (kind, lk) in m:
                rec[0] += 1
            elif not self.excused(st, lk):
                rec[1] += 1
        if m:
            st.marks['each'] = frozenset(x for x in m if x[1] != lk)

    def excused(self, st, lk):
        k = T.atom('k', lk)
        return any(len(f) == 2 and isinstance(f[1], int) and T.mentions(f[1], k) and
                   (f[0] == 'truth' and v is False and T.op(strip(f[1])) in ('idx', 'lenof') or f[0] == 'isnone' and v is True)
                   for f, v in st.facts.items())

    def on_new(self, eng, st, node, cls, obj):
        o = st.heap[next(iter(refs(obj)))]
        if cls.cid == self.w.vertex:
            if self.here(eng):
                self.verts.append((node, eng.stack(), {f: v for f, v in o.fields.items()}, st.copy()))
                self.did(eng, st, 'vertex', node)
        elif self.here(eng) and 'bisector_prev' in o.fields and 'bisector_next' in o.fields:
            self.table.append((node, eng.stack(), dict(o.fields), st.copy()))
            self.did(eng, st, 'table', node)

    def on_loopbreak(self, eng, st, node, lk, enters):
        if not eng.quiet and isinstance(node, ast.For) and not self.excused(st, lk):
            self.breaks.append((node, lk))

    def on_sliced(self, eng, st, node, base, lo, hi, step):
        if self.here(eng) and eng.fstack and eng.fstack[-1].fid in self.exact:
            note_slice(eng, st, node, base, lo, hi, step, self.w.ringclasses | {self.w.vertex}, self.slices)
            t = strip(base.term)
            if t in self.contours:
                f = lambda v: v.term if v is not None and v.term != T.NONE else None
                self.slices.add((t, f(lo), f(hi), f(step), node))

    def on_call(self, eng, st, node, fn, env):
        if fn.fid in self.w.finders and self.here(eng):
            for v in env.values():
                if inst_classes(eng, st, v) & {self.w.vertex}:
                    self.asked.append((node, eng.stack(), v, st.copy()))
                    self.did(eng, st, 'asked', node)
                    break

    def on_index(self, eng, st, node, base, index, write, **kw):
        if write or not self.here(eng) or T.num(index.term) is None or kw.get('nxt'):
            return
        ls = [st.heap[r] for r in refs(base) if r in st.heap]
        if ls and all(o.kind == 'list' and o.elem is not None and inst_classes(eng, st, o.elem) and
                      inst_classes(eng, st, o.elem) <= self.w.ringclasses for o in ls):
            self.single.append((node, index))

    def on_comp(self, eng, st, node, target, elem):
        c = inst_classes(eng, st, elem)
        ifs = [i for g in node.generators for i in g.ifs]
        if not ifs or not self.here(eng):
            return
        if c and (c <= self.w.ringclasses or c <= {self.w.vertex} or
                  any('bisector_prev' in st.heap[r].fields for r in refs(elem) if r in st.heap)):
            self.filters.append((node, ifs))


def check_initial(rep, tier):
    rep.rule('start', 'a wavefront vertex starts at the first point of the footprint edge that follows it')
    rep.rule('edges', 'a wavefront vertex lies between two edges that follow each other in their contour')
    rep.rule('every edge', 'every edge of every contour gets its wavefront vertex')
    rep.rule('bisector', 'the bisector of a wavefront vertex starts at its place and halves the angle between its two edges, on the inner side')
    rep.rule('reflex', 'a footprint vertex is reflex exactly if the contour turns right there')
    rep.rule('table', 'the edge table holds every footprint edge with the bisectors of its two ends')
    rep.rule('asked', 'every wavefront vertex is asked for its first event')
    w = Wave(rep, tier)
    eng = w.fresh()
    hf = {h[1].fid for h in w.handlers}
    # functions that build the start
    exact = set()
    for fn, env, st, node, ctx, fst, cl in w.scan.calls:
        if fn.fid in w.finders and not (hf & {f.fid for f in fst}):
            exact |= {f.fid for f in fst}
    for (cid, oid), (node, stack) in w.scan.created.items():
        if cid == w.vertex:
            exact |= {f.fid for f in eng.prog.fns.values() if f.qual in stack}
    exact -= hf
    su = Setup(w, hf, exact)
    eng.clients = [su]
    eng.exact_fns = frozenset(exact)
    eng.stubs = {h[1].fid: (lambda e, st, n, env: [(st, e.unk(n, 'handled'))]) for h in w.handlers}
    for f in w.finders:
        eng.stubs[f] = w.finder_stub
    from .entry import run_skeletonize
    su.contours = {T.atom('in', 'edgeContours')}
    run_skeletonize(eng)
    rep.absorb(eng)
    for node, stack, f, st in su.verts:
        rep.count('vertices at the start')
        name = stack[-1] if stack else ''
        q = Vecs(eng, st, node)
        e0, e1, p = f.get('edge_prev'), f.get('edge_next'), f.get('point')
        if e0 is None or e1 is None or p is None:
            raise AnalysisBroken('a wavefront vertex has no point, edge_prev or edge_next')
        a, b = q.xy(p), q.xy(q.get(e1, 'p1'))
        c = q.xy(q.get(e0, 'p2'))
        d = [T.sub(x, y) for x, y in zip(a, b)] if a and b else None
        same = True if d and all(x == T.ZERO for x in d) else None
        if same is None and d and resolved(d[0]) and resolved(d[1]):
            # the end of the edge before is the same place
            same = None if c and a == c else False
        rep.decide(same, 'start', node, '%s: place of the vertex' % name, show(strip(p.term))[:160])
        ok = neighbours(strip(e0.term), strip(e1.term))
        rep.decide(ok, 'edges', node, '%s: edges of the vertex' % name, 'before: %s  after: %s' % (show(strip(e0.term))[:150], show(strip(e1.term))[:150]))
    for node, stack, f, st in su.table:
        rep.count('entries of the edge table')
        q = Vecs(eng, st, node)
        ed = [v for k, v in f.items() if k not in ('bisector_prev', 'bisector_next')]
        bp, bn = strip(f['bisector_prev'].term), strip(f['bisector_next'].term)
        ok = None
        for e in ed:
            t = strip(e.term)
            fld = field(t)
            bf = bisector_field(eng, w)
            if fld in ('edge_prev', 'edge_next') and bf:
                v = base(t)
                want = (sel(sel(v, 'prev'), bf), sel(v, bf)) if fld == 'edge_prev' else (sel(v, bf), sel(sel(v, 'next'), bf))
                if (bp, bn) == want:
                    ok = True
                elif field(bp) == bf and field(bn) == bf:
                    ok = False
        rep.decide(ok, 'table', node, 'bisectors of the ends of the edge', 'prev: %s  next: %s' % (show(bp)[-90:], show(bn)[-90:]))
    for node, stack, v, st in su.asked:
        rep.count('first events asked for')
        rep.ok('asked', node, 'the first event of every vertex')
    kinds = {'vertex': 'every edge', 'table': 'table', 'asked': 'asked'}
    for (kind, lk), (done, left, node) in su.each.items():
        if done and left:
            rep.bad(kinds[kind], eng.loops_seen.get(int(lk[2:].partition('@')[0]), node), 'a loop leaves out elements on one path')
        elif done:
            rep.ok(kinds[kind], node, 'done for every element of the loop')
    for node, lk in su.breaks:
        for (kind, l), rec in su.each.items():
            if l == lk and rec[0]:
                rep.bad(kinds[kind], node, 'the loop ends before all elements were done')
    for b, lo, hi, step, node in su.slices:
        whole = (lo is None or T.num(lo) == 0) and hi is None and step is None
        rest = any(x[0] == b and (x[2] is not None and x[2] == lo or x[1] is not None and x[1] == hi) for x in su.slices)
        if not whole and not rest and not any(lo is not None and T.sub(lo, i.term) == T.ONE for _, i in su.single):
            rep.decide(False if step is None and (hi is None or T.num(hi) is not None) and (lo is None or T.num(lo) is not None) else None,
                       'every edge', node, 'only a part of the list is used')
    for node, index in su.single:
        rep.bad('every edge', node, 'only the ring at position %s is used' % show(index.term))
    for node, ifs in su.filters:
        rep.decide(None if all(isinstance(i, ast.Name) for i in ifs) else False, 'every edge', node, 'elements are left out by a condition')
    bisectors(rep, w, eng, hf)
    for n in ('vertices at the start', 'entries of the edge table', 'first events asked for', 'bisectors'):
        rep.require(n)


def neighbours(a, b):
    """edge b follows edge a cyclically in one contour"""
    if T.op(a) != 'idx' or T.op(b) != 'idx':
        return None
    la, ia = T.args(a)[0], T.args(a)[1]
    lb, ib = T.args(b)[0], T.args(b)[1]
    if not (resolved(a) and resolved(b)):
        return None
    if la != lb:
        return False
    n = T.find(T.add(ia, ib), lambda x: T.op(x) in ('lenof', 'lenin'))
    def unmod(t):
        return T.args(t)[0] if T.op(t) == 'mod' else t
    d = T.sub(unmod(ib), unmod(ia))
    if T.num(d) == 1:
        return True
    if any(T.sub(d, T.ONE) in (x, T.neg(x)) for x in n):
        return True
    return False


def bisector_field(eng, w):
    """the attribute the property `bisector` hands out"""
    ci = eng.classes[w.vertex]
    m = ci.find(BIS)
    if m is None:
        return BIS
    r = [s for s in ast.walk(m.node) if isinstance(s, ast.Return)]
    if len(r) == 1 and isinstance(r[0].value, ast.Attribute):
        return r[0].value.attr
    return None


class AtEnd:
    always = True

    def __init__(self, fid):
        self.fid, self.out = fid, []

    def on_return(self, eng, st, node, fn, value, env):
        if fn.fid == self.fid and not eng.quiet:
            self.out.append((st.copy(), dict(env)))


def bisectors(rep, w, eng, hf):
    """the constructor of the wavefront vertices, for every place that makes one"""
    ctor = eng.classes[w.vertex].find('__init__')
    if ctor is None:
        raise AnalysisBroken('the wavefront vertex has no constructor')
    sites = {}
    for fn, env, st, node, ctx, fst, cl in w.scan.calls:
        if fn.fid == ctor.fid:
            sites[getattr(node, '_id', 0)] = (fn, env, st, node, ctx, fst)
    for fn, env, st, node, ctx, fst in sites.values():
        first = not (hf & {f.fid for f in fst})
        ae = AtEnd(ctor.fid)
        e2 = w.eng
        e2.clients = [ae]
        e2.exact_fns = frozenset([ctor.fid])
        e2.ctx, e2.fstack = list(ctx), list(fst)
        e2.quiet, e2.loopdepth, e2.loopcache, e2.stubs = 0, 0, {}, {}
        a = fn.node.args
        s2 = st.copy()
        e2.call_fn(s2, node, fn, [env[y.arg] for y in a.posonlyargs + a.args], {y.arg: env[y.arg] for y in a.kwonlyargs}, '')
        e2.clients, e2.exact_fns = [], frozenset()
        me = [y.arg for y in a.posonlyargs + a.args][0]
        for x, env2 in ae.out:
            rep.count('bisectors')
            one_bisector(rep, e2, x, node, env2.get(me, env[me]), fst[-1].qual if fst else '', first)


def one_bisector(rep, eng, st, node, me, name, first):
    for s, r in eng.getattr(st.copy(), node, me, 'is_reflex'):
        pos, neg = eng.truth_term(s, r, node)
        for sts, reflex in ((pos, True), (neg, False)):
            for s1 in sts:
                for s2, b in eng.getattr(s1.copy(), node, me, BIS):
                    q = Vecs(eng, s2, node)
                    e0, e1 = q.xy(q.get(me, 'edge_prev', 'norm')), q.xy(q.get(me, 'edge_next', 'norm'))
                    l = line_key(eng, s2, node, b)
                    at = q.xy(q.get(me, 'point'))
                    if not (e0 and e1 and l and at):
                        rep.und('bisector', node, '%s: bisector of the new vertex' % name)
                        continue
                    rep.decide(True if l[0] == at else False if all(resolved(x) for x in l[0]) else None, 'bisector', node, '%s: the bisector starts at the vertex' % name)
                    s = -1 if reflex else 1
                    want = [T.mul(T.const(s), T.sub(y, x)) for x, y in zip(e0, e1)]
                    if list(l[1]) == want:
                        ok = True
                    elif all(resolved(x) for x in l[1]):
                        z = ratfun.is_zero(cross2(l[1], want))
                        ok = False if z is False or list(l[1]) == [T.neg(x) for x in want] else None
                    else:
                        ok = None
                    rep.decide(ok, 'bisector', node, '%s: direction of the bisector (%s vertex)' % (name, 'reflex' if reflex else 'convex'), show(l[1][0])[:120])
                    if not first:
                        continue
                    turn = cross2(e0, e1)
                    right = sign(eng, s2, turn)
                    if right == 0:
                        rep.bad('reflex', node, '%s: the turn is compared with a threshold other than zero' % name)
                    elif right is None:
                        rep.und('reflex', node, '%s: reflex or convex' % name)
                    elif reflex:
                        rep.decide(right < 0, 'reflex', node, '%s: a reflex vertex turns right' % name)
                    else:
                        rep.decide(right >= 0, 'reflex', node, '%s: a convex vertex does not turn right' % name)


def sign(eng, st, t):
    """-1: t < 0 or t <= 0 is known, 1: t >= 0 or t > 0 is known"""
    out = None
    for f, v in st.facts.items():
        if f[0] not in ('lt', 'le') or len(f) != 2:
            continue
        x = strip(f[1])
        if x == t or x == T.neg(t):
            s = -1 if v else 1
            out = s if x == t else -s
        elif any(T.num(d) is not None for d in (T.sub(x, t), T.add(x, t))):
            return 0
    return out
