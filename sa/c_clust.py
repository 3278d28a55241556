"""Clusters of skeleton nodes: which nodes form one, which clusters are offered, which one is merged."""
import math

from . import terms
from .state import T
from .base import resolved, show, strip
from .entry import skeleton_of, edge_contours, mkobj, innum, invec
from .c_merge import start, parts, k_of, field_of

EMPTY = frozenset()
CAND, THRESH, CONTOUR, SINKS = T.atom('in', 'candidates'), T.atom('in', 'thresh'), T.atom('in', 'contourVertices'), T.atom('in', 'sinks')
CENTERS, CLUSTERS, EDGES = T.atom('in', 'centers'), T.atom('in', 'clusters'), T.atom('in', 'edgeContours')
NEAR = 3.0
SMALL = 0.1


class Round:
    def __init__(self, lk, node, facts, acts, env, left):
        self.lk, self.node, self.facts, self.acts, self.env, self.left = lk, node, facts, acts, env, left


class Watch:
    always = True

    def __init__(self):
        self.fn = None
        self.rounds, self.lists, self.keys, self.starts, self.slices = [], [], [], {}, {}
        self.hole = []
        self.asked = []

    def act(self, st, *a):
        st.marks['did'] = st.marks.get('did', EMPTY) | {a}

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        v = kw.get('value')
        if op == 'remove':
            self.act(st, 'remove', target.term, getattr(v, 'term', None), node)
        elif op in ('pop', 'delitem', 'clear', 'setitem', 'setslice', 'delslice', 'insert'):
            self.act(st, 'other', target.term, None, node)

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        es = [elem] if op in ('append', 'insert') and elem is not None else list(exact) if exact else []
        for e in es:
            self.act(st, 'put', target.term, e.term, node)
        if not es and hasattr(rhs, 'term'):
            self.act(st, 'all', target.term, rhs.term, node)

    def on_comp(self, eng, st, node, target, elem):
        st.marks['mem'] = st.marks.get('mem', EMPTY) | {('put', target.term, elem.term if elem is not None else None, node)}

    def on_display(self, eng, st, node, items):
        if not eng.quiet:
            self.lists.append((node, [x.term for x in items]))

    def on_keyed(self, eng, st, node, what, source, elem, key):
        self.keys.append((eng.key(node), node, what, elem.term, key.term))

    def on_loopstart(self, eng, st, node, lk):
        self.starts[lk] = {k: v.term for k, v in st.frames[-1][1].items()}

    def on_cut(self, eng, st, node, base, result, lo, hi, step):
        self.slices[result.term] = (node, base.term, lo.term if lo is not None else None, hi.term if hi is not None else None, step.term if step is not None else None)

    def close(self, eng, st, node, lk, left):
        k = k_of(lk)
        mem = frozenset(a for a in st.marks.get('mem', EMPTY) if a[2] is not None and T.mentions(a[2], k))
        if not eng.quiet:
            self.rounds.append(Round(lk, node, dict(st.facts), st.marks.get('did', EMPTY) | mem, {n: v.term for n, v in st.frames[-1][1].items()}, left))
        st.marks.pop('mem', None)
        if not mem and not left:
            st.marks.pop('did', None)

    def on_backedge(self, eng, st, node, lk):
        self.close(eng, st, node, lk, False)

    def on_loopbreak(self, eng, st, node, lk, enters):
        self.close(eng, st, node, lk, True)


class Vague(Exception):
    pass


def value(t, leaf, memo):
    if t in memo:
        return memo[t]
    k = T.rev[t]
    op = T.op(t)
    if k[0] == 'c':
        r = float(k[1])
    elif k[0] == 'p':
        r = 0.0
        for mono, c in k[1]:
            x = float(c)
            for a, e in mono:
                v = value(a, leaf, memo)
                if v == 0 and e < 0:
                    raise Vague
                x *= v ** e
            r += x
    else:
        r = leaf(t)
        if r is None:
            if op == 'sqrt':
                r = math.sqrt(max(value(T.args(t)[0], leaf, memo), 0.0))
            elif op == 'abs':
                r = abs(value(T.args(t)[0], leaf, memo))
            elif op in ('min', 'max'):
                r = (min if op == 'min' else max)(value(x, leaf, memo) for x in T.args(t) if isinstance(x, int))
            else:
                raise Vague
    memo[t] = r
    return r


def opaque(f):
    """something asked that is not written down as a comparison (a flag, any(), all())"""
    op = T.op(f[1]) if f[0] == 'truth' and isinstance(f[1], int) else None
    return op is not None and op not in ('in', 'obj') and (op[:5] in ('anyof', 'allof') or not resolved(f[1]))


def holds(facts, leaf, about, free=None):
    """True / False / None: what the path has found out fits the case"""
    sure, memo = True, {}
    for f, v in facts.items():
        if v not in (True, False):
            continue
        ts = [x for x in f[1:] if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(T.rev)]
        if opaque(f):
            sure = None
            continue
        if not any(about(x) for x in ts) or free is not None and free(f):
            continue
        if f[0] in ('lt', 'eq'):
            try:
                x = value(f[1], leaf, memo)
            except Vague:
                sure = None
                continue
            if ((x < -1e-12) if f[0] == 'lt' else abs(x) < 1e-12) != v:
                return False
        else:
            sure = None
    return sure


def coordinate(t):
    """component of the position of a node -> (number of the node, axis)"""
    if T.op(t) == 'c':
        n = field_of(T.args(t)[0], 'source')
        ax = str(T.args(t)[1])
        if n is not None and ax in ('0', '1'):
            return n, int(ax)
    return None


def from_list(t, lst):
    return T.op(t) == 'idx' and T.args(t)[0] == lst


def distances(t):
    """offsets around a limit t, by absolute coordinates; none at the limit itself"""
    out = [(0.0, 0.0)]
    for a, b in ((0.95, 0), (0.5, 0.45), (1.05, 0), (0.6, 0.6), (0.9, 0.9), (0.5, 0.9), (3.0, 0.0), (1.9, 0.0), (3.0, 3.0)):
        for sx in (1, -1):
            for sy in (1, -1):
                out += [(sx * a * t, sy * b * t), (sx * b * t, sy * a * t)]
    return out


def check_clusters(rep, tier):
    rep.rule('members', 'a candidate belongs to the cluster of the first one exactly if it is nearer to it than the threshold (sum of the coordinate distances)')
    rep.rule('taken', 'the members of a cluster, and no other nodes, leave the candidates')
    rep.rule('apse', 'a cluster is refused for an apse exactly if one of its nodes is nearer than 3 to the centre (sum of the coordinate distances)')
    rep.rule('contour sinks', 'the contour sinks of a cluster are those sinks of its nodes that are contour vertices; the smallest distance of two of them is found')
    rep.rule('offered', 'a cluster is offered exactly if it has two nodes or more, is at no apse, and has fewer than two contour sinks or none nearer than twice the threshold')
    rep.rule('all nodes', 'clusters are looked for among all nodes, with threshold 0.1 and all contour vertices')
    rep.rule('largest', 'of the clusters found in a round one is merged, the largest')
    rep.rule('until none', 'it goes on until no cluster is found')
    find(rep, tier)
    merge(rep, tier)
    rep.require('rounds judged', 5)


# ------------------------------------------------------------------ looking for clusters
def find(rep, tier):
    s = start(rep, tier, 'findClusters')
    if s is None or len(s[2].node.args.args) != 5:
        rep.und('members', None, 'the function that looks for clusters is not found under its name and parameters')
        return
    eng, st, fn, _ = s
    w = Watch()
    w.fn = fn
    eng.clients = [w]
    eng.exact_fns = parts(eng, fn)
    for f in eng.prog.fns.values():
        if f.qual.split('.')[-1] == 'detectApses':
            def apses(e, st, n, env, f=f):
                st = st.copy()
                w.hole.append(n)
                a = env.get(f.node.args.args[0].arg) if f.node.args.args else None
                if a is not None and not e.quiet:
                    w.asked.append((n, strip(a.term)))
                return [(st, mkobj(st, 'centers', 'list', elem=invec(st, 'center', 2)))]
            eng.stubs[f.fid] = apses
    cand = mkobj(st, 'candidates', 'list', elem=innum('candidate'))
    cv = mkobj(st, 'contourVertices', 'list', elem=invec(st, 'contourVertex', 2))
    old = terms.MAXMONO
    terms.MAXMONO = 600
    try:
        eng.call_fn(st, fn.node, fn, [skeleton_of(eng, st), cand, cv, edge_contours(eng, st), innum('thresh')], {}, '')
        rep.absorb(eng)
        rep.entries.append('findClusters(any skeleton, any candidates, any threshold), every path kept apart')
        cl = members(rep, w)
        if cl is None:
            rep.und('members', fn.node, 'no list of members is recognised')
            return
        taken(rep, w, cl)
        apse(rep, w, cl)
        sinks(rep, w, cl)
        offered(rep, w, cl)
    finally:
        terms.MAXMONO = old


def members(rep, w):
    """-> the list the members are collected in"""
    lists = {}
    for r in w.rounds:
        for a in r.acts:
            if a[0] == 'put' and a[2] is not None and from_list(a[2], CAND) and T.mentions(T.args(a[2])[1], k_of(r.lk)):
                lists.setdefault((r.lk, T.args(a[2])[1]), set()).add((a[1], a[3]))
    found = None
    out = {a[2] for r in w.rounds for a in r.acts if a[0] == 'put'}
    if any(cl in out for ls in lists.values() for cl, _ in ls):
        lists = {x: {y for y in ls if y[0] in out} for x, ls in lists.items() if any(y[0] in out for y in ls)}
    else:
        lists = {x: ls for x, ls in lists.items() if any(r.lk == x[0] and f[0] == 'lt' and T.find(f[1], lambda y: coordinate(y) is not None) for r in w.rounds for f in r.facts)}
    popped = any(a[0] == 'other' and a[1] == CAND for r in w.rounds for a in r.acts)
    for (lk, p), ls in lists.items():
        if len(ls) != 1:
            rep.und('members', w.fn.node, 'members are collected in several lists')
            continue
        (cl, at), = ls
        found = cl
        k = k_of(lk)
        off = T.num(T.sub(p, k))
        first = [(n, xs) for n, xs in w.lists if any(from_list(x, CAND) and T.num(T.args(x)[1]) == 0 for x in xs)]
        if off is None or popped or not (first or off == 0):
            rep.und('members', at, 'which candidates are compared', show(p))
        elif first and off == 0 and all(('eq', k) not in r.facts and not any(f[0] == 'eq' and T.find(f[1], lambda x: from_list(x, CAND)) for f in r.facts) for r in w.rounds
                                       if r.lk == lk and any(a[0] == 'put' and a[1] == cl for a in r.acts)):
            rep.bad('members', at, 'the first candidate is put into its cluster twice')
        elif off > (1 if first else 0):
            rep.bad('members', at, 'candidates are left out', 'the comparison starts with number %d' % off)
        else:
            rep.ok('members', at, 'every other candidate is compared')
        for t, (n, base, lo, hi, step) in w.slices.items():
            if base == CAND and (hi is not None and T.num(hi) is not None or step is not None and T.num(step) not in (None, 1)):
                rep.bad('members', n, 'candidates are left out', 'slice up to %s, step %s' % (show(hi), show(step)))

        def about(t):
            if T.num(T.sub(t, k)) is not None or T.num(T.add(t, k)) is not None:
                return True
            return bool(T.find(t, lambda x: coordinate(x) is not None or field_of(x, 'height') is not None or field_of(x, 'sinks') is not None or from_list(x, CAND)))

        def free(f):
            # about the sinks: not tied to positions
            return f[0] == 'in' and f[2] == CONTOUR and T.op(f[1]) == 'idx' and field_of(T.args(f[1])[0], 'sinks') is not None or \
                f[0] == 'truth' and field_of(f[1], 'sinks') is not None or \
                f[0] in ('eq', 'lt') and not T.find(f[1], lambda x: coordinate(x) is not None) and bool(T.find(f[1], lambda x: T.op(x) == 'lenof' and field_of(T.args(x)[0], 'sinks') is not None))
        cs = [(d, t) for t in (0.1, 0.5, 4.0) for d in distances(t)]
        for r in [r for r in w.rounds if r.lk == lk]:
            put = any(a[0] == 'put' and a[1] == cl and a[2] is not None and from_list(a[2], CAND) for a in r.acts)
            rep.count('rounds judged')
            wrong = vague = None
            for d, t in cs:
                def leaf(x):
                    if x == k:
                        return 3.0
                    c = coordinate(x)
                    n = c[0] if c else x if from_list(x, CAND) else field_of(x, 'height')
                    if n is not None:
                        if not from_list(n, CAND):
                            raise Vague
                        q = T.args(n)[1]
                        o = T.num(T.sub(q, k))
                        which = 'first' if T.num(q) == 0 else 'here' if o == off else 'other' if o is not None or T.num(q) is not None else None
                        if which is None:
                            raise Vague
                        if c is None:
                            return {'first': 2.0, 'here': 9.0, 'other': 5.0}[which]
                        x0 = (0.5, -0.25)[c[1]]
                        return {'first': x0, 'here': x0 + d[c[1]], 'other': x0 + (7.0, 30.0)[c[1]]}[which]
                    return t if x == THRESH else None
                h = holds(r.facts, leaf, about, free)
                if h is False:
                    continue
                if r.left or put != (abs(d[0]) + abs(d[1]) < t):
                    if h is True:
                        wrong = (d, t)
                        break
                    vague = True
            for n, e in r.env.items() if put else ():
                old = w.starts.get(lk, {}).get(n)
                if old is not None and old != e and node_at(old) is not None and node_at(e) is not None and T.num(T.args(node_at(old))[1]) == 0 and \
                        T.args(node_at(e))[1] == p and any(T.find(x, lambda x: T.op(x) == 'phi' and str(T.args(x)[1]).endswith(':' + n)) for f in r.facts if f[0] == 'lt' for x in f[1:2]):
                    wrong = wrong or ('to the last member instead of the first', '')
            what = 'the search ends early' if r.left else 'a member is taken in' if put else 'a candidate is passed over'
            if wrong:
                rep.bad('members', r.node, what + ' wrongly', 'distance %s, threshold %s' % wrong)
            elif vague:
                rep.und('members', r.node, what + ' under a condition that is not understood')
            else:
                rep.ok('members', r.node, what)
    return found


def node_at(t):
    """the candidate whose node, or whose position, this is"""
    if T.op(t) == 'sel' and T.args(t)[1] == '.source':
        t = T.args(t)[0]
    if T.op(t) == 'idx' and from_list(T.args(t)[1], CAND):
        return T.args(t)[1]
    return None


def member_no(n, cl):
    """number of a node that is a member -> position in the cluster"""
    return T.args(n)[1] if from_list(n, cl) else None


def taken(rep, w, cl):
    seen = False
    for r in w.rounds:
        k = k_of(r.lk)
        asked = {f: v for f, v in r.facts.items() if f[0] == 'in' and f[2] == CAND and from_list(f[1], cl) and T.mentions(f[1], k)}
        rem = [a for a in r.acts if a[0] == 'remove' and a[1] == CAND]
        for a in r.acts:
            if a[0] == 'other' and a[1] == CAND:
                seen = True
                rep.und('taken', a[3], 'another way of taking nodes out')
        if not asked and not any(isinstance(a[2], int) and T.mentions(a[2], k) for a in rem):
            for a in rem:
                if isinstance(a[2], int) and from_list(a[2], CAND) and T.num(T.args(a[2])[1]) is not None:
                    seen = True
                    rep.und('taken', a[3], 'one candidate leaves')
            continue
        rep.count('rounds judged')
        seen = True
        good = [a for a in rem if from_list(a[2], cl) and T.args(a[2])[1] == k]
        if r.left:
            rep.bad('taken', r.node, 'the members after this one stay candidates')
        elif len(rem) == len(good) == 1:
            rep.ok('taken', r.node, 'a member leaves the candidates')
        elif rem:
            rep.decide(False if any(from_list(a[2], CAND) and T.num(T.args(a[2])[1]) is not None for a in rem) else
                       None if any(T.op(a[2]) != 'idx' or T.args(a[2])[1] == k or not resolved(a[2]) for a in rem if isinstance(a[2], int)) else False, 'taken', r.node, 'the node that leaves is the member')
        elif asked and not any(v is True for v in asked.values()):
            rep.ok('taken', r.node, 'a member is no candidate any more')
        else:
            rep.bad('taken', r.node, 'a member stays a candidate')
    for t, (n, base, lo, hi, step) in w.slices.items():
        if base == cl and (lo is not None and T.num(lo) not in (None, 0) or hi is not None and T.num(hi) is not None):
            rep.und('taken', n, 'part of the cluster')
    if not seen:
        rep.und('taken', w.fn.node, 'how members leave the candidates is not recognised')


def centre(t):
    if T.op(t) == 'c' and from_list(T.args(t)[0], CENTERS):
        ax = str(T.args(t)[1])
        return T.args(T.args(t)[0])[1], int(ax)
    return None


def at_apse(t):
    return bool(T.find(t, lambda x: centre(x) is not None))


def near_case(d, cl):
    def leaf(x):
        c = centre(x)
        if c:
            return (1.5, -2.0)[c[1]]
        c = coordinate(x)
        if c:
            if member_no(c[0], cl) is None:
                raise Vague
            return (1.5, -2.0)[c[1]] + d[c[1]]
        return 0.1 if x == THRESH else None
    return leaf


def apse(rep, w, cl):
    ds = distances(NEAR)
    if not w.hole:
        rep.und('apse', w.fn.node, 'the apses are not asked for under the name detectApses')
        return
    for n, t in w.asked:
        k = T.num(T.args(t)[1]) if T.op(t) == 'idx' and T.args(t)[0] == T.atom('in', 'edgeContours') else None
        rep.decide(None if k is None else k == 0, 'apse', n, 'apses are looked for in the outer contour', show(t)[:120])
    rs = [r for r in w.rounds if any(f[0] == 'lt' and at_apse(f[1]) for f in r.facts)]
    if not rs:
        used = any(centre(t) is not None for t in range(len(T.rev)))
        rep.decide(None if used else False, 'apse', w.fn.node, 'nodes are compared with the centres of apses')
        return
    outer = {r.lk for r in w.rounds for a in r.acts if a[0] == 'put' and a[2] == cl}
    refused = False
    with_ = {coordinate(x)[0] for r in rs for f in r.facts if f[0] == 'lt' and at_apse(f[1]) for x in T.find(f[1], lambda x: coordinate(x) is not None)}
    fixed = {x for r in rs for f in r.facts if f[0] == 'lt' and at_apse(f[1])
             for x in T.find(f[1], lambda x: T.op(x) == 'c' and centre(x) is None and coordinate(x) is None)}
    if fixed and not with_ and all(kept(w, T.args(x)[0]) for x in fixed):
        rep.bad('apse', rs[0].node, 'one node of the cluster only is compared', 'a node chosen before the loop over the centres')
        return
    if with_ and all(from_list(n, CAND) and T.num(T.args(n)[1]) is not None for n in with_):
        rep.bad('apse', rs[0].node, 'one node of the cluster only is compared', ', '.join(show(n)[:60] for n in with_))
        return
    for r in rs:
        if any(f[0] == 'lt' and at_apse(f[1]) and not all(member_no(coordinate(x)[0], cl) is not None for x in T.find(f[1], lambda x: coordinate(x) is not None))
               for f in r.facts):
            part = [b for b in w.slices if w.slices[b][1] == cl and (T.num(w.slices[b][2] or T.ZERO) != 0 or w.slices[b][3] is not None and T.num(w.slices[b][3]) is not None)]
            if any(T.find(f[1], lambda x: coordinate(x) is not None and any(from_list(coordinate(x)[0], b) for b in part)) for f in r.facts if f[0] == 'lt'):
                rep.bad('apse', r.node, 'some members only are compared')
            else:
                rep.und('apse', r.node, 'which node is compared with the centre')
            continue
        rep.count('rounds judged')
        inner = r.lk not in outer
        put = any(a[0] == 'put' and a[2] == cl for a in r.acts)
        wrong = vague = None
        for d in ds:
            near = abs(d[0]) + abs(d[1]) < NEAR
            h = holds(r.facts, near_case(d, cl), at_apse)
            if h is False:
                continue
            if near and not inner and not put:
                refused = True
            if inner and r.left != near or not inner and put == near:
                if h is True:
                    wrong = wrong or d
                else:
                    vague = True
        if inner and wrong and not r.left:
            # the finding may be kept in a variable while the loop goes on
            s, e = w.starts.get(r.lk, {}), r.env
            if any(e.get(n) == T.TRUE for n in s):
                continue
        if wrong:
            rep.bad('apse', r.node, 'a node nearer than 3 to the centre is passed over' if abs(wrong[0]) + abs(wrong[1]) < NEAR else 'the cluster is refused for an apse far away',
                    'distance %.2f, %.2f' % wrong)
        elif vague:
            rep.und('apse', r.node, 'refused under a condition that is not understood')
        else:
            rep.ok('apse', r.node, 'nodes and centres are compared')
    if not refused:
        rep.und('apse', w.fn.node, 'where a cluster at an apse is refused')
    # all nodes, all centres
    for r in rs:
        for f in r.facts:
            if f[0] == 'lt' and at_apse(f[1]):
                for x in T.find(f[1], lambda x: centre(x) is not None):
                    i = centre(x)[0]
                    if T.num(i) is not None:
                        rep.bad('apse', r.node, 'one centre only is compared', show(i))
                for x in T.find(f[1], lambda x: coordinate(x) is not None):
                    i = member_no(coordinate(x)[0], cl)
                    if i is not None and T.num(i) is not None:
                        rep.bad('apse', r.node, 'one member only is compared', show(i))


def kept(w, t):
    """position of a node that is the same in all rounds of a loop over the centres"""
    if T.op(t) == 'sel' and T.args(t)[1] == '.source':
        t = T.args(t)[0]
    if T.op(t) != 'phi':
        return False
    lk, name = str(T.args(t)[0]), str(T.args(t)[1]).split(':')[-1]
    rs = [r for r in w.rounds if r.lk == lk]
    over = any(f[0] == 'lt' and T.mentions(f[1], T.atom('lenin', 'centers')) and T.mentions(f[1], k_of(lk)) for r in rs for f in r.facts)
    return over and bool(rs) and all(r.env.get(name) == t for r in rs) and node_at(w.starts.get(lk, {}).get(name, T.ZERO)) is not None


def sink_of(t, cl):
    """a sink of a member"""
    if T.op(t) == 'idx':
        n = field_of(T.args(t)[0], 'sinks')
        return n is not None and member_no(n, cl) is not None
    return False


def sinks(rep, w, cl):
    lists = set()
    for r in w.rounds:
        for a in r.acts:
            if a[0] == 'put' and isinstance(a[2], int) and sink_of(a[2], cl) and T.mentions(a[2], k_of(r.lk)):
                rep.count('rounds judged')
                lists.add(a[1])
                v = [v for f, v in r.facts.items() if f[0] == 'in' and f[1] == a[2] and f[2] == CONTOUR]
                if True in v:
                    rep.ok('contour sinks', r.node, 'a sink that is a contour vertex is taken')
                elif False in v:
                    rep.bad('contour sinks', r.node, 'a sink that is no contour vertex is taken')
                elif any(T.mentions(x, CONTOUR) for f in r.facts for x in f[1:] if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(T.rev)):
                    rep.und('contour sinks', r.node, 'which sinks are taken')
                else:
                    rep.bad('contour sinks', r.node, 'a sink is taken without asking whether it is a contour vertex')
    used = {o for r in w.rounds for t in r.env.values() for _, y in closest(t) for o in T.find(y, lambda x: T.op(x) == 'obj')}
    for r in w.rounds:
        for a in r.acts:
            if a[0] == 'all' and a[1] in used and isinstance(a[2], int) and field_of(a[2], 'sinks') is not None:
                rep.bad('contour sinks', a[3], 'all sinks are taken, contour vertices or not')
    for r in w.rounds:
        for n, t in r.env.items():
            for v in closest(t):
                phi, mags = v
                if T.op(phi) == 'phi' and str(T.args(phi)[0]) == r.lk:
                    rep.count('rounds judged')
                    if T.op(t) == 'max':
                        rep.bad('contour sinks', r.node, 'the largest distance is found instead of the smallest')
                    else:
                        rep.ok('contour sinks', r.node, 'the smallest distance is kept')
                    ini = w.starts.get(r.lk, {}).get(n)
                    if ini is not None:
                        q = T.num(T.div(ini, THRESH))
                        rep.decide(None if q is None else q > 2, 'contour sinks', r.node, 'the distance starts above twice the threshold', show(ini))


def closest(t):
    """min or max of a running value and a length -> (running value, length)"""
    if T.op(t) in ('min', 'max'):
        a = [x for x in T.args(t) if isinstance(x, int)]
        if len(a) == 2:
            for x, y in (a, a[::-1]):
                if T.op(x) == 'phi' and T.op(y) == 'sqrt':
                    yield x, y


def counted(t, cl):
    """the number of contour sinks"""
    if T.op(t) == 'sum':
        return bool(T.find(t, lambda x: T.op(x) == 'in' and T.mentions(x, CONTOUR)) and T.find(t, lambda x: field_of(x, 'sinks') is not None))
    return False


def size(t, cl, name):
    if T.op(t) in ('lenof', 'len?'):
        return T.args(t)[0] == cl
    return T.op(t) == 'phi' and str(T.args(t)[1]) == 'h:%s:len' % name


def offered(rep, w, cl):
    rs = [r for r in w.rounds if any(a[0] == 'put' and a[2] == cl for a in r.acts)]
    res = {a[1] for r in rs for a in r.acts if a[0] == 'put' and a[2] == cl}
    if len(res) != 1 or len({r.lk for r in rs}) != 1:
        rep.und('offered', w.fn.node, 'where clusters are offered is not recognised')
        return
    lk = rs[0].lk
    name = str(T.args(cl)[0]) if T.op(cl) == 'obj' else '?'
    running = {phi for r in w.rounds for t in r.env.values() for phi, _ in closest(t)}

    def about(t):
        return bool(T.find(t, lambda x: x == THRESH or at(x) or size(x, cl, name) or counted(x, cl) or x in running or unknown(x)))

    def unknown(x):
        # a count kept in some other way
        return T.op(x) in ('phi', 'sum', 'sum?', 'len?') and 'in:candidates' not in show(x)

    def at(x):
        return centre(x) is not None
    for r in [r for r in w.rounds if r.lk == lk]:
        put = [a for a in r.acts if a[0] == 'put' and a[1] in res]
        if any(a[2] != cl for a in put):
            rep.und('offered', r.node, 'what is offered')
            continue
        if r.left:
            empty = any(f[0] == 'truth' and f[1] == CAND and v is False or f[0] == 'eq' and v is True and 'candidates' in show(f[1]) for f, v in r.facts.items())
            if not empty and (put or any(f[0] == 'lt' and (at_apse(f[1]) or T.find(f[1], lambda x: counted(x, cl))) for f in r.facts)):
                rep.bad('offered', r.node, 'the search for clusters is left while there are candidates')
            else:
                rep.und('offered', r.node, 'the search for clusters is left')
            continue
        rep.count('rounds judged')
        wrong = vague = None
        for n in (1, 2, 3):
            for cnt in (0, 1, 2, 3, 5):
                for t in (0.1, 0.4):
                    for m in (0.5, 0.9, 1.2, 1.9, 2.1, 2.9, 4.0):
                        for near in (False, True):
                            d = (1.0, 1.0) if near else (40.0, 9.0)
                            base = near_case(d, cl)

                            def leaf(x):
                                if x == THRESH:
                                    return t
                                if size(x, cl, name):
                                    return float(n)
                                if counted(x, cl):
                                    return float(cnt)
                                if x in running:
                                    return m * t
                                return base(x)
                            h = holds(r.facts, leaf, about)
                            if h is False:
                                continue
                            if near and not any(f[0] == 'lt' and at_apse(f[1]) for f in r.facts):
                                continue        # the apses were looked at in a loop of their own
                            want = n > 1 and not near and (cnt < 2 or m > 2)
                            if bool(put) != want:
                                if h is True:
                                    wrong = wrong or 'cluster of %d, %d contour sinks, smallest distance %.1f thresholds%s' % (n, cnt, m, ', at an apse' if near else '')
                                else:
                                    vague = True
        if wrong and not put and 'cluster of 1' not in wrong and not [f for f in r.facts if f[0] == 'lt' and about(f[1]) and not size(f[1], cl, name)] and w.hole:
            vague, wrong = True, None          # refused for something decided in a loop of its own
        if wrong:
            rep.bad('offered', r.node, 'the cluster is offered wrongly' if put else 'the cluster is not offered', wrong)
        elif vague:
            rep.und('offered', r.node, 'offered or refused under a condition that is not understood')
        else:
            rep.ok('offered', r.node, 'offered' if put else 'refused')


# ------------------------------------------------------------------ merging the largest
def merge(rep, tier):
    s = start(rep, tier, 'mergeNodeClusters')
    if s is None or len(s[2].node.args.args) != 2:
        rep.und('all nodes', None, 'the function that merges clusters is not found under its name and parameters')
        return
    eng, st, fn, _ = s
    w = Watch()
    w.fn = fn
    eng.clients = [w]
    eng.exact_fns = frozenset([fn.fid])
    asks, merges, ends = [], [], []

    def fc(e, st, n, env):
        st = st.copy()
        if len(env) >= 5:
            sk, ca, cv, ec, th = list(env.values())[:5]
            oid = T.args(ca.term)[0] if T.op(ca.term) == 'obj' else None
            o = st.heap.get(oid) if oid is not None else None
            ln = getattr(o, 'length', None)
            sl = st.heap['in:skeleton'].length
            if not e.quiet:
                asks.append((n, sk.term, ca.term, cv.term, ec.term, th.term, ln, sl))
        else:
            asks.append((n,) + (None,) * 7)
        st.marks['asked'] = EMPTY
        return [(st, mkobj(st, 'clusters', 'list', elem=mkobj(st, 'cluster', 'list', single=False, elem=innum('member'))))]

    def mc(e, st, n, env):
        st = st.copy()
        c = list(env.values())[1].term if len(env) > 1 else None
        if not e.quiet:
            merges.append((n, c, 'merged' in st.marks, tuple(e.loopstack)))
        st.marks['merged'] = frozenset([n])
        return [(st, e.unk(n, 'merged'))]

    def closing(self, e, st, node, lk, left):
        if not e.quiet:
            ends.append((lk, node, dict(st.facts), bool(st.marks.get('merged')), {n: v.term for n, v in st.frames[-1][1].items()}, left, 'asked' in st.marks))
        st.marks.pop('merged', None)
        st.marks.pop('asked', None)
        Watch.close(self, e, st, node, lk, left)

    class W(Watch):
        close = closing

        def on_loopback(self, e, st, node, lk, test):
            if test is not None:
                tests[lk] = test
    tests = {}
    w2 = W()
    w2.fn = fn
    eng.clients = [w2]
    hit = 0
    for f in eng.prog.fns.values():
        q = f.qual.split('.')[-1]
        if q == 'findClusters' and len(f.node.args.args) == 5:
            eng.stubs[f.fid] = fc
            hit += 1
        if q == 'mergeCluster' and len(f.node.args.args) == 2:
            eng.stubs[f.fid] = mc
            hit += 1
    if hit != 2:
        rep.und('all nodes', fn.node, 'the functions that find and merge clusters are not found under their names')
        return
    eng.call_fn(st, fn.node, fn, [skeleton_of(eng, st), edge_contours(eng, st)], {}, '')
    rep.absorb(eng)
    rep.entries.append('mergeNodeClusters(any skeleton, any footprint), every path kept apart')
    if not asks:
        rep.und('all nodes', fn.node, 'no search for clusters is seen')
    if not merges:
        rep.und('largest', fn.node, 'no merge is seen')
    for n, sk, ca, cv, ec, th, ln, sl in asks:
        rep.count('rounds judged')
        x = T.num(th) if th is not None else None
        rep.decide(None if x is None else abs(float(x) - SMALL) < 1e-12, 'all nodes', n, 'the threshold is 0.1', show(th))
        d = T.sub(ln, sl) if ln is not None and sl is not None else None
        q = T.num(d) if d is not None else None
        el = {a[2] for r in w2.rounds for a in r.acts if a[0] == 'put' and a[1] == ca}
        up = all(T.op(e) == 'k' for e in el) if el else None
        rep.decide(None if q is None else q == 0, 'all nodes', n, 'there are as many candidates as nodes', show(d) if d is not None else '')
        rep.decide(None if up is None or not up and not all(resolved(e) for e in el) else bool(up), 'all nodes', n, 'the candidates are the numbers of the nodes')
        vs = {(a[2], a[3]) for r in w2.rounds for a in r.acts if a[0] == 'put' and a[1] == cv}
        for v, at in vs:
            rep.decide(contour_vertex(v), 'all nodes', at, 'the vertices of all contours are handed over', show(v)[:160])
        if not vs:
            rep.und('all nodes', n, 'how the contour vertices are collected')
    for n, c, again, loops in merges:
        rep.count('rounds judged')
        if again:
            rep.bad('largest', n, 'a second cluster is merged with numbers from before the first merge')
        if c is None or T.op(c) != 'idx' or T.args(c)[0] != CLUSTERS:
            rep.und('largest', n, 'which cluster is merged', show(c)[:120] if c is not None else '')
            continue
        i = T.args(c)[1]
        if T.op(i) == 'argm':
            ks = [(what, elem, key) for kk, nd, what, elem, key in w2.keys if kk == T.args(i)[0]]
            good = None
            if ks:
                good = True
                for what, elem, key in ks:
                    s = T.op(key) == 'lenof' and T.args(key)[0] == elem
                    m = T.op(T.neg(key)) == 'lenof' and T.args(T.neg(key))[0] == elem
                    if not s and not m:
                        good = None
                        break
                    if (what == 'max') != s:
                        good = False
                        break
            rep.decide(good, 'largest', n, 'the largest cluster is merged')
        elif any(T.mentions(i, k_of(l)) for l in loops):
            rep.bad('largest', n, 'all clusters are merged with numbers from before the first merge')
        elif T.num(i) is not None:
            rep.bad('largest', n, 'a cluster is merged by its place in the list', show(i))
        else:
            rep.und('largest', n, 'which cluster is merged', show(i))
    # going on
    for lk, node, facts, merged, env, left, asked in ends:
        if not asked and not merged:
            continue
        rep.count('rounds judged')
        some = facts.get(('truth', CLUSTERS))
        n = [v for f, v in facts.items() if f[0] == 'eq' and f[1] == T.atom('lenin', 'clusters')]
        some = some if some is not None else (not n[0]) if n else None
        if merged:
            test = tests.get(lk)
            stop = test is not None and getattr(test, 'id', None) in env and env[test.id] == T.FALSE
            rep.decide(not (left or stop), 'until none', node, 'after a merge clusters are looked for again')
        elif some is True:
            rep.bad('until none', node, 'clusters are found and none is merged')
        else:
            rep.decide(True if some is False else None, 'until none', node, 'it ends when none is found')


def contour_vertex(v):
    """start of an edge of any contour"""
    if T.op(v) != 'sel' or T.args(v)[1] not in ('.p1', '.p2'):
        return None
    e = T.args(v)[0]
    if T.op(e) != 'idx' or T.op(T.args(e)[0]) != 'idx' or T.args(T.args(e)[0])[0] != EDGES:
        return None
    i, j = T.args(T.args(e)[0])[1], T.args(e)[1]
    if T.op(i) == 'k' and T.op(j) == 'k':
        return True
    for x in (i, j):
        n = T.num(x)
        ks = T.find(x, lambda y: T.op(y) == 'k')
        if n is not None or len(ks) == 1 and (T.num(T.sub(x, ks[0])) or 0) > 0:
            return False
    return None
