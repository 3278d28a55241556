"""Merging nodes: what happens to the arcs of merged nodes and to the arcs that lead to them, path by path."""
import ast

from .program import AnalysisBroken
from .state import T
from .base import refs, resolved, show
from .entry import MOD, skeleton_of, edge_contours, mkobj, innum, pos
from .c_poly import new_engine

EMPTY = frozenset()
SK = T.atom('in', 'skeleton')
CL = T.atom('in', 'cluster')
LENC = T.atom('lenin', 'cluster')
LENS = T.atom('lenin', 'skeleton')


SKS = {SK}         # the skeleton and what has been cut out of it


def node_no(t):
    """number of the skeleton node a term denotes"""
    if T.op(t) == 'idx' and T.args(t)[0] in SKS:
        return T.args(t)[1]
    return None


def field_of(t, name):
    """number of the node whose field this is"""
    if T.op(t) == 'sel' and T.args(t)[1] == '.' + name:
        return node_no(T.args(t)[0])
    return None


class Rec:
    def __init__(self, node, st, loops, **kw):
        self.node, self.facts, self.loops = node, dict(st.facts), tuple(loops)
        self.__dict__.update(kw)


class Watch:
    always = True

    def __init__(self):
        self.puts, self.backs, self.breaks, self.dels, self.rets, self.rounds = [], [], [], [], [], []
        self.order = {}            # list made by sorting -> (what was sorted, direction)
        self.keys = {}             # table -> keys entered
        self.cuts = {}             # slice -> (what it was cut from, how)
        self.fn = None
        self.new = []              # nodes put into the skeleton
        self.other = []            # other changes of lists

    def on_cut(self, eng, st, node, base, result, lo, hi, step):
        whole = lo is None and hi is None
        rev = whole and step is not None and T.num(step.term) == -1
        self.cuts[result.term] = (base.term, 'back' if rev else 'whole' if whole and step is None else 'cut' if hi is None or T.num(hi.term) is not None or
                                  T.op(hi.term) == 'idx' else '?')
        if base.term in SKS and self.cuts[result.term][1] == 'cut':
            SKS.add(result.term)

    def on_return(self, eng, st, node, fn, value, env):
        if fn is self.fn and not eng.quiet:
            self.rets.append(st)

    def act(self, st, *a):
        st.marks['act'] = st.marks.get('act', EMPTY) | {a}

    def on_sorted(self, eng, st, node, target, kw, result):
        d = None
        if 'key' not in kw:
            r = kw.get('reverse')
            d = 'up' if r is None or r.term == T.FALSE else 'down' if r.term == T.TRUE else None
        self.order[result.term] = (target.term, d)

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        ix = kw.get('index')
        ix = ix[1] if isinstance(ix, tuple) and len(ix) == 2 and not hasattr(ix, 'term') else ix
        ix = getattr(ix, 'term', None)
        if op == 'setitem':
            v = kw.get('value')
            kv = kw.get('index')
            kv = kv[1] if isinstance(kv, tuple) and len(kv) == 2 and not hasattr(kv, 'term') else kv
            if kv is not None and not eng.quiet:
                ex = eng.exact_of(st, kv) if refs(kv) else [kv]
                self.keys.setdefault(target.term, []).append((node, [x.term for x in ex] if ex is not None else None, eng.comps(st, kv)[0]))
            self.act(st, 'set', target.term, ix, v.term if v is not None else None, node)
        elif op in ('delitem', 'pop'):
            self.act(st, 'del', target.term, ix, None, node)
            if not eng.quiet:
                self.dels.append(Rec(node, st, eng.loopstack, target=target, ix=ix))
        elif op == 'remove':
            v = kw.get('value')
            self.act(st, 'remove', target.term, v.term if hasattr(v, 'term') else None, None, node)
        elif op in ('sort', 'reverse') and not eng.quiet:
            self.order.setdefault(target.term, (target.term, None))
        elif op not in ('append', 'insert', 'extend', 'iadd', 'iAdd', 'set.x', 'set.y', 'set.z') and not eng.quiet:
            self.other.append((node, target, op))

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        es = [elem] if op in ('append', 'insert') and elem is not None else list(exact) if exact else []
        for e in es:
            self.grow(eng, st, node, target, e, op)
        if not es and not eng.quiet:
            self.other.append((node, target, op))
        if 'in:skeleton' in refs(target):
            st.marks['added'] = st.marks.get('added', EMPTY) | {node}
            if not eng.quiet:
                self.new.append(Rec(node, st, eng.loopstack, elem=elem, state=st.copy(), op=op))

    def on_comp(self, eng, st, node, target, elem):
        self.grow(eng, st, node, target, elem, 'comp')

    def grow(self, eng, st, node, target, e, op):
        self.act(st, 'put', target.term, e.term, None, node)
        if not eng.quiet:
            self.puts.append(Rec(node, st, eng.loopstack, target=target, elem=e, op=op))

    def on_backedge(self, eng, st, node, lk):
        if not eng.quiet:
            self.backs.append((lk, node, dict(st.facts), st.marks.get('act', EMPTY)))
            self.rounds.append((lk, node, dict(st.facts), st.marks.get('ran', EMPTY)))
        st.marks.pop('act', None)
        st.marks['ran'] = frozenset([lk])

    def on_loopbreak(self, eng, st, node, lk, enters):
        if not eng.quiet:
            self.breaks.append((lk, node, dict(st.facts), st.marks.get('act', EMPTY)))


def k_of(lk):
    return T.atom('k', lk)


def trip_of(facts, lk):
    """number of rounds of the loop, as far as the path knows"""
    k = k_of(lk)
    for f, v in facts.items():
        if f[0] == 'lt' and v is True:
            p = T.poly(f[1])
            if p.get(((k, 1),)) == 1:
                return T.neg(T.sub(f[1], k))
    return None


def over_cluster(facts, lk, lists=()):
    return trip_of(facts, lk) == LENC


def over_sinks(facts, lk):
    """-> number of the node whose sinks the loop runs over"""
    t = trip_of(facts, lk)
    if t is not None and T.op(t) in ('lenof', 'lenin') and isinstance(T.args(t)[0], int):
        return field_of(T.args(t)[0], 'sinks')
    return None


def element(t, lk):
    """the element of the sinks list the loop is at"""
    return T.op(t) == 'idx' and T.args(t)[1] == k_of(lk) and field_of(T.args(t)[0], 'sinks') is not None


def within(facts, x, lists):
    """is x in one of the lists -> True / False / None (not asked)"""
    r = None
    for f, v in facts.items():
        if f[0] == 'in' and x(f[1]) and f[2] in lists:
            if v is True:
                return True
            r = False
    return r


def through(facts, t):
    """a copy stands for what it was made from"""
    f = facts.get(('copyof', t))
    return f[0] if isinstance(f, tuple) else t


def asked(facts, lists, x):
    """membership of x was asked in some other way"""
    for f, v in facts.items():
        if f[0] == 'in' and f[2] not in lists and any(isinstance(a, int) and T.find(a, x) for a in f[1:3]):
            return True
        if f[0] in ('eq', 'truth', 'lt') and isinstance(f[1], int) and T.find(f[1], x):
            return True
    return False


def start(rep, tier, fname):
    eng = new_engine(rep, [], tier)
    st = eng.initial_state([MOD])
    try:
        fn = eng.find_fn(MOD, fname)
    except AnalysisBroken:
        return None
    w = Watch()
    w.fn = fn
    SKS.clear()
    SKS.add(SK)
    eng.clients = [w]
    return eng, st, fn, w


def parts(eng, fn):
    """the function and what it calls in its module, generators aside"""
    todo, out = [fn], {fn.fid}
    by = {}
    for f in eng.prog.fns.values():
        by.setdefault(f.qual.split('.')[-1], []).append(f)
    while todo:
        f = todo.pop()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                for g in by.get(n.func.id, ()):
                    if g.node._mod is fn.node._mod and g.fid not in out and not g.is_gen and '.' not in g.qual:
                        out.add(g.fid)
                        todo.append(g)
    return frozenset(out)


# ------------------------------------------------------------------ clusters
def run_merge(rep, tier):
    s = start(rep, tier, 'mergeCluster')
    if s is None:
        return None
    eng, st, fn, w = s
    ps = [a.arg for a in fn.node.args.args]
    if len(ps) != 2:
        return None
    eng.exact_fns = parts(eng, fn)
    sk = skeleton_of(eng, st)
    cl = mkobj(st, 'cluster', 'list', elem=innum('clusterAny'))
    pos(eng, st, LENC)
    res = eng.call_fn(st, fn.node, fn, [sk, cl], {}, '')
    rep.absorb(eng)
    rep.entries.append('mergeCluster(any skeleton, any cluster), every path kept apart')
    return eng, fn, w, res


def members(w):
    """lists made from the cluster, with the way they are ordered"""
    d = {CL: 'as'}
    for r in w.backs + w.breaks:
        for f, v in r[2].items():
            if f[0] == 'copyof' and v[0] in d and f[1] not in d:
                d[f[1]] = d[v[0]]
    for r in w.dels:
        for f, v in r.facts.items():
            if f[0] == 'copyof' and v[0] in d and f[1] not in d:
                d[f[1]] = d[v[0]]
    for t, (src, way) in w.cuts.items():
        if src in d:
            d[t] = 'cut' if way == 'cut' or d[src] == 'cut' else d[src] if way == 'whole' else '?'
    for t, (src, way) in w.order.items():
        if src in d:
            d[t] = 'cut' if d[src] == 'cut' else way or '?'
    return d


def check_merging(rep, tier):
    rep.rule('outgoing', 'every arc of a merged node goes over to the new node, once, except to the merged nodes themselves')
    rep.rule('incoming', 'an arc from elsewhere to a merged node leads to the new node afterwards, at most one from each node; other arcs stay')
    rep.rule('positions', 'the positions of all merged nodes are known when arcs are compared with them')
    rep.rule('removed', 'the merged nodes, and only they, leave the skeleton; positions are deleted from the back to the front')
    rep.rule('added', 'exactly one node is added for a cluster')
    rep.rule('mean', 'position and height of the new node are the mean over all merged nodes')
    r = run_merge(rep, tier)
    if r is None:
        rep.und('outgoing', None, 'the function that merges a cluster is not found under its name and parameters')
    else:
        cluster(rep, *r)
    same(rep, tier)


def means(rep, eng, w, mem):
    """every node added by merging"""
    n = 0
    for r in w.new:
        for x in refs(r.elem) if r.elem is not None else ():
            o = r.state.heap.get(x)
            if o is not None and {'source', 'height', 'sinks'} <= set(o.fields):
                mean(rep, eng, r, o, mem)
                n += 1
    return n


def check_means(rep, tier):
    """position and height of a merged node, for C17"""
    rep.rule('mean', 'position and height of a merged node are the mean over all nodes it replaces')
    r = run_merge(rep, tier)
    if r is None or not means(rep, r[0], r[2], members(r[2])):
        rep.und('mean', None, 'the function that merges a cluster is not found under its name and parameters')


def cluster(rep, eng, fn, w, res):
    mem = members(w)

    def member(n):
        """the number is that of a cluster node"""
        return n is not None and T.op(n) == 'idx' and T.args(n)[0] in mem

    # lists of the positions of the merged nodes
    byl = {}
    for p in w.puts:
        byl.setdefault(p.target.term, []).append(p)
    odd = {t.term for n, t, op in w.other}
    src = {t for t, l in byl.items() if all(member(field_of(p.elem.term, 'source')) for p in l)}
    for lk, node, facts, acts in w.backs:
        got = [a for a in acts if a[0] == 'put' and a[1] in src and T.mentions(a[2], k_of(lk))]
        if any(p.loops and p.loops[-1] == lk for t in src for p in byl[t]):
            rep.count('paths that note positions')
            if not over_cluster(facts, lk):
                t = trip_of(facts, lk)
                if t is not None and resolved(t) or cut_number(w, mem, src, byl, lk):
                    rep.bad('positions', node, 'the positions are not noted for all merged nodes', show(t))
                else:
                    rep.und('positions', node, 'loop over something else than the cluster')
            elif got:
                rep.ok('positions', node, 'the position of the node is noted on this path')
            else:
                rep.bad('positions', node, 'on one path the position of a merged node is not noted')
    # the new node
    new = None
    for n in w.new:
        if n.op != 'append' or n.elem is None:
            continue
        for r in refs(n.elem):
            o = n.state.heap.get(r)
            if o is not None and o.kind == 'inst' and {'source', 'height', 'sinks'} <= set(o.fields):
                new = (n, o)
    if new is None or len({n.node for n in w.new}) != 1:
        rep.und('added', fn.node, 'new node')
        return
    n, o = new
    if n.loops:
        rep.bad('added', n.node, 'the new node is added in a loop')
    for s in w.rets:
        if n.node in s.marks.get('added', EMPTY):
            rep.ok('added', n.node, 'the new node is added on this path')
        else:
            rep.bad('added', n.node, 'a path leaves out the new node')
    pos_ = o.fields['source'].term
    outs = {n.state.heap[r] and t for r in refs(o.fields['sinks']) for t in byl if any(r in refs(p.target) for p in byl[t])}
    means(rep, eng, w, mem)

    # arcs of the merged nodes
    known = [b for b in w.backs + w.breaks if member(over_sinks(b[2], b[0]))]
    lists = src | outs
    loops = {b[0] for b in known if any(a[0] == 'put' and a[1] in outs for c in known if c[0] == b[0] for a in c[3]) or
             any(f[0] == 'in' and f[2] in lists for f in b[2])}
    used = {t for b in known for f in b[2] if f[0] == 'in' for t in (f[2],)}
    puts_of = {lk for lk, node, facts, acts in known if any(a[0] == 'put' and a[1] in outs and element(a[2], lk) for a in acts)}
    for lk, node, facts, acts in known:
        if lk not in puts_of:
            continue
        rep.count('paths over arcs of merged nodes')
        x = lambda t: element(t, lk)
        inside, there = within(facts, x, src), within(facts, x, outs)
        put = [a for a in acts if a[0] == 'put' and a[1] in outs and x(a[2])]
        brk = any(node is b[1] and lk == b[0] and facts is b[2] for b in w.breaks)
        if brk:
            rep.bad('outgoing', node, 'the loop over the arcs of a merged node may end before the last one')
        elif put and inside is True:
            rep.bad('outgoing', put[0][4], 'the new node gets an arc to a node that is merged')
        elif put and there is True or len(put) > 1:
            rep.bad('outgoing', put[0][4], 'the new node gets an arc a second time')
        elif put and inside is None and src & used:
            rep.bad('outgoing', put[0][4], 'an arc goes over to the new node without a look whether it leads to a merged node')
        elif put and (inside is None or there is None):
            if (inside is False and not (outs & used) or there is False and not (src & used)) and not asked(facts, lists, x) and not (outs & odd):
                rep.bad('outgoing', put[0][4], 'an arc goes over to the new node without a look whether it %s' % (
                    'has one to the same place' if inside is False else 'leads to a merged node'))
            else:
                rep.und('outgoing', node, 'other test')
        elif put:
            rep.ok('outgoing', node, 'the arc goes over to the new node')
        elif inside is True or there is True:
            rep.ok('outgoing', node, 'the arc is left out: it leads to a merged node or is there')
        elif src & used and outs & used:
            rep.bad('outgoing', node, 'an arc of a merged node is dropped that leads neither to a merged node nor is there')
        else:
            rep.und('outgoing', node, 'other test')
    outer = {}
    for p in w.puts:
        if p.target.term in outs and len(p.loops) > 1 and p.loops[-1] in puts_of:
            outer.setdefault(p.loops[-2], p.loops[-1])
    for lk, node, facts, acts in w.backs:
        if lk in outer:
            t = trip_of(facts, lk)
            ns = [over_sinks(b[2], b[0]) for b in known if b[0] == outer[lk]]
            if t != LENC and t is not None and resolved(t) or \
                    any(mem.get(T.args(n)[0]) == 'cut' or T.num(T.sub(T.args(n)[1], k_of(lk))) not in (None, 0) for n in ns):
                rep.bad('outgoing', node, 'not all merged nodes are asked for their arcs', show(t))
    for lk, node, facts, acts in w.breaks:
        if lk in outer:
            rep.bad('outgoing', node, 'the loop over the merged nodes may end before the last one')
    if outs & used and 'paths over arcs of merged nodes' not in rep.counts:
        rep.und('outgoing', fn.node, 'arcs of the merged nodes')

    # arcs from elsewhere
    def elsewhere(facts, lk):
        n = over_sinks(facts, lk)
        return n is not None and T.op(n) == 'k' and (trip_of(facts, T.args(n)[0]) == LENS or cutskel(facts, lk))

    def cutskel(facts, lk):
        t = trip_of(facts, lk)
        return t is not None and T.op(t) == 'lenof' and bool(T.find(t, lambda x: T.op(x) == 'idx' and T.args(x)[0] in SKS and T.args(x)[0] != SK))
    def remembers(lk):
        """second arcs are told by something else than a look at the arcs: some paths lead over, some drop"""
        does = {'put' if any(a[0] == 'put' and a[1] in marked or a[0] in ('del', 'remove') for a in b[3]) else 'set' if any(a[0] == 'set' for a in b[3]) else ''
                for b in sl if b[0] == lk and within(b[2], lambda t: element(t, lk), src) is True}
        asks = any(f[0] == 'in' and f[1] == pos_ and field_of(through(b[2], f[2]), 'sinks') is not None for b in sl if b[0] == lk for f in b[2])
        return {'put', 'set'} <= does and not asks

    def one(facts, mine, lk):
        """a single arc, at a fixed distance from this one, is compared with the new node"""
        for f, v in facts.items():
            if f[0] == 'truth' and v is False and isinstance(f[1], int) and T.op(f[1]) == 'same' and pos_ in T.args(f[1]):
                for t in T.args(f[1]):
                    if T.op(t) == 'idx' and mine(T.args(t)[0]) and T.num(T.sub(T.args(t)[1], k_of(lk))) not in (None, 0):
                        return True
        return False
    marked = {}        # lists of positions to delete
    for t, l in byl.items():
        if t not in outs and t not in src and all(p.loops and p.elem.term == k_of(p.loops[-1]) and elsewhere(p.facts, p.loops[-1]) for p in l):
            marked[t] = l
    sl = [b for b in w.backs + w.breaks if elsewhere(b[2], b[0])]
    does = {b[0] for b in sl if any(a[0] == 'set' and field_of(a[1], 'sinks') is not None or a[0] == 'put' and a[1] in marked for a in b[3])}
    if not does:
        rep.und('incoming', fn.node, 'arcs from other nodes')
    for lk, node, facts, acts in sl:
        if lk not in does:
            continue
        if cutskel(facts, lk):
            rep.bad('incoming', node, 'not all nodes are asked for arcs to the merged ones')
            continue
        rep.count('paths over arcs from elsewhere')
        n = over_sinks(facts, lk)
        mine = lambda t: field_of(t, 'sinks') == n
        x = lambda t: element(t, lk) and mine(T.args(t)[0])
        inside = within(facts, x, src)
        have = None
        for f, v in facts.items():
            if f[0] == 'in' and f[1] == pos_ and mine(through(facts, f[2])):
                have = v
        sets = [a for a in acts if a[0] == 'set' and mine(a[1])]
        drops = [a for a in acts if a[0] == 'put' and a[1] in marked] + [a for a in acts if a[0] in ('del', 'remove') and mine(a[1])]
        good = [a for a in sets if a[2] == k_of(lk) and a[3] == pos_]
        if any(lk == b[0] and facts is b[2] for b in w.breaks):
            rep.bad('incoming', node, 'the loop over the arcs of a node may end before the last one')
        elif inside is True:
            if good and have is not True and not drops:
                if have is False:
                    rep.ok('incoming', node, 'the arc leads to the new node')
                elif one(facts, mine, lk):
                    rep.bad('incoming', good[0][4], 'only one of the other arcs is compared with the new node')
                elif remembers(lk) or any(field_of(t, 'sinks') is not None for t in odd):
                    rep.und('incoming', node, 'second arcs to the new node')
                else:
                    rep.bad('incoming', good[0][4], 'a node may get a second arc to the new node')
            elif drops and not sets:
                if have is True:
                    rep.ok('incoming', node, 'a second arc to the new node is dropped')
                elif have is None and remembers(lk):
                    rep.und('incoming', node, 'second arcs to the new node')
                else:
                    rep.bad('incoming', drops[0][4], 'an arc to a merged node is dropped although there may be none to the new node')
            elif not sets and not drops:
                rep.bad('incoming', node, 'an arc goes on leading to a node that is merged')
            elif sets and not good and all(resolved(a[3]) or T.op(a[3]) == 'obj' or T.op(a[3]) == 'idx' and T.args(a[3])[0] in src for a in sets) and all(a[2] == k_of(lk) for a in sets):
                rep.bad('incoming', sets[0][4], 'the arc is led to something else than the new node', show(sets[0][3]))
            elif sets and not good and any(a[2] is not None and resolved(a[2]) and a[2] != k_of(lk) for a in sets):
                rep.bad('incoming', sets[0][4], 'another arc than the one looked at is changed')
            else:
                rep.und('incoming', node, 'arc to a merged node')
        elif inside is False:
            if sets or drops:
                rep.bad('incoming', (sets + drops)[0][4], 'an arc is changed that does not lead to a merged node')
            else:
                rep.ok('incoming', node, 'an arc to another place stays')
        elif sets or drops or any(f[0] == 'in' and f[2] in src for b in sl for f in b[2] if x(f[1])):
            if asked(facts, lists, x):
                rep.und('incoming', node, 'other test')
            else:
                rep.bad('incoming', node, 'an arc is %s without a look where it leads' % ('changed' if sets or drops else 'passed over'))
    outer = {T.args(over_sinks(b[2], b[0]))[0]: b[0] for b in sl if b[0] in does}
    for lk, node, facts, acts in w.breaks:
        if lk in outer:
            rep.bad('incoming', node, 'the loop over the nodes may end before the last one')
    for lk, node, facts, ran in w.rounds:
        if lk not in outer:
            continue
        me = lambda t: field_of(t, 'source') == k_of(lk)
        mine = lambda t: field_of(t, 'sinks') == k_of(lk)
        r = within(facts, me, src)
        if r is True or outer[lk] in ran:
            continue
        why = [f for f, v in facts.items() if f[0] in ('lt', 'eq') and isinstance(f[1], int) and
               any(field_of(a, 'height') == k_of(lk) or T.op(a) == 'c' and me(T.args(a)[0]) for m in T.poly(f[1]) for a, e in m)]
        if r is False and why:
            rep.bad('incoming', node, 'the arcs of some nodes are not looked at although the node is not merged')
        else:
            rep.und('incoming', node, 'nodes passed over')
    for b in sl:
        lk = T.args(over_sinks(b[2], b[0]))[0]
        if b[0] in does and within(b[2], lambda t: field_of(t, 'source') == k_of(lk), src) is True:
            rep.bad('incoming', b[1], 'arcs of the merged nodes are changed')
    for t, l in marked.items():
        told = any(f[0] == 'in' and f[2] == t for b in w.backs for f in b[2]) or any(t == x for x, _ in w.order.values())
        if not told and not any(d.ix is not None and T.mentions(d.ix, t) for d in w.dels) and not any(op not in ('append',) for n, tt, op in w.other):
            rep.bad('incoming', l[0].node, 'second arcs to the new node are noted, but not dropped')
    deletions(rep, w, mem, marked)


def cut_number(w, mem, src, byl, lk):
    """the loop notes the positions of a part of the cluster"""
    for t in src:
        for p in byl[t]:
            n = field_of(p.elem.term, 'source')
            if p.loops and p.loops[-1] == lk and T.op(n) == 'idx' and (
                    mem.get(T.args(n)[0]) == 'cut' or T.num(T.sub(T.args(n)[1], k_of(lk))) not in (None, 0)):
                return True
    return False


def deletions(rep, w, mem, marked):
    seen = False
    for d in w.dels:
        whole = 'in:skeleton' in refs(d.target)
        if not whole and field_of(d.target.term, 'sinks') is None or d.ix is None:
            continue
        rep.count('deletions')
        t = d.ix
        what = 'removed' if whole else 'incoming'
        if T.op(t) != 'idx' or not d.loops:
            rep.und(what, d.node, 'deletion of one entry')
            continue
        X, i = T.args(t)[0], T.args(t)[1]
        k = k_of(d.loops[-1])
        trip = trip_of(d.facts, d.loops[-1])
        fwd = i == k
        back = not fwd and T.mentions(i, k) and T.poly(i).get(((k, 1),)) == -1
        way = None
        if X in mem:
            way = mem[X]
        elif X in marked:
            way = 'up'
        elif X in w.order and w.order[X][0] in marked:
            way = w.order[X][1] or '?'
        if whole:
            seen = True
            if way == 'cut':
                rep.bad(what, d.node, 'not all merged nodes are removed')
                continue
            if X not in mem and resolved(t):
                rep.und(what, d.node, 'nodes removed')
                continue
            if trip is not None and fwd and trip != LENC and resolved(trip) and not T.any_op(trip, {'lenof'}):
                rep.bad(what, d.node, 'not exactly the merged nodes are removed', show(trip))
                continue
        if way == 'down' and fwd or way == 'up' and back:
            rep.ok(what, d.node, 'deleted from the back to the front')
        elif way in ('up', 'as') and fwd or way == 'down' and back:
            rep.bad(what, d.node, 'positions are deleted one after the other, but not from the back to the front: later positions are shifted')
        else:
            rep.und(what, d.node, 'order of the deletions')


# ------------------------------------------------------------------ mean
def mean(rep, eng, n, o, mem):
    """every coordinate and the height: a sum over all merged nodes divided by their number"""
    from .c_poly import elem_comps
    cs = elem_comps(eng, n.state, o.fields['source'])
    todo = [('height', o.fields['height'].term, lambda t: field_of(t, 'height'))]
    if cs is not None and len(cs) == 1 and len(cs[0]) == 2:
        for j in (0, 1):
            def own(t, j=j):
                if T.op(t) == 'c' and T.args(t)[1] == str(j):
                    return field_of(T.args(t)[0], 'source')
            todo.append(('coordinate %d' % j, cs[0][j].term, own))
    for txt, t, own in todo:
        rep.count('means')
        hidden = T.find(t, lambda x: T.op(x) == 'idx' and T.args(x)[0] not in mem and T.args(x)[0] not in SKS)
        wrong = lambda why, x: rep.bad('mean', n.node, '%s %s' % (txt, why), show(x)[:200])

        def part(m, k=None):
            """a node number that does not run over the whole cluster"""
            return m is not None and T.op(m) == 'idx' and (mem.get(T.args(m)[0]) == 'cut' or k is None or T.num(T.sub(T.args(m)[1], k)) not in (None, 0))
        sums = T.find(t, lambda x: T.op(x) == 'sum')
        phis = T.find(t, lambda x: T.op(x) == 'phi' and x in eng.phis)
        over = T.find(t, lambda x: T.op(x) in ('maxover', 'minover', 'max', 'min'))
        s = T.mul(t, LENC)
        if T.op(s) == 'sum':
            _, d, k, trip = T.args(s)
            m = own(d)
            if m is not None and T.op(m) == 'idx' and T.args(m)[0] in mem and not part(m, k) and trip == LENC:
                rep.ok('mean', n.node, '%s is the mean over all merged nodes' % txt)
                continue
            if resolved(d) and resolved(trip) and not hidden and (m is None or trip != LENC):
                wrong('is not the mean over the merged nodes', t)
                continue
        if len(sums) == 1 and not phis and not [x for x in over if T.op(x) in ('maxover', 'minover')]:
            _, d, k, trip = T.args(sums[0])
            q = T.div(t, sums[0])
            if own(d) is not None and not hidden and (part(own(d), k) or resolved(trip) and (
                    trip != LENC or T.mul(q, LENC) != T.ONE and resolved(q))):
                wrong('is not the mean over the merged nodes', t)
                continue
            if own(d) is not None and part(own(d), k):
                wrong('is made from some of the merged nodes only', t)
                continue
        if not sums and len(over) == 1 and not phis and T.op(over[0]) in ('maxover', 'minover') and own(T.args(over[0])[0]) is not None:
            wrong('is a largest or smallest value, not the mean', t)
            continue
        if not sums and not over and own(t) is not None and part(own(t)):
            wrong('is that of one of the merged nodes', t)
            continue
        if not sums and not over and len(phis) == 1:
            steps = eng.phistep.get(phis[0], ())
            ids, nb = eng.phiback.get(phis[0], ()), eng.nback.get(eng.philoop.get(phis[0]), 0)
            plain = steps and all(own(T.sub(b, phis[0])) is not None for b in steps)
            if plain and len(ids) < nb:
                wrong('may leave a merged node out', next(iter(steps)))
                continue
            if len(steps) == 1 and len(ids) == nb:
                b = next(iter(steps))
                c = T.poly(b).get(((phis[0], 1),))
                rest = T.sub(b, T.mul(T.const(c), phis[0])) if c is not None else None
                if c is not None and c != 1 and not T.mentions(rest, phis[0]) and len(T.poly(rest)) == 1 and \
                        all(own(a) is not None for m in T.poly(rest) for a, e in m):
                    wrong('weighs the merged nodes differently', b)
                    continue
        rep.und('mean', n.node, txt, show(t)[:200])


# ------------------------------------------------------------------ nodes at one place
def same(rep, tier):
    rep.rule('same-place', 'of several nodes at one place the first stays and takes over the arcs of the others, each once; the others leave the skeleton')
    s = start(rep, tier, 'mergeNodeClusters')
    if s is None or len(s[2].node.args.args) != 2:
        rep.und('same-place', None, 'the function that merges nodes is not found under its name and parameters')
        return
    eng, st, fn, w = s
    for f in eng.prog.fns.values():
        if f.qual in ('findClusters', 'mergeCluster') and f.node._mod is fn.node._mod:
            eng.stubs[f.fid] = lambda eng, st, n, env: [(st, eng.new_list(st, n, items=[]))]
    eng.exact_fns = parts(eng, fn)
    sk = skeleton_of(eng, st)
    ec = edge_contours(eng, st)
    eng.call_fn(st, fn.node, fn, [sk, ec], {}, '')
    rep.absorb(eng)
    rep.entries.append('mergeNodeClusters(any skeleton, any contours) up to the search of clusters, every path kept apart')

    def place(facts, t):
        """number of the node whose position the key is made of"""
        n = field_of(through(facts, t), 'source')
        if n is not None:
            return n
        for p in w.puts:
            if p.target.term == t:
                for x in (p.elem.term,):
                    if T.op(x) in ('c', 'idx') and field_of(T.args(x)[0], 'source') is not None:
                        return field_of(T.args(x)[0], 'source')
        return None
    # the table of places: entries are numbers of nodes under their place
    tables = {}
    for lk, node, facts, acts in w.backs:
        k = k_of(lk)
        for a in acts:
            if a[0] == 'set' and a[3] == k and a[2] is not None and trip_of(facts, lk) == LENS:
                tables.setdefault(a[1], set()).add(lk)
    outer = {lk for l in tables.values() for lk in l}
    if not outer:
        rep.und('same-place', fn.node, 'nodes at one place')
        return
    for t in tables:
        for node, items, _ in w.keys.get(t, ()):
            if items is None:
                continue
            own = {}
            for x in items:
                if T.op(x) == 'c' and field_of(T.args(x)[0], 'source') is not None:
                    own.setdefault(T.args(x)[1], x)
            near = [x for x in items if T.any_op(x, {'round', 'floordiv', 'int', 'floor', 'mod'}) and T.find(x, lambda y: field_of(y, 'source') is not None)]
            if near:
                rep.bad('same-place', node, 'nodes at different places share an entry', show(near[0]))
            elif set(own) == {'0', '1'}:
                rep.ok('same-place', node, 'entries are told apart by both coordinates')
            elif len(own) == 1 and len(items) == len(own):
                rep.bad('same-place', node, 'entries are told apart by one coordinate only')
    gone = {}
    for p in w.puts:
        if p.loops and p.elem.term == k_of(p.loops[-1]) and p.loops[-1] in outer:
            gone.setdefault(p.target.term, []).append(p)
    for lk, node, facts, acts in w.backs:
        if lk not in outer:
            continue
        rep.count('paths over nodes')
        k = k_of(lk)
        seen = None
        for f, v in facts.items():
            if f[0] == 'in' and f[2] in tables:
                seen = v
        reg = [a for a in acts if a[0] == 'set' and a[1] in tables]
        out = [a for a in acts if a[0] == 'put' and a[1] in gone and a[2] == k]
        if seen is True and reg:
            rep.bad('same-place', reg[0][4], 'a later node takes the place of the first one')
        elif seen is True and not out:
            rep.bad('same-place', node, 'a second node at one place stays')
        elif seen is False and out:
            rep.bad('same-place', out[0][4], 'the first node of a place leaves the skeleton')
        elif seen is False and not reg:
            rep.bad('same-place', node, 'the first node of a place is not remembered on one path')
        elif seen is None and (out or not reg):
            rep.und('same-place', node, 'other test')
        else:
            rep.ok('same-place', node, 'the first node of a place stays, the others are marked')
    for lk, node, facts, acts in w.breaks:
        if lk in outer:
            rep.bad('same-place', node, 'the loop over the nodes may end before the last one')

    def kept(t):
        """sinks of the node found in the table"""
        n = field_of(t, 'sinks')
        return n is not None and T.op(n) == 'idx' and T.args(n)[0] in tables

    inner = [b for b in w.backs + w.breaks if T.op(over_sinks(b[2], b[0]) if over_sinks(b[2], b[0]) is not None else T.ZERO) == 'k'
             and T.args(over_sinks(b[2], b[0]))[0] in outer]
    takes = {b[0] for b in inner if any(a[0] == 'put' and element(a[2], b[0]) for a in b[3])}
    for lk, node, facts, acts in inner:
        if lk not in takes:
            continue
        rep.count('paths over arcs of nodes at one place')
        x = lambda t: element(t, lk)
        puts = [a for a in acts if a[0] == 'put' and x(a[2])]
        there = None
        for f, v in facts.items():
            if f[0] == 'in' and x(f[1]) and kept(f[2]):
                there = v
        if any(lk == b[0] and facts is b[2] for b in w.breaks):
            rep.bad('same-place', node, 'the loop over the arcs of a node may end before the last one')
        elif puts and not all(kept(a[1]) for a in puts):
            (rep.bad if all(field_of(a[1], 'sinks') is not None and resolved(a[1]) for a in puts) else rep.und)(
                'same-place', puts[0][4], 'the arc goes over to something else than the node that stays')
        elif puts and there is True:
            rep.bad('same-place', puts[0][4], 'the node gets an arc a second time')
        elif puts and there is None:
            rep.bad('same-place', puts[0][4], 'an arc is taken over without a look whether it is there') if not asked(facts, (), x) else \
                rep.und('same-place', node, 'other test')
        elif puts:
            rep.ok('same-place', node, 'the arc is taken over')
        elif there is True:
            rep.ok('same-place', node, 'the arc is there')
        elif any(f[0] == 'in' and x(f[1]) and kept(f[2]) for b in inner if b[0] == lk for f in b[2]):
            rep.bad('same-place', node, 'an arc of a node that leaves is lost')
        else:
            rep.und('same-place', node, 'other test')
    if not takes:
        rep.und('same-place', fn.node, 'arcs of nodes at one place')
    for d in w.dels:
        if 'in:skeleton' not in refs(d.target) or d.ix is None or T.op(d.ix) != 'idx' or not d.loops:
            continue
        X, i = T.args(d.ix)[0], T.args(d.ix)[1]
        k = k_of(d.loops[-1])
        way = 'up' if X in gone else w.order[X][1] if X in w.order and w.order[X][0] in gone else None
        back = i != k and T.mentions(i, k) and T.poly(i).get(((k, 1),)) == -1
        if way is None:
            continue
        rep.count('deletions')
        if way == 'down' and i == k or way == 'up' and back:
            rep.ok('same-place', d.node, 'removed from the back to the front')
        elif way == 'up' and i == k or way == 'down' and back:
            rep.bad('same-place', d.node, 'nodes are removed one after the other, but not from the back to the front: later ones are shifted')
