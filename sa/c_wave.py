"""The wavefront: events, their handlers, the links of the rings and the recorded nodes."""
import ast

from .program import AnalysisBroken, where, loc
from .state import T, V, NUM, UNK
from .base import refs, resolved, show, strip, FUZZY
from .c_poly import skel_run, MOD

EMPTY = frozenset()
KEEP = ('point', 'edge_prev', 'edge_next', 'source', 'height', 'sinks')


def inst_classes(eng, st, v):
    out = set()
    for r in refs(v):
        o = st.heap.get(r)
        if o is not None and o.kind == 'inst' and o.cls in eng.classes:
            out.add(o.cls)
    return out


class Scan:
    """one run over skeletonize: which objects are events, wavefront vertices, nodes; which calls handle an event"""

    def __init__(self, node_cid):
        self.node_cid = node_cid
        self.event = {}            # class id -> set of creation contexts that reach the queue
        self.unkpush = None        # a pushed value the analysis cannot name
        self.created = {}          # (class id, oid) -> syntax node of the creation
        self.heaps = {}            # oid of a list used as heap -> [(node, op)]
        self.listops = []          # (node, oids, op)
        self.returns = {}          # fid -> set of class ids (or 'none' / 'other') returned
        self.touched = set()       # class ids with a link written outside the constructor
        self.writes = {}           # (class id, attr) -> {True/False constants written outside constructors / inside}
        self.eterms = {}           # class -> [terms of the fields at a creation]
        self.efields = {}          # (class, field) -> classes of the values given at creation
        self.holds = set()         # (class, class of a value stored in one of its attributes)
        self.calls = []            # (fn, env, st, node, ctx, fstack) of calls with an instance argument
        self.frames = {}           # fid of a function on the stack of a structural event -> True
        self.structural = []       # stacks of structural events
        self.lastcall = {}
        self.creators = {}         # fid of a function that creates nodes -> nodes
        self.heapfns = set()       # functions on the stack of a queue operation

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if op in ('heappush', 'heappop', 'heapify', 'heappushpop'):
            self.heapfns |= {f.fid for f in eng.fstack}
            for r in refs(target):
                self.heaps.setdefault(r, []).append((node, op))
            v = kw.get('elem') or kw.get('value')
            if v is not None:
                self.push(eng, st, v, node)
        elif refs(target):
            self.listops.append((node, refs(target), op, any(k[0] == 'unk' for k in target.kinds)))

    def push(self, eng, st, v, node):
        if any(k[0] == 'unk' for k in v.kinds):
            self.unkpush = node
        for r in refs(v):
            o = st.heap.get(r)
            if o is None:
                continue
            if o.kind == 'inst' and o.cls in eng.classes:
                self.event.setdefault(o.cls, set()).add(r.rstrip('~'))
            elif o.kind == 'tuple' and o.items is not None:
                for it in o.items:
                    self.push(eng, st, it, node)
            else:
                self.unkpush = node

    def on_new(self, eng, st, node, cls, obj):
        for r in refs(obj):
            self.created[(cls.cid, r)] = (node, eng.stack())
            fs = st.heap[r].fields
            self.eterms.setdefault(cls.cid, []).append(({f: strip(v.term) for f, v in fs.items()}, {
                (f, g) for f, a in fs.items() for g, b in fs.items()
                if self.link(st, a, 'next', b) or self.link(st, b, 'prev', a)}))
            for f, v in st.heap[r].fields.items():
                self.efields.setdefault((cls.cid, f), set()).update(inst_classes(eng, st, v))
        if cls.cid == self.node_cid:
            self.creators.setdefault(eng.fstack[-1].fid, []).append(tuple(f.fid for f in eng.fstack))
            self.structural.append(tuple(f.fid for f in eng.fstack))

    def link(self, st, a, name, b):
        os = [st.heap.get(r) for r in refs(a)]
        return bool(os) and all(o is not None and o.kind == 'inst' and name in o.fields and strip(o.fields[name].term) == strip(b.term) for o in os)

    def on_return(self, eng, st, node, fn, value, env):
        s = self.returns.setdefault(fn.fid, set())
        cl = inst_classes(eng, st, value)
        s |= cl
        for k in value.kinds:
            if k[0] == 'none':
                s.add('none')
            elif k[0] != 'ref' or not cl:
                s.add('other')

    def on_setattr(self, eng, st, node, target, attr, value):
        init = bool(eng.fstack) and eng.fstack[-1].qual.endswith('.__init__')
        for c in inst_classes(eng, st, target):
            s = self.writes.setdefault((c, attr), set())
            for vc in inst_classes(eng, st, value):
                self.holds.add((c, vc))
            s.add(('init' if init else 'later', value.term if value.term in (T.TRUE, T.FALSE) else None))
            if not init:
                self.touched.add((c, attr))
                self.structural.append((c, attr) + tuple(f.fid for f in eng.fstack))

    def on_call(self, eng, st, node, fn, env):
        self.lastcall[fn.fid] = (fn, dict(env), st.copy(), node, list(eng.ctx), list(eng.fstack))
        for k, v in env.items():
            cl = inst_classes(eng, st, v)
            if cl:
                self.calls.append((fn, dict(env), st.copy(), node, list(eng.ctx), list(eng.fstack), cl))
                break


class Path:
    """one path through a handler"""

    def __init__(self, handler, st, value, eterm, kinds, trace, env):
        self.handler, self.st, self.value, self.e, self.kinds, self.trace, self.env = \
            handler, st, value, eterm, kinds, trace, env


class Trace:
    always = True

    def __init__(self, w):
        self.w = w

    def add(self, st, *x):
        st.marks['it'] = st.marks.get('it', EMPTY) | {x}
        st.marks['tr'] = st.marks.get('tr', EMPTY) | {x}

    def guards(self, st):
        return frozenset((k[0], strip(k[1]), v) for k, v in st.facts.items()
                         if k[0] in ('truth', 'isnone', 'eq', 'in', 'lt') and isinstance(k[1], int))

    def on_setattr(self, eng, st, node, target, attr, value):
        if inst_classes(eng, st, target) & self.w.ringclasses:
            made = {x[1] for x in st.marks.get('tr', EMPTY) if x[0] == 'ring'}
            if inst_classes(eng, st, value) & {self.w.vertex} and strip(target.term) in made:
                self.add(st, 'head', strip(target.term), strip(value.term), node)
            return
        if eng.fstack and eng.fstack[-1].qual.endswith('.__init__'):
            return
        if not (inst_classes(eng, st, target) & {self.w.vertex}):
            return
        if 'guard' not in st.marks:
            st.marks['guard'] = self.guards(st)
        t = strip(target.term)
        if attr in ('next', 'prev'):
            st.marks['tr'] = frozenset(x for x in st.marks.get('tr', EMPTY) if x[:3] != ('set', attr, t))
        self.add(st, 'set', attr, t, strip(value.term), node)

    def on_new(self, eng, st, node, cls, obj):
        w = self.w
        if cls.cid in w.ringclasses:
            self.add(st, 'ring', strip(obj.term), next(iter(refs(obj))), node)
        if cls.cid not in (w.vertex, w.node):
            return
        if 'guard' not in st.marks:
            st.marks['guard'] = self.guards(st)
        o = st.heap[next(iter(refs(obj)))]
        fields = tuple(sorted((f, strip(v.term)) for f, v in o.fields.items() if f in KEEP))
        extra = ()
        if cls.cid == w.node:
            s = o.fields.get('sinks')
            ex = eng.exact_of(st, s) if s is not None else None
            extra = tuple(strip(x.term) for x in ex) if ex is not None else ()
        self.add(st, 'new', cls.cid, strip(obj.term), fields, extra, node)

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        for x in exact if exact is not None else [elem] if elem is not None else ():
            if inst_classes(eng, st, x) & self.w.ringclasses:
                self.add(st, 'keep', strip(x.term), node)
        if exact is not None:
            for x in exact:
                self.add(st, 'grow', strip(target.term), strip(x.term), node, True)
                self.discharge(st, x.term)
        elif elem is not None:
            self.add(st, 'grow', strip(target.term), strip(elem.term), node, op in ('append', 'insert'))
            if op in ('append', 'insert'):
                self.discharge(st, elem.term)
                self.kept(eng, st, elem)

    def on_display(self, eng, st, node, items):
        for v in items:
            self.discharge(st, v.term)

    def on_sliced(self, eng, st, node, base, lo, hi, step):
        note_slice(eng, st, node, base, lo, hi, step, self.w.events | {self.w.vertex}, self.w.slices)

    def on_comp(self, eng, st, node, target, elem):
        self.discharge(st, elem.term)
        self.kept(eng, st, elem)
        if field(elem.term) == 'point' or inst_classes(eng, st, elem) & {self.w.vertex}:
            self.add(st, 'grow', strip(target.term), strip(elem.term), node, False)

    def kept(self, eng, st, elem):
        c = inst_classes(eng, st, elem)
        if c and c <= self.w.events:
            t = strip(elem.term)
            for lk in Main.loopkeys(t):
                self.w.keeps.setdefault(lk, set()).add(t)
            st.marks['kept'] = st.marks.get('kept', EMPTY) | {t}

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if op == 'heappush':
            self.discharge(st, kw['elem'].term)
        self.add(st, 'mutate', op, strip(target.term), node)

    # events found but not yet put anywhere
    def discharge(self, st, t):
        p = st.marks.get('pend')
        if p:
            st.marks['pend'] = frozenset(x for x in p if x[0] != t and not T.mentions(t, x[0]))

    def settle(self, st):
        p = st.marks.get('pend')
        if p:
            st.marks['pend'] = frozenset(x for x in p if not (st.facts.get(('isnone', x[0])) is True or
                                                              st.facts.get(('truth', x[0])) is False))

    def on_backedge(self, eng, st, node, lk):
        self.settle(st)
        k = T.atom('k', lk)
        kept = st.marks.get('kept', EMPTY)
        if lk in self.w.keeps:
            bad = [e for e in self.w.keeps[lk] if e not in kept and not isexempt(eng, st, e, self.w, False)]
            self.w.keepback.append((lk, node, bool(bad) and not any(e in kept for e in self.w.keeps[lk])))
        it = st.marks.get('it', EMPTY)
        mine = {x for x in it if any(isinstance(y, int) and not isinstance(y, bool) and T.mentions(y, k) for y in x[1:-1] if isinstance(y, int))}
        ret = {x[2] for x in mine if x[0] == 'set' and x[1] in self.w.valid and x[3] == T.FALSE}
        if ret:
            self.w.iters.append((lk, node, ret, {x[2] for x in mine if x[0] == 'grow'}))
        self.w.steps.append((lk, node, ret, tuple((q[0], strip(q[1]), val) for q, val in st.facts.items()
                                                  if isinstance(q[1], int) and isinstance(val, bool) and T.mentions(q[1], k))))
        if mine:
            st.marks['it'] = it - mine
        if kept:
            st.marks['kept'] = frozenset(x for x in kept if not T.mentions(x, k))

    def on_return(self, eng, st, node, fn, value, env):
        self.settle(st)


class StepTrace(Trace):
    """like Trace, but the steps of a loop are looked at one by one"""

    def __init__(self, w):
        self.w = w
        self.recs = []

    def on_backedge(self, eng, st, node, lk):
        self.recs.append((node, st.copy()))
        st.marks['tr'] = EMPTY


class Wave:
    def __init__(self, rep, tier):
        self._pairs = {}
        self.rep, self.tier = rep, tier
        from .c_poly import new_engine
        prog_eng = new_engine(rep, [], tier)
        prog_eng.initial_state([MOD])
        v = prog_eng._globs.get((MOD, 'Subtree'))
        if v is None or not any(k[0] == 'cls' for k in v.kinds):
            raise AnalysisBroken('node type Subtree is gone')
        self.node = [k[1] for k in v.kinds if k[0] == 'cls'][0]
        self.scan = Scan(self.node)
        self.eng, self.res = skel_run(rep, self.scan, tier)
        self.identify()

    def identify(self):
        s, eng = self.scan, self.eng
        self.events = set(s.event) - {self.node}
        if not self.events:
            raise AnalysisBroken('no event enters a priority queue')
        # wavefront vertices: linked by next / prev
        vs = {c for (c, a) in s.touched if a == 'next'} & {c for (c, a) in s.touched if a == 'prev'}
        if len(vs) != 1:
            raise AnalysisBroken('wavefront vertex class not recognised (%d candidates)' % len(vs))
        self.vertex = vs.pop()
        flags = {a for (c, a), w in s.writes.items() if c == self.vertex
                 and ('init', T.TRUE) in w and ('later', T.FALSE) in w}
        self.valid = flags
        self.ringclasses = {c for c, vc in s.holds if vc == self.vertex and c != self.vertex and c not in self.events}
        # functions that return an event or nothing
        self.finders = {f for f, r in s.returns.items() if r & self.events and not (r - self.events - {'none'})}
        # functions that write links or create nodes
        self.struct = set()
        for x in s.structural:
            if isinstance(x[0], tuple) or (len(x) > 1 and x[0] == self.vertex and isinstance(x[1], str)):
                self.struct |= set(x[2:])
            elif not (len(x) > 1 and x[0] in eng.classes and isinstance(x[1], str)):
                self.struct |= set(x)
        # handlers: outermost calls with one event as argument that do structural work
        self.handlers = []
        seen = set()
        hf = set()
        for fn, env, st, node, ctx, fst, cl in s.calls:
            if fn.fid not in self.struct or fn.fid in self.finders:
                continue
            if any(f.fid in hf for f in fst):
                continue
            for k, v in env.items():
                c = inst_classes(eng, st, v)
                # a summary of mixed lists may also hold finished nodes
                if c & self.events and c <= self.events | {self.node} and T.op(v.term) in ('idx', 'prev', 'sel', 'obj'):
                    hf.add(fn.fid)
                    key = (fn.fid, getattr(node, '_id', 0))
                    self.handlers.append((key, fn, env, st, node, ctx, fst, k, c & self.events))
                    break
        last = {}
        for h in self.handlers:
            last[h[0]] = h
        self.handlers = list(last.values())
        self.mainfns = {f.fid for h in self.handlers for f in h[6]} | set(s.heapfns)
        if not self.handlers:
            raise AnalysisBroken('no call that handles an event found')

    handlerdepth, carriers = None, frozenset()

    def fresh(self):
        from .c_poly import new_engine
        return new_engine(self.rep, [], self.tier)

    def finder_stub(self, eng, st, n, env):
        st = st.copy()
        ks = {('none', 'finder')}
        for i, c in enumerate(sorted(self.events)):
            oid = eng.alloc(st, n, 'inst', c, tag='ev%d' % i)
            ks.add(('ref', oid))
        t = T.atom('found', eng.key(n), T.atom('k', eng.key(n)))
        v = V(t, frozenset(ks), None)
        for cl in eng.clients:
            if isinstance(cl, Trace):
                for x in env.values():
                    if inst_classes(eng, st, x) == {self.vertex}:
                        cl.add(st, 'asked', strip(x.term), n)
                # the paths of functions that search for events for a handler are kept apart, too
                if self.handlerdepth is not None:
                    self.carriers |= {f.fid for f in eng.fstack[self.handlerdepth:]}
                st.marks['pend'] = st.marks.get('pend', EMPTY) | {(t, n)}
                st.marks['found'] = st.marks.get('found', EMPTY) | {(t, n, frozenset(k[1] for k in ks if k[0] == 'ref'))}
        return [(st, v)]

    def pairs(self, cid):
        """fields (f, g) of an event class whose values are neighbours (g the successor of f) at every creation"""
        if cid not in self._pairs:
            fs = [f for (c, f), cl in self.scan.efields.items() if c == cid and cl and cl <= {self.vertex}]
            out = []
            for f in fs:
                for g in fs:
                    recs = self.scan.eterms.get(cid, [])
                    if f != g and recs and all(field(d[g]) == 'next' and base(d[g]) == d[f] or
                                               field(d[f]) == 'prev' and base(d[f]) == d[g] or (f, g) in near for d, near in recs):
                        out.append((f, g))
            self._pairs[cid] = out
        return self._pairs[cid]

    def built(self):
        """functions outside the handlers that write links of the ring -> states at the end of their loops and at their return"""
        eng, s = self.eng, self.scan
        hf = {h[1].fid for h in self.handlers}
        inner = set()
        for x in s.structural:
            if len(x) > 2 and x[0] == self.vertex and x[1] in ('next', 'prev') and not (set(x[2:]) & hf):
                inner.add(x[-1])
        calls = {}
        for fn, env, st, node, ctx, fst, cl in s.calls:
            if fn.fid in inner and not (hf & {f.fid for f in fst}):
                calls[fn.fid] = (fn, env, st, node, ctx, fst)
        out = {}
        for fid in inner:
            if fid not in calls:
                continue
            fn, env, st, node, ctx, fst = calls[fid]
            exact = {fid}
            while fst and not any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(fn.node)):
                # a helper that is one step of a loop: the function with the loop
                up = [x for x in s.calls if x[0].fid == fst[-1].fid and len(x[5]) == len(fst) - 1]
                if not up or fst[-1].fid in hf:
                    break
                fn, env, st, node, ctx, fst, _ = up[-1]
                exact.add(fn.fid)
            tr = StepTrace(self)
            eng.clients = [tr]
            eng.exact_fns = frozenset(exact)
            eng.ctx, eng.fstack = list(ctx), list(fst)
            eng.quiet, eng.loopdepth, eng.loopcache = 0, 0, {}
            eng.stubs = {}
            s2 = st.copy()
            a = fn.node.args
            for x, v in eng.call_fn(s2, node, fn, [env[y.arg] for y in a.posonlyargs + a.args],
                                    {y.arg: env[y.arg] for y in a.kwonlyargs}, ''):
                tr.recs.append((fn.node, x))
            out[fn] = tr.recs
        eng.clients = []
        return out

    def roles(self):
        """names of the event fields that hold the place and the distance"""
        ds, ps = None, None
        for c in self.events:
            fs = {f for (x, f) in self.scan.efields if x == c}
            ds = fs if ds is None else ds & fs
        ds = ds or set()
        cand = [f for f in ds if f != 'distance']
        if 'distance' not in ds or len(cand) != 1:
            raise AnalysisBroken('the common fields of the events are %s (distance and one place expected)' % sorted(ds))
        return cand[0], 'distance'

    def recreate(self, fid):
        eng, w = self.eng, self
        out = []

        class C:
            def on_new(self, eng, st, node, cls, obj):
                if cls.cid != w.node or eng.fstack[-1].fid != fid:
                    return
                o = st.heap[next(iter(refs(obj)))]
                cs = None
                if 'source' in o.fields:
                    cs, d = eng.comps(st, o.fields['source'])
                out.append((eng.fstack[-1], node, [strip(x.term) for x in cs] if cs else None,
                            strip(o.fields['height'].term) if 'height' in o.fields else None))
        fn, env, st, node, ctx, fst = self.scan.lastcall[fid]
        eng.clients = [C()]
        eng.exact_fns = frozenset([fid])
        eng.ctx, eng.fstack = list(ctx), list(fst)
        eng.quiet, eng.loopdepth, eng.loopcache = 0, 0, {}
        eng.stubs = {}
        a = fn.node.args
        eng.call_fn(st.copy(), node, fn, [env[y.arg] for y in a.posonlyargs + a.args], {y.arg: env[y.arg] for y in a.kwonlyargs}, '')
        eng.clients = []
        return out

    def main(self):
        if not hasattr(self, '_main'):
            self._main = Main(self)
        return self._main

    def paths(self):
        """every path through every handler, kept apart"""
        if hasattr(self, '_paths'):
            return self._paths
        eng = self.eng
        calls = self.main().calls
        n = -1
        while len(self.carriers) != n:
            n = len(self.carriers)
            out = self.walk(eng, calls)
            if self.carriers <= self.struct:
                break
        self._paths = out
        return out

    def walk(self, eng, calls):
        self.keeps, self.keepback, self.slices, self.iters, self.steps = {}, [], set(), [], []
        out = []
        for key, fn, env, st, node, ctx, fst, k, c in self.handlers:
            st = st.copy()
            # what is known about the event on every path that leads to the call
            common = None
            for fs in calls.get(key, ()):
                fs = {(f[0], strip(f[1]) if isinstance(f[1], int) else f[1]) + f[2:]: (f, v) for f, v in fs.items()}
                common = fs if common is None else {q: x for q, x in common.items() if q in fs and fs[q][1] == x[1]}
            et = strip(env[k].term)
            have = {(f[0], strip(f[1])) + f[2:] for f in st.facts if isinstance(f[1], int)}
            for q, (f, v) in (common or {}).items():
                if q not in have and isinstance(q[1], int) and f[0] in ('truth', 'isnone', 'eq') and isinstance(v, bool) and T.mentions(q[1], et):
                    st.facts[f] = v
            tr = Trace(self)
            eng.clients = [tr]
            eng.exact_fns = frozenset(self.struct) | self.carriers
            eng.ctx, eng.fstack = list(ctx), list(fst)
            eng.quiet, eng.loopdepth, eng.loopcache = 0, 0, {}
            eng.stubs = {f: self.finder_stub for f in self.finders}
            s = st.copy()
            s.marks = {m: v for m, v in s.marks.items() if m not in ('tr', 'it', 'guard', 'pend', 'found', 'kept')}
            a = fn.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            kws = {x.arg: env[x.arg] for x in a.kwonlyargs}
            self.handlerdepth = len(fst)
            for x, v in eng.call_fn(s, node, fn, [env[p] for p in ps], kws, ''):
                out.append(Path(fn, x, v, env[k].term, c, x.marks.get('tr', EMPTY), env))
        eng.stubs = {}
        eng.clients = []
        self.handlerdepth = None
        return out


# ------------------------------------------------------------------ the main loop
class Marks:
    """which popped / queued elements are accounted for"""
    always = True

    def __init__(self, main):
        self.m = main

    def done(self, st, t):
        st.marks['done'] = st.marks.get('done', EMPTY) | {strip(t)}
        p = st.marks.get('pops')
        if p:
            st.marks['pops'] = frozenset(x for x in p if x[0] != t)

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if op == 'heappush':
            self.done(st, kw['elem'].term)
            self.m.note('push', strip(kw['elem'].term), node, eng)

    def record(self, eng, st, node, x):
        t = strip(x.term)
        if Main.loopkeys(t) and self.m.w.node in inst_classes(eng, st, x):
            for lk in Main.loopkeys(t):
                self.m.records.setdefault(lk, {}).setdefault(t, node)
        self.noted(st, t)

    @staticmethod
    def noted(st, t, deep=True):
        p = st.marks.get('nodes')
        if p:
            st.marks['nodes'] = frozenset(x for x in p if x[0] != t and not (deep and T.mentions(t, x[0]) and not Marks.oneof(t, x[0])))

    @staticmethod
    def oneof(t, l):
        """one element of a list alone"""
        return T.op(t) == 'idx' and strip(T.args(t)[0]) == l

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        for x in exact if exact is not None else [elem] if elem is not None and op in ('append', 'insert') else ():
            self.done(st, x.term)
            self.record(eng, st, node, x)
        if rhs is not None:
            self.noted(st, strip(rhs.term))
        if elem is not None:
            self.noted(st, strip(elem.term))

    def on_display(self, eng, st, node, items):
        for x in items:
            self.done(st, x.term)

    def on_comp(self, eng, st, node, target, elem):
        self.done(st, elem.term)
        self.record(eng, st, node, elem)

    def on_popped(self, eng, st, node, value):
        self.m.popsin.setdefault(node, set()).update(m[2:] for m in st.marks if m.startswith('L:'))
        st.marks['pops'] = st.marks.get('pops', EMPTY) | {(value.term, node)}

    def on_loopexit(self, eng, st, node, lk, enters):
        d = self.m.loops.get(lk)
        bases = {T.args(e)[0] for k, e in d if k == 'push' and T.op(e) == 'idx'} if d else ()
        if bases:
            st.marks['drain'] = st.marks.get('drain', EMPTY) | bases
        # a list whose elements are put one by one into a list: the loop rule looks at each step
        p = st.marks.get('nodes')
        each = {T.args(e)[0] for e in self.m.records.get(lk, ()) if T.op(e) == 'idx'} if p else ()
        if each:
            st.marks['nodes'] = frozenset(x for x in p if x[0] not in {strip(b) for b in each})

    def on_backedge(self, eng, st, node, lk):
        if lk in self.m.around:
            for m in ('drain', 'owed', 'nodes'):
                st.marks.pop(m, None)
        p = st.marks.get('pops')
        if p:
            st.marks['pops'] = frozenset(x for x in p if lk not in self.m.popsin.get(x[1], ()))
        d = st.marks.get('done')
        if d:
            k = T.atom('k', lk)
            st.marks['done'] = frozenset(x for x in d if not T.mentions(x, k))


class Judge:
    def __init__(self, main):
        self.m = main

    def here(self, eng):
        return eng.fstack and eng.fstack[-1].fid in self.m.w.mainfns

    def samekey(self, eng, st):
        """what is known about the element of a loop decides whether it may be skipped"""
        out = set()
        for k, v in st.facts.items():
            if v is False and k[0] == 'isinst':
                out.add((k[0], strip(k[1]), k[2]))
            elif len(k) == 2 and isinstance(k[1], int) and (k[0] == 'isnone' and v is True or k[0] == 'truth' and v is False):
                t = strip(k[1])
                ks = frozenset(Main.loopkeys(t))
                if ks:
                    out.add((k[0], ks if T.op(t) == 'sel' and T.args(t)[1].lstrip('.') in self.m.w.valid else t))
        return frozenset(out)

    def on_backedge(self, eng, st, node, lk):
        if self.here(eng):
            self.m.backs.setdefault(lk, []).append((node, st.copy()))
            self.m.where[lk] = node

    def on_sliced(self, eng, st, node, base, lo, hi, step):
        note_slice(eng, st, node, base, lo, hi, step, self.m.w.events, self.m.slices)

    def on_loopexit(self, eng, st, node, lk, enters):
        if self.here(eng):
            self.m.exits.setdefault(lk, []).append((node, st.copy(), enters))

    def on_loopbreak(self, eng, st, node, lk, enters):
        if self.here(eng):
            self.m.breaks.setdefault(lk, []).append((node, st.copy(), enters))


class Main:
    """skeletonize with its paths kept apart and every handler as one step"""

    def __init__(self, w):
        self.w = w
        self.loops = {}        # loop key -> {(kind, element term): node}
        self.backs, self.exits, self.breaks = {}, {}, {}
        self.where = {}        # loop key -> loop
        self.around = {}       # loop key -> the loop is open while an event is dispatched
        self.popsin = {}       # pop -> loops open at it
        self.slices = set()    # (base, lo, hi, step, node) of slices of lists of events
        self.records = {}      # loop key -> {element term: node}: nodes put into a list
        self.calls = {}        # (handler, call) -> facts on every path that reaches it
        eng = self.eng = w.fresh()
        eng.clients = [Judge(self), Marks(self)]
        eng.exact_fns = frozenset(w.mainfns)
        eng.stubs = {h[1].fid: self.stub(h[1], h[7]) for h in w.handlers}
        from .entry import run_skeletonize
        self.res = run_skeletonize(eng)

    def elementloops(self):
        return {lk for lk, d in self.loops.items() if any(k == 'dispatch' for k, e in d)}

    def cuts(self):
        for base, lo, hi, step, node in self.slices | self.w.slices:
            if lo is None and hi is None and step is None:
                continue
            c = T.num(hi) if hi is not None else None
            if c is None or c < 0 or step is not None:
                yield node, None, None
            else:
                yield node, hi, any(b == base and l == hi and h is None for b, l, h, s, n in self.slices | self.w.slices)

    def note(self, kind, t, node, eng):
        for lk in self.loopkeys(t):
            self.loops.setdefault(lk, {}).setdefault((kind, t), node)

    def owe(self, eng, st, v, n):
        """the events in the result of a handler have to be queued"""
        cand = [v]
        rs = [st.heap[r] for r in refs(v) if r in st.heap]
        if rs and all(o.kind == 'tuple' and o.items is not None for o in rs) and len({len(o.items) for o in rs}) == 1:
            cand = []
            for j in range(len(rs[0].items)):
                r = eng.getitem(st, n, v, eng.const(j), quiet=True)
                cand += [x for _, x in r[:1]]
        for c in cand:
            ls = [st.heap[r] for r in refs(c) if r in st.heap and st.heap[r].kind in ('list', 'tuple')]
            if ls and any(o.elem is not None and inst_classes(eng, st, o.elem) & self.w.events or
                          o.items and any(inst_classes(eng, st, i) & self.w.events for i in o.items) for o in ls):
                st.marks['owed'] = st.marks.get('owed', EMPTY) | {(strip(c.term), n)}
                st.marks.pop('drain', None)
            if self.w.node in inst_classes(eng, st, c) or \
                    any(o.elem is not None and self.w.node in inst_classes(eng, st, o.elem) or
                        o.items and any(self.w.node in inst_classes(eng, st, i) for i in o.items) for o in ls):
                st.marks['nodes'] = st.marks.get('nodes', EMPTY) | {(strip(c.term), n)}
        return st, v

    @staticmethod
    def loopkeys(t):
        return {T.args(x)[0] for x in T.find(t, lambda x: T.op(x) == 'k')}

    def stub(self, fn, param):
        def call(eng, st, n, env):
            t = strip(env[param].term)
            self.note('dispatch', t, n, eng)
            if not eng.quiet:
                self.calls.setdefault((fn.fid, getattr(n, '_id', 0)), []).append(dict(st.facts))
            st = st.copy()
            p = st.marks.get('pops')
            if p:
                st.marks['pops'] = frozenset(x for x in p if x[0] != env[param].term)
            for m in st.marks:
                if m.startswith('L:'):
                    self.around[m[2:]] = True
            st.marks['done'] = st.marks.get('done', EMPTY) | {t}
            sv = eng.stubs.pop(fn.fid), eng.exact_fns
            eng.exact_fns = frozenset()
            a = fn.node.args
            try:
                res = eng.call_fn(st, n, fn, [env[x.arg] for x in a.posonlyargs + a.args],
                                  {x.arg: env[x.arg] for x in a.kwonlyargs}, '')
                return [self.owe(eng, x, v, n) for x, v in res]
            finally:
                eng.stubs[fn.fid], eng.exact_fns = sv
        return call


def note_slice(eng, st, node, base, lo, hi, step, classes, out):
    ls = [st.heap[r] for r in refs(base) if r in st.heap]
    if any(o.elem is not None and inst_classes(eng, st, o.elem) & classes or
           o.items and any(inst_classes(eng, st, i) & classes for i in o.items) for o in ls):
        f = lambda v: v.term if v is not None and v.term != T.NONE else None
        out.add((strip(base.term), f(lo), f(hi), f(step), node))


def reach(st, v, heaps):
    """objects that can be reached from v (and from the queue) through lists and tuples; None if unknown"""
    seen, todo = set(), list(v.kinds)
    for h in st.heap:
        if h.rstrip('~') in heaps:
            todo.append(('ref', h))
    while todo:
        k = todo.pop()
        if k[0] == 'unk':
            return None
        if k[0] != 'ref' or k[1] in seen:
            continue
        seen.add(k[1])
        o = st.heap.get(k[1])
        if o is None or o.kind not in ('list', 'tuple', 'set', 'dict', 'iter'):
            if o is not None and o.kind not in ('inst', 'vec'):
                return None
            continue
        if o.kind in ('iter', 'dict'):
            return None
        for i in (o.items or ()):
            todo += list(i.kinds)
        if o.elem is not None and o.items is None:
            todo += list(o.elem.kinds)
    return seen


def isexempt(eng, st, e, w, dispatch):
    """the element is missing, or one of its vertices was used up"""
    if w.scan.unkpush is None:
        no = {c for c in w.events for k, v in st.facts.items()
              if k[0] == 'isinst' and v is False and strip(k[1]) == e and k[2] in w.eng.classes
              and w.eng.classes[k[2]] in w.eng.classes[c].mro()}
        if no >= w.events:
            return True            # not a path: the queue holds nothing else
    for k, v in st.facts.items():
        if len(k) != 2 or not isinstance(k[1], int):
            continue
        if k[0] == 'isnone' and v is True or k[0] == 'truth' and v is False:
            t = strip(k[1])
            if t == e:
                return True
            if dispatch and k[0] == 'truth' and T.op(t) == 'sel' and T.args(t)[1].lstrip('.') in w.valid and T.mentions(t, e):
                return True
    return False


def emptiness(m, st):
    """-> (queue or wavefront known to be empty, their length terms)"""
    eng, w = m.eng, m.w
    terms = []
    for oid, o in st.heap.items():
        if o.kind != 'list':
            continue
        isq = oid.rstrip('~') in w.scan.heaps or oid in w.scan.heaps
        isw = False
        if not isq and o.elem is not None:
            for c in inst_classes(eng, st, o.elem):
                if c == w.vertex or c in w.ringclasses:
                    isw = True
        if isq or isw:
            terms.append(o.length)
            if eng.fact(st, ('eq', o.length)) is True:
                return True, terms
    return False, terms


def check_events(rep, tier):
    rep.rule('order', 'the queue orders events by their distance: every class of queued events has its own < that compares distances')
    rep.rule('heap', 'the queue is changed only by heap operations')
    rep.rule('found', 'an event found for a vertex is stored and reaches the queue')
    rep.rule('asked', 'every vertex that an event makes is asked for its event, unless its ring is given up')
    rep.rule('queued', 'a loop that queues its elements queues every one of them (missing ones excepted)')
    rep.rule('dispatched', 'an event taken from the queue is handled unless one of its vertices was used up before')
    rep.rule('end', 'the events are worked off until the queue or the wavefront is empty')
    rep.assumptions += ['the lists handed to heapq are heaps (heapq is correct)']
    w = Wave(rep, tier)
    eng, s = w.eng, w.scan
    order(rep, w)
    for oid, ops in s.heaps.items():
        for node, op in ops:
            rep.ok('heap', node, 'heap operation ' + op)
    heapify = any(op == 'heapify' for l in s.heaps.values() for _, op in l)
    for node, oids, op, unk in s.listops:
        hit = oids & set(s.heaps)
        if not hit or op in ('clear', 'sort'):
            continue
        sure = oids <= set(s.heaps) and not unk
        if op in ('pop', 'remove', 'delitem', 'reverse', 'insert', 'append', 'extend', 'setitem', 'delslice') and sure and not heapify:
            rep.bad('heap', node, 'changes the queue by %s, not by a heap operation' % op)
        else:
            rep.und('heap', node, 'list operation %s on the queue' % op)
    # every event created reaches the queue
    name = lambda c: eng.classes[c].name
    for (cid, oid), (node, stack) in s.created.items():
        if cid not in w.events:
            continue
        rep.count('creation sites of events')
        got = oid.rstrip('~') in s.event[cid]
        if got:
            rep.ok('found', node, '%s created in %s can reach the queue' % (name(cid), stack))
        elif s.unkpush is not None:
            rep.und('found', node, '%s created in %s' % (name(cid), stack))
        else:
            rep.bad('found', node, '%s created in %s never reaches the queue' % (name(cid), stack))
    for p in w.paths():
        pend = [x for x in p.st.marks.get('pend', ()) if not (p.st.facts.get(('isnone', x[0])) is True or p.st.facts.get(('truth', x[0])) is False)]
        if p.value.term is not None:
            pend = [x for x in pend if not T.mentions(p.value.term, x[0])]
        for t, node, oids in p.st.marks.get('found', ()):
            if p.st.facts.get(('isnone', t)) is True or p.st.facts.get(('truth', t)) is False:
                continue
            r = reach(p.st, p.value, s.heaps)
            if r is not None and not (r & oids):
                pend.append((t, node))
        for t, node in pend:
            rep.bad('found', node, 'the event found here is dropped on a path through %s' % p.handler.qual)
        rep.count('paths through handlers')
    asked(rep, w)
    for f in w.finders:
        rep.ok('found', eng.prog.fns[f].node, 'results of %s followed on every path of the handlers' % eng.prog.fns[f].qual)
    for lk, node, bad in w.keepback:
        if bad:
            rep.bad('found', node, 'a loop that keeps found events leaves out one that is not missing')
        else:
            rep.ok('found', node, 'every event of the loop is kept, missing ones excepted')
    m = w.main()
    for node, cut, rest in m.cuts():
        if cut is None:
            rep.und('dispatched', node, 'part of a list of events')
        else:
            rep.decide(rest, 'dispatched', node, 'list of events or vertices is cut at %s, and the rest is used too' % show(cut))
    for lk, l in m.backs.items():
        for node, st in l:
            for t, n2 in st.marks.get('pops', ()):
                if lk in m.popsin.get(n2, ()):
                    rep.bad('dispatched', n2, 'on one path an event taken from the queue is neither handled nor stored')
            if lk in m.around:
                rep.count('states after a handled event')
                for t, n2 in st.marks.get('owed', ()):
                    dr = st.marks.get('drain', EMPTY)
                    empty = any(k[0] == 'truth' and v is False and strip(k[1]) == t for k, v in st.facts.items() if len(k) == 2)
                    if t in dr or empty:
                        rep.ok('queued', n2, 'the events returned here are queued')
                    elif dr:
                        rep.und('queued', n2, 'events returned here')
                    elif isinstance(node, ast.For) and lk not in m.elementloops():
                        continue
                    else:
                        rep.bad('queued', n2, 'on one path the events returned here are not queued')
    for n2 in m.popsin:
        rep.ok('dispatched', n2, 'events taken from the queue are handled or stored')
    kinds = {k for lk, d in m.loops.items() for (k, e) in d}
    for lk, d in m.loops.items():
        for (kind, e), node in d.items():
            loop = m.where.get(lk)
            if loop is None:
                continue
            rule = 'queued' if kind == 'push' else 'dispatched'
            rep.count(rule + ' loops')
            word = 'queued' if kind == 'push' else 'handled'
            for n2, st in m.backs.get(lk, ()):
                if any((k2, e2) in d for e2 in st.marks.get('done', ()) for k2 in ('push', 'dispatch')):
                    rep.ok(rule, loop, 'element is %s' % word)
                elif any(isexempt(m.eng, st, e2, w, kind == 'dispatch') for k2, e2 in d):
                    rep.ok(rule, loop, 'element skipped because it is missing or used up')
                else:
                    rep.bad(rule, loop, 'on one path an element is neither %s nor missing%s' % (
                        word, '' if kind == 'push' else ' nor about a used-up vertex'))
            for n2, st, enters in m.breaks.get(lk, ()):
                if isinstance(loop, ast.For):
                    em, _ = emptiness(m, st)
                    if em:
                        rep.ok(rule, loop, 'loop left when nothing is left to do')
                    elif any(isexempt(m.eng, st, e2, w, True) for k2, e2 in d):
                        rep.bad(rule, loop, 'the loop is left at an element that is missing or used up, and the elements after it are dropped')
                    else:
                        rep.und(rule, loop, 'the loop may be left before its last element')
    handled = {c for h in w.handlers for c in h[8]}
    for c in w.events:
        rep.decide(True if c in handled else False, 'dispatched', eng.classes[c].node if hasattr(eng.classes[c], 'node') and eng.classes[c].node is not None else name(c),
                   'events of class %s have a handler' % name(c))
    elementloops = m.elementloops()
    for lk in m.around:
        loop = m.where.get(lk)
        if loop is None or lk in elementloops and isinstance(loop, ast.For):
            continue
        rep.count('event loops')
        for n2, st, enters in m.exits.get(lk, []) + m.breaks.get(lk, []):
            em, terms = emptiness(m, st)
            if em:
                rep.ok('end', loop, 'loop ends with the queue or the wavefront empty')
                continue
            new = [k for k, v in st.facts.items() if all(x.facts.get(k) is not v for x in enters)]
            vague = [k for k in new if k[0] in ('truth', 'isnone') and isinstance(k[1], int) and not resolved(k[1])]
            if new and not vague and isinstance(loop, ast.While):
                rep.bad('end', loop, 'the loop may end with events and a wavefront left',
                        '; '.join('%s %s' % (k[0], show(k[1])[:80]) for k in new[:4] if isinstance(k[1], int)))
            else:
                rep.und('end', loop, 'end of the loop')
    rep.require('event loops')
    if not kinds & {'dispatch'}:
        rep.und('dispatched', 'skeletonize', 'no loop over popped events recognised')


def asked(rep, w):
    views = [PathView(w, p) for p in w.paths()]
    if not any(v.asked for v in views):
        rep.und('asked', 'skeletonize', 'no handler asks for events')
        return
    for v in views:
        name = v.p.handler.qual
        gone = {x for r, hs in v.heads.items() if r in v.rings and r not in v.keep for x in hs}
        headed = {x for r, hs in v.heads.items() if r in v.rings for x in hs}
        vague = any(x not in v.verts for x in v.asked)
        got = {x for x in v.asked if x in v.verts}
        back = reach(v.p.st, v.p.value, ())
        for t, (d, node) in v.verts.items():
            if t in v.retired() or t in gone:
                continue
            if v.rings and t not in headed and not v.keep:
                continue                       # all rings are given up
            rep.count('new vertices that continue')
            if t in got:
                rep.ok('asked', node, '%s: the new vertex is asked for its event' % name)
            elif vague or v.rings and t not in headed and len(v.rings) != len(v.keep) or back is None or \
                    any(strip(w.eng.ref(x).term) == t for x in back):
                rep.und('asked', node, '%s: event of the new vertex' % name)
            elif len(v.rings) == 1 and len(v.verts) == 2 and len(got) == 1 and t not in headed:
                v.bad('asked', node, 'where a split joins two rings, the second of its two new vertices is never asked for its event')
            else:
                v.bad('asked', node, '%s: a new vertex is never asked for its event' % name)


def order(rep, w):
    eng, s = w.eng, w.scan
    for c in sorted(w.events):
        cls = eng.classes[c]
        rep.count('event classes')
        r = compare_events(eng, s, c)
        where_ = getattr(cls, 'node', None) or cls.name
        if r is None:
            rep.und('order', where_, 'comparison of %s' % cls.name)
        elif r is True:
            rep.ok('order', where_, '%s compares distances' % cls.name)
        else:
            rep.bad('order', where_, 'events of class %s are not ordered by their distance' % cls.name, r)
    rep.require('event classes')


def compare_events(eng0, s, c):
    """True / None / text: `a < b` for an event a of class c and any event b compares the distances"""
    cls = eng0.classes[c]
    m = cls.find('__lt__')
    if m is None:
        if cls.find('__gt__') is not None or any('total_ordering' in ast.dump(d) for d in cls.node.decorator_list):
            return None
        return 'it has no < of its own' + (', so tuples of all fields are compared' if cls.fields_nt() is not None else '')
    res = True
    for other in sorted(set(s.event)):
        if other not in eng0.classes or other == c and False:
            continue
        from .c_poly import Engine, program
        eng = Engine(program(), [])
        st = eng.initial_state([MOD])
        a = mk_event(eng, st, 'evA', c)
        b = mk_event(eng, st, 'evB', other)
        want = T.atom('lt', T.sub(T.atom('in', 'evA.distance'), T.atom('in', 'evB.distance')))
        for x, v in eng.call_fn(st, m.node, m, [a, b], {}, ''):
            t = v.term
            if t == want:
                continue
            f = x.facts.get(('lt', T.args(want)[0]))
            if t in (T.TRUE, T.FALSE) and f is (t == T.TRUE):
                continue
            if T.any_op(t, {'unk', 'any'}):
                res = None
            else:
                return 'the result of < is %s' % show(t)[:120]
    return res


def mk_event(eng, st, name, cid):
    from .entry import mkobj, innum
    v = mkobj(st, name, 'inst', cls=cid)
    st.heap['in:' + name].fields['distance'] = innum(name + '.distance')
    return v


# ------------------------------------------------------------------ rules on the paths of the handlers
def sel(t, f):
    return T.atom('sel', t, '.' + f, T.ZERO)


def field(t):
    return T.args(t)[1].lstrip('.') if T.op(t) == 'sel' else None


def base(t):
    return T.args(t)[0]


class PathView:
    def __init__(self, w, p):
        self.w, self.p = w, p
        self.e = strip(p.e)
        self.sets = {}           # (attr, target) -> [(value, node)]
        self.verts, self.nodes, self.grown = {}, {}, {}
        self.rings, self.heads, self.keep, self.asked = {}, {}, set(), {}
        for x in p.trace:
            if x[0] == 'set':
                self.sets.setdefault((x[1], x[2]), []).append((x[3], x[4]))
            elif x[0] == 'new':
                d = dict(x[3])
                if x[1] == w.vertex:
                    self.verts[x[2]] = (d, x[5])
                else:
                    self.nodes[x[2]] = (d, x[4], x[5])
            elif x[0] == 'ring':
                self.rings[x[1]] = (x[2], x[3])
            elif x[0] == 'head':
                self.heads.setdefault(x[1], set()).add(x[2])
            elif x[0] == 'keep':
                self.keep.add(x[1])
            elif x[0] == 'asked':
                self.asked[x[1]] = x[2]
            elif x[0] == 'grow':
                self.grown.setdefault(x[1], []).append((x[2], x[3], x[4]))
        self.guard = p.st.marks.get('guard', EMPTY)
        # paths that had to be merged only tell that something was not decided
        self.bad = w.rep.und if 'blurred' in p.st.marks else w.rep.bad
        self.links = {a: {t: v[-1][0] for (x, t), v in self.sets.items() if x == a} for a in ('next', 'prev')}

    def direct(self, t):
        """the access path from the event to a vertex uses no link of the ring"""
        while True:
            if t == self.e:
                return True
            o = T.op(t)
            if o == 'sel' and field(t) in ('next', 'prev'):
                return False
            if o not in ('sel', 'idx'):
                return False
            t = base(t)

    def known(self, t):
        """an access path from the event, or a vertex made here"""
        while t != self.e and T.op(t) in ('sel', 'idx'):
            t = base(t)
        return t == self.e or t in self.verts

    def retired(self):
        """vertex term -> node"""
        return {t: l[0][1] for (a, t), l in self.sets.items() if a in self.w.valid and any(v == T.FALSE for v, _ in l)}

    def guarded(self):
        out = set()
        consts = {(a, v) for (a, t), l in self.sets.items() for v, _ in l if v in (T.NONE, T.FALSE)}
        for k, t, v in self.guard:
            f = field(t)
            if f is None:
                continue
            if k == 'truth' and v is True and ((f, T.FALSE) in consts or (f, T.NONE) in consts or f in self.w.valid):
                out.add(base(t))
            if k == 'isnone' and v is False and (f, T.NONE) in consts:
                out.add(base(t))
        return out

    def old(self, t):
        """a vertex that was there before the event"""
        return not T.find(t, lambda x: x in self.verts)

    def edge_fields(self):
        return [sel(self.e, f) for (c, f), cl in self.w.scan.efields.items()
                if c in self.p.kinds and len(self.p.kinds) == 1 and cl and cl <= {self.w.vertex}]

    def ringretired(self):
        """the elements of a sequence that is not a list of named vertices are used up, one after the other"""
        def whole(t):
            if T.op(t) == 'idx':
                return T.num(T.args(t)[1]) is None and T.any_op(T.args(t)[1], {'k'})
            return T.op(t) in ('gen', 'phi', 'elemof', 'any')
        return any(not self.direct(t) and not T.mentions(t, self.e) and whole(t) for t in self.retired())

    def loopretired(self):
        """a vertex is used up in a loop over a ring"""
        return any(not self.direct(t) and T.any_op(t, {'idx', 'gen', 'phi', 'elemof', 'any'}) and not T.mentions(t, self.e)
                   for t in self.retired())


def check_used(rep, tier):
    rep.rule('fresh', 'an event works only on vertices that have not been used up (checked before the first change)')
    rep.rule('once', 'a vertex an event works on is used up by it')
    rep.rule('whole', 'where the vertices of a ring that ends are used up one after the other, none is left out')
    w = Wave(rep, tier)
    for p in w.paths():
        v = PathView(w, p)
        if not v.nodes and not v.sets and not v.verts:
            rep.count('paths without effect')
            continue
        rep.count('paths with effect')
        gd, rt = v.guarded(), v.retired()
        name = p.handler.qual
        want = set(v.edge_fields()) | {t for t in rt if v.direct(t)} | {t for t in gd if v.direct(t)}
        for t in sorted(want):
            rep.count('vertices of events')
            txt = path_text(t, v.e)
            at = rt.get(t) or p.handler.node
            if t in gd:
                rep.ok('fresh', p.handler.node, '%s: %s is checked before it is used' % (name, txt))
            else:
                v.bad('fresh', at, '%s works on %s without checking that it has not been used up' % (name, txt))
            if not v.nodes:
                continue
            if t in rt:
                rep.ok('once', at, '%s: %s is used up' % (name, txt))
            elif v.loopretired() and not (sel(t, 'prev') in v.links['next'] and sel(t, 'next') in v.links['prev']):
                rep.und('once', p.handler.node, '%s: %s is used up together with its ring' % (name, txt))
            else:
                v.bad('once', p.handler.node, '%s: %s is not marked as used up' % (name, txt))
        gone = [r for r in v.rings if r not in v.keep]
        if gone and v.verts and not v.loopretired():
            far = {t for t in rt if not v.direct(t)}
            rep.decide(True if len(far) >= 2 * len(gone) else False, 'whole', v.rings[gone[0]][1],
                       '%s: the vertices of a ring that is given up are used up' % name)
    whole(rep, w)
    rep.require('vertices of events')
    rep.require('paths with effect')


def whole(rep, w):
    steps = {}
    for lk, node, ret, facts in w.steps:
        steps.setdefault(lk, []).append((node, ret, facts))
    views = [PathView(w, p) for p in w.paths()]
    direct = {t for v in views for t in v.edge_fields()} | {t for v in views for t in v.retired() if v.direct(t)}
    for lk, l in steps.items():
        els = {t for _, ret, _ in l for t in ret}
        if len(els) != 1:
            continue
        el = els.pop()
        single = {t for v in views if el in v.retired() for t in v.retired() if v.direct(t)}
        rep.count('loops that use up vertices')
        for node, ret, facts in l:
            if ret:
                rep.ok('whole', node, 'the vertex of this step is used up')
                continue
            used = other = free = False
            for k, t, val in facts:
                if k == 'truth' and val is False and base(t) == el and field(t) in w.valid or k == 'isnone' and val is True and base(t) == el:
                    used = True
                elif k in ('truth', 'eq') and val is True and el in T.args(t):
                    x = [a for a in T.args(t) if a != el]
                    if len(x) == 1 and x[0] in single:
                        used = True
                    elif len(x) != 1 or x[0] not in direct:
                        free = True
                elif T.mentions(t, el) and k == 'in':
                    free = True
            if used:
                rep.ok('whole', node, 'only a vertex that was used up before is skipped')
            elif free:
                rep.und('whole', node, 'a vertex is skipped')
            else:
                rep.bad('whole', node, 'a loop that uses up vertices leaves out one of them')


def path_text(t, e):
    if t == e:
        return 'event'
    o = T.op(t)
    if o == 'sel':
        return path_text(base(t), e) + '.' + field(t)
    if o == 'idx':
        return '%s[%s]' % (path_text(base(t), e), show(T.args(t)[1])[:30])
    return show(t)[:40]


# -- C15
def rewrite(w, v, t):
    """E.g.prev -> E.f, E.f.next -> E.g for a class of events made of neighbours (f, g); X.next.prev -> X"""
    memo = {}

    def r(t):
        if t in memo:
            return memo[t]
        o = T.op(t)
        out = t
        if o in ('sel', 'idx'):
            b = r(base(t))
            a = T.args(t)
            out = T.atom(o, b, *a[1:])
            f = field(out)
            if f in ('next', 'prev'):
                if field(b) in ('next', 'prev') and field(b) != f:
                    out = base(b)
                for c in v.p.kinds:
                    for (f1, g1) in w.pairs(c):
                        if f == 'next' and b == sel(v.e, f1):
                            out = sel(v.e, g1)
                        if f == 'prev' and b == sel(v.e, g1):
                            out = sel(v.e, f1)
        memo[t] = out
        return out
    return r(t)


def check_rings(rep, tier):
    rep.rule('paired', 'whenever a vertex gets a successor, that one gets the vertex as its predecessor, and the other way round')
    rep.rule('edges', 'a new vertex lies between the same two polygon edges as its place in the ring')
    w = Wave(rep, tier)
    seen = 0
    for p in w.paths():
        v = PathView(w, p)
        nx, pv = v.links['next'], v.links['prev']
        R = lambda t: rewrite(w, v, t)
        nodes = {('next', t): v.sets[('next', t)][0][1] for t in nx}
        nodes.update({('prev', t): v.sets[('prev', t)][0][1] for t in pv})
        for one, other, word, back in ((nx, pv, 'successor', 'predecessor'), (pv, nx, 'predecessor', 'successor')):
            a = 'next' if one is nx else 'prev'
            for A, B in one.items():
                rep.count('links written')
                node = nodes[(a, A)]
                if {R(y) for x, y in other.items() if R(x) == R(B)} == {R(A)}:
                    rep.ok('paired', node, '%s: .%s and its counterpart' % (p.handler.qual, a))
                    continue
                txt = '%s: %s gets the %s %s, but that one does not get it as %s' % (
                    p.handler.qual, path_text(A, v.e), word, path_text(B, v.e), back)
                other_b = [x for x, y in other.items() if R(y) == R(A)]
                known = lambda t: named(v, t)
                if known(A) and known(B) and all(known(x) for x in other_b):
                    v.bad('paired', node, txt)
                else:
                    rep.und('paired', node, txt)
        for t, (d, node) in v.verts.items():
            for a, f in (('next', 'edge_next'), ('prev', 'edge_prev')):
                nb = v.links[a].get(t)
                eg = d.get(f)
                if nb is None or eg is None:
                    if v.nodes and nb is None:
                        v.bad('paired', node, '%s: the new vertex gets no .%s' % (p.handler.qual, a))
                    continue
                rep.count('sides of new vertices')
                owner_n = base(nb) if field(nb) == a and v.known(base(nb)) else None
                owner_e = base(eg) if field(eg) == f else None
                txt = '%s: side .%s of the new vertex' % (p.handler.qual, a)
                if owner_n is not None and owner_n == owner_e:
                    rep.ok('edges', node, txt)
                elif owner_n is not None and resolved(eg) and eg not in v.verts:
                    v.bad('edges', node, txt + ': the neighbour is %s, but the edge is %s' % (path_text(nb, v.e), path_text(eg, v.e)))
                elif owner_e is not None and owner_n is None and nb not in v.verts:
                    v.bad('edges', node, txt + ': the edge is %s, but the neighbour is another vertex' % path_text(eg, v.e))
                elif owner_n is None and owner_e is None and T.op(eg) == 'sel' and v.direct(eg):
                    rep.ok('edges', node, txt + ' faces the edge of the event')
                elif resolved(eg) and (field(eg) in ('edge_next', 'edge_prev')):
                    v.bad('edges', node, txt + ': the edge is %s' % path_text(eg, v.e))
                else:
                    rep.und('edges', node, txt)
    builders(rep, w)
    rep.require('links written', 8)
    rep.require('sides of new vertices', 4)


def named(v, t):
    """the term names one vertex: an access path from the event, a new object, or the value of a local variable"""
    while T.op(t) in ('sel', 'idx'):
        t = base(t)
    return t == v.e or t in v.verts or T.op(t) in ('obj', 'phi')


def builders(rep, w):
    for fn, recs in w.built().items():
        for node, st in recs:
            tr = st.marks.get('tr', EMPTY)
            sets = {}
            for x in tr:
                if x[0] == 'set' and x[1] in ('next', 'prev'):
                    sets.setdefault(x[1], {})[x[2]] = (x[3], x[4])
            if not sets:
                continue
            rep.count('steps that build a ring')
            for a, b in (('next', 'prev'), ('prev', 'next')):
                for A, (B, n) in sets.get(a, {}).items():
                    got = sets.get(b, {}).get(B)
                    txt = '%s: .%s and its counterpart' % (fn.qual, a)
                    if got is not None and got[0] == A:
                        rep.ok('paired', n, txt)
                    else:
                        rep.bad('paired', n, '%s: a vertex gets a .%s, but the counterpart is not set' % (fn.qual, a),
                                'the .%s of %s is %s' % (a, show(A)[:80], show(B)[:80]))


# -- C16
def check_sinks(rep, tier):
    rep.rule('arc', 'the node an event records has an arc to every vertex the event uses up')
    rep.rule('target', 'an arc of a recorded node ends at a wavefront vertex or at another node, not at the node itself')
    rep.rule('loop', 'where a ring is used up in a loop, every vertex of it gets its arc')
    rep.rule('ring', 'where a whole ring is used up, an arc leads to it')
    rep.rule('own', 'a node at the position of an event has arcs to the vertices of that event')
    rep.rule('joined', 'the nodes one event records are connected')
    rep.rule('recorded', 'every node an event makes is handed back, and every node handed back enters the skeleton')
    rep.rule('ends', 'a ring is given up exactly if fewer than three of its vertices are left')
    w = Wave(rep, tier)
    point, _ = w.roles()
    for p in w.paths():
        v = PathView(w, p)
        if not v.nodes:
            continue
        rep.count('paths that record nodes')
        name = p.handler.qual
        sinks = {}
        given = reach(p.st, p.value, ())
        for t, (d, extra, node) in v.nodes.items():
            if given is None:
                rep.und('recorded', node, '%s: node handed back' % name)
            elif any(strip(w.eng.ref(x).term) == t for x in given):
                rep.ok('recorded', node, '%s: the node is handed back' % name)
            else:
                v.bad('recorded', node, '%s: a node is made, but not handed back' % name)
        for t, (d, extra, node) in v.nodes.items():
            l = list(extra)
            fuzzy = False
            for x, n, single in v.grown.get(d.get('sinks'), ()):
                l.append(x)
                fuzzy = fuzzy or not single
            sinks[t] = l
            if not l and not fuzzy:
                if v.grown.get(d.get('sinks')) is None and T.op(d.get('sinks')) not in ('obj',):
                    rep.und('arc', node, '%s: arcs of the node' % name)
                else:
                    v.bad('arc', node, '%s: the node is recorded without any arc' % name)
        every = {x for l in sinks.values() for x in l}
        vague = any(not (T.op(x) == 'sel' and field(x) == 'point' or x in srcs(v)) for x in every)
        for t, at in v.retired().items():
            rep.count('vertices used up')
            if sel(t, 'point') in every:
                rep.ok('arc', at, '%s: arc to %s' % (name, path_text(t, v.e)))
            elif v.direct(t) and not vague:
                v.bad('arc', at, '%s: %s is used up, but no arc leads to its point' % (name, path_text(t, v.e)))
            else:
                rep.und('arc', at, '%s: arc to %s' % (name, path_text(t, v.e)))
        if v.ringretired() and not vague:
            at = next(iter(v.nodes.values()))[2]
            if any(not v.direct(x) and base(x) not in v.verts for x in every):
                rep.ok('ring', at, '%s: an arc leads to the ring that is used up' % name)
            elif not every:
                rep.und('ring', at, name)
            else:
                v.bad('ring', at, '%s: a whole ring is used up, but no arc leads to it' % name)
        if len(sinks) > 1 and not vague:
            at = next(iter(v.nodes.values()))[2]
            left = list(sinks)
            reached = {left.pop()}
            while True:
                more = [t for t in left if any(v.nodes[t][0].get('source') in sinks[r] or v.nodes[r][0].get('source') in sinks[t] for r in reached)]
                if not more:
                    break
                reached |= set(more)
                left = [t for t in left if t not in reached]
            if not left:
                rep.ok('joined', at, '%s: the nodes of the event are connected' % name)
            else:
                v.bad('joined', at, '%s: no arc connects the nodes recorded by the event' % name)
        for t, l in sinks.items():
            d, extra, node = v.nodes[t]
            s = d.get('source')
            if field(s) == point and v.direct(s):
                X = base(s)
                seen = {field(x) for y in every for x in T.find(y, lambda x: T.op(x) == 'sel' and base(x) == X)}
                kinds = p.kinds if X == v.e else {c for (c, f) in w.scan.efields if f in seen and f not in (point, 'distance')}
                if len(kinds) == 1:
                    c = next(iter(kinds))
                    for f in sorted(f for (c2, f), cl in w.scan.efields.items() if c2 == c and cl and cl <= {w.vertex}):
                        at = sel(sel(X, f), 'point')
                        txt = '%s: arc from the node at %s to %s' % (name, path_text(s, v.e), path_text(at, v.e))
                        rep.count('vertices of events at nodes')
                        if at in l:
                            rep.ok('own', node, txt)
                        elif v.loopretired() or vague:
                            rep.und('own', node, txt)
                        else:
                            v.bad('own', node, 'no ' + txt)
            for x in l:
                rep.count('arcs')
                if x == d.get('source'):
                    v.bad('target', node, '%s: the node gets an arc to itself' % name)
                elif T.op(x) == 'sel' and field(x) == 'point' or x in srcs(v):
                    rep.ok('target', node, '%s: arc to %s' % (name, path_text(x, v.e)))
                elif resolved(x) and v.direct(x):
                    v.bad('target', node, '%s: an arc leads to %s' % (name, path_text(x, v.e)))
                else:
                    rep.und('target', node, '%s: arc to %s' % (name, path_text(x, v.e)))
    ends(rep, w)
    recorded(rep, w)
    want = {}
    for lk, node, ret, pts in w.iters:
        for t in ret:
            want.setdefault((lk, t), []).append((node, sel(t, 'point') in pts))
    for (lk, t), l in want.items():
        if not any(x for _, x in l):
            continue
        rep.count('loops that use up a ring')
        for node, x in l:
            rep.decide(x, 'loop', node, 'the vertex used up in this step gets an arc')
    rep.require('paths that record nodes')
    rep.require('vertices used up', 4)


def recorded(rep, w):
    m = w.main()
    for lk, l in m.backs.items():
        for node, st in l:
            if lk not in m.around:
                continue
            for t, n2 in st.marks.get('nodes', ()):
                missing = any(k[0] == 'isnone' and v is True and strip(k[1]) == t or k[0] == 'truth' and v is False and strip(k[1]) == t
                              for k, v in st.facts.items() if len(k) == 2 and isinstance(k[1], int))
                if missing:
                    rep.ok('recorded', n2, 'no node to record')
                elif isinstance(node, ast.For) and lk not in m.elementloops() and lk not in m.records:
                    continue
                else:
                    rep.bad('recorded', n2, 'on one path the nodes handed back here do not enter the skeleton')
    for lk, d in m.records.items():
        for n2, st in m.backs.get(lk, ()):
            got = st.marks.get('done', EMPTY)
            for t, node in d.items():
                if t in got:
                    rep.ok('recorded', node, 'the node of the step enters the list')
                elif any(isexempt(m.eng, st, e, w, False) for e in d):
                    rep.ok('recorded', node, 'a missing node is skipped')
                elif not any(x in got for x in d):
                    rep.bad('recorded', node, 'a loop that collects nodes leaves out one of them')


def lengths(w):
    """attributes of a ring that hold the number of its vertices"""
    out = set()
    for c in w.ringclasses:
        f = w.eng.classes[c].find('__len__')
        node = getattr(f, 'node', None)
        if node is not None and len(node.body) == 1 and isinstance(node.body[0], ast.Return) and isinstance(node.body[0].value, ast.Attribute):
            out.add(node.body[0].value.attr)
    return out


def ends(rep, w):
    lens = lengths(w)
    for p in w.paths():
        v = PathView(w, p)
        name = p.handler.qual
        if 'blurred' in p.st.marks:
            continue
        # rings made by the event
        for r, (oid, node) in v.rings.items():
            o = p.st.heap.get(oid)
            if not v.verts or o is None or len(v.rings) > 2:
                continue
            terms = {strip(o.fields[a].term) for a in lens if a in o.fields}
            sizes, relevant, vague = feasible([(k[0], strip(k[1]), val) for k, val in p.st.facts.items() if isinstance(k[1], int) and isinstance(val, bool)],
                                              lambda t, n: n if t in terms else None, range(1, 9), None)
            rep.count('rings made by events')
            verdict(rep, v, node, name, r in v.keep, sizes, relevant, vague, 3)
        # the ring of an edge event
        prs = [q for c in p.kinds for q in w.pairs(c)] if len(p.kinds) == 1 else []
        if not prs or not v.nodes or v.rings:
            continue
        f, g = prs[0]
        a, b = sel(v.e, f), sel(v.e, g)

        def pos(t, n):
            if t == a:
                return 0
            if t == b:
                return 1
            if T.op(t) == 'sel' and field(t) in ('next', 'prev'):
                x = pos(base(t), n)
                return None if x is None else (x + (1 if field(t) == 'next' else -1)) % n
            return None

        def value(t, n):
            if T.op(t) == 'sel' and field(t) in lens and T.op(base(t)) == 'sel' and pos(base(base(t)), n) is not None:
                return n
            return None
        sizes, relevant, vague = feasible([x for x in v.guard], value, range(3, 10), pos)
        rep.count('rings of edge events')
        node = next(iter(v.nodes.values()))[2]
        verdict(rep, v, node, name, bool(v.verts), sizes, relevant, vague, 4)


def verdict(rep, v, node, name, kept, sizes, relevant, vague, least):
    if not relevant:
        rep.und('ends', node, '%s: size of the ring' % name)
    elif kept:
        rep.ok('ends', node, '%s: a ring that goes on has vertices enough' % name) if min(sizes, default=least) >= least else \
            (rep.und if vague else v.bad)('ends', node, '%s: a ring goes on that has fewer than three vertices left' % name)
    else:
        rep.ok('ends', node, '%s: a ring that is given up has fewer than three vertices left' % name) if max(sizes, default=0) < least else \
            (rep.und if vague else v.bad)('ends', node, '%s: a ring is given up that has three or more vertices left' % name)


def feasible(facts, value, ns, pos):
    """sizes of the ring for which the facts about it can be true; is there such a fact; is there one that cannot be evaluated"""
    out, relevant, vague = [], False, False
    n0 = ns[0]
    use = []
    for k, t, val in facts:
        if pos is not None and k in ('truth', 'eq') and T.op(t) == 'same' and len(T.args(t)) == 2:
            x, y = T.args(t)
            if pos(x, n0) is not None and pos(y, n0) is not None:
                use.append(('same', (x, y), val))
                continue
            if (pos(x, n0) is None) != (pos(y, n0) is None) and T.op(x) == T.op(y) == 'sel' and {field(x), field(y)} <= {'next', 'prev'}:
                vague = True
        if k in ('lt', 'eq', 'truth') and T.find(t, lambda x: value(x, n0) is not None):
            z = T.replace(t, lambda x: T.const(n0) if value(x, n0) is not None else None)
            if T.num(z) is None:
                vague = True
            else:
                use.append((k, t, val))
    for n in ns:
        good = True
        for k, t, val in use:
            if k == 'same':
                r = pos(t[0], n) == pos(t[1], n)
            else:
                z = T.num(T.replace(t, lambda x: T.const(value(x, n)) if value(x, n) is not None else None))
                r = z < 0 if k == 'lt' else z == 0 if k == 'eq' else z != 0
            if r != val:
                good = False
        if good:
            out.append(n)
    return out, bool(use), vague


def srcs(v):
    return {d.get('source') for d, x, n in v.nodes.values()}


# -- C17
def check_nodes_consistent(rep, tier):
    rep.rule('together', 'the position and the height of a recorded node come from the same event (or are the same mean over the same nodes)')
    rep.rule('start', 'the vertices that continue after an event start at the position of its node')
    w = Wave(rep, tier)
    point, dist = w.roles()
    for p in w.paths():
        v = PathView(w, p)
        name = p.handler.qual
        used = {}
        for t, (d, extra, node) in v.nodes.items():
            s = d.get('source')
            if field(s) == point:
                used[base(s)] = t
        for t, (d, extra, node) in v.nodes.items():
            rep.count('nodes recorded by events')
            s, h = d.get('source'), d.get('height')
            if s is None or h is None:
                continue
            txt = '%s: node at %s' % (name, path_text(s, v.e))
            if field(s) != point or not v.direct(s):
                (v.bad if resolved(s) and v.direct(s) else rep.und)('together', node, txt)
                continue
            own = base(s)
            parts, total, good = [], 0, True
            for mono, c in T.poly(h).items():
                if len(mono) == 1 and mono[0][1] == 1 and field(mono[0][0]) == dist and v.direct(mono[0][0]):
                    parts.append(base(mono[0][0]))
                    total += c
                else:
                    good = False
            if not good:
                (v.bad if resolved(h) else rep.und)('together', node, txt + ' has the height ' + show(h)[:120])
            elif total != 1:
                v.bad('together', node, txt + ': the weights of the heights add up to %s' % total)
            elif parts == [own]:
                rep.ok('together', node, txt + ' and its height')
            elif any(x != own and x in used for x in parts):
                v.bad('together', node, txt + ': its height belongs to the event of another node')
            elif own == v.e and all(T.mentions(x, v.e) and x != v.e for x in parts):
                rep.ok('together', node, txt + ', mean height of the joined events') if len(parts) > 1 else \
                    rep.und('together', node, txt + ' with the height of one of the joined events')
            else:
                v.bad('together', node, txt + ' with the height of another event')
        for t, (d, node) in v.verts.items():
            rep.count('new wavefront vertices')
            q = d.get('point')
            if q in srcs(v):
                rep.ok('start', node, '%s: the new vertex starts at the node' % name)
            elif v.nodes and q is not None and (resolved(q) or field(q) == 'point' and v.old(base(q))):
                v.bad('start', node, '%s: the new vertex starts at %s, which is not where the node is' % (name, path_text(q, v.e)))
            else:
                rep.und('start', node, '%s: start of the new vertex' % name)
    merged(rep, w)
    from .c_merge import check_means
    check_means(rep, tier)
    rep.require('nodes recorded by events')
    rep.require('new wavefront vertices')


AGG = ('sum', 'maxover', 'minover')


def closed(t):
    """an exact expression over access paths"""
    def path(x):
        if T.op(x) in ('sel', 'idx', 'lenof') or T.op(x) == 'c' and T.op(base(x)) in ('sel', 'idx'):
            return T.atom('path', 'p%d' % x)
    return resolved(T.replace(t, path))


def alpha(t):
    """sums and maxima without the name of their loop"""
    def f(x):
        if T.op(x) == 'sum':
            _, d, k, trip = T.args(x)
            return T.atom('sum', '', alpha(T.replace(d, lambda y: T.atom('k', '') if y == k else None)), T.ZERO, trip)
    return T.replace(t, f)


def differ(a, b):
    """two closed expressions are certainly different combinations"""
    if not (closed(a) and closed(b)):
        return False
    agg = [{o for o in AGG if T.any_op(x, {o})} for x in (a, b)]
    if agg[0] != agg[1]:
        return True
    own = [{base(y) for y in T.find(x, lambda y: T.op(y) == 'c')} for x in (a, b)]
    return own[0] == own[1]


def merged(rep, w):
    """nodes created outside the handlers: position and height are the same combination of existing nodes"""
    hf = {h[1].fid for h in w.handlers}
    for fid, stacks in w.scan.creators.items():
        if all(set(s) & hf for s in stacks) or fid not in w.scan.lastcall:
            continue
        for fn, node, comps, h in w.recreate(fid):
            rep.count('nodes created by merging')
            txt = '%s: merged node' % fn.qual
            if comps is None or h is None:
                rep.und('together', node, txt)
                continue
            for j, c in enumerate(comps):
                other = T.replace(h, lambda t: T.atom('c', sel(base(t), 'source'), str(j), T.ZERO) if field(t) == 'height' else None)
                c, other = alpha(c), alpha(other)
                if other == c:
                    rep.ok('together', node, txt + ': coordinate %d and height are the same mean' % j)
                elif differ(c, other):
                    rep.bad('together', node, txt + ': coordinate %d and height are different combinations of the merged nodes' % j,
                            '%s / %s' % (show(c)[:160], show(h)[:160]))
                else:
                    rep.und('together', node, txt + ': coordinate %d and height' % j, '%s / %s' % (show(c)[:160], show(other)[:160]))
            for s in T.find(h, lambda t: T.op(t) == 'sum'):
                trip = T.args(s)[3]
                q = T.div(h, s)
                if trip == T.ZERO or field(T.args(s)[1]) != 'height' or T.any_op(q, {'sum'}):
                    continue
                if T.mul(q, trip) == T.ONE:
                    rep.ok('together', node, txt + ': the height is the mean of the heights of the merged nodes')
                elif T.mentions(q, trip) or T.num(q) is not None:
                    rep.bad('together', node, txt + ': the height is not the mean of the heights of the merged nodes', show(h)[:200])
                else:
                    rep.und('together', node, txt + ': mean height')
