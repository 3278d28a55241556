"""Abstract interpreter for the Python subset used by the analysed package.

Flow-sensitive, context-sensitive (inlining, call strings), with a recency heap
abstraction, value numbering, path facts and bounded trace partitioning.  Nothing
of the analysed program is ever executed: function bodies are walked as syntax
trees over abstract states, loops are iterated to a fixpoint, states are joined at
merge points.  Property checkers register as clients and receive events.
"""
import ast
import sys
from collections import namedtuple

from .program import Program, AnalysisBroken, Fn, Cls, snippet, where, loc
from .state import (T, V, W0, NUM, BOOL, STR, UNK, Obj, State, rename, mentions_v)
from .models import Models
from .liveness import Live

sys.setrecursionlimit(20000)

Event = namedtuple('Event', 'kind node stack data')

MAXPART = 16
MAXPASS = 12
NOTHING = object()
import time as _t
T0 = _t.time()


class Out:
    """outcome of executing statements"""
    __slots__ = ('normal', 'brk', 'cont', 'ret')

    def __init__(self, normal=None):
        self.normal = normal if normal is not None else []
        self.brk = []
        self.cont = []
        self.ret = []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret


class Engine(Models):
    def __init__(self, program, clients=(), fork_calls=False):
        self.prog = program
        self.clients = list(clients)
        self.classes = {}
        self.ctx = []              # call-site ids (strings)
        self.fstack = []           # Fn objects being inlined
        self.trystack = []         # caught exception names
        self.trynodes, self.handling = [], []
        self.record = True
        self.notes = {}            # unmodelled constructs
        self.phis = {}             # phi term -> set of init terms
        self.phistep = {}          # phi term -> set of back-edge terms
        self.phiback = {}          # phi term -> numbers of the back edges that change it
        self.nback = {}            # loop -> number of back edges
        self.philoop = {}
        self.visited_fns = set()
        self.visited_nodes = 0
        self.loopstack = []
        self.loops_seen = {}
        self.genstack = []
        self.part_terms = set()
        self.sym_classes = None    # shape mode: lazily materialised symbolic heap
        self.fork_calls = fork_calls
        self.modstate = None
        self.curmod = None
        self.callsites = set()
        self.maxpart = MAXPART
        self.cls_by_node = {}
        self.quiet = 0
        self.headpart = False
        self.loopdepth = 0
        self.loopcache = {}
        self.passes = 0
        self.debugloop = None
        self._live = {}
        self.alts = {}             # phi term -> {alternative: facts on its side} (when keepalts)
        self.exact = False         # keep every path apart (loop-free drivers only)
        self.exact_fns = frozenset()   # functions whose paths are kept apart
        self._small = {}
        self.maxitems = 6              # longest list whose elements are kept one by one when it is built step by step
        self.unrollmax = 0             # longest sequence that is walked element by element (0: the default of the loop)
        self._uid = 0
        self.stubs = {}            # fid -> contract of a function analysed elsewhere

    # ------------------------------------------------------------------ misc
    def note(self, what, node=None):
        k = (what, loc(node) if node is not None else '')
        self.notes[k] = self.notes.get(k, 0) + 1

    def emit(self, kind, st, node, **data):
        if not self.clients:
            return
        for c in self.clients:
            h = getattr(c, 'on_' + kind, None)
            if h is not None:
                h(self, st, node, **data)

    def stack(self):
        return tuple(f.qual for f in self.fstack)

    def cstr(self):
        return '/'.join(self.ctx)

    def key(self, node):
        return 'n%d@%s' % (getattr(node, '_id', 0), self.cstr())

    # ------------------------------------------------------- value builders
    def const(self, c, node=None):
        if c is None:
            return V(T.NONE, frozenset([('none', 'n%d' % getattr(node, '_id', 0))]), W0)
        if isinstance(c, bool):
            return V(T.const(c), frozenset([BOOL]), W0)
        if isinstance(c, (int, float, complex)):
            return V(T.const(c), frozenset([NUM]), W0)
        if isinstance(c, (str, bytes)):
            return V(T.const(c), frozenset([STR]), W0)
        return self.unk(node, 'const')

    def unk(self, node, tag=''):
        return V(T.atom('unk', self.key(node) if node is not None else '', tag), frozenset([UNK]), None)

    def num(self, term, w=W0):
        return V(term, frozenset([NUM]), w)

    def boolv(self, term):
        return V(term, frozenset([BOOL]), W0)

    def none_untracked(self):
        return V(T.NONE, frozenset([('none', '')]), W0)

    # ------------------------------------------------------------ allocation
    def alloc(self, st, node, kind, cls=None, tag=''):
        base = '%s%s@%s' % (getattr(node, '_id', 0), tag, self.cstr())
        oid = base
        if oid in st.heap:
            old = base + '~'
            o = st.heap[oid]
            if old in st.heap:
                st.heap[old] = self.join_obj(st.heap[old], o, 'rec' + base, old)
            else:
                st.heap[old] = o
            oo = st.wobj(old)
            oo.single = False
            rename(st, oid, old)
            del st.heap[oid]
        o = Obj(kind, cls)
        o.ver = T.atom('v0', oid)
        st.heap[oid] = o
        return oid

    def ref(self, oid):
        return V(T.atom('obj', oid), frozenset([('ref', oid)]), None)

    def new_list(self, st, node, items=None, elem=None, length=None, kind='list', tag=''):
        oid = self.alloc(st, node, kind, tag=tag)
        o = st.heap[oid]
        if items is not None:
            o.items = tuple(items)
            o.length = T.const(len(items))
            for v in items:
                o.elem = self.joinv(o.elem, v, 'el' + oid)
        else:
            o.elem = elem
            o.length = length if length is not None else T.atom('len?', 'l' + oid)
        o.elem = self.generic(o.elem, oid)
        return self.ref(oid)

    def new_vec(self, st, node, comps, tag=''):
        oid = self.alloc(st, node, 'vec', tag=tag)
        o = st.heap[oid]
        o.dim = len(comps) if comps is not None else None
        for i, c in enumerate(comps or ()):
            o.fields[str(i)] = c
        return self.ref(oid)

    def generic(self, v, oid):
        """value stored as the summary element of a container: identity forgotten"""
        if v is None:
            return None
        if T.is_const(v.term):
            return v
        return V(T.atom('elemof', oid), v.kinds, v.w)

    # -------------------------------------------------------------------- gc
    def collect(self, st, roots):
        """drop unreachable objects allocated by the current activation"""
        c = self.cstr()
        heap = st.heap
        cand = [o for o in heap if self._inctx(o, c)]
        if not cand:
            return
        seen = set()
        work = []

        def add(v):
            for k in v.kinds:
                if k[0] == 'ref':
                    if k[1] not in seen:
                        seen.add(k[1])
                        work.append(k[1])
                elif k[0] in ('bm', 'xm'):
                    add(k[2])

        def meta(m):
            if isinstance(m, V):
                add(m)
            elif isinstance(m, tuple):
                for x in m:
                    if isinstance(x, tuple):
                        meta(x)
        for v in roots:
            add(v)
        for _, e in st.frames:
            for v in e.values():
                add(v)
        for v in st.globs.values():
            add(v)
        for _, v in st.iters:
            if v is not None:
                add(v)
        for v in st.facts.values():
            if isinstance(v, V):
                add(v)
        for g in self.genstack:
            for _, v in g:
                add(v)
        candset = set(cand)
        for o in heap:
            if o not in candset and o not in seen:
                seen.add(o)
                work.append(o)
        while work:
            o = heap.get(work.pop())
            if o is None:
                continue
            for v in o.fields.values():
                add(v)
            if o.items is not None:
                for v in o.items:
                    add(v)
            if o.elem is not None:
                add(o.elem)
            if o.key is not None:
                add(o.key)
            if o.meta is not None:
                meta(o.meta)
        for o in cand:
            if o not in seen:
                del heap[o]

    @staticmethod
    def _inctx(oid, c):
        i = oid.find('@')
        return i >= 0 and oid.startswith(c, i + 1)

    def live_of(self, fn):
        l = self._live.get(fn.fid)
        if l is None:
            l = self._live[fn.fid] = Live(fn.node)
        return l

    _live = {}

    def kill_dead(self, st, live):
        env = st.env
        dead = [k for k in env if k not in live]
        if dead:
            for k in dead:
                del env[k]

    # ------------------------------------------------------------------ join
    def phi(self, jkey, locn, init=None):
        return T.atom('phi', jkey, locn)

    def jterm(self, a, b, jkey, locn):
        if a == b:
            return a
        p = T.atom('phi', jkey, locn)
        if self.keepalts:
            d = self.alts.setdefault(p, {})
            for x, f in ((a, self._jf[0]), (b, self._jf[1])):
                if x != p:
                    d[x] = f
        if self._loopjoin:
            if a != p:
                self.phis.setdefault(p, set()).add(a)
                self.philoop[p] = jkey
            if b != p:
                self.phistep.setdefault(p, set()).add(b)
                self.phiback.setdefault(p, set()).add(self._backid)
        return p

    _backid = 0
    _loopjoin = False
    keepalts = False
    _jf = ({}, {})

    def joinw(self, a, b, jkey, locn):
        if a == b:
            return a
        if a is None or b is None:
            return None
        return tuple(self.jterm(x, y, jkey, locn + ':w%d' % i) for i, (x, y) in enumerate(zip(a, b)))

    def joinv(self, a, b, jkey, locn=''):
        if a is None:
            return b
        if b is None or a == b:
            return a
        if a.kinds and b.kinds and self._neutral_w(a):
            w = b.w
        elif self._neutral_w(b):
            w = a.w
        else:
            w = self.joinw(a.w, b.w, jkey, locn)
        return V(self.jterm(a.term, b.term, jkey, locn), a.kinds | b.kinds, w)

    @staticmethod
    def _neutral_w(v):
        return all(k[0] == 'none' for k in v.kinds)

    def join_obj(self, a, b, jkey, oid):
        if a is b or a.same(b):
            return a
        o = a.copy()
        if a.kind != b.kind:
            o.kind = 'unk'
        if a.cls != b.cls:
            o.cls = a.cls or b.cls
        o.single = a.single and b.single
        for f in b.fields:
            o.fields[f] = self.joinv(a.fields.get(f), b.fields[f], jkey, 'h:%s:%s' % (oid, f))
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            o.items = tuple(self.joinv(x, y, jkey, 'h:%s:i%d' % (oid, i))
                            for i, (x, y) in enumerate(zip(a.items, b.items)))
        else:
            o.items = None
        o.front = None
        fa, fb = a.front if a.items is None else a.items, b.front if b.items is None else b.items
        if o.items is None and fa and fb and o.single:
            n = 0
            while n < min(len(fa), len(fb)) and fa[n] == fb[n]:
                n += 1
            o.front = tuple(fa[:n]) or None
        o.elem = self.generic(self.joinv(a.elem, b.elem, jkey, 'h:%s:[]' % oid), oid)
        o.key = self.generic(self.joinv(a.key, b.key, jkey, 'h:%s:k' % oid), oid)
        if a.length is None or b.length is None:
            o.length = a.length if b.length is None else b.length
        else:
            o.length = self.jterm(a.length, b.length, jkey, 'h:%s:len' % oid)
        if a.ver is not None and b.ver is not None:
            o.ver = self.jterm(a.ver, b.ver, jkey, 'h:%s:ver' % oid)
        o.dim = a.dim if a.dim == b.dim else None
        if a.meta != b.meta:
            o.meta = self.join_meta(a.meta, b.meta, jkey, oid)
        return o

    def join_meta(self, a, b, jkey, oid):
        if a is None or b is None:
            return None if a is None or a[0] in ('map', 'slice', 'cat') else a
        if a[0] in ('map', 'slice', 'cat') or b[0] in ('map', 'slice', 'cat'):
            return None
        if a[0] == b[0] == 'gen':
            return ('gen', self.joinv(a[1], b[1], jkey, 'm:%s' % oid))
        if a[0] == b[0] == 'mapgen':
            return ('mapgen', self.joinv(a[1], b[1], jkey, 'm:%s' % oid), self.jterm(a[2], b[2], jkey, 'ml:%s' % oid))
        return ('gen', self.unk(None, 'meta' + oid))

    def join(self, a, b, jkey):
        if a is b:
            return a
        self._jf = (a.facts, b.facts)
        s = a.copy()
        nf = []
        for (fk, ea), (fk2, eb) in zip(a.frames, b.frames):
            if ea is eb or ea == eb:
                nf.append((fk, ea))
                continue
            e = dict(ea)
            for k, v in eb.items():
                va = ea.get(k)
                if va is None:
                    e[k] = V(self.phi(jkey, 'u:%s:%s' % (fk, k)), v.kinds | frozenset([('unbound',)]), v.w)
                elif va != v:
                    e[k] = self.joinv(va, v, jkey, 'e:%s:%s' % (fk, k))
            for k, v in ea.items():
                if k not in eb and ('unbound',) not in v.kinds:
                    e[k] = V(self.phi(jkey, 'u:%s:%s' % (fk, k)), v.kinds | frozenset([('unbound',)]), v.w)
            nf.append((fk, e))
        s.frames = nf
        for oid, o in b.heap.items():
            oa = a.heap.get(oid)
            s.heap[oid] = o if oa is None else self.join_obj(oa, o, jkey, oid)
        fa, fb = a.facts, b.facts
        s.facts = {k: v for k, v in fa.items() if fb.get(k, NOTHING) == v}
        self.join_facts_phi(a, b, s, jkey)
        for f in set(a.fver) | set(b.fver):
            s.fver[f] = self.jterm(a.fver.get(f, T.ZERO), b.fver.get(f, T.ZERO), jkey, 'fv:' + f)
        s.iters = tuple((k, self.joinv(va, vb, jkey, 'it:' + k))
                        for (k, va), (k2, vb) in zip(a.iters, b.iters))
        s.marks = {}
        for m in set(a.marks) | set(b.marks):
            va, vb = a.marks.get(m), b.marks.get(m)
            s.marks[m] = self.join_mark(m, va, vb)
        if a.globs is not b.globs and a.globs != b.globs:
            g = dict(a.globs)
            for k, v in b.globs.items():
                g[k] = self.joinv(g.get(k), v, jkey, 'g:%s' % (k,))
            s.globs = g
        return s

    def join_facts_phi(self, a, b, s, jkey):
        """facts about both inputs of a phi hold of the phi"""
        for (fk, e), (_, ea), (_, eb) in zip(s.frames[-1:], a.frames[-1:], b.frames[-1:]):
            for k, v in e.items():
                va, vb = ea.get(k), eb.get(k)
                if va is None or vb is None or va.term == vb.term or T.op(v.term) != 'phi':
                    continue
                if v.term in (va.term, vb.term):
                    continue
                for pred in ('truth', 'nz', 'eq'):
                    fa = a.facts.get((pred, va.term))
                    if fa is not None and b.facts.get((pred, vb.term)) == fa:
                        s.facts[(pred, v.term)] = fa
                for fk2, val in a.facts.items():
                    if val is True and fk2[0] == 'in' and fk2[1] == va.term:
                        if b.facts.get(('in', vb.term) + fk2[2:]) is True or \
                                self.idx_of(vb.term, fk2[2], fk2[3]):
                            s.facts[('in', v.term) + fk2[2:]] = True

    def idx_of(self, t, cont, ver):
        return T.op(t) == 'idx' and T.args(t)[0] == cont and T.args(t)[2] == ver

    def join_mark(self, m, va, vb):
        if va == vb:
            return va
        for c in self.clients:
            h = getattr(c, 'join_mark', None)
            if h is not None:
                r = h(m, va, vb)
                if r is not NOTHING:
                    return r
        if isinstance(va, frozenset) or isinstance(vb, frozenset):
            return (va or frozenset()) | (vb or frozenset())
        return va if vb is None else vb if va is None else None

    # ---------------------------------------------------------- partitioning
    def exact_here(self):
        if self.exact:
            return True
        if not self.exact_fns:
            return False
        # small helpers of a function whose paths are kept apart are part of it
        top = None
        for f in reversed(self.fstack):
            if f.fid in self.exact_fns:
                return top is None or f.node._mod is top.node._mod
            if not self.small(f) or (top is not None and f.node._mod is not top.node._mod):
                return False
            top = f
        return False

    def small(self, fn):
        r = self._small.get(fn.fid)
        if r is None:
            ns = list(ast.walk(fn.node))
            r = not fn.is_gen and not any(isinstance(x, (ast.For, ast.While, ast.Try, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for x in ns) \
                and sum(isinstance(x, ast.stmt) for x in ns) <= 14
            self._small[fn.fid] = r
        return r

    def pkey(self, st, extra=None):
        if self.exact_here():
            self._uid += 1
            return self._uid
        out = []
        for k, v in st.env.items():
            out.append((k, self.nullsig(v)))
        out.sort()
        pt = tuple((k, st.facts.get(('eq', k)), st.facts.get(('truth', k))) for k in sorted(self.part_terms))
        mk = tuple(sorted((m, str(v)) for m, v in st.marks.items() if m.startswith('P!')))
        return (tuple(out), pt, mk, extra)

    def nullsig(self, v):
        n = any(k[0] == 'none' for k in v.kinds)
        if n:
            return 'N' if len({k[0] for k in v.kinds}) == 1 else '?'
        if v.kinds == frozenset([BOOL]):
            return 'T' if v.term == T.TRUE else 'F' if v.term == T.FALSE else 'b'
        return 'O'

    def merge(self, states, node, tag=''):
        if len(states) <= 1:
            return states
        jkey = 'J%s%s' % (tag, self.key(node))
        groups = {}
        for s in states:
            k = self.pkey(s)
            groups[k] = s if k not in groups else self.join(groups[k], s, jkey)
        res = list(groups.values())
        if self.exact_fns and len(res) > 32:
            # paths that did the same and see the same values are one path
            same = {}
            for s in res:
                k = (tuple(sorted((a, v.term) for a, v in s.env.items())),
                     tuple(sorted(((m, v) for m, v in s.marks.items() if not m.startswith(('L:', 'D:'))), key=lambda x: x[0])),
                     tuple(c.samekey(self, s) for c in self.clients if hasattr(c, 'samekey')))
                same[k] = s if k not in same else self.join(same[k], s, jkey)
            res = list(same.values())
        if len(res) > (500 if self.exact_fns else self.maxpart) and not self.exact:
            r = res[0]
            for s in res[1:]:
                r = self.join(r, s, jkey)
            if self.exact_fns:
                r.marks['blurred'] = True
            res = [r]
        return res

    # ------------------------------------------------------------ refinement
    def load(self, st, v):
        """apply path facts about v's term to its kinds"""
        t = v.term
        f = st.facts
        if not f:
            return v
        isn = f.get(('isnone', t))
        tr = f.get(('truth', t))
        ks = v.kinds
        if isn is False or tr is True:
            ks = frozenset(k for k in ks if k[0] != 'none')
        elif isn is True:
            ks = frozenset(k for k in ks if k[0] in ('none',)) or ks
        for cid in self._isinst_classes(f, t):
            val = f[('isinst', t, cid)]
            if val:
                ks2 = frozenset(k for k in ks if self.kind_isinst(st, k, cid) is not False)
            else:
                ks2 = frozenset(k for k in ks if self.kind_isinst(st, k, cid) is not True)
            if ks2:
                ks = ks2
        if ks != v.kinds and ks:
            v = V(v.term, ks, v.w)
        return v

    def _isinst_classes(self, f, t):
        return [k[2] for k in f if k[0] == 'isinst' and k[1] == t]

    def kind_isinst(self, st, k, cid):
        """True / False / None(unknown)"""
        if k[0] == 'unk' or k[0] == 'ext':
            return None
        if k[0] == 'ref':
            o = st.heap.get(k[1])
            if o is None:
                return None
            if o.kind == 'inst' and o.cls in self.classes:
                c = self.classes.get(cid)
                if c is None:
                    return cid == 'tuple' and self.classes[o.cls].fields_nt() is not None
                return c in self.classes[o.cls].mro()
            if cid in self.classes:
                return False
            if o.kind in ('list', 'tuple', 'dict', 'set', 'vec'):
                return o.kind == cid
            return None
        if k[0] == 'num':
            return None if cid in ('int', 'float', 'complex') else False
        if k[0] == 'str':
            return cid == 'str'
        if k[0] == 'bool':
            return cid in ('bool', 'int')
        return False

    # facts -----------------------------------------------------------------
    def canon(self, t):
        """canonical representative of {t, -t}"""
        n = T.neg(t)
        return min(t, n)

    def fact(self, st, key):
        k = key[0]
        if k == 'lt':
            t = key[1]
            c = T.num(t)
            if c is not None:
                return c < 0
            r = st.facts.get(key)
            if r is not None:
                return r
            n = T.neg(t)
            if st.facts.get(('lt', n)) is True:
                return False
            if self.known_nonneg(st, t):
                return False
            if self.known_pos(st, n):
                return True
            return None
        if k == 'eq':
            t = key[1]
            c = T.num(t)
            if c is not None:
                return c == 0
            r = st.facts.get(('eq', self.canon(t)))
            if r is not None:
                return r
            if self.nonzero(st, t):
                return False
            return None
        if k == 'isnone':
            if key[1] == T.NONE:
                return True
            return st.facts.get(key)
        return st.facts.get(key)

    def assume(self, st, key, val):
        if key[0] == 'eq':
            key = ('eq', self.canon(key[1]))
        st.facts[key] = val
        return st

    def split(self, st, key):
        """-> (true_state|None, false_state|None)"""
        r = self.fact(st, key)
        if r is True:
            return st, None
        if r is False:
            return None, st
        s2 = st.copy()
        return self.assume(st.copy(), key, True), self.assume(s2, key, False)

    NONNEG = ('abs', 'sqrt', 'len?', 'trip', 'k', 'lenof', 'sum2', 'length')

    def known_nonneg(self, st, t, d=0):
        c = T.num(t)
        if c is not None:
            return c >= 0
        if d > 4:
            return False
        if T.op(t) in self.NONNEG:
            return True
        if st.facts.get(('lt', t)) is False or st.facts.get(('lt', T.neg(t))) is True:
            return True
        p = T.poly(t)
        if len(p) == 1 and () not in p:
            (m, c), = p.items()
            return c > 0 and all(e % 2 == 0 or self.known_nonneg(st, a, d + 1) for a, e in m) if m != ((t, 1),) else False
        if len(p) > 1:
            return all(c > 0 and all(e % 2 == 0 or (a != t and self.known_nonneg(st, a, d + 1)) for a, e in m)
                       for m, c in p.items())
        if T.op(t) == 'max':
            return any(self.known_nonneg(st, a, d + 1) for a in T.args(t) if isinstance(a, int))
        return False

    def known_pos(self, st, t, d=0):
        c = T.num(t)
        if c is not None:
            return c > 0
        if d > 4:
            return False
        if st.facts.get(('lt', T.neg(t))) is True:
            return True
        if T.op(t) == 'max':
            return any(self.known_pos(st, a, d + 1) for a in T.args(t) if isinstance(a, int))
        if self.known_nonneg(st, t) and self.nonzero(st, t, d + 1):
            return True
        return False

    def nonzero(self, st, t, d=0):
        c = T.num(t)
        if c is not None:
            return c != 0
        k = T.rev[t]
        if k[0] == 'k' and k[1] == 'complex':
            return True
        if d > 5:
            return False
        f = st.facts
        if f.get(('eq', self.canon(t))) is False or f.get(('truth', t)) is True:
            return True
        n = T.neg(t)
        if f.get(('truth', n)) is True:
            return True
        if f.get(('lt', t)) is True or f.get(('lt', n)) is True:
            return True
        op = T.op(t)
        if op in ('abs', 'sqrt'):
            a = T.args(t)[0]
            if self.nonzero(st, a, d + 1):
                return True
        if op == 'pow':
            return self.nonzero(st, T.args(t)[0], d + 1)
        if op == 'max':
            if self.known_pos(st, t, d + 1):
                return True
        if op == 'phi' and False:
            pass
        for (pk, *pa), val in f.items():
            if pk == 'lt' and len(pa) == 1:
                p = pa[0]
                if val is True:      # p < 0
                    s = T.num(T.add(p, t))      # t = c - p  > c
                    if s is not None and s >= 0:
                        return True
                    s = T.num(T.sub(t, p))      # t = c + p  < c
                    if s is not None and s <= 0:
                        return True
                else:                # p >= 0
                    s = T.num(T.sub(t, p))      # t = p + c >= c
                    if s is not None and s > 0:
                        return True
                    s = T.num(T.add(p, t))      # t = c - p <= c
                    if s is not None and s < 0:
                        return True
        p = T.poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            if m != ((t, 1),):
                return all(self.nonzero(st, a, d + 1) for a, e in m)
            return False
        # a sum of non-negative terms one of which is non-zero
        terms = [T.from_poly({m: c}) for m, c in p.items()]
        if all(self.known_nonneg(st, x) for x in terms):
            return any(self.nonzero(st, x, d + 1) for x in terms)
        if all(self.known_nonneg(st, T.neg(x)) for x in terms):
            return any(self.nonzero(st, x, d + 1) for x in terms)
        # a*b product expanded: try stored facts on factors is not attempted
        return False

    # ------------------------------------------------------------ conditions
    def truth(self, st, v, node=None):
        """-> (true_states, false_states)"""
        v = self.load(st, v)
        t = v.term
        if v.kinds == frozenset([BOOL]) or T.rev[t][0] in ('b', 'c'):
            if t == T.TRUE:
                return [st], []
            if t == T.FALSE:
                return [], [st]
            c = T.num(t)
            if c is not None:
                return ([st], []) if c else ([], [st])
        ts, fs = [], []
        can_t = can_f = False
        nonek = [k for k in v.kinds if k[0] == 'none']
        rest = [k for k in v.kinds if k[0] != 'none']
        if nonek:
            can_f = True
        for k in rest:
            a, b = self.kind_truth(st, k, v)
            can_t |= a
            can_f |= b
        r = st.facts.get(('truth', t))
        if r is True:
            can_f = False
        elif r is False:
            can_t = False
        if v.kinds & frozenset([NUM, BOOL]) and not nonek and len(v.kinds) == 1:
            if self.nonzero(st, t):
                can_f = False
            elif self.fact(st, ('eq', t)) is True:
                can_t = False
        if can_t and not can_f:
            return [st], []
        if can_f and not can_t:
            return [], [st]
        s1, s2 = st.copy(), st.copy()
        s1.facts[('truth', t)] = True
        s2.facts[('truth', t)] = False
        if v.kinds == frozenset([NUM]):
            self.assume(s1, ('eq', t), False)
            self.assume(s2, ('eq', t), True)
        if nonek and rest and all(self.kind_truth(st, k, v) == (True, False) for k in rest):
            s2.facts[('isnone', t)] = True
        for k in rest:
            if k[0] == 'ref' and len(v.kinds) == 1:
                o = st.heap.get(k[1])
                if o is not None and o.kind in ('list', 'tuple', 'set', 'dict') and o.length is not None:
                    L = self.clen(st, v)
                    self.assume(s1, ('eq', L), False)
                    self.assume(s2, ('eq', L), True)
        return [s1], [s2]

    def kind_truth(self, st, k, v):
        """(may be true, may be false)"""
        if k[0] == 'none':
            return False, True
        if k[0] in ('fn', 'cls', 'mod', 'bm', 'xm'):
            return True, False
        if k[0] == 'ref':
            o = st.heap.get(k[1])
            if o is None:
                return True, True
            if o.kind == 'vec':
                return True, False
            if o.kind in ('list', 'tuple', 'set', 'dict'):
                L = self.clen(st, v) if len(v.kinds) == 1 else o.length
                if L is not None:
                    c = T.num(L)
                    if c is not None:
                        return (True, False) if c else (False, True)
                    if self.fact(st, ('eq', L)) is False or self.known_pos(st, L):
                        return True, False
                    if self.fact(st, ('eq', L)) is True:
                        return False, True
                return True, True
            if o.kind == 'inst':
                c = self.classes.get(o.cls)
                if c is not None and (c.find('__bool__') or c.find('__len__')):
                    return True, True
                return True, False
            if o.kind == 'iter':
                return True, False
            return True, True
        return True, True

    def cond(self, node, st):
        """evaluate node as a condition -> (true_states, false_states)"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            a, b = self.cond(node.operand, st)
            return b, a
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                cur, fs = [st], []
                for x in node.values:
                    nxt = []
                    for s in cur:
                        a, b = self.cond(x, s)
                        nxt += a
                        fs += b
                    cur = nxt
                return cur, fs
            cur, ts = [st], []
            for x in node.values:
                nxt = []
                for s in cur:
                    a, b = self.cond(x, s)
                    ts += a
                    nxt += b
                cur = nxt
            return ts, cur
        ts, fs = [], []
        for s, v in self.eval(node, st):
            # a boolean term built by compare(): decode to path facts
            a, b = self.truth_term(s, v, node)
            ts += a
            fs += b
        return ts, fs

    def truth_term(self, st, v, node):
        t = v.term
        op = T.op(t)
        if v.kinds == frozenset([BOOL]) and op is not None:
            if op == 'not':
                a, b = self.truth_term(st, self.boolv(T.args(t)[0]), node)
                return b, a
            if op in ('and', 'or'):
                return self.truth_andor(st, T.args(t), op == 'and', node)
            if op == 'lt':
                a, b = self.split(st, ('lt', T.args(t)[0]))
                return [a] if a else [], [b] if b else []
            if op == 'eq':
                a, b = self.split(st, ('eq', T.args(t)[0]))
                return [a] if a else [], [b] if b else []
            if op == 'isnone':
                a, b = self.split(st, ('isnone', T.args(t)[0]))
                return [a] if a else [], [b] if b else []
            if op == 'in':
                a, b = self.split(st, ('in',) + T.args(t))
                return [a] if a else [], [b] if b else []
            if op == 'isinst':
                a, b = self.split(st, ('isinst',) + T.args(t))
                return [a] if a else [], [b] if b else []
            if op == 'truthof':
                pass
        a, b = self.truth(st, v, node)
        for s in a:
            self.emit_assume_true(s, v, True)
        return a, b

    def truth_andor(self, st, parts, isand, node):
        cur, other = [st], []
        for p in parts:
            nxt = []
            for s in cur:
                a, b = self.truth_term(s, self.boolv(p), node)
                if isand:
                    nxt += a
                    other += b
                else:
                    nxt += b
                    other += a
            cur = nxt
        return (cur, other) if isand else (other, cur)

    def emit_assume_true(self, st, v, val):
        """consequences of a true aggregate condition, e.g. all(x is not None for x in L)"""
        t = v.term
        if T.op(t) == 'allof':
            # args: container, version, k, element-condition term
            cont, ver, k, c = T.args(t)
            st.facts[('forall', cont, ver, k, c)] = True

    def elem_facts(self, st, cont, ver, idx, v):
        """instantiate forall-facts for element cont[idx]"""
        ks = v.kinds
        for f, val in list(st.facts.items()):
            if f[0] == 'forall' and val and f[1] == cont and f[2] == ver:
                k, c = f[3], f[4]
                ci = T.subst(c, k, idx)
                neg = False
                if T.op(ci) == 'not':
                    neg = True
                    ci = T.args(ci)[0]
                if T.op(ci) == 'isnone':
                    st.facts[('isnone', T.args(ci)[0])] = not neg
                elif T.op(ci) == 'isinst':
                    st.facts[('isinst',) + T.args(ci)] = not neg
                elif not neg:
                    st.facts[('truth', ci)] = True

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        out = Out(list(states))
        for s in stmts:
            if not out.normal:
                break
            cur = out.normal
            out.normal = []
            nxt = []
            for st in cur:
                o = self.exec_stmt(s, st)
                nxt += o.normal
                out.absorb(o)
            if len(nxt) > 1:
                if self.fstack and not isinstance(self.fstack[-1].node, ast.Lambda):
                    live = self.live_of(self.fstack[-1]).after.get(s._id)
                    if live is not None:
                        nxt = [x.copy() for x in nxt]
                        for x in nxt:
                            self.kill_dead(x, live)
                nxt = self.merge(nxt, s, 's')
            out.normal = nxt
        return out

    def exec_stmt(self, s, st):
        self.visited_nodes += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note('statement ' + type(s).__name__, s)
            return Out([st])
        return m(s, st)

    def s_Pass(self, s, st):
        return Out([st])

    def s_Global(self, s, st):
        st = st.copy()
        g = st.marks.get('globals:' + st.frames[-1][0], frozenset())
        st.marks['globals:' + st.frames[-1][0]] = g | frozenset(s.names)
        return Out([st])

    def s_Nonlocal(self, s, st):
        st = st.copy()
        g = st.marks.get('nonlocals:' + st.frames[-1][0], frozenset())
        st.marks['nonlocals:' + st.frames[-1][0]] = g | frozenset(s.names)
        return Out([st])

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return Out([st])
        return Out([x for x, _ in self.eval(s.value, st)])

    def s_Assign(self, s, st):
        res = []
        for x, v in self.eval(s.value, st):
            cur = [x.copy()]
            for tg in s.targets:
                cur = [z for y in cur for z in self.assign(tg, v, y, s, literal_none=isinstance(s.value, ast.Constant) and s.value.value is None)]
            res += cur
        return Out(res)

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return Out([st])
        return Out([z for x, v in self.eval(s.value, st) for z in self.assign(s.target, v, x.copy(), s)])

    def s_AugAssign(self, s, st):
        res = []
        load = ast.copy_location(_as_load(s.target), s.target)
        for x, cur in self.eval(load, st):
            for y, rhs in self.eval(s.value, x):
                for z, nv, inplace in self.augop(y.copy(), s, cur, rhs):
                    if inplace:
                        # rebinding to the same object
                        res += self.assign(s.target, nv, z, s, rebinding=True)
                    else:
                        res += self.assign(s.target, nv, z, s)
        return Out(res)

    def augop(self, st, s, cur, rhs):
        cur = self.load(st, cur)
        refs = [k for k in cur.kinds if k[0] == 'ref']
        if refs:
            o = st.heap.get(refs[0][1])
            if o is not None and o.kind == 'list' and isinstance(s.op, ast.Add):
                return [(x, cur, True) for x in self.list_extend(st, s, cur, rhs)]
            if o is not None and o.kind == 'list' and isinstance(s.op, ast.Mult):
                self.mutate(st, s, cur, 'imul', True)
                self.havoc_list(st, cur, s)
                return [(st, cur, True)]
            if o is not None and o.kind == 'set':
                self.mutate(st, s, cur, 'iop', True)
                if isinstance(s.op, ast.Sub):
                    self.emit('shrink', st, s, target=cur, op='isub')
                elif isinstance(s.op, ast.BitOr):
                    self.container_add(st, cur, self.iter_elem(st, rhs, s), s)
                for k in refs:
                    oo = st.wobj(k[1])
                    oo.ver = T.atom('ver', self.key(s))
                    oo.length = T.atom('len?', 'l' + self.key(s))
                    oo.items = None
                return [(st, cur, True)]
            if o is not None and o.kind == 'vec':
                out = []
                for x, nv in self.binop(st, s, type(s.op).__name__, cur, rhs):
                    x = x.copy()
                    self.vec_store(x, s, cur, nv, 'i' + type(s.op).__name__)
                    out.append((x, cur, True))
                return out
        return [(x, nv, False) for x, nv in self.binop(st, s, type(s.op).__name__, cur, rhs)]

    def s_Return(self, s, st):
        o = Out()
        if s.value is None:
            o.ret = [(st, self.const(None, s))]
        else:
            o.ret = [(x, v) for x, v in self.eval(s.value, st)]
        o.normal = []
        return o

    def s_If(self, s, st):
        ts, fs = self.cond(s.test, st)
        out = Out()
        a = self.exec_block(s.body, self.merge(ts, s, 't'))
        b = self.exec_block(s.orelse, self.merge(fs, s, 'f')) if s.orelse else Out(fs)
        out.normal = self.merge(a.normal + b.normal, s, 'i')
        out.absorb(a)
        out.absorb(b)
        return out

    def s_FunctionDef(self, s, st):
        st = st.copy()
        fn = s._fninfo
        states = [st]
        # defaults are evaluated once, at definition time
        dvals = []
        for d in list(s.args.defaults) + [d for d in s.args.kw_defaults if d is not None]:
            (x, v), = self.eval1(d, states[0])
            states = [x]
            dvals.append((d, v))
        st = states[0].copy()
        for d, v in dvals:
            st.globs = dict(st.globs)
            st.globs[('default', 'n%d' % d._id)] = v
        v = V(T.atom('fn', fn.fid), frozenset([('fn', fn.fid, st.frames[-1][0])]), None)
        for d in s.decorator_list:
            dn = ast.unparse(d)
            if dn not in ('property', 'classmethod', 'staticmethod') and not dn.endswith('.setter'):
                if dn.split('(')[0].split('.')[-1] in ('lru_cache', 'cache', 'cached_property'):
                    self.emit('memo', st, s, name=dn)
                else:
                    self.note('decorator ' + dn, s)
        st.env[s.name] = v
        return Out([st])

    def eval1(self, node, st):
        r = self.eval(node, st)
        return r[:1]

    def s_ClassDef(self, s, st):
        st = st.copy()
        cid = 'c%d' % s._id
        c = Cls(cid, s.name, s._mod, s)
        self.classes[cid] = c
        for b in s.bases:
            (st, bv), = self.eval1(b, st)
            st = st.copy()
            for k in bv.kinds:
                if k[0] == 'cls':
                    c.bases.append(self.classes[k[1]])
                elif k[0] == 'ext':
                    c.bases.append(k[1])
        st.frames = st.frames + [('C:' + cid, {})]
        o = self.exec_block(s.body, [st])
        st = o.normal[0]
        env = st.frames[-1][1]
        st = st.copy()
        st.frames = st.frames[:-1]
        st.frames[-1] = (st.frames[-1][0], dict(st.frames[-1][1]))
        for k, v in env.items():
            fk = [x for x in v.kinds if x[0] == 'fn']
            if fk and isinstance(self.prog.fns[fk[0][1]].node, ast.FunctionDef):
                f = self.prog.fns[fk[0][1]]
                f.cls = c
                c.methods[k] = f
            else:
                c.attrs[k] = v
        st.env[s.name] = V(T.atom('cls', cid), frozenset([('cls', cid)]), None)
        self.cls_by_node[s._id] = c
        return Out([st])

    def s_Import(self, s, st):
        st = st.copy()
        for a in s.names:
            name = a.name if a.asname else a.name.split('.')[0]
            st.env[a.asname or name] = self.ext(name)
        return Out([st])

    def ext(self, name):
        return V(T.atom('ext', name), frozenset([('ext', name)]), None)

    def s_ImportFrom(self, s, st):
        st = st.copy()
        base = s.module or ''
        mod = s._mod.name
        if s.level:
            parts = mod.split('.')
            parts = parts[:len(parts) - s.level] if mod in self.prog.modules and not mod.endswith('__init__') else parts[:-1]
            base = '.'.join(parts + ([s.module] if s.module else []))
        if mod == 'addon' and s.level:
            base = 'bpypolyskel' if s.module == 'bpypolyskel' else base
        for a in s.names:
            full = base + '.' + a.name if base else a.name
            if base in self.prog.modules:
                self.ensure_module(base, st)
                if a.name == '*':
                    names = {n: v for (m, n), v in st.globs.items() if m == base and not n.startswith('_')}
                    for n, v in names.items():
                        st.env[n] = v
                else:
                    st.env[a.asname or a.name] = st.globs.get((base, a.name), self.ext(full))
            elif full in self.prog.modules:
                self.ensure_module(full, st)
                st.env[a.asname or a.name] = V(T.atom('mod', full), frozenset([('mod', full)]), None)
            elif a.name == '*':
                for n in STAR.get(base, ()):
                    st.env[n] = self.ext(base + '.' + n)
            else:
                st.env[a.asname or a.name] = self.ext(full)
        return Out([st])

    def s_Delete(self, s, st):
        states = [st.copy()]
        for tg in s.targets:
            nxt = []
            for x in states:
                if isinstance(tg, ast.Name):
                    x = x.copy()
                    x.env.pop(tg.id, None)
                    nxt.append(x)
                elif isinstance(tg, ast.Subscript):
                    for y, base in self.eval(tg.value, x):
                        if isinstance(tg.slice, ast.Slice):
                            y = y.copy()
                            self.mutate(y, s, base, 'delslice', True, **self.slice_bounds(y, tg.slice))
                            self.havoc_list(y, base, s, clear=tg.slice.lower is None and tg.slice.upper is None)
                            nxt.append(y)
                            continue
                        for z, i in self.eval(tg.slice, y):
                            z = z.copy()
                            self.check_none(z, s, base, 'del item')
                            self.emit('mayraise', z, s, what='del item')
                            self.mutate(z, s, base, 'delitem', True, index=i)
                            self.shrink(z, base, s)
                            nxt.append(z)
                elif isinstance(tg, ast.Attribute):
                    for y, base in self.eval(tg.value, x):
                        self.emit('setattr', y, s, target=base, attr=tg.attr, value=None)
                        nxt.append(y)
                else:
                    nxt.append(x)
            states = nxt
        return Out(states)

    def s_Assert(self, s, st):
        ts, fs = self.cond(s.test, st)
        for f in fs:
            self.emit('mayraise', f, s, what='assert')
        return Out(self.merge(ts, s, 'a'))

    def s_Raise(self, s, st):
        for x, _ in (self.eval(s.exc, st) if s.exc is not None else [(st, None)]):
            self.emit('raise', x, s)
            self.emit('mayraise', x, s, what='raise')
        return Out([])

    def s_With(self, s, st):
        states = [st]
        for it in s.items:
            nxt = []
            for x in states:
                for y, v in self.eval(it.context_expr, x):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, y.copy(), s)
                    else:
                        nxt.append(y)
            states = nxt
        return self.exec_block(s.body, states)

    def s_Try(self, s, st):
        names = set()
        for h in s.handlers:
            if h.type is None:
                names.add('*')
            elif isinstance(h.type, ast.Tuple):
                names |= {ast.unparse(e).split('.')[-1] for e in h.type.elts}
            else:
                names.add(ast.unparse(h.type).split('.')[-1])
        self.trystack.append(names)
        self.trynodes.append(s)
        body = self.exec_block(s.body, [st])
        self.trynodes.pop()
        self.trystack.pop()
        out = Out()
        normal = body.normal
        if s.orelse:
            o2 = self.exec_block(s.orelse, normal)
            normal = o2.normal
            out.absorb(o2)
        out.absorb(body)
        for h in s.handlers:
            # the handler starts from any point of the body: start joined with its ends
            hs = st.copy()
            for b in body.normal + body.brk + body.cont + [x for x, _ in body.ret]:
                hs = self.join(hs, b, 'T' + self.key(h))
            hs = hs.copy()
            hs.facts = {k: v for k, v in hs.facts.items() if st.facts.get(k) == v}
            if h.name:
                hs.env[h.name] = self.unk(h, 'exc')
            self.handling.append((s, 'except'))
            o3 = self.exec_block(h.body, [hs])
            self.handling.pop()
            normal = normal + o3.normal
            out.absorb(o3)
        normal = self.merge(normal, s, 'y')
        if s.finalbody:
            self.handling.append((s, 'finally'))
            o4 = self.exec_block(s.finalbody, normal)
            self.handling.pop()
            normal = o4.normal
            out.absorb(o4)
        out.normal = normal
        return out

    def caught(self, *names):
        for t in self.trystack:
            if '*' in t or 'Exception' in t or 'BaseException' in t or any(n in t for n in names):
                return True
        return False

    def s_Break(self, s, st):
        o = Out([])
        o.brk = [st]
        return o

    def s_Continue(self, s, st):
        o = Out([])
        o.cont = [st]
        return o

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st):
        out = Out()
        for x, it in self.eval(s.iter, st):
            it = self.load(x, it)
            o = self.run_for(s, x, it, lambda y, v: self.assign(s.target, v, y, s),
                             lambda ss: self.exec_block(s.body, ss), s.orelse)
            out.normal += o.normal
            out.absorb(o)
        out.normal = self.merge(out.normal, s, 'F')
        return out

    def run_for(self, node, st, it, bind, body, orelse=None, unroll=3):
        out = Out()
        self.check_none(st, node, it, 'iterate')
        for st, sh in self.shape(st, it, node):
            exact = self.exact_items(st, sh)
            if exact is not None and len(exact) <= max(self.unrollmax, 8 if self.exact_here() else unroll) and not self.is_mutated_loop(node):
                o = self.unrolled(node, st, exact, bind, body, orelse)
                out.normal += o.normal
                out.absorb(o)
                continue
            lk = 'L' + self.key(node)
            k = T.atom('k', lk)
            trip = self.trip(st, sh)
            heads = {}
            s0 = st.copy()
            self.consume(s0, sh, node)
            lv = self.liveval(sh)
            s0.iters = s0.iters + ((lk, lv),)
            heads[0] = s0

            def step(h):
                y = h.copy()
                if trip is not None:
                    y.facts[('lt', T.sub(k, trip))] = True
                    y.facts[('eq', self.canon(trip))] = False
                y.facts[('lt', k)] = False
                res = []
                for z, v in self.shape_elem(y, sh, k, node):
                    res += bind(z.copy(), v)
                return res, [h]
            o = self.fixloop(node, lk, heads, step, body, trip, k)
            for f in ('normal', 'brk', 'cont'):
                for x in getattr(o, f):
                    x.iters = tuple(i for i in x.iters if i[0] != lk)
            for x, _ in o.ret:
                x.iters = tuple(i for i in x.iters if i[0] != lk)
            exits = o.normal
            if orelse:
                o2 = self.exec_block(orelse, exits)
                exits = o2.normal
                out.absorb(o2)
            out.normal += exits + o.brk
            out.ret += o.ret
        return out

    def is_mutated_loop(self, node):
        return False

    def unrolled(self, node, st, items, bind, body, orelse):
        out = Out()
        cur = [st]
        brk = []
        for i, v in enumerate(items):
            self.ctx.append('u%d' % i)
            nxt = []
            for x in cur:
                nxt += bind(x.copy(), v)
            o = body(nxt)
            self.ctx.pop()
            cur = self.merge(o.normal + o.cont, node, 'u')
            brk += o.brk
            out.ret += o.ret
        if orelse:
            o2 = self.exec_block(orelse, cur)
            cur = o2.normal
            out.absorb(o2)
        out.normal = cur + brk
        return out

    def s_While(self, s, st):
        lk = 'L' + self.key(s)
        k = T.atom('k', lk)

        def step(h):
            ts, fs = self.cond(s.test, h)
            return ts, fs
        o = self.fixloop(s, lk, {0: st.copy()}, step, lambda ss: self.exec_block(s.body, ss), None, k)
        out = Out()
        exits = o.normal
        if s.orelse:
            o2 = self.exec_block(s.orelse, exits)
            exits = o2.normal
            out.absorb(o2)
        out.normal = self.merge(exits + o.brk, s, 'w')
        out.ret = o.ret
        return out

    def fixloop(self, node, lk, heads, step, body, trip, k):
        """iterate to a fixpoint; returns Out(normal=exhaustion exits, brk, ret)"""
        saved_clients = self.clients
        self.loops_seen[getattr(node, '_id', 0)] = node
        quiet = self.quiet > 0
        if not quiet and 0 in heads:
            self.emit('loopstart', heads[0], node, lk=lk)
        if self.exact_fns and self.loopdepth == 0:
            self.loopcache = {}        # what another path found out does not belong to this one
        if quiet and self.loopdepth >= 1 and lk in self.loopcache:
            warm = self.loopcache[lk]
            s0 = heads[0]
            key = self.pkey(s0)
            cand = [kk for kk, hh in warm.items() if self.pkey(hh) == key]
            if not cand and set(warm) == {0}:
                cand = [0]
            if len(warm) and len(next(iter(warm.values())).frames) == len(s0.frames):
                new = dict(warm)
                if cand:
                    self._loopjoin = True
                    j = self.join(s0, warm[cand[0]], lk)
                    self._loopjoin = False
                    new[cand[0]] = j
                else:
                    new[key if key not in new else 0] = s0
                heads = new
        else:
            for f in [f for f in self.phis if self.philoop.get(f) == lk]:
                del self.phis[f]
        self.loopdepth += 1
        self.loopstack.append(lk)
        self.quiet += 1
        o = enters = exits = None
        for p in range(MAXPASS):
            self.passes += 1
            self.clients = [c for c in saved_clients if getattr(c, 'always', False)]
            for f in [f for f in self.phistep if self.philoop.get(f) == lk]:
                del self.phistep[f]
                self.phiback.pop(f, None)
            enters, exits = [], []
            for h in heads.values():
                h2 = h.copy()
                h2.marks['L:' + lk] = frozenset()
                a, b = step(h2)
                enters += a
                exits += b
            enters = self.merge(enters, node, 'e')
            o = body(enters)
            back = o.normal + o.cont
            new = dict(heads)
            changed = False
            self.nback[lk] = len(back)
            for bi, b in enumerate(back):
                b = b.copy()
                b.marks.pop('L:' + lk, None)
                self.emit('backedge', b, node, lk=lk)
                self.prune_head(node, b)
                if not self.headpart or p > 3 or len(new) > 6:
                    key = 0
                    if set(new) != {0}:
                        it = iter(list(new.values()))
                        r = next(it)
                        for s in it:
                            r = self.join(r, s, lk)
                        new = {0: r}
                        changed = True
                else:
                    # find a head with the same partition key
                    key = self.pkey(b)
                    cand = [kk for kk, hh in new.items() if self.pkey(hh) == key]
                    key = cand[0] if cand else key
                if key in new:
                    self._loopjoin, self._backid = True, bi
                    j = self.join(new[key], b, lk)
                    self._loopjoin = False
                    if not self.same_state(j, new[key]):
                        if self.debugloop is not None and self.loopdepth <= self.debugloop and p > 1:
                            self.explain(j, new[key])
                        new[key] = j
                        changed = True
                else:
                    new[key] = b
                    changed = True
            heads = new
            if self.debugloop is not None and self.loopdepth <= self.debugloop:
                import time
                print('%s pass %d line %s depth %d heads %d enters %d back %d heap %d changed %s t=%.1f' % (
                    ' ' * self.loopdepth, p, getattr(node, 'lineno', 0), self.loopdepth, len(heads), len(enters), len(back),
                    len(enters[0].heap) if enters else 0, changed, time.time() - T0))
            if not changed:
                break
        else:
            self.note('loop fixpoint not reached', node)
        self.quiet -= 1
        self.loopcache[lk] = heads
        self.clients = saved_clients
        if not quiet:
            # final, recorded pass
            for f in [f for f in self.phistep if self.philoop.get(f) == lk]:
                del self.phistep[f]
                self.phiback.pop(f, None)
            enters, exits = [], []
            for h in heads.values():
                h2 = h.copy()
                h2.marks['L:' + lk] = frozenset()
                a, b = step(h2)
                enters += a
                exits += b
            enters = self.merge(enters, node, 'e')
            o = body(enters)
            self.nback[lk] = len(o.normal + o.cont) if len(heads) == 1 else 0
            for bi, b in enumerate(o.normal + o.cont):
                b = b.copy()
                self.emit('loopback', b, node, lk=lk, test=getattr(node, 'test', None))
                self.emit('backedge', b, node, lk=lk)
                if 'D:' + lk in b.marks:
                    self.emit('iterdirty', b, node, lk=lk, where=b.marks['D:' + lk])
                self.prune_head(node, b)
                self._loopjoin, self._backid = True, bi
                self.join(next(iter(heads.values())), b, lk)
                self._loopjoin = False
        self.loopdepth -= 1
        self.loopstack.pop()
        for x in exits + o.brk + [y for y, _ in o.ret]:
            x.marks.pop('L:' + lk, None)
            x.marks.pop('D:' + lk, None)
        for b in exits:
            self.emit('loopexit', b, node, lk=lk, enters=enters)
        for b in o.brk:
            self.emit('loopbreak', b, node, lk=lk, enters=enters)
        out = Out()
        ex = []
        for x in exits:
            ex.append(self.close_phis(x, lk, trip, k) if trip is not None else x)
        out.normal = self.merge(ex, node, 'x')
        out.brk = o.brk
        out.ret = o.ret
        return out

    def explain(self, j, h):
        for (k1, e1), (k2, e2) in zip(j.frames, h.frames):
            for k in set(e1) | set(e2):
                if e1.get(k) != e2.get(k):
                    print('  ENV', k, e1.get(k), e2.get(k))
        for o in j.heap:
            x, y = j.heap[o], h.heap.get(o)
            if y is None:
                print('  NEWOBJ', o, x.kind)
            elif x is not y and not x.same(y):
                for s in Obj.__slots__:
                    if getattr(x, s) != getattr(y, s):
                        print('  OBJ', o, x.kind, s, getattr(x, s), getattr(y, s))
        for k in set(j.facts) ^ set(h.facts):
            print('  FACT', k)
        for k in j.marks:
            if j.marks[k] != h.marks.get(k):
                print('  MARK', k)
        for k in j.fver:
            if j.fver[k] != h.fver.get(k):
                print('  FVER', k)

    def prune_head(self, node, b):
        if not isinstance(node, (ast.For, ast.While)) or not self.fstack or \
                isinstance(self.fstack[-1].node, ast.Lambda) or self.fstack[-1].is_gen:
            return
        live = self.live_of(self.fstack[-1]).head.get(node._id)
        if live is None:
            return
        self.kill_dead(b, live)
        self.collect(b, [])

    def same_state(self, a, b):
        if a is b:
            return True
        if a.facts != b.facts or a.fver != b.fver or a.marks != b.marks or a.globs != b.globs:
            return False
        if len(a.frames) != len(b.frames):
            return False
        for (k1, e1), (k2, e2) in zip(a.frames, b.frames):
            if e1 is not e2 and e1 != e2:
                return False
        if a.heap.keys() != b.heap.keys():
            return False
        for o in a.heap:
            x, y = a.heap[o], b.heap[o]
            if x is not y and not x.same(y):
                return False
        return True

    def induction(self, phi, lk, k):
        """(init, step) if phi is an induction value of loop lk, else None"""
        if T.op(phi) != 'phi' or T.args(phi)[0] != lk:
            return None
        inits = self.phis.get(phi, set())
        steps = self.phistep.get(phi, set())
        if len(inits) != 1 or len(steps) != 1:
            return None
        if len(self.phiback.get(phi, ())) < self.nback.get(lk, 0):
            return None         # some path leaves it as it is
        d = T.sub(next(iter(steps)), phi)
        if T.mentions(d, phi):
            return None
        return next(iter(inits)), d

    def close_phis(self, st, lk, trip, k):
        """replace induction values of a finished counted loop by their closed form"""
        cache = {}

        def cl(t, isw):
            if T.op(t) != 'phi' or T.args(t)[0] != lk:
                return t
            if t in cache:
                return cache[t]
            ind = self.induction(t, lk, k)
            r = t
            if ind is not None:
                init, d = ind
                if not self.loop_variant(d, lk):
                    r = T.add(init, T.mul(trip, d))
                else:
                    r = T.add(init, T.atom('sum', lk, d, k, trip))
            else:
                inits = self.phis.get(t, set())
                steps = self.phistep.get(t, set())
                if len(inits) == 1 and len(steps) == 1:
                    b = next(iter(steps))
                    i0 = next(iter(inits))
                    if T.op(b) in ('max', 'min') and t in T.args(b):
                        other = [a for a in T.args(b) if a != t]
                        if len(other) == 1:
                            r = T.atom(T.op(b) + 'over', other[0], k, trip, i0)
            cache[t] = r
            return r

        def cv(v):
            if v is None:
                return None
            t = cl(v.term, False)
            w = v.w
            if w is not None:
                w = tuple(cl(x, True) for x in w)
            return v if (t == v.term and w == v.w) else V(t, v.kinds, w)
        st = st.copy()
        nf = []
        for fk, e in st.frames:
            ne = None
            for kk, v in e.items():
                n = cv(v)
                if n is not v:
                    if ne is None:
                        ne = dict(e)
                    ne[kk] = n
            nf.append((fk, ne if ne is not None else e))
        st.frames = nf
        for oid in list(st.heap):
            o = st.heap[oid]
            fields = {f: cv(v) for f, v in o.fields.items()}
            ln = cl(o.length, False) if o.length is not None else None
            if ln != o.length or any(fields[f] is not o.fields[f] for f in fields):
                o = st.wobj(oid)
                o.fields = fields
                o.length = ln
        return st

    def loop_variant(self, t, lk):
        def pred(x):
            return T.op(x) in ('phi', 'k') and T.args(x)[0] == lk or \
                (T.op(x) in ('ver', 'obj', 'elem') and lk in str(T.rev[x]))
        return bool(T.find(t, pred))

    # -------------------------------------------------------------- assign
    def assign(self, tg, v, st, node, rebinding=False, literal_none=False):
        """st is owned by the caller (already copied)"""
        if isinstance(tg, ast.Name):
            fk = st.frames[-1][0]
            if tg.id in st.marks.get('globals:' + fk, ()):
                if not rebinding:
                    self.emit('globalwrite', st, node, mod=node._mod.name, name=tg.id, value=v)
                st.globs = dict(st.globs)
                st.globs[(node._mod.name, tg.id)] = v
                return [st]
            if tg.id in st.marks.get('nonlocals:' + fk, ()):
                for i in range(len(st.frames) - 2, -1, -1):
                    if tg.id in st.frames[i][1]:
                        st.frames = list(st.frames)
                        st.frames[i] = (st.frames[i][0], dict(st.frames[i][1]))
                        st.frames[i][1][tg.id] = v
                        return [st]
            st.env[tg.id] = v
            return [st]
        if isinstance(tg, (ast.Tuple, ast.List)):
            return self.unpack(tg, v, st, node)
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, v, st, node)
        if isinstance(tg, ast.Attribute):
            out = []
            for x, base in self.eval(tg.value, st):
                x = x.copy()
                self.check_none(x, node, base, 'set .' + tg.attr)
                vv = self.none_untracked() if literal_none else v
                self.setattr(x, node, base, tg.attr, vv, rebinding)
                out.append(x)
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for x, base in self.eval(tg.value, st):
                if isinstance(tg.slice, ast.Slice):
                    x = x.copy()
                    self.mutate(x, node, base, 'setslice', True, slice=tg.slice, **self.slice_bounds(x, tg.slice), put=self.iter_elem(x.copy(), v, node), src=v)
                    self.container_add(x, base, self.iter_elem(x, v, node), node)
                    self.havoc_list(x, base, node)
                    out.append(x)
                    continue
                for y, i in self.eval(tg.slice, x):
                    y = y.copy()
                    self.check_none(y, node, base, 'set item')
                    if not rebinding:
                        self.setitem(y, node, base, i, v)
                    out.append(y)
            return out
        self.note('assign target ' + type(tg).__name__, node)
        return [st]

    def unpack(self, tg, v, st, node):
        n = len(tg.elts)
        v = self.load(st, v)
        self.check_none(st, node, v, 'unpack')
        states = [st]
        star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
        for i, e in enumerate(tg.elts):
            nxt = []
            for x in states:
                if star:
                    ev = self.iter_elem(x, v, node)
                    if i in star:
                        ev = self.new_list(x, e, elem=ev)
                    nxt += self.assign(e, ev, x, node)
                else:
                    for y, ev in self.getitem(x, node, v, self.const(i), quiet=True):
                        nxt += self.assign(e, ev, y.copy(), node)
            states = nxt
        return states

    def setattr(self, st, node, base, attr, v, rebinding=False):
        base = self.load(st, base)
        if not rebinding:
            self.emit('setattr', st, node, target=base, attr=attr, value=v)
            if st.iters:
                self.traversed_attr(st, node, base, attr)
        refs = [k for k in base.kinds if k[0] == 'ref']
        strong = len(refs) == 1 and len([k for k in base.kinds if k[0] != 'none']) == 1
        infresh = bool(self.fstack) and self.fstack[-1].qual.endswith('.__init__')
        if self.sym_classes is not None:
            self.sym_setattr(st, node, base, attr, v)
        for k in base.kinds:
            if k[0] == 'ref':
                o = st.heap.get(k[1])
                if o is None:
                    continue
                if o.kind == 'vec':
                    if attr in ('x', 'y', 'z'):
                        self.mutate(st, node, base, 'set.' + attr, False)
                        oo = st.wobj(k[1])
                        f = str('xyz'.index(attr))
                        oo.fields[f] = v if (strong and o.single) else self.joinv(oo.fields.get(f), v, 'w' + self.key(node), f)
                    else:
                        self.mutate(st, node, base, 'set.' + attr, False)
                    continue
                oo = st.wobj(k[1])
                if strong and o.single:
                    oo.fields[attr] = v
                else:
                    old = oo.fields.get(attr)
                    oo.fields[attr] = v if old is None else self.joinv(old, V(T.atom('elemof', k[1], attr), v.kinds, v.w), 'w' + self.key(node), k[1] + attr)
            elif k[0] == 'cls':
                self.emit('clswrite', st, node, cls=k[1], attr=attr, value=v)
            elif k[0] == 'mod':
                self.emit('globalwrite', st, node, mod=k[1], name=attr, value=v)
            elif k[0] == 'fn':
                self.emit('globalwrite', st, node, mod=node._mod.name, name='function attribute ' + attr, value=v)
        if not infresh:
            st.fver['.' + attr] = T.atom('fver', self.key(node))
            if strong and attr != '' and st.heap.get(refs[0][1]) is not None and not st.heap[refs[0][1]].single:
                # the value just written through this very access path is known
                st.facts[('fieldval', base.term, '.' + attr, st.fver['.' + attr])] = v

    # ---------------------------------------------------------- expressions
    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note('expression ' + type(n).__name__, n)
            return [(st, self.unk(n))]
        return m(n, st)

    def evals(self, nodes, st):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for x, vs in res:
                for y, v in self.eval(n, x):
                    nxt.append((y, vs + [v]))
            res = nxt
        return res

    def e_Constant(self, n, st):
        return [(st, self.const(n.value, n))]

    def e_NamedExpr(self, n, st):
        out = []
        for x, v in self.eval(n.value, st):
            for y in self.assign(n.target, v, x.copy(), n):
                out.append((y, v))
        return out

    def e_Name(self, n, st):
        return [(st, self.load(st, self.lookup(n.id, st, n)))]

    def lookup(self, name, st, n):
        fk, env = st.frames[-1]
        if name in env and name not in st.marks.get('globals:' + fk, ()):
            v = env[name]
            if ('unbound',) in v.kinds:
                ks = v.kinds - frozenset([('unbound',)])
                self.emit('unbound', st, n, name=name, definite=not ks)
                v = V(v.term, ks, v.w)
            else:
                self.emit('boundread', st, n, name=name)
            return v
        # enclosing function frames (closures) : frames deeper in the stack whose
        # function lexically encloses the current one
        fn = self.fstack[-1] if self.fstack else None
        if fn is not None:
            p = getattr(fn.node, '_p', None)
            while p is not None:
                if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                    for fk2, e2 in reversed(st.frames[:-1]):
                        if fk2.startswith('F:%d:' % p._id) and name in e2:
                            return e2[name]
                p = getattr(p, '_p', None)
        mod = n._mod.name if hasattr(n, '_mod') else self.curmod
        if fn is not None and fk.startswith('F:') and name in self.locals_of(fn):
            self.emit('unbound', st, n, name=name, definite=True)
            return self.unk(n)
        if (mod, name) in st.globs:
            if not fk.startswith('M:'):
                self.emit('globalread', st, n, mod=mod, name=name)
            return st.globs[(mod, name)]
        for fk2, e2 in st.frames:
            if fk2 == 'M:' + mod and name in e2:
                return e2[name]
        if fk.startswith('C:'):
            for fk2, e2 in reversed(st.frames[:-1]):
                if name in e2:
                    return e2[name]
        return self.builtin(name)

    def locals_of(self, fn):
        memo = self.__dict__.setdefault('_locals', {})
        k = fn.node._id
        if k not in memo:
            out, glob = set(), set()
            work = list(fn.node.body) if isinstance(fn.node.body, list) else []
            while work:
                w = work.pop()
                if isinstance(w, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    out.add(w.name)
                    continue
                if isinstance(w, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(w, ast.Name) and isinstance(w.ctx, (ast.Store, ast.Del)):
                    out.add(w.id)
                if isinstance(w, (ast.Global, ast.Nonlocal)):
                    glob.update(w.names)
                work.extend(ast.iter_child_nodes(w))
            memo[k] = out - glob
        return memo[k]

    def builtin(self, name):
        if name in ('True', 'False', 'None'):
            return self.const({'True': True, 'False': False, 'None': None}[name])
        return V(T.atom('ext', 'builtins.' + name), frozenset([('ext', 'builtins.' + name)]), None)

    def e_Tuple(self, n, st):
        return self._seq(n, st, 'tuple')

    def e_List(self, n, st):
        return self._seq(n, st, 'list')

    def e_Set(self, n, st):
        return self._seq(n, st, 'set')

    def _seq(self, n, st, kind):
        out = []
        if any(isinstance(e, ast.Starred) for e in n.elts):
            for x, vs in self.evals([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st):
                x = x.copy()
                el = None
                items = []
                ln = T.ZERO
                for e, v in zip(n.elts, vs):
                    if isinstance(e, ast.Starred):
                        ex = self.exact_of(x, v)
                        if ex is not None and items is not None:
                            items += ex
                        else:
                            items = None
                        ln = T.add(ln, self.clen(x, v) if self.clen(x, v) is not None else T.atom('len?', 's' + self.key(e)))
                        el = self.joinv(el, self.iter_elem(x, v, n), 'st' + self.key(e))
                    else:
                        if items is not None:
                            items.append(v)
                        ln = T.add(ln, T.ONE)
                        el = self.joinv(el, v, 'st' + self.key(e))
                if items is not None:
                    out.append((x, self.new_list(x, n, items=items, kind=kind)))
                else:
                    out.append((x, self.new_list(x, n, elem=el, length=ln, kind=kind)))
            return out
        for x, vs in self.evals(n.elts, st):
            x = x.copy()
            self.emit('display', x, n, items=vs)
            r = self.new_list(x, n, items=vs, kind=kind)
            out.append((x, r))
        return out

    def e_Dict(self, n, st):
        out = []
        for x, vs in self.evals([k for k in n.keys if k is not None] + list(n.values), st):
            x = x.copy()
            oid = self.alloc(x, n, 'dict')
            o = x.heap[oid]
            ks = vs[:len(n.keys)]
            for kv, vv in zip(ks, vs[len(ks):]):
                o.key = self.generic(self.joinv(o.key, kv, 'dk' + oid), oid)
                o.elem = self.generic(self.joinv(o.elem, vv, 'dv' + oid), oid)
                if T.rev[kv.term][0] == 'k':
                    o.fields[T.rev[kv.term][2]] = vv
            o.length = T.const(len(ks))
            out.append((x, self.ref(oid)))
        return out

    def e_JoinedStr(self, n, st):
        res = [(st, None)]
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                res = [(y, None) for x, _ in res for y, _v in self.eval(v.value, x)]
        return [(x, V(T.atom('str', self.key(n)), frozenset([STR]), W0)) for x, _ in res]

    def e_Lambda(self, n, st):
        return [(st, V(T.atom('fn', n._fninfo.fid, st.frames[-1][0]), frozenset([('fn', n._fninfo.fid, st.frames[-1][0])]), None))]

    def e_IfExp(self, n, st):
        ts, fs = self.cond(n.test, st)
        out = []
        for x in self.merge(ts, n, 't'):
            out += self.eval(n.body, x)
        for x in self.merge(fs, n, 'f'):
            out += self.eval(n.orelse, x)
        return self.merge_vals(out, n)

    def merge_vals(self, out, n):
        """join (state, value) pairs with equal partition keys"""
        if len(out) <= 1:
            return out
        groups = {}
        for s, v in out:
            k = self.pkey(s, self.vsig(s, v))
            if k in groups:
                s0, v0 = groups[k]
                jk = 'E' + self.key(n)
                j = self.join(s0, s, jk)
                self._jf = (s0.facts, s.facts)
                nv = self.joinv(v0, v, jk, 'val')
                if nv.term not in (v0.term, v.term):
                    for pred in ('truth',):
                        fa = s0.facts.get((pred, v0.term))
                        if fa is not None and s.facts.get((pred, v.term)) == fa:
                            j.facts[(pred, nv.term)] = fa
                    if self.nonzero(s0, v0.term) and self.nonzero(s, v.term):
                        j.facts[('eq', self.canon(nv.term))] = False
                groups[k] = (j, nv)
            else:
                groups[k] = (s, v)
        return list(groups.values())

    def vsig(self, st, v):
        s = self.nullsig(v)
        if s == 'O' and any(k[0] == 'ref' for k in v.kinds):
            # tuples: signature of items (so that (None, []) and (arc, []) stay apart)
            sig = []
            for k in v.kinds:
                if k[0] == 'ref':
                    o = st.heap.get(k[1])
                    if o is not None and o.kind == 'tuple' and o.items is not None:
                        sig.append(tuple(self.nullsig(i) for i in o.items))
            return (s, tuple(sorted(sig)))
        return s

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        # value semantics; when every operand is boolean build and/or terms
        cur = [(st, None)]
        out = []
        last = len(n.values) - 1
        for i, x in enumerate(n.values):
            nxt = []
            for s, _ in cur:
                for y, v in self.eval(x, s):
                    if i == last:
                        out.append((y, v))
                        continue
                    a, b = self.truth_term(y, v, x)
                    stay, leave = (a, b) if isand else (b, a)
                    for z in leave:
                        out.append((z, v if v.kinds != frozenset([BOOL]) else self.boolv(T.FALSE if isand else T.TRUE)))
                    for z in stay:
                        nxt.append((z, None))
            cur = nxt
        return out if len(out) <= 8 else self.merge_vals(out, n)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            out = []
            for x, v in self.eval(n.operand, st):
                a, b = self.truth_term(x, v, n)
                if a and b and v.kinds == frozenset([BOOL]):
                    out.append((x, self.boolv(T.atom('not', v.term))))
                    continue
                out += [(y, self.boolv(T.FALSE)) for y in a]
                out += [(y, self.boolv(T.TRUE)) for y in b]
            return out
        out = []
        for x, v in self.eval(n.operand, st):
            v = self.load(x, v)
            if isinstance(n.op, ast.USub):
                if self.is_vec(x, v):
                    x = x.copy()
                    comps, d = self.comps(x, v)
                    out.append((x, self.new_vec(x, n, [self.n_neg(c) for c in comps] if comps is not None else None)))
                else:
                    self.check_none(x, n, v, 'negate')
                    out.append((x, self.n_neg(v)))
            elif isinstance(n.op, ast.UAdd):
                out.append((x, v))
            else:
                out.append((x, self.num(T.atom('inv', v.term))))
        return out

    def e_BinOp(self, n, st):
        out = []
        for x, (a, b) in self.evals([n.left, n.right], st):
            out += self.binop(x, n, type(n.op).__name__, a, b)
        return out

    def e_Compare(self, n, st):
        ops = n.ops
        out = []
        for x, vs in self.evals([n.left] + n.comparators, st):
            parts = []
            states = [x]
            for i, op in enumerate(ops):
                parts.append(self.compare(x, n, type(op).__name__, vs[i], vs[i + 1]))
            if len(parts) == 1:
                out.append((x, self.boolv(parts[0])))
            else:
                out.append((x, self.boolv(T.atom('and', *parts))))
        return out

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Slice(self, n, st):
        vals = [(st, [])]
        for p in (n.lower, n.upper, n.step):
            nxt = []
            for x, vs in vals:
                if p is None:
                    nxt.append((x, vs + [None]))
                else:
                    nxt += [(y, vs + [v]) for y, v in self.eval(p, x)]
            vals = nxt
        return [(x, ('slice',) + tuple(vs)) for x, vs in vals]

    def e_Subscript(self, n, st):
        out = []
        for x, base in self.eval(n.value, st):
            if isinstance(n.slice, ast.Slice):
                for y, sl in self.e_Slice(n.slice, x):
                    out += self.getslice(y.copy(), n, base, sl[1:])
                continue
            for y, i in self.eval(n.slice, x):
                self.none_index(y, n, base, i)
                out += self.getitem(y, n, base, i)
        return out

    def none_index(self, st, n, base, i):
        rs = self.refs(st, base)
        if rs and all(o.kind in ('list', 'tuple') for _, o in rs):
            self.check_none(st, n, i, 'as an index')

    def e_Attribute(self, n, st):
        out = []
        for x, base in self.eval(n.value, st):
            out += self.getattr(x, n, base, n.attr)
        return out

    def e_Yield(self, n, st):
        if n.value is None:
            res = [(st, self.const(None, n))]
        else:
            res = self.eval(n.value, st)
        for x, v in res:
            self.genstack[-1].append((x, v))
        return [(x, self.unk(n, 'sent')) for x, v in res]

    def e_YieldFrom(self, n, st):
        out = []
        for x, v in self.eval(n.value, st):
            e = self.iter_elem(x, v, n)
            if e is not None:
                self.genstack[-1].append((x, e))
            out.append((x, self.unk(n, 'yf')))
        return out

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list', n.elt)

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set', n.elt)

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list', n.elt)

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict', n.value, n.key)

    def comp(self, n, st, kind, elt, keyn=None):
        """comprehension as a loop appending to a fresh container"""
        st = st.copy()
        oid = self.alloc(st, n, kind)
        o = st.heap[oid]
        o.length = T.ZERO
        if kind == 'list':
            o.items = ()
        ref = self.ref(oid)
        fk = st.frames[-1][0]
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        saved = {k: st.env[k] for k in names if k in st.env}
        info = {'k': None, 'elt': [], 'trip': None, 'sh': None, 'one': len(n.generators) == 1, 'cond': any(g.ifs for g in n.generators)}

        def level(i, s):
            """-> states after running generators[i:] once"""
            if i == len(n.generators):
                out = []
                if keyn is not None:
                    for x, (kv, vv) in self.evals([keyn, elt], s):
                        x = x.copy()
                        self.dict_store(x, ref, kv, vv, n)
                        out.append(x)
                    return out
                for x, v in self.eval(elt, s):
                    x = x.copy()
                    info['elt'].append((x, v))
                    self.emit('comp', x, n, target=ref, elem=v)
                    self.quiet_append(x, ref, v, n)
                    out.append(x)
                return out
            g = n.generators[i]
            out = []
            for x, it in self.eval(g.iter, s):
                it = self.load(x, it)

                def body(ss):
                    o2 = Out()
                    cur = ss
                    for c in g.ifs:
                        nxt = []
                        for y in cur:
                            a, b = self.cond(c, y)
                            nxt += a
                            o2.normal += b
                        cur = nxt
                    for y in cur:
                        info['elt'] = info['elt'] if not info.get('reset') else []
                        o2.normal += level(i + 1, y)
                    o2.normal = self.merge(o2.normal, g.iter, 'c')
                    return o2

                def bind(y, v):
                    return self.assign(g.target, v, y, g.iter)
                info['elt'] = []
                if i == 0:
                    for x2, sh in self.shape(x, it, g.iter):
                        info['trip'] = self.trip(x2, sh)
                        info['sh'] = sh
                        if sh[0] == 'seq':
                            self._compsrc = dict(self._compsrc)
                            self._compsrc[n._id] = (sh[1].term, self.cver(x2, sh[1]))
                        info['shk'] = T.atom('k', 'L' + self.key(g.iter))
                o3 = self.run_for(g.iter, x, it, bind, body)
                out += o3.normal
            return out
        res = level(0, st)
        final = []
        for x in self.merge(res, n, 'C'):
            x = x.copy()
            for k in names:
                if k in saved:
                    x.env[k] = saved[k]
                else:
                    x.env.pop(k, None)
            o = x.wobj(oid)
            if kind != 'list' and o.items is None and info['trip'] != T.ZERO:
                o.length = T.atom('len?', 'c' + self.key(n))      # equal elements are one
            elif info['one'] and not info['cond'] and info['trip'] is not None:
                o.length = info['trip']
                terms = {v.term for _, v in info['elt']}
                if kind == 'list' and info.get('shk') is not None and info['elt'] and o.items is None:
                    ev = info['elt'][-1][1]
                    et = ev.term if len(terms) == 1 else T.atom('phi', 'cm' + self.key(n), 'elt')
                    o.meta = ('map', info['shk'], V(et, ev.kinds, ev.w), info['trip'])
            elif o.items is None:
                o.length = T.atom('len?', 'c' + self.key(n))
            final.append((x, ref))
        return final

    def e_Call(self, n, st):
        self.callsites.add(getattr(n, '_id', 0))
        out = []
        # method call on attribute: keep receiver
        for x, f in self.eval(n.func, st):
            argn = []
            for a in n.args:
                argn.append(a.value if isinstance(a, ast.Starred) else a)
            for y, vs in self.evals(argn + [k.value for k in n.keywords], x):
                args = []
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        ex = self.exact_of(y, v)
                        if ex is not None:
                            args += ex
                        elif T.op(v.term) == 'm' and T.args(v.term)[0] == 'span':
                            # the span of a match: its first position and the one behind its last
                            args += [V(T.atom('idx', v.term, i, T.ZERO), frozenset([NUM]), W0) for i in (T.ZERO, T.ONE)]
                        else:
                            args.append(('star', self.iter_elem(y, v, n)))
                    else:
                        args.append(self.load(y, v))
                kw = {}
                for k, v in zip(n.keywords, vs[len(n.args):]):
                    kw[k.arg] = v
                out += self.apply(y, n, f, args, kw)
        return self.merge_vals(out, n) if len(out) > 1 and not self.fork_calls else out

    def apply(self, st, n, f, args, kw):
        f = self.load(st, f)
        out = []
        ks = sorted(f.kinds, key=str)
        self.check_none(st, n, f, 'call')
        for k in ks:
            s = st if len(ks) == 1 else st.copy()
            if k[0] == 'fn':
                out += self.call_fn(s, n, self.prog.fns[k[1]], args, kw, k[2])
            elif k[0] == 'bm':
                out += self.call_fn(s, n, self.prog.fns[k[1]], [k[2]] + args, kw, '')
            elif k[0] == 'xm':
                out += self.call_method(s, n, k[1], k[2], args, kw)
            elif k[0] == 'cls':
                out += self.instantiate(s, n, self.classes[k[1]], args, kw)
            elif k[0] == 'ext':
                out += self.call_ext(s, n, k[1], args, kw)
            elif k[0] in ('none', 'unbound'):
                continue
            else:
                self.emit('extcall', s, n, name='?', args=args, kw=kw)
                self.emit('mayraise', s, n, what='unknown call')
                out.append((s, self.unk(n, 'call')))
        if not out:
            out.append((st, self.unk(n, 'call')))
        return out

    def instantiate(self, st, n, c, args, kw):
        nt = c.fields_nt()
        st = st.copy()
        oid = self.alloc(st, n, 'inst', c.cid)
        o = st.heap[oid]
        ref = self.ref(oid)
        init = c.find('__init__')
        if nt is not None and init is None:
            vals = dict(zip(nt, args))
            for k, v in kw.items():
                vals[k] = v
            if any(isinstance(a, tuple) and a and a[0] == 'star' for a in args):
                vals = {f: args[-1][1] for f in nt}
            for f in nt:
                o.fields[f] = vals.get(f, self.unk(n, f)) if vals.get(f) is not None else self.unk(n, f)
            self.emit('new', st, n, cls=c, obj=ref)
            return [(st, ref)]
        for cc in c.mro():
            for k, v in cc.attrs.items():
                if k not in ('__slots__',):
                    o.fields.setdefault('class:' + k, v)
        if init is None:
            self.emit('new', st, n, cls=c, obj=ref)
            return [(st, ref)]
        res = []
        for x, _ in self.call_fn(st, n, init, [ref] + list(args), kw, ''):
            self.emit('new', x, n, cls=c, obj=ref)
            res.append((x, ref))
        return res

    def call_fn(self, st, n, fn, args, kw, closure):
        self.visited_fns.add(fn.fid)
        depth = sum(1 for f in self.fstack if f is fn)
        if depth >= 2 or len(self.fstack) > 40:
            self.note('recursion ' + fn.qual, n)
            return [(st, self.unk(n, 'rec'))]
        if 'classmethod' in fn.decorators and fn.cls is not None:
            if not (args and isinstance(args[0], V) and any(k[0] == 'cls' for k in args[0].kinds)):
                args = [V(T.atom('cls', fn.cls.cid), frozenset([('cls', fn.cls.cid)]), None)] + list(args)
        if 'staticmethod' in fn.decorators and args and False:
            args = args[1:]
        st = st.copy()
        node = fn.node
        fk = 'F:%d:%s>%s' % (node._id, self.cstr(), getattr(n, '_id', 0))
        env = self.bind(st, n, fn, args, kw)
        self.emit('call', st, n, fn=fn, env=env)
        stub = self.stubs.get(fn.fid)
        if stub is not None:
            return stub(self, st, n, env)
        st.frames = st.frames + [(fk, env)]
        cs = str(getattr(n, '_id', 0))
        self.ctx.append(cs)
        self.fstack.append(fn)
        saved_try = None
        try:
            if fn.is_gen:
                res = self.run_generator(st, n, fn)
            elif isinstance(node, ast.Lambda):
                res = self.eval(node.body, st)
            else:
                o = self.exec_block(node.body, [st])
                res = list(o.ret)
                for x in o.normal:
                    res.append((x, V(T.NONE, frozenset([('none', 'ret:' + fn.fid)]), W0)))
        finally:
            self.ctx.pop()
            self.fstack.pop()
        out = []
        for x, v in res:
            x = x.copy()
            self.emit('return', x, n, fn=fn, value=v, env=x.frames[-1][1])
            x.frames = x.frames[:-1]
            x.marks = {m: val for m, val in x.marks.items() if m not in ('globals:' + fk, 'nonlocals:' + fk)}
            self.ctx.append(cs)
            self.collect(x, [v])
            self.ctx.pop()
            out.append((x, self.load(x, v)))
        if self.fork_calls:
            return out
        return self.merge_vals(out, n)

    def run_generator(self, st, n, fn):
        self.genstack.append([])
        o = self.exec_block(fn.node.body, [st])
        ys = self.genstack.pop()
        ends = o.normal + [x for x, _ in o.ret]
        elem = None
        for x, v in ys:
            elem = self.joinv(elem, v, 'gen' + self.key(fn.node), 'y')
        states = self.merge([x for x, _ in ys] + ends, fn.node, 'g') if (ys or ends) else [st]
        out = []
        for x in states:
            x = x.copy()
            for xx, _ in ys:
                for oid, ob in xx.heap.items():
                    if oid not in x.heap:
                        x.heap[oid] = ob
            oid = self.alloc(x, n, 'iter', tag='g')
            x.heap[oid].meta = ('gen', elem if elem is not None else self.unk(n, 'empty'))
            out.append((x, self.ref(oid)))
        return out

    def bind(self, st, n, fn, args, kw):
        a = fn.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = []
        star = None
        i = 0
        for v in args:
            if isinstance(v, tuple) and not isinstance(v, V) and v and v[0] == 'star':
                star = v[1]
                continue
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
            i += 1
        if star is not None:
            for p in pos:
                if p not in env:
                    env[p] = star
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif k is not None:
                extra[k] = v
        ds = a.defaults
        for p, d in zip(pos[len(pos) - len(ds):], ds):
            if p not in env:
                env[p] = self.default(st, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default(st, d)
        if a.vararg:
            env[a.vararg.arg] = self.new_list(st, n, items=rest, kind='tuple', tag='va')
        elif rest:
            self.emit('arity', st, n, fn=fn)
        if a.kwarg:
            oid = self.alloc(st, n, 'dict', tag='kw')
            env[a.kwarg.arg] = self.ref(oid)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                self.emit('arity', st, n, fn=fn)
                env[p] = self.unk(n, 'arg' + p)
        return env

    def slice_bounds(self, st, sl):
        """bounds of a slice that is written, where they have one value"""
        out = {}
        for name, e in (('lo', sl.lower), ('hi', sl.upper)):
            if e is not None:
                r = self.eval(e, st.copy())
                out[name] = r[0][1] if len(r) == 1 else self.unk(e, 'bound')
            elif name == 'lo':
                out[name] = self.const(0)
        return out

    def default(self, st, d):
        v = st.globs.get(('default', 'n%d' % d._id))
        if v is not None:
            return v
        if isinstance(d, ast.Constant):
            return self.const(d.value, d)
        return self.unk(d, 'default')

    # ------------------------------------------------------------- modules
    def ensure_module(self, name, st=None):
        if self.modstate is None:
            self.modstate = {}
        if name in self.modstate:
            if st is not None:
                self._import_globs(st)
            return
        self.modstate[name] = 'loading'
        m = self.prog.modules.get(name)
        if m is None:
            raise AnalysisBroken('module %s is gone' % name)
        s = State()
        s.globs = dict(self._globs)
        s.heap = dict(self._gheap)
        s.frames = [('M:' + name, {})]
        saved = (self.ctx, self.fstack, self.clients, self.curmod)
        self.ctx, self.fstack, self.curmod = ['M'], [], name
        self.clients = [c for c in self.clients if getattr(c, 'at_import', False)]
        for b in m.tree.body:
            if isinstance(b, ast.If) and 'name__' in ast.unparse(b.test):
                continue
            o = self.exec_stmt(b, s)
            if not o.normal:
                break
            s = o.normal[0]
            if len(o.normal) > 1:
                for x in o.normal[1:]:
                    s = self.join(s, x, 'M%d' % b._id)
            s = s.copy()
            # make the names visible to functions called at import time
            g = dict(s.globs)
            for k, v in s.frames[0][1].items():
                g[(name, k)] = v
            s.globs = g
        self.ctx, self.fstack, self.clients, self.curmod = saved
        for oid, o in s.heap.items():
            if o.origin == 'new':
                o.origin = 'static'
        self._globs = dict(s.globs)
        self._gheap = dict(s.heap)
        self.modstate[name] = 'done'
        if st is not None:
            self._import_globs(st)

    _globs = {}
    _gheap = {}

    def _import_globs(self, st):
        st.globs = dict(st.globs)
        st.globs.update(self._globs)
        for oid, o in self._gheap.items():
            st.heap.setdefault(oid, o)

    def initial_state(self, modules):
        for m in modules:
            self.ensure_module(m)
        st = State()
        st.globs = dict(self._globs)
        st.heap = dict(self._gheap)
        st.frames = [('ROOT', {})]
        return st

    def find_fn(self, mod, name):
        v = self._globs.get((mod, name))
        if v is None:
            raise AnalysisBroken('%s.%s is gone' % (mod, name))
        for k in v.kinds:
            if k[0] == 'fn':
                return self.prog.fns[k[1]]
        raise AnalysisBroken('%s.%s is no longer a function' % (mod, name))


STAR = {'itertools': ('accumulate', 'chain', 'combinations', 'combinations_with_replacement', 'compress', 'count',
                      'cycle', 'dropwhile', 'filterfalse', 'groupby', 'islice', 'pairwise', 'permutations',
                      'product', 'repeat', 'starmap', 'takewhile', 'tee', 'zip_longest', 'batched'),
        'math': ('sqrt', 'hypot', 'sin', 'cos', 'tan', 'atan2', 'pi', 'fabs', 'degrees', 'radians', 'acos', 'asin', 'atan',
                 'floor', 'ceil', 'isclose', 'copysign', 'dist'),
        'mathutils': ('Vector', 'Matrix', 'geometry'),
        'functools': ('cmp_to_key', 'reduce', 'partial', 'lru_cache', 'cache'),
        'collections': ('namedtuple', 'Counter', 'defaultdict', 'deque', 'OrderedDict')}


def _as_load(tg):
    import copy
    t = copy.copy(tg)
    t.ctx = ast.Load()
    return t
