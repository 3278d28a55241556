"""Abstract values, heap objects and states."""
from collections import namedtuple
from .terms import TermTable

T = TermTable()
V = namedtuple('V', 'term kinds w')
W0 = (T.ZERO, T.ZERO, T.ZERO)

NUM = ('num',)
BOOL = ('bool',)
STR = ('str',)
UNK = ('unk',)


class Obj:
    __slots__ = ('kind', 'cls', 'origin', 'single', 'fields', 'items', 'elem', 'key',
                 'length', 'ver', 'dim', 'meta', 'front')

    def __init__(self, kind, cls=None, origin='new', single=True):
        self.kind, self.cls, self.origin, self.single = kind, cls, origin, single
        self.fields = {}
        self.items = None
        self.elem = None
        self.key = None
        self.length = None
        self.ver = None
        self.dim = None
        self.meta = None
        self.front = None          # first items of a list that has grown since

    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.fields = dict(self.fields)
        return o

    def same(self, p):
        return (self.kind == p.kind and self.cls == p.cls and self.single == p.single
                and self.fields == p.fields and self.items == p.items and self.elem == p.elem
                and self.key == p.key and self.length == p.length and self.ver == p.ver
                and self.dim == p.dim and self.meta == p.meta and self.front == p.front)


class State:
    __slots__ = ('frames', 'heap', 'facts', 'fver', 'iters', 'marks', 'globs')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.fver = {}
        self.iters = ()
        self.marks = {}
        self.globs = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames[:-1] + [(self.frames[-1][0], dict(self.frames[-1][1]))] if self.frames else []
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.fver = dict(self.fver)
        s.iters = self.iters
        s.marks = dict(self.marks)
        s.globs = self.globs
        return s

    @property
    def env(self):
        return self.frames[-1][1]

    def obj(self, oid):
        return self.heap[oid]

    def wobj(self, oid):
        o = self.heap[oid].copy()
        self.heap[oid] = o
        return o


def mentions_v(v, oid):
    for k in v.kinds:
        if k[0] == 'ref' and k[1] == oid:
            return True
        if k[0] in ('bm', 'xm') and mentions_v(k[2], oid):
            return True
    return False


def ren_v(v, old, new):
    if v is None or not mentions_v(v, old):
        return v
    ks = set()
    for k in v.kinds:
        if k[0] == 'ref' and k[1] == old:
            ks.add(('ref', new))
        elif k[0] in ('bm', 'xm'):
            ks.add((k[0], k[1], ren_v(k[2], old, new)))
        else:
            ks.add(k)
    t = v.term
    ot = T.atom('obj', old)
    if T.mentions(t, ot):
        t = T.subst(t, ot, T.atom('prev', old))
    return V(t, frozenset(ks), v.w)


def ren_meta(m, old, new):
    if isinstance(m, V):
        return ren_v(m, old, new)
    if isinstance(m, tuple):
        return tuple(ren_meta(x, old, new) for x in m)
    return m


def rename(st, old, new):
    ot = T.atom('obj', old)
    nf = []
    for fk, env in st.frames:
        ne = None
        for k, v in env.items():
            if mentions_v(v, old) or T.mentions(v.term, ot):
                if ne is None:
                    ne = dict(env)
                nv = ren_v(v, old, new)
                if T.mentions(nv.term, ot):
                    nv = V(T.subst(nv.term, ot, T.atom('prev', old)), nv.kinds, nv.w)
                ne[k] = nv
        nf.append((fk, env if ne is None else ne))
    st.frames = nf
    for oid in list(st.heap):
        o = st.heap[oid]
        hit = any(mentions_v(v, old) for v in o.fields.values()) or \
            (o.elem is not None and mentions_v(o.elem, old)) or \
            (o.key is not None and mentions_v(o.key, old)) or \
            (o.items is not None and any(mentions_v(v, old) for v in o.items)) or \
            (o.meta is not None and ren_meta(o.meta, old, new) != o.meta)
        if hit:
            o = st.wobj(oid)
            o.fields = {k: ren_v(v, old, new) for k, v in o.fields.items()}
            o.elem = ren_v(o.elem, old, new)
            o.key = ren_v(o.key, old, new)
            if o.items is not None:
                o.items = tuple(ren_v(v, old, new) for v in o.items)
            o.meta = ren_meta(o.meta, old, new)
    for gk, gv in list(st.globs.items()):
        if mentions_v(gv, old):
            st.globs = dict(st.globs)
            st.globs[gk] = ren_v(gv, old, new)
    st.facts = {k: v for k, v in st.facts.items()
                if not any(isinstance(a, int) and T.mentions(a, ot) for a in k[1:])}
    st.iters = tuple((k, ren_v(v, old, new)) for k, v in st.iters)
