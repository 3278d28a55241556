"""Models of the Python data types and of the external functions the analysed
package uses (builtins, itertools, heapq, collections, re, math, mathutils)."""
import ast
from fractions import Fraction

from .program import where
from .state import T, V, W0, NUM, BOOL, STR, UNK

INF = 'inf'
SWZ = set('xyzw')


class Models:
    # ------------------------------------------------------------ primitives
    def refs(self, st, v):
        return [(k[1], st.heap[k[1]]) for k in v.kinds if k[0] == 'ref' and k[1] in st.heap]

    def sole(self, st, v):
        """(oid, obj) when v is certainly one particular abstract object, else None"""
        ks = [k for k in v.kinds if k[0] not in ('none', 'unbound')]
        if len(ks) == 1 and ks[0][0] == 'ref':
            o = st.heap.get(ks[0][1])
            if o is not None:
                return ks[0][1], o
        return None

    def check_none(self, st, node, v, what):
        if not isinstance(v, V):
            return
        v = self.load(st, v)
        if any(k[0] == 'none' for k in v.kinds):
            self.emit('noneuse', st, node, value=v, what=what)

    def is_vec(self, st, v):
        rs = self.refs(st, v)
        return bool(rs) and all(o.kind == 'vec' for _, o in rs) and \
            all(k[0] in ('ref', 'none') for k in v.kinds)

    def vver(self, st):
        return st.fver.get('.vec', T.ZERO)

    def comps(self, st, v):
        """-> (list of component values | None, dim | None)"""
        s = self.sole(st, v)
        rs = self.refs(st, v)
        if not rs:
            return None, None
        dims = {o.dim for _, o in rs}
        if len(dims) != 1 or None in dims:
            return None, None
        d = dims.pop()
        if s is not None and s[1].single and all(str(i) in s[1].fields for i in range(d)):
            return [s[1].fields[str(i)] for i in range(d)], d
        out = []
        for i in range(d):
            w = None
            first = True
            for _, o in rs:
                f = o.fields.get(str(i))
                fw = f.w if f is not None else None
                if first:
                    w, first = fw, False
                elif w != fw:
                    w = self.joinw(w, fw, 'cw', str(v.term) + str(i)) if (w is not None and fw is not None) else None
            out.append(V(T.atom('c', v.term, str(i), self.vver(st)), frozenset([NUM]), w))
        return out, d

    def wz(self, v):
        return v.w == W0

    def place(self, t):
        """an element of a list, whichever it is"""
        return T.atom('path', 'p%d' % t) if T.op(t) == 'idx' else None

    def wdef(self, w):
        """some component of w is certainly non-zero"""
        if w is None:
            return False
        for t in w:
            c = T.num(t)
            if c is not None and c != 0:
                return True
            if c is None and not T.any_op(T.replace(t, self.place), {'phi', 'len?', 'unk'}):
                return True
        return False

    def wadd(self, a, b, sub=False):
        if a is None or b is None:
            return None
        if b == W0:
            return a
        return tuple((T.sub if sub else T.add)(x, y) for x, y in zip(a, b))

    def wmul(self, a, b):
        """weight of the product of values a, b"""
        if a.w == W0 and b.w == W0:
            return W0
        if a.w is None or b.w is None:
            return None
        return tuple(T.add(T.mul(x, b.term), T.mul(y, a.term)) for x, y in zip(a.w, b.w))

    def nl(self, st, node, vals, what):
        """non-linear use of scalar values"""
        for v in vals:
            if isinstance(v, V) and self.wdef(v.w):
                self.emit('absuse', st, node, value=v, what=what)

    def n_add(self, st, node, a, b):
        return self.num(T.add(a.term, b.term), self.wadd(a.w, b.w))

    def n_sub(self, st, node, a, b):
        return self.num(T.sub(a.term, b.term), self.wadd(a.w, b.w, True))

    def n_neg(self, a):
        return self.num(T.neg(a.term), None if a.w is None else tuple(T.neg(x) for x in a.w))

    def n_mul(self, st, node, a, b):
        return self.num(T.mul(a.term, b.term), self.wmul(a, b))

    def n_div(self, st, node, a, b, emit=True):
        if emit:
            self.division(st, node, b)
        if b.w == W0 or b.w is None:
            w = W0 if a.w == W0 and b.w == W0 else None if (a.w is None or b.w is None) else \
                tuple(T.div(x, b.term) for x in a.w)
        else:
            self.nl(st, node, [b], 'divisor')
            w = None
        return self.num(T.div(a.term, b.term), w)

    def division(self, st, node, b):
        known = self.nonzero(st, b.term)
        if not known:
            self.emit('mayraise', st, node, what='division')
        self.emit('div', st, node, divisor=b, known=known, caught=self.caught('ZeroDivisionError', 'ArithmeticError'))

    # --------------------------------------------------------------- mutate
    def mutate(self, st, node, target, op, structural, **kw):
        """an in-place modification of the object(s) target may refer to"""
        target = self.load(st, target)
        self.emit('mutate', st, node, target=target, op=op, structural=structural, **kw)
        for oid, o in self.refs(st, target):
            if o.kind == 'vec':
                if not o.single or o.origin != 'new':
                    st.fver['.vec'] = T.atom('fver', self.key(node))
                continue
            oo = st.wobj(oid)
            oo.ver = T.atom('ver', self.key(node), o.ver if o.ver is not None else T.ZERO)
            oo.meta = None if oo.kind != 'iter' else oo.meta
            if op not in ('append', 'extend', 'iadd', 'iAdd'):
                oo.front = None
        if structural:
            for lk, lv in st.iters:
                if lv is not None and self.must_alias(st, lv, target):
                    st.marks['D:' + lk] = where(node)

    def traversed_attr(self, st, node, base, attr):
        """an attribute is set that the generator of a running loop still reads"""
        for lk, lv in st.iters:
            if lv is None:
                continue
            for oid, o in self.refs(st, lv):
                if o.kind != 'inst' or o.cls not in self.classes:
                    continue
                f = self.classes[o.cls].find('__iter__')
                if f is None or not f.is_gen or attr not in self.reads_of_self(f):
                    continue
                k = T.atom('k', lk)
                mine = T.op(base.term) == 'sel' and T.op(T.args(base.term)[0]) in ('gen', 'idx') and T.mentions(base.term, k) and \
                    all(self.classes.get(x.cls) is self.classes[o.cls] for _, x in self.refs(st, base) if x.kind == 'inst')
                if mine or self.must_alias(st, lv, base):
                    st.marks['D:' + lk] = where(node)

    def reads_of_self(self, f):
        """attributes of self a generator reads in a loop that yields"""
        me = f.node.args.args[0].arg if f.node.args.args else None
        out = set()
        for lp in ast.walk(f.node):
            if isinstance(lp, (ast.While, ast.For)) and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(lp)):
                for w in ast.walk(lp):
                    if isinstance(w, ast.Attribute) and isinstance(w.value, ast.Name) and w.value.id == me and isinstance(w.ctx, ast.Load):
                        out.add(w.attr)
        return out

    def must_alias(self, st, a, b):
        if a.term == b.term:
            return True
        sa, sb = self.sole(st, a), self.sole(st, b)
        return sa is not None and sb is not None and sa[0] == sb[0] and sa[1].single

    def havoc_list(self, st, base, node, clear=False):
        for oid, o in self.refs(st, base):
            if o.kind in ('list', 'tuple', 'set', 'dict'):
                oo = st.wobj(oid)
                strong = self.sole(st, base) is not None and o.single
                if clear and strong:
                    oo.items = () if o.kind == 'list' else None
                    oo.length = T.ZERO
                    oo.elem = None
                else:
                    oo.items = None
                    oo.length = T.atom('len?', 'h' + self.key(node))

    def shrink(self, st, base, node):
        for oid, o in self.refs(st, base):
            if o.kind in ('list', 'set', 'dict'):
                oo = st.wobj(oid)
                oo.items = None
                if self.sole(st, base) is not None and o.single and o.length is not None:
                    oo.length = T.sub(o.length, T.ONE)
                else:
                    oo.length = T.atom('len?', 's' + self.key(node))
        self.emit('shrink', st, node, target=base, op='shrink')

    def _grow(self, st, base, v, node, kindset=('list', 'set')):
        strong = self.sole(st, base)
        for oid, o in self.refs(st, base):
            if o.kind not in kindset:
                continue
            oo = st.wobj(oid)
            if v is not None:
                oo.elem = self.generic(self.joinv(o.elem, v, 'el' + oid), oid)
            if strong is not None and o.single and o.length is not None and o.kind == 'list':
                if o.items is not None and len(o.items) < self.maxitems and v is not None:
                    oo.items = o.items + (v,)
                else:
                    oo.items = None
                oo.length = T.add(o.length, T.ONE)
            else:
                oo.items = None
                oo.length = T.atom('len?', 'g' + self.key(node))
                if o.kind == 'list':
                    st.facts[('eq', self.canon(oo.length))] = False

    def container_add(self, st, base, v, node):
        """v may become an element (length handled by the caller or unknown)"""
        for oid, o in self.refs(st, base):
            if o.kind in ('list', 'set'):
                oo = st.wobj(oid)
                if v is not None:
                    oo.elem = self.generic(self.joinv(o.elem, v, 'el' + oid), oid)

    def quiet_append(self, st, base, v, node):
        self._grow(st, base, v, node)

    def list_extend(self, st, node, base, rhs, op='extend'):
        """-> states"""
        out = []
        self.check_none(st, node, rhs, 'iterate')
        for x, sh in self.shape(st, rhs, node):
            x = x.copy()
            ex = self.exact_items(x, sh)
            ev = self.shape_generic(x, sh, node)
            tr = self.trip(x, sh)
            if ex is not None and not ex or tr == T.ZERO:
                ev = None              # nothing is added
            self.mutate(x, node, base, op, True, value=rhs, elem=ev)
            strong = self.sole(x, base)
            for oid, o in self.refs(x, base):
                if o.kind not in ('list', 'set'):
                    continue
                oo = x.wobj(oid)
                if ev is not None:
                    oo.elem = self.generic(self.joinv(o.elem, ev, 'el' + oid), oid)
                if strong is not None and o.single and o.kind == 'list':
                    if ex is not None and o.items is not None and len(ex) + len(o.items) <= self.maxitems:
                        oo.items = o.items + tuple(ex)
                    else:
                        oo.front = o.front if o.items is None else o.items or None
                        oo.items = None
                    oo.length = T.add(o.length, tr) if (o.length is not None and tr is not None and tr != INF) \
                        else T.atom('len?', 'x' + self.key(node))
                else:
                    oo.items = None
                    oo.length = T.atom('len?', 'x' + self.key(node))
            self.emit('grown', x, node, target=base, by=tr, elem=ev, rhs=rhs, op=op, exact=ex)
            out.append(x)
        return out

    def dict_store(self, st, base, kv, vv, node):
        for oid, o in self.refs(st, base):
            if o.kind != 'dict':
                continue
            oo = st.wobj(oid)
            oo.key = self.generic(self.joinv(o.key, kv, 'dk' + oid), oid)
            oo.elem = self.generic(self.joinv(o.elem, vv, 'dv' + oid), oid)
            oo.length = T.atom('len?', 'd' + self.key(node))
            if T.rev[kv.term][0] == 'k' and self.sole(st, base) and o.single:
                oo.fields[T.rev[kv.term][2]] = vv

    def vec_store(self, st, node, base, nv, op):
        """base (a vector) receives the components of nv in place"""
        self.mutate(st, node, base, op, False)
        comps, d = self.comps(st, nv)
        strong = self.sole(st, base)
        for oid, o in self.refs(st, base):
            if o.kind != 'vec':
                continue
            oo = st.wobj(oid)
            for i in range(o.dim or (d or 0)):
                c = comps[i] if comps is not None and i < d else self.num(T.atom('unk', self.key(node), str(i)), None)
                if strong is not None and o.single:
                    oo.fields[str(i)] = c
                else:
                    oo.fields[str(i)] = self.joinv(oo.fields.get(str(i)), c, 'w' + self.key(node), str(i))

    def setitem(self, st, node, base, idx, v):
        base = self.load(st, base)
        self.mutate(st, node, base, 'setitem', False, index=idx, value=v)
        strong = self.sole(st, base)
        for oid, o in self.refs(st, base):
            if o.kind == 'dict':
                self.dict_store(st, base, idx, v, node)
            elif o.kind == 'vec':
                oo = st.wobj(oid)
                c = T.num(idx.term)
                if c is not None and strong is not None and o.single:
                    i = int(c) if c >= 0 else int(c) + (o.dim or 0)
                    oo.fields[str(i)] = V(v.term, frozenset([NUM]), v.w)
                else:
                    for i in range(o.dim or 0):
                        oo.fields[str(i)] = self.joinv(oo.fields.get(str(i)), v, 'w' + self.key(node), str(i))
            elif o.kind == 'list':
                oo = st.wobj(oid)
                c = T.num(idx.term)
                if o.items is not None and c is not None and -len(o.items) <= c < len(o.items) and strong and o.single:
                    it = list(o.items)
                    it[int(c)] = v
                    oo.items = tuple(it)
                else:
                    oo.items = None
                oo.elem = self.generic(self.joinv(o.elem, v, 'el' + oid), oid)
        if not any(o.kind == 'dict' for _, o in self.refs(st, base)):
            self.emit('index', st, node, base=base, index=idx, write=True)

    # ----------------------------------------------------------------- read
    def cver(self, st, v):
        rs = self.refs(st, v)
        if len(rs) == 1:
            return rs[0][1].ver if rs[0][1].ver is not None else T.ZERO
        return T.atom('vers', *[o.ver if o.ver is not None else T.ZERO for _, o in sorted(rs, key=lambda r: r[0])])

    def clen(self, st, v):
        s = self.sole(st, v)
        rs = self.refs(st, v)
        if s is not None:
            o = s[1]
            if o.kind == 'vec':
                return T.const(o.dim) if o.dim else T.atom('len?', str(v.term))
            if o.kind in ('list', 'tuple', 'set', 'dict'):
                if o.single and o.length is not None:
                    return o.length
                if o.length is not None and T.num(o.length) is not None:
                    return o.length
                return T.atom('lenof', v.term, self.cver(st, v))
        if rs and all(o.kind in ('list', 'tuple', 'set', 'dict') for _, o in rs):
            ls = {o.length for _, o in rs}
            if len(ls) == 1 and T.num(next(iter(ls)) or T.atom('none')) is not None:
                return ls.pop()
            return T.atom('lenof', v.term, self.cver(st, v))
        return T.atom('lenof', v.term, T.ZERO)

    def exact_of(self, st, v):
        s = self.sole(st, v)
        if s is not None and s[1].kind in ('list', 'tuple') and s[1].items is not None and s[1].single:
            return list(s[1].items)
        if s is not None and s[1].kind == 'tuple' and s[1].items is not None:
            return list(s[1].items)
        if s is not None and s[1].kind == 'inst' and s[1].cls in self.classes:
            nt = self.classes[s[1].cls].fields_nt()
            if nt:
                return [self.field(st, v, f) for f in nt]
        if s is None and v.kinds and all(k[0] == 'ref' for k in v.kinds):
            rs = self.refs(st, v)
            if rs and all(o.kind in ('list', 'tuple') and o.items is not None and not o.items for _, o in rs):
                return []
        return None

    def field(self, st, base, attr):
        r = self.getfield(st, None, base, attr)
        return r if r is not None else self.unk(None, attr)

    def iter_elem(self, st, v, node):
        for x, sh in self.shape(st, v, node):
            return self.shape_generic(x, sh, node)
        return None

    def elem_at(self, st, v, idx, node=None):
        """element idx (a term) of list-like value v"""
        el = None
        for oid, o in self.refs(st, v):
            c = T.num(idx)
            if o.items is not None and c is not None and o.kind in ('list', 'tuple'):
                n = len(o.items)
                if -n <= c < n and len(self.refs(st, v)) == 1 and (o.single or o.kind == 'tuple'):
                    return self.load(st, o.items[int(c)])
            if o.front is not None and c is not None and 0 <= c < len(o.front) and o.kind == 'list' and o.single and \
                    len(self.refs(st, v)) == 1:
                return self.load(st, o.front[int(c)])
            if o.meta is not None and o.meta[0] == 'slice' and o.kind == 'list' and o.single and \
                    len(self.refs(st, v)) == 1 and (c is None or c >= 0) and o.elem is not None:
                _, src, lo, ver = o.meta
                t = T.add(lo, idx)
                r = V(T.atom('idx', src.term, t, ver), o.elem.kinds, o.elem.w)
                self.elem_facts(st, src.term, ver, t, r)
                return self.load(st, r)
            if o.meta is not None and o.meta[0] == 'map' and o.kind == 'list' and o.single and \
                    len(self.refs(st, v)) == 1:
                _, k, ev, tr = o.meta
                if c is None or c >= 0:
                    # substitute the position for the comprehension counter
                    t = T.subst(ev.term, k, idx)
                    w = ev.w if ev.w is None else tuple(T.subst(x, k, idx) for x in ev.w)
                    if not any(kk[0] == 'ref' for kk in ev.kinds):
                        return self.load(st, V(t, ev.kinds, w))
            own = o.elem
            if o.kind == 'tuple' and o.items is not None and c is not None and -len(o.items) <= c < len(o.items):
                own = o.items[int(c)]
            el = self.joinv(el, own, 'ea%s' % v.term, oid)
        if el is None:
            return V(T.atom('idx', v.term, idx, self.cver(st, v)), frozenset([UNK]), None)
        if T.is_const(el.term) and all(k[0] != 'none' for k in el.kinds):
            return el
        t = T.atom('idx', v.term, idx, self.cver(st, v))
        r = V(t, el.kinds, el.w)
        self.elem_facts(st, v.term, self.cver(st, v), idx, r)
        return self.load(st, r)

    def getitem(self, st, n, base, idx, quiet=False):
        base = self.load(st, base)
        self.check_none(st, n, base, 'index')
        st = st.copy()
        out = None
        rs = self.refs(st, base)
        c = T.num(idx.term) if isinstance(idx, V) else None
        lists = [(oid, o) for oid, o in rs if o.kind in ('list', 'tuple')]
        if rs and len(lists) == len(rs):
            if not quiet:
                self.emit('index', st, n, base=base, index=idx, write=False)
            return [(st, self.elem_at(st, base, idx.term, n))]
        for oid, o in rs:
            v = None
            if o.kind in ('list', 'tuple'):
                sub = V(base.term, frozenset([('ref', oid)]), base.w)
                v = self.elem_at(st, sub, idx.term, n)
            elif o.kind == 'vec':
                sub = V(base.term, frozenset([('ref', oid)]), base.w)
                cs, d = self.comps(st, sub)
                if cs is not None and c is not None and -d <= c < d:
                    v = cs[int(c)]
                else:
                    w = W0
                    for f in o.fields.values():
                        if f.w != W0:
                            w = None
                    v = self.num(T.atom('c', base.term, idx.term, self.vver(st)), w)
            elif o.kind == 'dict':
                kk = T.rev[idx.term]
                if o.meta is not None and o.meta[0] == 'default' and not quiet:
                    self.mutate(st, n, V(base.term, frozenset([('ref', oid)]), None), 'defaultdict-insert', True)
                if kk[0] == 'k' and kk[2] in o.fields and o.single:
                    v = o.fields[kk[2]]
                elif o.elem is not None:
                    v = V(T.atom('idx', base.term, idx.term, o.ver), o.elem.kinds, o.elem.w)
                    v = self.load(st, v)
                elif o.meta is not None and o.meta[0] == 'default':
                    v = o.meta[1]
                else:
                    v = self.unk(n, 'dict')
                if o.meta is None or o.meta[0] != 'default':
                    if not quiet:
                        self.emit('index', st, n, base=base, index=idx, write=False)
            elif o.kind == 'inst' and o.cls in self.classes and self.classes[o.cls].fields_nt() is not None and c is not None:
                nt = self.classes[o.cls].fields_nt()
                if -len(nt) <= c < len(nt):
                    v = self.getfield(st, n, V(base.term, frozenset([('ref', oid)]), base.w), nt[int(c)])
            elif o.kind == 'inst' and o.cls in self.classes and self.classes[o.cls].find('__getitem__'):
                return self.call_fn(st, n, self.classes[o.cls].find('__getitem__'), [base, idx], {}, '')
            elif o.kind == 'iter' and o.meta is not None and quiet:
                v = self.shape_generic(st, o.meta, n)
            if v is None:
                v = self.unk(n, 'item')
            out = v if out is None else self.joinv(out, v, 'gi' + self.key(n), oid)
        if out is None:
            if any(k[0] == 'str' for k in base.kinds):
                out = V(T.atom('idx', base.term, idx.term, T.ZERO), frozenset([STR]), W0)
                if not quiet:
                    self.emit('index', st, n, base=base, index=idx, write=False)
            elif T.op(base.term) in ('counter',):
                out = self.num(T.atom('idx', base.term, idx.term, T.ZERO))
            else:
                out = V(T.atom('idx', base.term, idx.term if isinstance(idx, V) else T.ZERO, T.ZERO), frozenset([UNK]), None)
        return [(st, out)]

    def getslice(self, st, n, base, sl):
        base = self.load(st, base)
        self.check_none(st, n, base, 'slice')
        lo, hi, step = sl
        self.emit('sliced', st, n, base=base, lo=lo, hi=hi, step=step)
        rs = self.refs(st, base)
        if not rs:
            if any(k[0] == 'str' for k in base.kinds):
                return [(st, V(T.atom('sl', base.term, self.key(n)), frozenset([STR]), W0))]
            return [(st, self.unk(n, 'slice'))]
        if any(o.kind == 'vec' for _, o in rs):
            cs, d = self.comps(st, base)
            if cs is not None and step is None and (lo is None or T.num(lo.term) is not None) and \
                    (hi is None or T.num(hi.term) is not None):
                a = int(T.num(lo.term)) if lo is not None else None
                b = int(T.num(hi.term)) if hi is not None else None
                return [(st, self.new_list(st, n, items=cs[a:b], kind='list'))]
            return [(st, self.unk(n, 'slice'))]
        ex = self.exact_of(st, base)
        kind = 'tuple' if all(o.kind == 'tuple' for _, o in rs) else 'list'
        if ex is not None and all(x is None or T.num(x.term) is not None for x in sl):
            a, b, c = [None if x is None else int(T.num(x.term)) for x in sl]
            return [(st, self.new_list(st, n, items=ex[a:b:c], kind=kind))]
        el = None
        for oid, o in rs:
            el = self.joinv(el, o.elem, 'sl' + self.key(n), oid)
        L = self.clen(st, base)
        ln = None
        if step is None:
            if lo is None and hi is None:
                ln = L
            elif lo is not None and hi is not None and isinstance(L, int) and isinstance(lo.term, int) and self.known_nonneg(st, lo.term) \
                    and self.known_nonneg(st, T.sub(hi.term, lo.term)) and self.known_nonneg(st, T.sub(L, hi.term)):
                ln = T.sub(hi.term, lo.term)
            elif hi is None and T.num(lo.term) is None:
                ln = None
            elif hi is None and T.num(lo.term) == 0:
                ln = L
        elif lo is None and hi is None and T.num(step.term) == -1:
            ln = L
        o = None
        r = self.new_list(st, n, elem=el, length=ln, kind=kind)
        if el is not None and ln is None:
            pass
        self.emit('cut', st, n, base=base, result=r, lo=lo, hi=hi, step=step)
        # a slice of a sequence remembers where it came from
        s = self.sole(st, r)
        if lo is not None and step is None and self.known_nonneg(st, lo.term):
            st.heap[s[0]].meta = ('slice', base, lo.term, self.cver(st, base))
        return [(st, r)]

    def getfield(self, st, n, base, attr):
        """data attribute of instance value (None if no such attribute is known)"""
        out = None
        rs = [(oid, o) for oid, o in self.refs(st, base)]
        one = self.sole(st, base)
        if one is not None and one[1].single and attr in one[1].fields:
            return self.load(st, one[1].fields[attr])
        fv = st.fver.get('.' + attr, T.ZERO)
        known = st.facts.get(('fieldval', base.term, '.' + attr, fv))
        if known is not None:
            return self.load(st, known)
        for oid, o in rs:
            f = o.fields.get(attr)
            if f is None:
                continue
            out = f if out is None else V(out.term, out.kinds | f.kinds, out.w if out.w == f.w else None)
        if out is None:
            return None
        if T.is_const(out.term) and len(out.kinds) == 1 and len(rs) == 1 and False:
            return out
        t = T.atom('sel', base.term, '.' + attr, fv)
        return self.load(st, V(t, out.kinds, out.w))

    def getattr(self, st, n, base, attr):
        base = self.load(st, base)
        self.check_none(st, n, base, '.' + attr)
        res = []
        vals = None

        def add(v):
            nonlocal vals
            vals = v if vals is None else self.joinv(vals, v, 'ga' + self.key(n), attr)
        st2 = st
        insts = [k for k in base.kinds if k[0] == 'ref' and k[1] in st.heap and st.heap[k[1]].kind == 'inst']
        if insts:
            sub = V(base.term, frozenset(insts), base.w)
            fv = self.getfield(st2, n, sub, attr)
            if fv is not None:
                add(fv)
            missing = [k for k in insts if attr not in st.heap[k[1]].fields]
            seen = set()
            for k in missing:
                c = self.classes.get(st.heap[k[1]].cls)
                if c is None or c.cid in seen:
                    continue
                group = frozenset(x for x in missing if st.heap[x[1]].cls == c.cid)
                seen.add(c.cid)
                me = V(base.term, group, base.w)
                f = c.find(attr)
                if f is not None:
                    if 'property' in f.decorators or 'functools.cached_property' in f.decorators or 'cached_property' in f.decorators:
                        rs = self.call_fn(st2, n, f, [me], {}, '')
                        if len(insts) == len(group) and len(base.kinds) == len(group) and vals is None:
                            return rs
                        for x, v in rs:
                            add(v)
                        st2 = rs[0][0] if rs else st2
                        for x, _ in rs[1:]:
                            st2 = self.join(st2, x, 'gp' + self.key(n))
                    elif 'staticmethod' in f.decorators:
                        add(V(T.atom('fn', f.fid), frozenset([('fn', f.fid, '')]), None))
                    elif 'classmethod' in f.decorators:
                        cv = V(T.atom('cls', c.cid), frozenset([('cls', c.cid)]), None)
                        add(V(T.atom('bm', f.fid, cv.term), frozenset([('bm', f.fid, cv)]), None))
                    else:
                        add(V(T.atom('bm', f.fid, me.term), frozenset([('bm', f.fid, me)]), None))
                    continue
                ca = None
                for cc in c.mro():
                    if attr in cc.attrs:
                        ca = cc.attrs[attr]
                        break
                if ca is not None:
                    self.emit('clsread', st, n, cls=c.cid, attr=attr)
                    add(ca)
                elif c.fields_nt() is not None and attr in ('_replace', '_asdict', '_fields', 'index', 'count'):
                    add(V(T.atom('xm', attr, me.term), frozenset([('xm', attr, me)]), None))
                elif attr == '__class__':
                    add(V(T.atom('cls', c.cid), frozenset([('cls', c.cid)]), None))
                elif fv is None:
                    self.emit('noattr', st, n, cls=c.cid, attr=attr)
        vecs = [k for k in base.kinds if k[0] == 'ref' and k[1] in st.heap and st.heap[k[1]].kind == 'vec']
        alike = frozenset(vecs) if len(vecs) > 1 and len({st.heap[k[1]].dim for k in vecs} - {None}) == 1 and \
            not any(st.heap[k[1]].dim is None for k in vecs) else frozenset()
        if alike:
            st2, v = self.vecattr(st2, n, V(base.term, alike, base.w), attr)
            add(v)
        for k in sorted(base.kinds - frozenset(insts) - alike, key=str):
            one = V(base.term, frozenset([k]), base.w)
            if k[0] == 'ref':
                o = st.heap.get(k[1])
                if o is None:
                    add(self.unk(n, attr))
                elif o.kind == 'vec':
                    st2, v = self.vecattr(st2, n, one, attr)
                    add(v)
                else:
                    add(V(T.atom('xm', attr, base.term), frozenset([('xm', attr, one)]), None))
            elif k[0] == 'ext':
                add(self.ext(k[1] + '.' + attr))
            elif k[0] == 'mod':
                g = st.globs.get((k[1], attr))
                if g is not None:
                    self.emit('globalread', st, n, mod=k[1], name=attr)
                    add(g)
                else:
                    add(self.unk(n, attr))
            elif k[0] == 'cls':
                c = self.classes[k[1]]
                f = c.find(attr)
                if f is not None:
                    if 'classmethod' in f.decorators:
                        add(V(T.atom('bm', f.fid, base.term), frozenset([('bm', f.fid, one)]), None))
                    else:
                        add(V(T.atom('fn', f.fid), frozenset([('fn', f.fid, '')]), None))
                    continue
                ca = None
                for cc in c.mro():
                    if attr in cc.attrs:
                        ca = cc.attrs[attr]
                        break
                if ca is not None:
                    self.emit('clsread', st, n, cls=c.cid, attr=attr)
                    add(ca)
                elif attr == '__name__':
                    add(V(T.const(c.name), frozenset([STR]), W0))
                elif c.fields_nt() is not None and attr == '_make':
                    add(V(T.atom('xm', attr, base.term), frozenset([('xm', attr, one)]), None))
                else:
                    ga = st.globs.get(('clsattr', k[1], attr))
                    add(ga if ga is not None else self.unk(n, attr))
            elif k[0] == 'num':
                if attr in ('real', 'imag'):
                    add(V(T.atom(attr, base.term), frozenset([NUM]), base.w if base.w == W0 else None))
                else:
                    add(V(T.atom('xm', attr, base.term), frozenset([('xm', attr, one)]), None))
            elif k[0] in ('none', 'unbound'):
                continue
            elif k[0] in ('str', 'unk', 'bool'):
                add(V(T.atom('xm', attr, base.term), frozenset([('xm', attr, one)]), None))
            else:
                if attr == '__name__':
                    add(V(T.atom('str', attr), frozenset([STR]), W0))
                else:
                    fa = st.globs.get(('fnattr', str(k[1]), attr))
                    add(fa if fa is not None else self.unk(n, attr))
        if vals is None:
            vals = self.unk(n, attr)
        return [(st2, vals)]

    def vecattr(self, st, n, v, attr):
        cs, d = self.comps(st, v)
        if len(attr) == 1 and attr in SWZ:
            i = 'xyzw'.index(attr)
            if cs is not None and i < d:
                return st, cs[i]
            return st, self.num(T.atom('c', v.term, str(i), self.vver(st)), None)
        if attr and set(attr) <= SWZ:
            st = st.copy()
            if cs is not None and all('xyzw'.index(a) < d for a in attr):
                return st, self.new_vec(st, n, [cs['xyzw'.index(a)] for a in attr], tag=attr)
            return st, self.new_vec(st, n, [self.num(T.atom('c', v.term, str('xyzw'.index(a)), self.vver(st)), None) for a in attr], tag=attr)
        if attr in ('magnitude', 'length', 'length_squared'):
            return st, self.veclen(st, n, v, attr == 'length_squared')
        return st, V(T.atom('xm', attr, v.term), frozenset([('xm', attr, v)]), None)

    def veclen(self, st, n, v, squared=False):
        cs, d = self.comps(st, v)
        if cs is None:
            return self.num(T.atom('abs', T.atom('len', v.term, self.vver(st))), None)
        self.nl(st, n, cs, 'length')
        s = T.ZERO
        for c in cs:
            s = T.add(s, T.mul(c.term, c.term))
        w = W0 if all(c.w == W0 for c in cs) else None
        if squared:
            return self.num(s, w)
        if T.num(s) is None:
            s = T.atom('sqrt', s)
        elif T.num(s) == 0:
            s = T.ZERO
        else:
            s = T.atom('sqrt', s)
        return self.num(s, w)

    # ----------------------------------------------------------- operations
    def binop(self, st, node, op, a, b):
        a, b = self.load(st, a), self.load(st, b)
        self.check_none(st, node, a, 'operand of ' + op)
        self.check_none(st, node, b, 'operand of ' + op)
        va, vb = self.is_vec(st, a), self.is_vec(st, b)
        if va or vb:
            st = st.copy()
            ca, da = self.comps(st, a) if va else (None, None)
            cb, db = self.comps(st, b) if vb else (None, None)
            bad = self.num(T.atom('unk', self.key(node)), None)
            if op in ('Add', 'Sub'):
                if ca is None or cb is None:
                    dd = da or db or self.anydim(st, a) or self.anydim(st, b)
                    cs = [self.num(T.atom('vop', op, a.term, b.term, str(i)), None) for i in range(dd)] if dd else None
                    return [(st, self.new_vec(st, node, cs))]
                f = self.n_add if op == 'Add' else self.n_sub
                if da != db:
                    self.emit('dims', st, node, a=da, b=db)
                return [(st, self.new_vec(st, node, [f(st, node, x, y) for x, y in zip(ca, cb)]))]
            if op == 'Mult':
                if va and vb:
                    if ca is None or cb is None:
                        return [(st, bad)]
                    r = self.num(T.ZERO)
                    for x, y in zip(ca, cb):
                        r = self.n_add(st, node, r, self.n_mul(st, node, x, y))
                    return [(st, r)]
                vec, sc, cs = (a, b, ca) if va else (b, a, cb)
                if not any(k[0] in ('num', 'bool') for k in sc.kinds) or cs is None:
                    dd = self.anydim(st, vec)
                    return [(st, self.new_vec(st, node, [self.num(T.atom('vop', op, a.term, b.term, str(i)), None) for i in range(dd)] if dd else None))]
                return [(st, self.new_vec(st, node, [self.n_mul(st, node, x, sc) for x in cs]))]
            if op in ('Div', 'FloorDiv') and va:
                if ca is None:
                    self.division(st, node, b)
                    dd = self.anydim(st, a)
                    return [(st, self.new_vec(st, node, [self.num(T.atom('vop', op, a.term, b.term, str(i)), None) for i in range(dd)] if dd else None))]
                return [(st, self.new_vec(st, node, [self.n_div(st, node, x, b, emit=(i == 0)) for i, x in enumerate(ca)]))]
            return [(st, self.unk(node, 'vecop'))]
        ra, rb = self.refs(st, a), self.refs(st, b)
        if op == 'Add' and ra and rb and all(o.kind in ('list', 'tuple') for _, o in ra + rb):
            st = st.copy()
            kind = ra[0][1].kind
            ea, eb = self.exact_of(st, a), self.exact_of(st, b)
            if ea is not None and eb is not None and len(ea) + len(eb) <= self.maxitems:
                return [(st, self.new_list(st, node, items=ea + eb, kind=kind))]
            el = None
            for oid, o in ra + rb:
                el = self.joinv(el, o.elem, 'cat' + self.key(node), oid)
            r = self.new_list(st, node, elem=el, length=T.add(self.clen(st, a), self.clen(st, b)), kind=kind)
            st.heap[self.sole(st, r)[0]].meta = ('cat', a, b)
            return [(st, r)]
        if op == 'Mult' and (ra or rb) and all(o.kind in ('list', 'tuple') for _, o in ra + rb):
            st = st.copy()
            src, cnt = (a, b) if ra else (b, a)
            el = None
            for oid, o in ra + rb:
                el = self.joinv(el, o.elem, 'rep' + self.key(node), oid)
            return [(st, self.new_list(st, node, elem=el, length=T.mul(self.clen(st, src), cnt.term), kind=(ra or rb)[0][1].kind))]
        if (ra or rb) and any(o.kind == 'set' for _, o in ra + rb):
            st = st.copy()
            el = None
            for oid, o in ra + (rb if op != 'Sub' else []):
                el = self.joinv(el, o.elem, 'set' + self.key(node), oid)
            return [(st, self.new_list(st, node, elem=el, kind='set'))]
        if any(k == STR for k in a.kinds):
            return [(st, V(T.atom('str', op, a.term, b.term), frozenset([STR]), W0))]
        if ra or rb:
            for oid, o in ra:
                if o.kind == 'inst' and o.cls in self.classes:
                    mname = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(op)
                    f = self.classes[o.cls].find(mname) if mname else None
                    if f is not None:
                        return self.call_fn(st, node, f, [a, b], {}, '')
            return [(st, self.unk(node, 'op'))]
        an, bn = self.numeric(a), self.numeric(b)
        if op == 'Add':
            r = self.n_add(st, node, an, bn)
        elif op == 'Sub':
            r = self.n_sub(st, node, an, bn)
        elif op == 'Mult':
            r = self.n_mul(st, node, an, bn)
        elif op == 'Div':
            r = self.n_div(st, node, an, bn)
        elif op in ('FloorDiv', 'Mod'):
            self.division(st, node, bn)
            self.nl(st, node, [an, bn], op)
            ca, cb = T.num(an.term), T.num(bn.term)
            if ca is not None and cb:
                r = self.num(T.const(ca % cb if op == 'Mod' else ca // cb))
            elif op == 'Mod':
                r = self.num(self.modterm(an.term, bn.term), W0 if an.w == W0 and bn.w == W0 else None)
            else:
                r = self.num(T.atom('//', an.term, bn.term), W0 if an.w == W0 and bn.w == W0 else None)
        elif op == 'Pow':
            c = T.num(bn.term)
            self.nl(st, node, [an, bn], op)
            w = W0 if an.w == W0 and bn.w == W0 else None
            if c is not None and c.denominator == 1 and 0 <= c <= 4:
                r = self.num(T.pow(an.term, int(c)), w)
            else:
                if c is not None and c < 0:
                    self.division(st, node, an)
                r = self.num(T.atom('pow', an.term, bn.term), w)
        else:
            self.nl(st, node, [an, bn], op)
            r = self.num(T.atom('op' + op, an.term, bn.term), W0 if an.w == W0 and bn.w == W0 else None)
        if UNK in a.kinds or UNK in b.kinds:
            r = V(r.term, frozenset([UNK]), r.w)
        return [(st, r)]

    def modterm(self, a, n):
        """a mod n with multiples of n removed: (x + n) mod n == x mod n"""
        p = T.poly(a)
        pn = T.poly(n)
        if len(pn) == 1:
            (m, c), = pn.items()
            if m in p and (Fraction(p[m]) / c).denominator == 1 and m != ():
                q = dict(p)
                del q[m]
                a = T.from_poly(q)
        return T.atom('mod', a, n)

    def anydim(self, st, v):
        for _, o in self.refs(st, v):
            if o.dim:
                return o.dim
        return None

    def numeric(self, v):
        if NUM in v.kinds or BOOL in v.kinds:
            return v if len(v.kinds) == 1 else V(v.term, frozenset([NUM]), v.w)
        return V(v.term, v.kinds, v.w)

    def compare(self, st, n, op, a, b):
        a, b = self.load(st, a), self.load(st, b)
        if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            r = self.equal(st, n, a, b, op in ('Is', 'IsNot'))
            if op in ('IsNot', 'NotEq'):
                return T.FALSE if r == T.TRUE else T.TRUE if r == T.FALSE else \
                    T.args(r)[0] if T.op(r) == 'not' else T.atom('not', r)
            return r
        if op in ('In', 'NotIn'):
            self.check_none(st, n, b, 'membership test')
            r = self.member(st, n, a, b)
            if op == 'NotIn':
                return T.FALSE if r == T.TRUE else T.TRUE if r == T.FALSE else T.atom('not', r)
            return r
        self.check_none(st, n, a, 'ordering comparison')
        self.check_none(st, n, b, 'ordering comparison')
        if (a.kinds | b.kinds) <= frozenset([NUM, BOOL, UNK, ('none', '')]) or NUM in a.kinds or NUM in b.kinds:
            x, y = a, b
            if op in ('Gt', 'LtE'):
                x, y = b, a
            d = self.n_sub(st, n, self.numeric(x), self.numeric(y))
            if self.wdef(d.w):
                self.emit('absuse', st, n, value=d, what='comparison')
            c = T.num(d.term)
            if c is not None:
                r = T.TRUE if c < 0 else T.FALSE
                if op in ('LtE', 'GtE'):
                    r = T.FALSE if r == T.TRUE else T.TRUE
                return r
            t = T.atom('lt', d.term)
            # op a<b: lt(a-b) ; a>b: lt(b-a) ; a<=b: not lt(b-a) ; a>=b: not lt(a-b)
            return t if op in ('Lt', 'Gt') else T.atom('not', t)
        return T.atom('cmp', op, a.term, b.term)

    def equal(self, st, n, a, b, is_):
        an = [k for k in a.kinds if k[0] == 'none']
        bn = [k for k in b.kinds if k[0] == 'none']
        if b.term == T.NONE or a.term == T.NONE:
            x, xn = (a, an) if b.term == T.NONE else (b, bn)
            if len(xn) == len(x.kinds) and xn:
                return T.TRUE
            if not xn and UNK not in x.kinds and not any(k[0] == 'ext' for k in x.kinds):
                return T.FALSE
            f = st.facts.get(('isnone', x.term))
            if f is not None:
                return T.TRUE if f else T.FALSE
            return T.atom('isnone', x.term)
        if a.term == b.term and not (a.kinds == frozenset([NUM]) and False):
            return T.TRUE
        ra, rb = T.rev[a.term], T.rev[b.term]
        if ra[0] in ('k', 'b', 'c') and rb[0] in ('k', 'b', 'c'):
            if T.num(a.term) is not None and T.num(b.term) is not None:
                return T.TRUE if T.num(a.term) == T.num(b.term) else T.FALSE
            return T.FALSE if ra != rb else T.TRUE
        if a.kinds <= frozenset([NUM, BOOL]) and b.kinds <= frozenset([NUM, BOOL]) and a.kinds and b.kinds:
            if rb[0] == 'b' or ra[0] == 'b':
                x, c = (a, rb) if rb[0] == 'b' else (b, ra)
                if x.kinds == frozenset([BOOL]):
                    return x.term if c[1] else T.atom('not', x.term)
            d = self.n_sub(st, n, a, b)
            if self.wdef(d.w):
                self.emit('absuse', st, n, value=d, what='comparison')
            return T.atom('eq', self.canon(d.term))
        if self.is_vec(st, a) and self.is_vec(st, b) and not is_:
            ca, da = self.comps(st, a)
            cb, db = self.comps(st, b)
            if ca is not None and cb is not None:
                for x, y in zip(ca, cb):
                    w = self.wadd(x.w, y.w, True)
                    if self.wdef(w):
                        self.emit('absuse', st, n, value=V(T.sub(x.term, y.term), x.kinds, w), what='vector comparison')
                        break
        # different abstract objects are different objects
        sa, sb = self.sole(st, a), self.sole(st, b)
        if sa and sb and not an and not bn and (is_ or (sa[1].kind == 'inst' and sb[1].kind == 'inst' and
                                                       not self.has_eq(sa[1]))):
            if sa[0] != sb[0] and sa[1].origin == 'new' and sb[1].origin == 'new' and \
                    sa[0].rstrip('~') != sb[0].rstrip('~'):
                return T.FALSE
        x, y = sorted((a.term, b.term))
        return T.atom('same', x, y)

    def has_eq(self, o):
        c = self.classes.get(o.cls)
        return c is None or c.find('__eq__') is not None or c.fields_nt() is not None

    def member(self, st, n, a, b):
        rs = self.refs(st, b)
        for oid, o in rs:
            if o.kind == 'inst' and o.cls in self.classes:
                f = self.classes[o.cls].find('__contains__')
                if f is not None:
                    return T.atom('in', a.term, b.term, T.atom('call', self.key(n)))
        ex = self.exact_of(st, b)
        if ex is not None:
            if not ex:
                return T.FALSE
            if len(ex) <= 3:
                parts = [self.equal(st, n, a, e, False) for e in ex]
                if T.TRUE in parts:
                    return T.TRUE
                parts = [p for p in parts if p != T.FALSE]
                if not parts:
                    return T.FALSE
                if len(parts) == 1:
                    return parts[0]
                return T.atom('or', *parts)
        self.cmp_elems(st, n, a, b)
        ver = self.cver(st, b)
        t = ('in', a.term, b.term, ver)
        f = st.facts.get(t)
        if f is True or self.idx_of(a.term, b.term, ver):
            return T.TRUE
        if f is False:
            return T.FALSE
        return T.atom('in', a.term, b.term, ver)

    def cmp_elems(self, st, n, a, b):
        """a is compared with the elements of b (membership, index, remove, count)"""
        for oid, o in self.refs(st, b):
            el = o.key if o.kind == 'dict' else o.elem
            if el is None:
                continue
            if self.is_vec(st, a) and self.is_vec(st, el):
                ca, da = self.comps(st, a)
                cb, db = self.comps(st, el)
                if ca is not None and cb is not None:
                    for x, y in zip(ca, cb):
                        if x.w is not None and y.w is not None:
                            w = self.wadd(x.w, y.w, True)
                            if self.wdef(w):
                                self.emit('absuse', st, n, value=V(x.term, x.kinds, w), what='vector comparison')
                                break

    # ------------------------------------------------------------ iteration
    def shape(self, st, v, node):
        v = self.load(st, v)
        out = []
        rs = self.refs(st, v)
        other = [k for k in v.kinds if k[0] not in ('ref', 'none', 'unbound')]
        seqs = frozenset(('ref', oid) for oid, o in rs if o.kind in ('list', 'tuple', 'set', 'dict', 'vec'))
        if seqs:
            sub = V(v.term, seqs, v.w)
            kinds = {st.heap[k[1]].kind for k in seqs}
            if kinds & {'set'}:
                self.emit('setiter', st, node, target=sub)
            out.append((st, ('seq', sub)))
        for oid, o in rs:
            if o.kind == 'iter':
                out.append((st if not out else st.copy(), o.meta if o.meta is not None else ('gen', self.unk(node, 'it'))))
            elif o.kind == 'inst' and o.cls in self.classes:
                c = self.classes[o.cls]
                f = c.find('__iter__')
                if f is not None:
                    me = V(v.term, frozenset([('ref', oid)]), v.w)
                    for x, it in self.call_fn(st.copy(), node, f, [me], {}, ''):
                        for y, sh in self.shape(x, it, node):
                            out.append((y, ('live', me, sh)))
                elif c.fields_nt() is not None:
                    out.append((st.copy(), ('gen', self.joinall(st, [self.field(st, V(v.term, frozenset([('ref', oid)]), v.w), x) for x in c.fields_nt()], node))))
                elif c.find('__getitem__'):
                    out.append((st.copy(), ('gen', self.unk(node, 'gi'))))
            elif o.kind == 'unk':
                out.append((st.copy(), ('gen', self.unk(node, 'o'))))
        if other:
            s2 = st if not out else st.copy()
            if any(k == STR for k in other):
                out.append((s2, ('gen', V(T.atom('ch', v.term, self.key(node)), frozenset([STR]), W0))))
            else:
                out.append((s2, ('gen', V(T.atom('unkel', v.term, self.key(node)), frozenset([UNK]), None))))
        if not out:
            out.append((st, ('gen', self.unk(node, 'iter'))))
        if len(out) > 1:
            # one shape per kind would multiply the states: merge into a generic one
            x = out[0][0]
            el = None
            for y, sh in out:
                if y is not x:
                    x = self.join(x, y, 'sh' + self.key(node))
                el = self.joinv(el, self.shape_generic(y, sh, node), 'sh' + self.key(node), 'e')
            g = ('gen', el if el is not None else self.unk(node, 'e'))
            if all(sh[0] == 'live' for _, sh in out):
                g = ('live', V(v.term, frozenset(k for _, sh in out for k in sh[1].kinds), v.w), g)
            out = [(x, g)]
        return out

    def joinall(self, st, vs, node):
        r = None
        for i, v in enumerate(vs):
            r = self.joinv(r, v, 'ja' + (self.key(node) if node is not None else ''), str(i))
        return r

    def trip(self, st, sh):
        k = sh[0]
        if k == 'seq':
            return self.clen(st, sh[1])
        if k == 'live':
            return self.trip(st, sh[2])
        if k == 'range':
            lo, hi, step = sh[1], sh[2], sh[3]
            if T.num(step.term) == 1:
                return T.sub(hi.term, lo.term)
            if T.num(step.term) == -1:
                return T.sub(lo.term, hi.term)
            return T.atom('trip', lo.term, hi.term, step.term)
        if k in ('enum', 'rev', 'map', 'sorted'):
            return self.trip(st, sh[1])
        if k == 'zip':
            ts = [self.trip(st, s) for s in sh[1]]
            ts = [t for t in ts if t != INF]
            if not ts:
                return INF
            if any(t is None for t in ts):
                return None
            if len(set(ts)) == 1:
                return ts[0]
            # ranges of provably equal length have equal terms; otherwise opaque
            cs = [T.num(t) for t in ts]
            if all(c is not None for c in cs):
                return T.const(min(cs))
            diffs = [(T.num(T.sub(t, ts[0])), t) for t in ts]
            if all(d is not None for d, _ in diffs):
                return min(diffs)[1]
            return T.atom('trip', *sorted(ts))
        if k == 'cycle':
            return INF
        if k == 'islice':
            t = self.trip(st, sh[1])
            lo, hi = sh[2], sh[3]
            if hi is None:
                if t == INF:
                    return INF
                return None if t is None else T.sub(t, lo)
            if t == INF:
                return T.sub(hi, lo)
            if t is not None and T.num(T.sub(t, hi)) is not None:
                return T.sub(hi if T.num(T.sub(t, hi)) >= 0 else t, lo)
            return None
        if k == 'chain':
            r = T.ZERO
            for s in sh[1]:
                t = self.trip(st, s)
                if t is None or t == INF:
                    return t
                r = T.add(r, t)
            return r
        if k == 'items':
            return self.clen(st, sh[1])
        if k == 'repeat':
            return sh[2] if sh[2] is not None else INF
        if k == 'mapgen':
            return sh[2]
        if k == 'count':
            return INF
        return None

    def liveval(self, sh):
        k = sh[0]
        if k in ('seq', 'live'):
            return sh[1]
        if k == 'comb':
            return sh[1]
        if k in ('enum', 'rev', 'cycle', 'islice', 'map'):
            return self.liveval(sh[1])
        if k == 'zip':
            for s in sh[1]:
                r = self.liveval(s)
                if r is not None:
                    return r
        if k == 'chain':
            for s in sh[1]:
                r = self.liveval(s)
                if r is not None:
                    return r
        if k == 'chainit':
            return sh[1]
        return None

    def consume(self, st, sh, node):
        pass

    def exact_items(self, st, sh):
        k = sh[0]
        if k == 'seq':
            return self.exact_of(st, sh[1])
        if k == 'range':
            a, b, c = T.num(sh[1].term), T.num(sh[2].term), T.num(sh[3].term)
            if a is not None and b is not None and c and all(x.denominator == 1 for x in (a, b, c)) and abs(b - a) <= self.maxitems:
                return [self.const(i) for i in range(int(a), int(b), int(c))]
            return None
        if k == 'enum':
            it = self.exact_items(st, sh[1])
            if it is None:
                return None
            return None
        if k == 'rev':
            it = self.exact_items(st, sh[1])
            return it[::-1] if it is not None else None
        if k == 'chain':
            out = []
            for s in sh[1]:
                it = self.exact_items(st, s)
                if it is None:
                    return None
                out += it
            return out
        return None

    def shape_elem(self, st, sh, k, node):
        """element number k (a term) -> [(st, V)]"""
        kd = sh[0]
        if kd == 'seq':
            v = sh[1]
            rs = self.refs(st, v)
            if any(o.kind in ('list', 'tuple') for _, o in rs):
                return [(st, self.elem_at(st, v, k, node))]
            el = None
            for oid, o in rs:
                if o.kind == 'dict':
                    e = o.key
                elif o.kind == 'vec':
                    cs, d = self.comps(st, v)
                    e = self.joinall(st, cs, node) if cs else self.num(T.atom('c', v.term, k), None)
                else:
                    e = o.elem
                el = self.joinv(el, e, 'se' + self.key(node), oid)
            if el is None:
                return []      # iterating an empty container: body unreachable
            return [(st, self.load(st, V(T.atom('idx', v.term, k, self.cver(st, v)), el.kinds, el.w)))]
        if kd == 'live':
            return self.shape_elem(st, sh[2], k, node)
        if kd == 'range':
            lo, hi, step = sh[1], sh[2], sh[3]
            v = self.num(T.add(lo.term, T.mul(k, step.term)))
            return [(st, v)]
        if kd == 'count':
            return [(st, self.num(T.add(sh[1].term, k)))]
        if kd == 'repeat':
            return [(st, sh[1])]
        if kd == 'enum':
            out = []
            for x, v in self.shape_elem(st, sh[1], k, node):
                x = x.copy()
                out.append((x, self.new_list(x, node, items=[self.num(T.add(k, sh[2])), v], kind='tuple', tag='en')))
            return out
        if kd == 'zip':
            cur = [(st, [])]
            for s in sh[1]:
                nxt = []
                for x, vs in cur:
                    nxt += [(y, vs + [v]) for y, v in self.shape_elem(x, s, k, node)]
                cur = nxt
            out = []
            for x, vs in cur:
                x = x.copy()
                out.append((x, self.new_list(x, node, items=vs, kind='tuple', tag='zp')))
            return out
        if kd == 'rev':
            t = self.trip(st, sh[1])
            j = T.sub(T.sub(t, T.ONE), k) if t not in (None, INF) else T.atom('rk', k)
            return self.shape_elem(st, sh[1], j, node)
        if kd == 'cycle':
            t = self.trip(st, sh[1])
            j = self.modterm(k, t) if t not in (None, INF) else T.atom('ck', k)
            return self.shape_elem(st, sh[1], j, node)
        if kd == 'islice':
            return self.shape_elem(st, sh[1], T.add(k, sh[2]), node)
        if kd == 'comb':
            src, r, ver = sh[1], sh[2], sh[3]
            st = st.copy()
            items = []
            for i in range(r):
                el = None
                for oid, o in self.refs(st, src):
                    el = self.joinv(el, o.elem, 'cb' + self.key(node), oid)
                if el is None:
                    el = self.shape_generic(st, sh[4], node) if len(sh) > 4 else self.unk(node, 'cb')
                if el is None:
                    return []
                items.append(self.load(st, V(T.atom('idx', src.term, T.atom('ci', k, str(i)), ver), el.kinds, el.w)))
            return [(st, self.new_list(st, node, items=items, kind='tuple', tag='cb'))]
        if kd == 'map':
            out = []
            cur = [(st, [])]
            for s in sh[2]:
                nxt = []
                for x, vs in cur:
                    nxt += [(y, vs + [v]) for y, v in self.shape_elem(x, s, k, node)]
                cur = nxt
            for x, vs in cur:
                out += self.apply(x, node, sh[3], vs, {})
            return out
        if kd == 'items':
            v = sh[1]
            st = st.copy()
            key = el = None
            for oid, o in self.refs(st, v):
                key = self.joinv(key, o.key, 'ik' + self.key(node), oid)
                el = self.joinv(el, o.elem, 'iv' + self.key(node), oid)
            if key is None:
                return []
            kt = V(T.atom('key', v.term, k, self.cver(st, v)), key.kinds, key.w)
            vt = V(T.atom('idx', v.term, kt.term, self.cver(st, v)), el.kinds, el.w) if el is not None else self.unk(node)
            if sh[2] == 'keys':
                return [(st, kt)]
            if sh[2] == 'values':
                return [(st, vt)]
            return [(st, self.new_list(st, node, items=[kt, vt], kind='tuple', tag='it'))]
        if kd == 'chain':
            v = None
            for s in sh[1]:
                for x, e in self.shape_elem(st, s, k, node):
                    v = self.joinv(v, e, 'ch' + self.key(node), 'e')
                    st = x
            if v is None:
                return []
            return [(st, V(T.atom('chel', k, v.term), v.kinds, v.w))]
        if kd == 'chainit':
            # elements of elements
            out = None
            s0 = st
            for x, outer in self.shape_elem(st, sh[2], T.atom('ko', k), node):
                for y, ish in self.shape(x, outer, node):
                    for z, e in self.shape_elem(y, ish, T.atom('ki', k), node):
                        if out is None:
                            out, s0 = e, z
                        else:
                            out = self.joinv(out, e, 'ci' + self.key(node), 'e')
            if out is None:
                return []
            return [(s0, out)]
        if kd in ('gen', 'mapgen'):
            v = sh[1]
            if T.is_const(v.term):
                return [(st, v)]
            return [(st, self.load(st, V(T.atom('gen', k, v.term), v.kinds, v.w)))]
        if kd == 'nothing':
            return []
        return [(st, self.unk(node, 'sh'))]

    def shape_generic(self, st, sh, node):
        r = None
        for x, v in self.shape_elem(st.copy(), sh, T.atom('any', self.key(node) if node is not None else ''), node):
            for oid, o in x.heap.items():
                if oid not in st.heap:
                    st.heap[oid] = o
            r = self.joinv(r, v, 'sg', 'e')
        return r

    def new_iter(self, st, node, sh, tag=''):
        oid = self.alloc(st, node, 'iter', tag='i' + tag)
        st.heap[oid].meta = sh
        return self.ref(oid)

    def sh1(self, st, v, node):
        """single shape of v (states merged)"""
        self.check_none(st, node, v, 'iterate')
        (x, sh), = self.shape(st, v, node)
        return x, sh

    # ------------------------------------------------------------- methods
    def call_method(self, st, n, name, selfv, args, kw):
        selfv = self.load(st, selfv)
        s = self.sole(st, selfv)
        k = next(iter(selfv.kinds))
        args = [a[1] if (isinstance(a, tuple) and not isinstance(a, V)) else a for a in args]
        if k[0] == 'ref' and k[1] in st.heap:
            o = st.heap[k[1]]
            m = getattr(self, 'm_%s' % o.kind, None)
            if m is not None:
                r = m(st.copy(), n, name, selfv, o, args, kw)
                if r is not None:
                    return r
            if o.kind == 'inst' and name == '_replace':
                st = st.copy()
                oid = self.alloc(st, n, 'inst', o.cls, tag='rp')
                nt = self.classes[o.cls].fields_nt()
                for f in nt:
                    st.heap[oid].fields[f] = kw.get(f) or self.field(st, selfv, f)
                return [(st, self.ref(oid))]
        if name == 'cmpkey':
            a = args[0]
            b = V(T.atom('other', a.term), a.kinds, a.w)
            return self.apply(st, n, selfv, [a, b], {})
        if k == STR:
            return self.m_str(st, n, name, selfv, args, kw)
        if k == NUM:
            return [(st, self.num(T.atom('m', name, selfv.term, *[a.term for a in args]), W0 if selfv.w == W0 else None))]
        self.emit('extcall', st, n, name='.' + name, args=[selfv] + args, kw=kw)
        return self.m_unk(st, n, name, selfv, args, kw)

    def m_unk(self, st, n, name, selfv, args, kw):
        r = V(T.atom('m', name, selfv.term, *[a.term for a in args]), frozenset([UNK]), None)
        if name in ('finditer', 'findall'):
            st = st.copy()
            return [(st, self.new_iter(st, n, ('gen', r)))]
        return [(st, r)]

    def m_str(self, st, n, name, selfv, args, kw):
        if name == 'join' and args:
            st, sh = self.sh1(st, args[0], n)
            return [(st, V(T.atom('str', self.key(n), selfv.term, args[0].term), frozenset([STR]), W0))]
        if name in ('split', 'splitlines'):
            st = st.copy()
            return [(st, self.new_list(st, n, elem=V(T.atom('str', self.key(n)), frozenset([STR]), W0)))]
        if name in ('count', 'find', 'index', 'rfind'):
            return [(st, self.num(T.atom('m', name, selfv.term, *[a.term for a in args])))]
        return [(st, V(T.atom('m', name, selfv.term, *[a.term for a in args]), frozenset([STR]), W0))]

    def m_iter(self, st, n, name, selfv, o, args, kw):
        if name == '__next__':
            return self.do_next(st, n, [selfv])
        return None

    def m_tuple(self, st, n, name, selfv, o, args, kw):
        if name in ('index', 'count'):
            self.cmp_elems(st, n, args[0], selfv)
            if name == 'index':
                self.emit('remove', st, n, target=selfv, value=args[0], known=False, op='index')
                self.emit('mayraise', st, n, what='index')
            return [(st, self.num(T.atom('m', name, selfv.term, args[0].term, self.cver(st, selfv))))]
        return None

    def m_list(self, st, n, name, selfv, o, args, kw):
        none = self.none_untracked()
        if name == 'append':
            self.mutate(st, n, selfv, 'append', True, value=args[0], elem=args[0])
            self._grow(st, selfv, args[0], n)
            self.emit('grown', st, n, target=selfv, by=T.ONE, elem=args[0], rhs=None, op='append', exact=None)
            return [(st, none)]
        if name == 'insert':
            self.mutate(st, n, selfv, 'insert', True, value=args[1], elem=args[1], index=args[0])
            self._grow(st, selfv, args[1], n)
            for oid, oo in self.refs(st, selfv):
                st.wobj(oid).items = None
            self.emit('grown', st, n, target=selfv, by=T.ONE, elem=args[1], rhs=None, op='insert', exact=None)
            return [(st, none)]
        if name == 'extend':
            return [(x, none) for x in self.list_extend(st, n, selfv, args[0])]
        if name in ('remove', 'index'):
            self.cmp_elems(st, n, args[0], selfv)
            ver = self.cver(st, selfv)
            t = args[0].term
            known = st.facts.get(('in', t, selfv.term, ver)) is True or self.idx_of(t, selfv.term, ver) or \
                self.exact_has(st, selfv, t)
            self.emit('remove', st, n, target=selfv, value=args[0], known=known, op=name)
            if not known:
                self.emit('mayraise', st, n, what=name)
            if name == 'index':
                return [(st, self.num(T.atom('m', name, selfv.term, t, ver)))]
            self.mutate(st, n, selfv, 'remove', True, value=args[0])
            self.shrink(st, selfv, n)
            return [(st, none)]
        if name == 'pop':
            idx = args[0] if args else self.const(-1)
            self.emit('index', st, n, base=selfv, index=idx, write=True, pop=True)
            v = self.elem_at(st, selfv, idx.term, n)
            self.mutate(st, n, selfv, 'pop', True, index=idx)
            ex = self.exact_of(st, selfv)
            self.shrink(st, selfv, n)
            return [(st, v)]
        if name == 'clear':
            self.mutate(st, n, selfv, 'clear', True)
            self.havoc_list(st, selfv, n, clear=True)
            self.emit('shrink', st, n, target=selfv, op='clear')
            return [(st, none)]
        if name == 'copy':
            return self.copy_seq(st, n, selfv, 'list')
        if name in ('sort', 'reverse'):
            self.mutate(st, n, selfv, name, False)
            if 'key' in kw:
                st = self.call_key(st, n, kw['key'], selfv)
            if name == 'sort':
                self.emit('sort', st, n, target=selfv, kw=kw)
            else:
                self.emit('reversed', st, n, target=selfv)
            for oid, oo in self.refs(st, selfv):
                x = st.wobj(oid)
                if x.items is not None and len(x.items) > 1:
                    x.items = None
            return [(st, none)]
        if name == 'count':
            self.cmp_elems(st, n, args[0], selfv)
            return [(st, self.num(T.atom('m', name, selfv.term, args[0].term, self.cver(st, selfv))))]
        return None

    def exact_has(self, st, lst, t):
        ex = self.exact_of(st, lst)
        return ex is not None and any(e.term == t for e in ex)

    def copy_seq(self, st, n, v, kind):
        st = st.copy()
        ex = self.exact_of(st, v)
        if ex is not None:
            return [(st, self.new_list(st, n, items=ex, kind=kind))]
        el = None
        meta = None
        for oid, o in self.refs(st, v):
            el = self.joinv(el, o.elem, 'cp' + self.key(n), oid)
            meta = o.meta if o.kind == 'list' else None
        r = self.new_list(st, n, elem=el, length=self.clen(st, v), kind=kind)
        oid = self.sole(st, r)[0]
        if meta is not None and len(self.refs(st, v)) == 1:
            st.heap[oid].meta = meta
        st.facts[('copyof', r.term)] = (v.term, self.cver(st, v))
        return [(st, r)]

    def m_set(self, st, n, name, selfv, o, args, kw):
        none = self.none_untracked()
        if name == 'add':
            known = st.facts.get(('in', args[0].term, selfv.term, self.cver(st, selfv)))
            self.mutate(st, n, selfv, 'add', True, value=args[0], elem=args[0])
            self._grow(st, selfv, args[0], n)
            if known is False:
                self.emit('uniqueadd', st, n, target=selfv, value=args[0])
            return [(st, none)]
        if name in ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update'):
            x = st
            for a in args:
                x, sh = self.sh1(x, a, n)
                x = x.copy()
                ev = self.shape_generic(x, sh, n)
                self.mutate(x, n, selfv, name, True, elem=ev)
                if name == 'update':
                    self._grow(x, selfv, ev, n)
                else:
                    self.havoc_list(x, selfv, n)
                    self.emit('shrink', x, n, target=selfv, op=name)
            return [(x, none)]
        if name in ('remove', 'discard'):
            self.mutate(st, n, selfv, name, True)
            if name == 'remove':
                known = st.facts.get(('in', args[0].term, selfv.term, self.cver(st, selfv))) is True
                self.emit('remove', st, n, target=selfv, value=args[0], known=known, op=name)
                if not known:
                    self.emit('mayraise', st, n, what=name)
            self.shrink(st, selfv, n)
            return [(st, none)]
        if name == 'pop':
            self.emit('index', st, n, base=selfv, index=self.const(0), write=True, pop=True)
            self.emit('setiter', st, n, target=selfv)
            el = o.elem if o.elem is not None else self.unk(n, 'pop')
            v = V(T.atom('pop', self.key(n), selfv.term, self.cver(st, selfv)), el.kinds, el.w)
            self.mutate(st, n, selfv, 'pop', True)
            self.shrink(st, selfv, n)
            return [(st, v)]
        if name == 'clear':
            self.mutate(st, n, selfv, 'clear', True)
            self.havoc_list(st, selfv, n, clear=True)
            return [(st, none)]
        if name in ('union', 'difference', 'intersection', 'symmetric_difference', 'copy'):
            el = o.elem
            x = st
            for a in args:
                x, sh = self.sh1(x, a, n)
                x = x.copy()
                if name != 'difference':
                    el = self.joinv(el, self.shape_generic(x, sh, n), 'un' + self.key(n), 'e')
            return [(x, self.new_list(x, n, elem=el, kind='set'))]
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return [(st, self.boolv(T.atom('m', name, selfv.term, *[a.term for a in args])))]
        return None

    def m_dict(self, st, n, name, selfv, o, args, kw):
        none = self.none_untracked()
        if name in ('items', 'keys', 'values'):
            return [(st, self.new_iter(st, n, ('items', selfv, name)))]
        if name in ('get', 'setdefault', 'pop'):
            d = args[1] if len(args) > 1 else V(T.NONE, frozenset([('none', 'n%d' % n._id)]), W0)
            if name == 'setdefault':
                self.mutate(st, n, selfv, 'setdefault', True, value=d)
                self.dict_store(st, selfv, args[0], d, n)
                o = st.heap[self.sole(st, selfv)[0]]
            el = o.elem
            if name == 'pop':
                self.mutate(st, n, selfv, 'pop', True)
                if len(args) < 2:
                    self.emit('mayraise', st, n, what='pop')
                    d = None
            v = V(T.atom('idx', selfv.term, args[0].term, self.cver(st, selfv)), el.kinds, el.w) if el is not None else None
            if v is None:
                v = d if d is not None else self.unk(n, 'get')
            elif d is not None:
                v = self.joinv(v, d, 'dg' + self.key(n), 'd')
            return [(st, v)]
        if name == 'update':
            x = st
            for a in args:
                self.mutate(x, n, selfv, 'update', True)
                for oid, oo in self.refs(x, a):
                    if oo.kind == 'dict' and oo.key is not None:
                        self.dict_store(x, selfv, oo.key, oo.elem, n)
            return [(x, none)]
        if name == 'clear':
            self.mutate(st, n, selfv, 'clear', True)
            return [(st, none)]
        if name == 'copy':
            oid = self.alloc(st, n, 'dict')
            oo = st.heap[oid]
            oo.key, oo.elem, oo.length, oo.meta, oo.fields = o.key, o.elem, o.length, o.meta, dict(o.fields)
            return [(st, self.ref(oid))]
        if name in ('most_common', 'elements'):
            return [(st, self.unk(n, name))]
        return None

    def m_vec(self, st, n, name, selfv, o, args, kw):
        cs, d = self.comps(st, selfv)
        d = d or o.dim
        if name in ('dot', 'cross'):
            self.check_none(st, n, args[0], name)
            cb, db = self.comps(st, args[0])
            if cs is None or cb is None:
                return [(st, self.num(T.atom('m', name, selfv.term, args[0].term), None))]
            if name == 'dot':
                r = self.num(T.ZERO)
                for x, y in zip(cs, cb):
                    r = self.n_add(st, n, r, self.n_mul(st, n, x, y))
                return [(st, r)]
            m = lambda i, j: self.n_sub(st, n, self.n_mul(st, n, cs[i], cb[j]), self.n_mul(st, n, cs[j], cb[i]))
            if d == 2:
                return [(st, m(0, 1))]
            return [(st, self.new_vec(st, n, [m(1, 2), m(2, 0), m(0, 1)]))]
        if name in ('copy', 'freeze', '__copy__', '__deepcopy__'):
            return [(st, self.new_vec(st, n, cs if cs is not None else None))]
        if name in ('normalized', 'normalize'):
            if cs is None:
                ns = [self.num(T.atom('nrm', selfv.term, str(i)), None) for i in range(d or 0)] or None
            else:
                self.nl(st, n, cs, 'normalize')
                w = W0 if all(c.w == W0 for c in cs) else None
                ns = [self.num(T.atom('nrm', str(i), *[c.term for c in cs]), w) for i in range(d)]
            nv = self.new_vec(st, n, ns)
            if name == 'normalized':
                return [(st, nv)]
            self.vec_store(st, n, selfv, nv, 'normalize')
            return [(st, self.none_untracked())]
        if name in ('negate', 'zero', 'resize', 'rotate', 'resize_2d', 'resize_3d', 'resize_4d', 'orthogonal'):
            if name == 'negate' and cs is not None:
                self.vec_store(st, n, selfv, self.new_vec(st, n, [self.n_neg(c) for c in cs]), 'negate')
            elif name == 'zero':
                self.vec_store(st, n, selfv, self.new_vec(st, n, [self.num(T.ZERO)] * (d or 2)), 'zero')
            elif name == 'orthogonal':
                if cs is not None and d == 2:
                    return [(st, self.new_vec(st, n, [self.n_neg(cs[1]), cs[0]]))]
                return [(st, self.new_vec(st, n, None))]
            else:
                self.mutate(st, n, selfv, name, True)
                for oid, oo in self.refs(st, selfv):
                    x = st.wobj(oid)
                    nd = {'resize_2d': 2, 'resize_3d': 3, 'resize_4d': 4}.get(name)
                    if nd:
                        for i in range(nd):
                            x.fields.setdefault(str(i), self.num(T.ZERO))
                        x.dim = nd
                    else:
                        x.dim = None
            return [(st, self.none_untracked())]
        if name in ('to_2d', 'to_3d', 'to_4d', 'resized'):
            nd = {'to_2d': 2, 'to_3d': 3, 'to_4d': 4}.get(name) or (int(T.num(args[0].term)) if args and T.num(args[0].term) is not None else None)
            if nd is None or cs is None:
                return [(st, self.new_vec(st, n, None))]
            ns = list(cs[:nd]) + [self.num(T.ZERO if i < 3 else T.ONE) for i in range(len(cs), nd)]
            return [(st, self.new_vec(st, n, ns))]
        if name == 'to_tuple':
            if cs is not None:
                return [(st, self.new_list(st, n, items=cs, kind='tuple'))]
            return [(st, self.new_list(st, n, elem=self.num(T.atom('c', selfv.term), None), kind='tuple'))]
        if name in ('angle', 'angle_signed', 'rotation_difference'):
            cb, db = self.comps(st, args[0])
            self.nl(st, n, (cs or []) + (cb or []), name)
            return [(st, self.num(T.atom('m', name, selfv.term, args[0].term), W0 if cs is not None and cb is not None and all(c.w == W0 for c in cs + cb) else None))]
        if name in ('lerp', 'project', 'reflect', 'slerp', 'perpendicular'):
            dd = d or 2
            if name == 'lerp' and cs is not None:
                cb, db = self.comps(st, args[0])
                if cb is not None and len(args) > 1:
                    f = args[1]
                    return [(st, self.new_vec(st, n, [self.n_add(st, n, x, self.n_mul(st, n, self.n_sub(st, n, y, x), f)) for x, y in zip(cs, cb)]))]
            return [(st, self.new_vec(st, n, [self.num(T.atom('m', name, selfv.term, *[a.term for a in args], str(i)), None) for i in range(dd)]))]
        return None

    # ------------------------------------------------------------ externals
    def call_ext(self, st, n, name, args, kw):
        short = name.split('.')[-1]
        args2 = []
        for a in args:
            if isinstance(a, tuple) and not isinstance(a, V):
                args2.append(a)
            else:
                args2.append(a)
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is None and name.startswith('builtins.'):
            m = getattr(self, 'x_' + short, None)
        if m is None and name.startswith('itertools.'):
            m = getattr(self, 'x_it_' + short, None)
        if m is None and name.startswith('math.'):
            m = self.x_math
        if m is None and name.startswith('re.'):
            m = self.x_re
        if m is None and name.startswith('collections.'):
            m = getattr(self, 'x_co_' + short, None)
        if m is not None:
            self.extname = name
            r = m(st.copy(), n, args2, kw)
            if r is not None:
                return r
        self.emit('extcall', st, n, name=name, args=args, kw=kw)
        if name.startswith('builtins.') and (short.endswith('Error') or short.endswith('Exception') or short in ('Exception', 'StopIteration', 'Warning')):
            return [(st, V(T.atom('exc', name), frozenset([UNK]), None))]
        ts = [a.term for a in args if isinstance(a, V)]
        return [(st, V(T.atom('call', name, *ts), frozenset([UNK]), None))]

    @staticmethod
    def plain(args):
        return [a for a in args if isinstance(a, V)]

    def x_len(self, st, n, args, kw):
        v = self.load(st, args[0])
        self.check_none(st, n, v, 'len()')
        for oid, o in self.refs(st, v):
            if o.kind == 'inst' and o.cls in self.classes and len(v.kinds) == 1:
                f = self.classes[o.cls].find('__len__')
                if f is not None:
                    return self.call_fn(st, n, f, [v], {}, '')
        return [(st, self.num(self.clen(st, v)))]

    def x_range(self, st, n, args, kw):
        if any(not isinstance(a, V) for a in args):
            el = args[-1][1] if not isinstance(args[-1], V) else args[-1]
            ex = None
            return [(st, self.new_iter(st, n, ('gen', self.num(T.atom('rng', self.key(n))))))]
        for a in args:
            self.check_none(st, n, a, 'range()')
        if len(args) == 1:
            lo, hi, step = self.const(0), args[0], self.const(1)
        elif len(args) == 2:
            lo, hi, step = args[0], args[1], self.const(1)
        else:
            lo, hi, step = args
        oid = self.alloc(st, n, 'iter', tag='rg')
        st.heap[oid].meta = ('range', lo, hi, step)
        v = self.ref(oid)
        return [(st, V(T.atom('range', lo.term, hi.term, step.term), v.kinds, None))]

    def x_enumerate(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        start = args[1] if len(args) > 1 else kw.get('start')
        return [(st, self.new_iter(st, n, ('enum', sh, start.term if start is not None else T.ZERO)))]

    def x_zip(self, st, n, args, kw):
        shs = []
        for a in args:
            if not isinstance(a, V):
                return [(st, self.new_iter(st, n, ('gen', self.unk(n, 'zip*'))))]
            st, sh = self.sh1(st, a, n)
            shs.append(sh)
        st = st.copy()
        return [(st, self.new_iter(st, n, ('zip', tuple(shs))))]

    def x_reversed(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        self.emit('reversed', st, n, target=args[0])
        return [(st, self.new_iter(st, n, ('rev', sh)))]

    def x_iter(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        return [(st, self.new_iter(st, n, sh))]

    def x_next(self, st, n, args, kw):
        return self.do_next(st, n, args)

    def do_next(self, st, n, args):
        v = self.load(st, args[0])
        d = args[1] if len(args) > 1 else None
        st, sh = self.sh1(st, v, n)
        st = st.copy()
        known = False
        tr = self.trip(st, sh)
        if tr == INF or (tr is not None and self.known_pos(st, tr)):
            known = True
        e = self.shape_generic(st, sh, n)
        if e is not None and not T.is_const(e.term):
            e = V(T.atom('next', self.key(n), v.term), e.kinds, e.w)
        if d is None:
            self.emit('index', st, n, base=v, index=self.const(0), write=False, nxt=True, known=known)
            return [(st, self.load(st, e) if e is not None else self.unk(n, 'next'))]
        return [(st, self.joinv(e, d, 'nx' + self.key(n), 'd') if e is not None else d)]

    def call_key(self, st, n, f, src, what='sort'):
        """evaluate a key function on a generic element"""
        f = self.load(st, f)
        if all(k[0] == 'none' for k in f.kinds):
            return st
        st, sh = self.sh1(st, src, n)
        out = st
        for x, v in self.shape_elem(st.copy(), sh, T.atom('kk', self.key(n)), n):
            for y, kv in self.apply(x, n, f, [v], {}):
                self.emit('keyed', y, n, what=what, source=src, elem=v, key=kv)
                out = self.join(out, y, 'kf' + self.key(n))
        return out

    def x_sorted(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        el = self.shape_generic(st, sh, n)
        tr = self.trip(st, sh)
        if 'key' in kw:
            st = self.call_key(st, n, kw['key'], args[0])
            st = st.copy()
        self.emit('sort', st, n, target=args[0], kw=kw)
        r = self.new_list(st, n, elem=el, length=tr if tr not in (None, INF) else None)
        self.emit('sorted', st, n, target=args[0], kw=kw, result=r)
        return [(st, r)]

    def _mk(self, st, n, args, kind):
        if not args:
            return [(st, self.new_list(st, n, items=[], kind=kind) if kind != 'set' else
                     self.new_list(st, n, items=[], kind='set'))]
        v = self.load(st, args[0])
        st, sh = self.sh1(st, v, n)
        st = st.copy()
        ex = self.exact_items(st, sh)
        if ex is not None and kind != 'set':
            return [(st, self.new_list(st, n, items=ex, kind=kind))]
        if sh[0] == 'seq' and kind in ('list', 'tuple') and all(o.kind in ('list', 'tuple') for _, o in self.refs(st, sh[1])):
            return self.copy_seq(st, n, sh[1], kind)
        if sh[0] == 'seq' and kind in ('tuple', 'list') and self.is_vec(st, sh[1]):
            cs, d = self.comps(st, sh[1])
            if cs is not None:
                return [(st, self.new_list(st, n, items=cs, kind=kind))]
        tr = self.trip(st, sh)
        el = self.shape_generic(st, sh, n)
        ln = tr if tr not in (None, INF) and kind != 'set' else None
        if ln is None and el is None:
            ln = T.ZERO
        r = self.new_list(st, n, elem=el, length=ln, kind=kind)
        o = st.heap[self.sole(st, r)[0]]
        if kind == 'set':
            o.items = None
        if kind == 'list' and tr not in (None, INF):
            k = T.atom('k', 'C' + self.key(n))
            for x, e in self.shape_elem(st.copy(), sh, k, n):
                if not any(q[0] == 'ref' for q in e.kinds):
                    o.meta = ('map', k, e, tr)
        return [(st, r)]

    def x_list(self, st, n, args, kw):
        return self._mk(st, n, args, 'list')

    def x_tuple(self, st, n, args, kw):
        return self._mk(st, n, args, 'tuple')

    def x_set(self, st, n, args, kw):
        r = self._mk(st, n, args, 'set')
        return r

    x_frozenset = x_set

    def x_dict(self, st, n, args, kw):
        oid = self.alloc(st, n, 'dict')
        o = st.heap[oid]
        o.length = T.ZERO if not args and not kw else T.atom('len?', 'd' + self.key(n))
        r = self.ref(oid)
        for k, v in kw.items():
            if k is not None:
                self.dict_store(st, r, self.const(k), v, n)
        if args:
            st, sh = self.sh1(st, args[0], n)
            st = st.copy()
            e = self.shape_generic(st, sh, n)
            if e is not None:
                ex = self.exact_of(st, e)
                if ex is not None and len(ex) == 2:
                    self.dict_store(st, r, ex[0], ex[1], n)
                else:
                    self.dict_store(st, r, self.unk(n, 'k'), self.unk(n, 'v'), n)
        return [(st, r)]

    def x_abs(self, st, n, args, kw):
        a = args[0]
        self.check_none(st, n, a, 'abs()')
        self.nl(st, n, [a], 'abs')
        c = T.num(a.term)
        if c is not None:
            return [(st, self.const(abs(c)))]
        if self.known_nonneg(st, a.term):
            return [(st, self.num(a.term, a.w))]
        return [(st, self.num(T.atom('abs', self.canon(a.term)), W0 if a.w == W0 else None))]

    def x_float(self, st, n, args, kw):
        if not args:
            return [(st, self.const(0.0))]
        if args[0].kinds == frozenset([STR]):
            return [(st, self.num(T.atom('float', args[0].term)))]
        return [(st, V(args[0].term, frozenset([NUM]), args[0].w))]

    def x_int(self, st, n, args, kw):
        if not args:
            return [(st, self.const(0))]
        a = args[0]
        self.nl(st, n, [a], 'int')
        c = T.num(a.term)
        return [(st, self.const(int(c)) if c is not None else self.num(T.atom('int', a.term), W0 if a.w == W0 else None))]

    def x_round(self, st, n, args, kw):
        self.nl(st, n, [args[0]], 'round')
        return [(st, self.num(T.atom('round', *[a.term for a in args]), W0 if args[0].w == W0 else None))]

    def x_bool(self, st, n, args, kw):
        if not args:
            return [(st, self.boolv(T.FALSE))]
        ts, fs = self.truth_term(st, args[0], n)
        if ts and not fs:
            return [(ts[0], self.boolv(T.TRUE))]
        if fs and not ts:
            return [(fs[0], self.boolv(T.FALSE))]
        return [(x, self.boolv(T.TRUE)) for x in ts] + [(x, self.boolv(T.FALSE)) for x in fs]

    def x_str(self, st, n, args, kw):
        return [(st, V(T.atom('str', *[a.term for a in args]), frozenset([STR]), W0))]

    x_repr = x_str
    x_format = x_str
    x_chr = x_str

    def x_complex(self, st, n, args, kw):
        self_w = W0 if all(a.w == W0 for a in args) else None
        for a in args:
            self.check_none(st, n, a, 'complex()')
        t = T.atom('cpx', *[a.term for a in args])
        return [(st, self.num(t, self_w))]

    def x_slice(self, st, n, args, kw):
        return [(st, self.unk(n, 'slice'))]

    def x_hasattr(self, st, n, args, kw):
        return [(st, self.boolv(T.atom('hasattr', args[0].term, args[1].term)))]

    def x_getattr(self, st, n, args, kw):
        k = T.rev[args[1].term]
        if k[0] == 'k':
            return self.getattr(st, n, args[0], ast.literal_eval(k[2]))
        return [(st, self.unk(n, 'getattr'))]

    def x_setattr(self, st, n, args, kw):
        k = T.rev[args[1].term]
        name = ast.literal_eval(k[2]) if k[0] == 'k' else '?'
        self.setattr(st, n, args[0], name, args[2])
        return [(st, self.none_untracked())]

    def x_type(self, st, n, args, kw):
        v = self.load(st, args[0])
        cs = {self.refs(st, v)[0][1].cls} if len(self.refs(st, v)) == 1 else {o.cls for _, o in self.refs(st, v)}
        if len(cs) == 1 and None not in cs:
            c = cs.pop()
            if c in self.classes:
                return [(st, V(T.atom('cls', c), frozenset([('cls', c)]), None))]
        return [(st, self.unk(n, 'type'))]

    def x_super(self, st, n, args, kw):
        return [(st, self.unk(n, 'super'))]

    def x_id(self, st, n, args, kw):
        self.emit('extcall', st, n, name='builtins.id', args=args, kw=kw)
        return [(st, self.num(T.atom('id', args[0].term)))]

    def x_hash(self, st, n, args, kw):
        self.emit('extcall', st, n, name='builtins.hash', args=args, kw=kw)
        return [(st, self.num(T.atom('hash', args[0].term)))]

    def x_callable(self, st, n, args, kw):
        return [(st, self.boolv(T.atom('callable', args[0].term)))]

    def x_isinstance(self, st, n, args, kw):
        v = self.load(st, args[0])
        cl = args[1]
        cids = []
        ex = self.exact_of(st, cl)
        for c in (ex if ex is not None else [cl]):
            for k in c.kinds:
                if k[0] == 'cls':
                    cids.append(k[1])
                elif k[0] == 'ext':
                    cids.append(k[1].split('.')[-1])
        if not cids:
            return [(st, self.boolv(T.atom('isinst', v.term, 'unknown')))]
        res = []
        terms = []
        for cid in cids:
            rs = {self.kind_isinst(st, k, 'vec' if cid == 'Vector' else cid) for k in v.kinds if k[0] not in ('unbound',)}
            if rs == {True}:
                return [(st, self.boolv(T.TRUE))]
            if rs == {False}:
                continue
            f = st.facts.get(('isinst', v.term, cid))
            if f is True:
                return [(st, self.boolv(T.TRUE))]
            if f is False:
                continue
            terms.append(T.atom('isinst', v.term, cid))
        if not terms:
            return [(st, self.boolv(T.FALSE))]
        return [(st, self.boolv(terms[0] if len(terms) == 1 else T.atom('or', *terms)))]

    def x_all(self, st, n, args, kw):
        return self.anyall(st, n, args, True)

    def x_any(self, st, n, args, kw):
        return self.anyall(st, n, args, False)

    def anyall(self, st, n, args, isall):
        v = args[0]
        st, sh = self.sh1(st, v, n)
        s = self.sole(st, v)
        name = 'allof' if isall else 'anyof'
        # element condition in terms of the comprehension counter: all(c(x) for x in L)
        if s is not None and s[1].meta is not None and s[1].meta[0] == 'map':
            _, k, ev, tr = s[1].meta
            g = n.args[0]
            if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and len(g.generators) == 1 and not g.generators[0].ifs:
                src = self._compsrc.get(g._id)
                if src is not None:
                    cont, ver = src
                    return [(st, self.boolv(T.atom(name, cont, ver, k, ev.term)))]
        return [(st, self.boolv(T.atom(name + '?', v.term, self.key(n), self.cver(st, v))))]

    _compsrc = {}

    def x_sum(self, st, n, args, kw):
        v = args[0]
        st, sh = self.sh1(st, v, n)
        st = st.copy()
        tr = self.trip(st, sh)
        start = args[1] if len(args) > 1 else kw.get('start')
        k = T.atom('k', 'S' + self.key(n))
        out = None
        for x, e in self.shape_elem(st, sh, k, n):
            out, st = e, x
        if out is None:
            return [(st, start or self.const(0))]
        if self.is_vec(st, out):
            cs, d = self.comps(st, out)
            if cs is not None:
                st = st.copy()
                ns = []
                sc = self.comps(st, start)[0] if start is not None and self.is_vec(st, start) else None
                for i, c in enumerate(cs):
                    t = T.atom('sum', 'S' + self.key(n), c.term, k, tr if isinstance(tr, int) else T.ZERO)
                    w = None if c.w is None or tr in (None, INF) else tuple(T.mul(tr, q) for q in c.w)
                    e = self.num(t, w)
                    if sc is not None and i < len(sc):
                        e = self.n_add(st, n, e, sc[i])
                    ns.append(e)
                return [(st, self.new_vec(st, n, ns))]
            return [(st, self.new_vec(st, n, None))]
        if not (out.kinds & frozenset([NUM, BOOL])):
            if self.refs(st, out):
                st = st.copy()
                el = self.iter_elem(st, out, n)
                return [(st, self.new_list(st, n, elem=el))]
            return [(st, self.num(T.atom('sum?', self.key(n), v.term), None))]
        w = None if out.w is None or tr in (None, INF) else (W0 if out.w == W0 else tuple(T.mul(tr, q) for q in out.w))
        if out.w == W0:
            w = W0
        t = T.atom('sum', 'S' + self.key(n), out.term, k, tr) if tr not in (None, INF) else T.atom('sum?', self.key(n), v.term)
        if tr not in (None, INF) and not T.mentions(out.term, k) and T.num(out.term) is not None:
            t = T.mul(tr, out.term)
        r = self.num(t, w)
        if start is not None:
            r = self.n_add(st, n, r, start)
        return [(st, r)]

    def x_max(self, st, n, args, kw):
        return self.maxmin(st, n, args, kw, 'max')

    def x_min(self, st, n, args, kw):
        return self.maxmin(st, n, args, kw, 'min')

    def maxmin(self, st, n, args, kw, op):
        args = self.plain(args)
        if len(args) == 1:
            v = self.load(st, args[0])
            st, sh = self.sh1(st, v, n)
            st = st.copy()
            tr = self.trip(st, sh)
            if 'default' not in kw:
                known = tr is not None and tr != INF and (self.known_pos(st, tr) or (self.nonzero(st, tr) and self.known_nonneg(st, tr)))
                self.emit('index', st, n, base=v, index=self.const(0), write=False, agg=op, known=known)
            if 'key' in kw:
                st = self.call_key(st, n, kw['key'], args[0], op)
                st = st.copy()
                e = self.shape_generic(st, sh, n)
                if e is None:
                    return [(st, self.unk(n, op))]
                r = self.load(st, V(T.atom('idx', v.term, T.atom('argm', self.key(n)), self.cver(st, v)), e.kinds, e.w))
                if 'default' in kw:
                    r = self.joinv(r, kw['default'], 'mx' + self.key(n), 'd')
                return [(st, r)]
            k = T.atom('k', 'M' + self.key(n))
            e = None
            for x, ee in self.shape_elem(st, sh, k, n):
                e, st = ee, x
            if e is None:
                return [(st, self.unk(n, op))]
            if e.kinds <= frozenset([NUM, BOOL]):
                return [(st, self.num(T.atom(op + 'over', e.term, k, tr if tr not in (None, INF) else T.ZERO, T.atom('bot')), e.w))]
            return [(st, V(T.atom('idx', v.term, T.atom('argm', self.key(n)), self.cver(st, v)), e.kinds, e.w))]
        for a in args:
            self.check_none(st, n, a, op + '()')
        nums = all(a.kinds <= frozenset([NUM, BOOL]) for a in args)
        if nums:
            cs = [T.num(a.term) for a in args]
            if all(c is not None for c in cs):
                return [(st, self.const(max(cs) if op == 'max' else min(cs)))]
            ts = sorted({a.term for a in args})
            if len(ts) == 1:
                return [(st, args[0])]
            w = args[0].w
            for a in args[1:]:
                if a.w != w:
                    if self.wdef(self.wadd(a.w, w, True)):
                        self.emit('absuse', st, n, value=a, what=op)
                    w = None
            return [(st, self.num(T.atom(op, *ts), w))]
        r = self.joinall(st, args, n)
        return [(st, V(T.atom('pick', self.key(n), *[a.term for a in args]), r.kinds, r.w))]

    def x_print(self, st, n, args, kw):
        self.emit('extcall', st, n, name='builtins.print', args=args, kw=kw)
        return [(st, self.none_untracked())]

    def x_map(self, st, n, args, kw):
        shs = []
        for a in args[1:]:
            if not isinstance(a, V):
                return [(st, self.new_iter(st, n, ('gen', self.unk(n, 'map'))))]
            st, sh = self.sh1(st, a, n)
            shs.append(sh)
        # evaluate once, generically, so that its effects and checks are seen
        k = T.atom('k', 'P' + self.key(n))
        cur = [(st.copy(), [])]
        for s in shs:
            cur = [(y, vs + [v]) for x, vs in cur for y, v in self.shape_elem(x, s, k, n)]
        out, e = st, None
        for x, vs in cur:
            for y, v in self.apply(x, n, args[0], vs, {}):
                out = self.join(out, y, 'mp' + self.key(n))
                e = self.joinv(e, v, 'mp' + self.key(n), 'v')
        out = out.copy()
        if e is None:
            return [(out, self.new_iter(out, n, ('nothing',)))]
        tr = self.trip(out, ('zip', tuple(shs)))
        return [(out, self.new_iter(out, n, ('mapgen', e, tr) if tr not in (None, INF) else ('gen', e)))]

    def x_filter(self, st, n, args, kw):
        st, sh = self.sh1(st, args[1], n)
        k = T.atom('k', 'P' + self.key(n))
        out, e = st, None
        for x, v in self.shape_elem(st.copy(), sh, k, n):
            if any(q[0] != 'none' for q in args[0].kinds):
                for y, c in self.apply(x, n, args[0], [v], {}):
                    for z in self.truth_term(y, c, n)[0]:
                        out = self.join(out, z, 'fl' + self.key(n))
                        e = self.joinv(e, self.load(z, v), 'fl' + self.key(n), 'v')
            else:
                for z in self.truth_term(x, v, n)[0]:
                    out = self.join(out, z, 'fl' + self.key(n))
                    e = self.joinv(e, self.load(z, v), 'fl' + self.key(n), 'v')
        out = out.copy()
        return [(out, self.new_iter(out, n, ('gen', e) if e is not None else ('nothing',)))]

    def x_divmod(self, st, n, args, kw):
        self.division(st, n, args[1])
        a, b = args
        q = self.num(T.atom('//', a.term, b.term))
        m = self.num(self.modterm(a.term, b.term))
        return [(st, self.new_list(st, n, items=[q, m], kind='tuple'))]

    def x_pow(self, st, n, args, kw):
        return self.binop(st, n, 'Pow', args[0], args[1])

    # itertools -------------------------------------------------------------
    def x_it_tee(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        c = T.num(args[1].term) if len(args) > 1 else 2
        its = [self.new_iter(st, n, sh, tag='t%d' % i) for i in range(int(c or 2))]
        return [(st, self.new_list(st, n, items=its, kind='tuple'))]

    def x_it_cycle(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        return [(st, self.new_iter(st, n, ('cycle', sh)))]

    def x_it_islice(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        r = args[1:]
        if len(r) == 1:
            lo, hi = self.const(0), r[0]
        else:
            lo, hi = r[0], r[1]
        isnone = lambda v: all(k[0] == 'none' for k in v.kinds)
        if len(r) == 3 and not isnone(r[2]) and T.num(r[2].term) != 1:
            e = self.shape_generic(st, sh, n)
            return [(st, self.new_iter(st, n, ('gen', e) if e is not None else ('nothing',)))]
        return [(st, self.new_iter(st, n, ('islice', sh, T.ZERO if isnone(lo) else lo.term, None if isnone(hi) else hi.term)))]

    def x_it_combinations(self, st, n, args, kw):
        src = args[0]
        st, sh = self.sh1(st, src, n)
        st = st.copy()
        c = T.num(args[1].term) if len(args) > 1 else None
        if sh[0] == 'seq' and c is not None and c <= 4:
            return [(st, self.new_iter(st, n, ('comb', sh[1], int(c), self.cver(st, sh[1]))))]
        e = self.shape_generic(st, sh, n)
        if e is None:
            return [(st, self.new_iter(st, n, ('nothing',)))]
        r = self.new_list(st, n, items=[V(T.atom('cmb', self.key(n), str(i)), e.kinds, e.w) for i in range(int(c or 2))], kind='tuple')
        return [(st, self.new_iter(st, n, ('gen', r)))]

    def x_it_permutations(self, st, n, args, kw):
        self.other_pairs = getattr(self, 'other_pairs', set()) | {n}
        return self.x_it_combinations(st, n, args, kw)

    x_it_combinations_with_replacement = x_it_permutations

    def x_it_pairwise(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        return [(st, self.new_iter(st, n, ('zip', (sh, ('islice', sh, T.ONE, None)))))]

    def x_it_product(self, st, n, args, kw):
        es = []
        for a in self.plain(args):
            st, sh = self.sh1(st, a, n)
            st = st.copy()
            e = self.shape_generic(st, sh, n)
            if e is None:
                return [(st, self.new_iter(st, n, ('nothing',)))]
            es.append(e)
        r = self.new_list(st, n, items=es, kind='tuple')
        return [(st, self.new_iter(st, n, ('gen', r)))]

    def x_it_chain(self, st, n, args, kw):
        shs = []
        for a in args:
            if not isinstance(a, V):
                st, sh = st, ('gen', a[1] if a[1] is not None else self.unk(n, 'chain'))
                inner = self.iter_elem(st, a[1], n) if a[1] is not None else None
                sh = ('gen', inner if inner is not None else self.unk(n, 'chain'))
            else:
                st, sh = self.sh1(st, a, n)
            shs.append(sh)
        st = st.copy()
        return [(st, self.new_iter(st, n, ('chain', tuple(shs))))]

    def x_itertools_chain_from_iterable(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        return [(st, self.new_iter(st, n, ('chainit', args[0], sh)))]

    def x_it_repeat(self, st, n, args, kw):
        return [(st, self.new_iter(st, n, ('repeat', args[0], args[1].term if len(args) > 1 else None)))]

    def x_it_count(self, st, n, args, kw):
        return [(st, self.new_iter(st, n, ('count', args[0] if args else self.const(0))))]

    def x_it_accumulate(self, st, n, args, kw):
        st, sh = self.sh1(st, args[0], n)
        st = st.copy()
        e = self.shape_generic(st, sh, n)
        return [(st, self.new_iter(st, n, ('gen', V(T.atom('acc', self.key(n)), e.kinds, e.w) if e is not None else self.unk(n))))]

    def x_it_takewhile(self, st, n, args, kw):
        return self.x_filter(st, n, args, kw)

    x_it_dropwhile = x_it_takewhile
    x_it_filterfalse = x_it_takewhile

    # heapq -----------------------------------------------------------------
    def x_heapq_heappush(self, st, n, args, kw):
        self.check_none(st, n, args[0], 'heappush')
        if any(k[0] == 'none' for k in self.load(st, args[1]).kinds):
            self.check_none(st, n, args[1], 'pushed on the heap')
        self.mutate(st, n, args[0], 'heappush', True, value=args[1], elem=args[1])
        self._grow(st, args[0], args[1], n)
        for oid, o in self.refs(st, args[0]):
            if o.items is not None and len(o.items) > 1:
                st.wobj(oid).items = None
        return [(st, self.none_untracked())]

    def x_heapq_heappop(self, st, n, args, kw):
        lst = args[0]
        self.emit('index', st, n, base=lst, index=self.const(0), write=True, pop=True)
        v = self.elem_at(st, lst, T.ZERO, n)
        self.mutate(st, n, lst, 'heappop', True)
        self.shrink(st, lst, n)
        self.emit('popped', st, n, value=v)
        return [(st, v)]

    def x_heapq_heapify(self, st, n, args, kw):
        self.mutate(st, n, args[0], 'heapify', False)
        return [(st, self.none_untracked())]

    def x_heapq_heappushpop(self, st, n, args, kw):
        self.mutate(st, n, args[0], 'heappushpop', True, value=args[1])
        self._grow(st, args[0], args[1], n)
        v = self.elem_at(st, args[0], T.ZERO, n)
        return [(st, v)]

    x_heapq_heapreplace = x_heapq_heappushpop

    # collections -----------------------------------------------------------
    def x_co_namedtuple(self, st, n, args, kw):
        from .program import Cls
        cid = 'nt%d' % n._id
        k = T.rev[args[0].term]
        nm = ast.literal_eval(k[2]) if k[0] == 'k' else 'nt'
        c = Cls(cid, nm, None)
        fk = T.rev[args[1].term]
        if fk[0] == 'k':
            s = ast.literal_eval(fk[2])
            c.ntfields = s.replace(',', ' ').split()
        else:
            ex = self.exact_of(st, args[1])
            c.ntfields = [ast.literal_eval(T.rev[e.term][2]) for e in ex] if ex else []
        self.classes[cid] = c
        return [(st, V(T.atom('cls', cid), frozenset([('cls', cid)]), None))]

    def x_co_defaultdict(self, st, n, args, kw):
        oid = self.alloc(st, n, 'dict')
        o = st.heap[oid]
        o.length = T.ZERO
        d = self.unk(n, 'default')
        if args:
            for x, v in self.apply(st, n, args[0], [], {}):
                st, d = x.copy(), v
                break
        if oid in st.heap:
            st.wobj(oid).meta = ('default', d)
            st.heap[oid].elem = d
        return [(st, self.ref(oid))]

    def x_co_OrderedDict(self, st, n, args, kw):
        return self.x_dict(st, n, args, kw)

    def x_co_Counter(self, st, n, args, kw):
        oid = self.alloc(st, n, 'dict')
        if args:
            st, sh = self.sh1(st, args[0], n)
            st = st.copy()
            e = self.shape_generic(st, sh, n)
            if e is not None:
                st.wobj(oid).key = self.generic(e, oid)
                self.emit('counted', st, n, elem=e, oid=oid)
        o = st.wobj(oid)
        o.elem = self.num(T.atom('count', self.key(n)))
        o.length = T.atom('len?', 'ctr' + self.key(n))
        o.meta = ('counter',)
        return [(st, self.ref(oid))]

    def x_co_deque(self, st, n, args, kw):
        return self._mk(st, n, args[:1], 'list')

    # functools / operator ----------------------------------------------------
    def x_functools_cmp_to_key(self, st, n, args, kw):
        f = args[0]
        return [(st, V(T.atom('cmpkey', f.term), frozenset([('xm', 'cmpkey', f)]), None))]

    def x_functools_partial(self, st, n, args, kw):
        f = args[0]
        return [(st, V(T.atom('partial', *[a.term for a in self.plain(args)]), f.kinds, None))] if len(args) == 1 else \
            [(st, self.unk(n, 'partial'))]

    def x_functools_reduce(self, st, n, args, kw):
        st, sh = self.sh1(st, args[1], n)
        e = self.shape_generic(st.copy(), sh, n)
        acc = args[2] if len(args) > 2 else e
        if e is None:
            return [(st, acc or self.unk(n))]
        out = st
        r = acc
        for x, v in self.apply(st.copy(), n, args[0], [V(T.atom('acc', self.key(n)), acc.kinds, acc.w), e], {}):
            out = self.join(out, x, 'rd' + self.key(n))
            r = self.joinv(r, v, 'rd' + self.key(n), 'v')
        return [(out, r)]

    def x_operator_itemgetter(self, st, n, args, kw):
        return [(st, self.unk(n, 'itemgetter'))]

    x_operator_attrgetter = x_operator_itemgetter

    # re / math ---------------------------------------------------------------
    def x_re(self, st, n, args, kw):
        short = self.extname.split('.')[-1]
        if short in ('finditer', 'findall'):
            return [(st, self.new_iter(st, n, ('gen', V(T.atom('m', short, *[a.term for a in self.plain(args)]), frozenset([UNK]), None))))]
        return [(st, V(T.atom('re', short, *[a.term for a in self.plain(args)]), frozenset([UNK]), None))]

    def x_math(self, st, n, args, kw):
        short = self.extname.split('.')[-1]
        a = self.plain(args)
        for v in a:
            self.check_none(st, n, v, 'math.' + short)
        self.nl(st, n, a, short)
        w = W0 if all(v.w == W0 for v in a) else None
        if short == 'sqrt':
            return [(st, self.num(T.atom('sqrt', a[0].term), w))]
        if short == 'hypot':
            s = T.ZERO
            for v in a:
                s = T.add(s, T.mul(v.term, v.term))
            return [(st, self.num(T.atom('sqrt', s), w))]
        if short == 'fabs':
            return self.x_abs(st, n, args, kw)
        if short == 'isclose':
            return [(st, self.boolv(T.atom('isclose', *[v.term for v in a])))]
        if short == 'isnan':
            return [(st, self.boolv(T.atom('isnan', a[0].term)))]
        return [(st, self.num(T.atom(short, *[v.term for v in a]), w))]

    # mathutils ---------------------------------------------------------------
    def x_mathutils_Vector(self, st, n, args, kw):
        if not args:
            return [(st, self.new_vec(st, n, [self.num(T.ZERO)] * 3))]
        v = self.load(st, args[0])
        self.check_none(st, n, v, 'Vector()')
        if self.is_vec(st, v):
            cs, d = self.comps(st, v)
            return [(st, self.new_vec(st, n, cs))]
        ex = self.exact_of(st, v)
        if ex is not None:
            for e in ex:
                self.check_none(st, n, e, 'Vector() component')
            return [(st, self.new_vec(st, n, [V(self.load(st, e).term, frozenset([NUM]), e.w) for e in ex]))]
        return [(st, self.new_vec(st, n, None))]

    def x_mathutils_geometry_intersect_point_line(self, st, n, args, kw):
        for a in args:
            self.check_none(st, n, a, 'intersect_point_line')
        cs = [self.comps(st, a) for a in args]
        d = cs[0][1] or 2
        ws = [c[0][i].w if c[0] is not None else None for c in cs for i in range(0)]
        allz = all(c[0] is not None and all(q.w == W0 for q in c[0]) for c in cs)
        ts = tuple(q.term for c in cs if c[0] is not None for q in c[0])
        w = W0 if allz else None
        if self.exact and all(c[0] is not None and c[1] == d for c in cs) and len(cs) == 3:
            p, a, b = [[q.term for q in c[0]] for c in cs]
            u = [T.sub(y, x) for x, y in zip(a, b)]
            num = den = T.ZERO
            for i in range(d):
                num = T.add(num, T.mul(T.sub(p[i], a[i]), u[i]))
                den = T.add(den, T.mul(u[i], u[i]))
            f = T.div(num, den)
            v = self.new_vec(st, n, [self.num(T.add(a[i], T.mul(f, u[i])), w) for i in range(d)])
            return [(st, self.new_list(st, n, items=[v, self.num(f, w)], kind='tuple', tag='tp'))]
        v = self.new_vec(st, n, [self.num(T.atom('ipl', str(i), *ts), w) for i in range(d)])
        f = self.num(T.atom('iplf', *ts), w)
        return [(st, self.new_list(st, n, items=[v, f], kind='tuple', tag='tp'))]

    def x_mathutils_geometry_intersect_line_line_2d(self, st, n, args, kw):
        cs = [self.comps(st, a) for a in args]
        v = self.new_vec(st, n, [self.num(T.atom('ill', self.key(n), str(i)), None) for i in range(2)])
        r = V(v.term, v.kinds | frozenset([('none', 'n%d' % n._id)]), None)
        return [(st, r)]

    def x_copy_copy(self, st, n, args, kw):
        v = args[0]
        if self.is_vec(st, v):
            return [(st, self.new_vec(st, n, self.comps(st, v)[0]))]
        if all(o.kind == 'list' for _, o in self.refs(st, v)) and self.refs(st, v):
            return self.copy_seq(st, n, v, 'list')
        return None

    def sym_setattr(self, st, node, base, attr, v):
        pass
