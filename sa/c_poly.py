"""Checks on the interface of polygonize (vertex, face and input handling)."""
import ast
import os
import itertools

from .program import Program, AnalysisBroken, where
from .engine import Engine
from .entry import (MOD, run_polygonize, run_skeletonize, stub_skeletonize, mkobj, innum, pos)
from .state import T, V, W0, NUM
from .base import refs, resolved, show, FUZZY

REPO = os.environ.get('SA_REPO', '/repo')
LENV = T.atom('lenin', 'verts')
VERTS = T.atom('in', 'verts')
SKEL = T.atom('in', 'skeleton')
LENS = T.atom('lenin', 'skeleton')
FIRST, NUMV = T.atom('in', 'firstVertIndex'), T.atom('in', 'numVerts')
HF, HN = T.atom('in', 'holeFirst'), T.atom('in', 'holeNum')

_prog = {}


def program():
    if 'p' not in _prog:
        _prog['p'] = Program(REPO)
    return _prog['p']


def new_engine(rep, clients, tier='quick', keepalts=False):
    eng = Engine(program(), clients)
    eng.keepalts = keepalts
    if tier == 'thorough':
        eng.maxpart = 48
    return eng


def none_v():
    return V(T.NONE, frozenset([('none', 'in')]), W0)


def without_none(v):
    return V(v.term, frozenset(k for k in v.kinds if k[0] != 'none'), v.w)


def truthy_list(eng, st, v):
    for k in refs(v):
        st.facts[('eq', eng.canon(st.heap[k].length))] = False
        st.facts[('lt', T.neg(st.heap[k].length))] = True
    st.facts[('truth', v.term)] = True


def poly_run(rep, clients, tier='quick', stub=True, keepalts=False, exact=False, **spec):
    """one run over polygonize with a specialised entry state"""
    clients = clients if isinstance(clients, list) else [clients]
    eng = new_engine(rep, clients, tier, keepalts)
    if stub:
        eng.initial_state([MOD])
        stub_skeletonize(eng)
    if exact:
        eng.exact_fns = frozenset([eng.find_fn(MOD, 'polygonize').fid])
        for f in eng.prog.fns.values():
            # what follows concerns faces only
            if f.qual.endswith(('.circular_embedding', '.faces')):
                eng.stubs[f.fid] = lambda eng, st, n, env: []

    def override(eng, st, env):
        for name in ('faces', 'unitVectors', 'holesInfo'):
            how = spec.get(name, 'any')
            if how == 'none':
                env[name] = none_v()
            elif how == 'list':
                env[name] = without_none(env[name])
            elif how == 'full':
                env[name] = without_none(env[name])
                truthy_list(eng, st, env[name])
            elif how == 'default':
                env[name] = defaults(eng, st)[name]
        for name in ('height', 'tan'):
            how = spec.get(name, 'any')
            t = env[name].term
            if how == 'zero':
                env[name] = V(T.ZERO, frozenset([NUM]), W0)
            elif how == 'pos':
                pos(eng, st, t)
            elif how == 'neg':
                st.facts[('lt', t)] = True
                st.facts[('eq', eng.canon(t))] = False
            elif how == 'nonzero':
                st.facts[('eq', eng.canon(t))] = False
    res = run_polygonize(eng, override)
    rep.absorb(eng)
    rep.entries.append('polygonize(%s)%s' % (', '.join('%s %s' % kv for kv in sorted(spec.items())) or 'any arguments',
                                             ' with the contract of skeletonize' if stub else ''))
    if not res and not exact:
        raise AnalysisBroken('no path reaches the end of polygonize')
    return eng, res


def skel_run(rep, clients, tier='quick'):
    clients = clients if isinstance(clients, list) else [clients]
    eng = new_engine(rep, clients, tier)
    res = run_skeletonize(eng)
    rep.absorb(eng)
    rep.entries.append('skeletonize(any contours)')
    if not res:
        raise AnalysisBroken('no path reaches the end of skeletonize')
    return eng, res


def geo_run(rep, clients, fname, build):
    """analyse a further public function from a symbolic entry state"""
    eng = new_engine(rep, clients if isinstance(clients, list) else [clients])
    st = eng.initial_state([MOD])
    args = build(eng, st)
    fn = eng.find_fn(MOD, fname)
    res = eng.call_fn(st, fn.node, fn, args, {}, '')
    rep.absorb(eng)
    rep.entries.append(fname)
    return eng, res


# ------------------------------------------------------------------ protected inputs
def compared(st, ix, picked=()):
    """does this path say anything about the index (in a comparison), or does it come out of a list of picked ones?"""
    if T.op(ix) != 'idx':
        return True
    for f in st.facts:
        if f[0] in ('lt', 'eq') and isinstance(f[1], int):
            if any(a == ix for m in T.poly(f[1]) for a, e in m):
                return True
        elif any(isinstance(a, int) and not isinstance(a, bool) and T.mentions(a, ix) for a in f[1:]):
            return True
    return from_picked(ix, picked)


def from_picked(ix, picked):
    return bool(T.find(ix, lambda a: any(p in x for x in T.args(a) if isinstance(x, str) for p in picked)))


def touch(eng, st, target, protected, picked=()):
    """does the modified value belong to the protected set?  True / False / None"""
    rs = {k for k in refs(target)}
    hit = {k for k in rs if protected(k)}
    if not hit:
        return False
    if hit == rs and not any(k[0] == 'unk' for k in target.kinds):
        return True
    t = target.term
    if T.op(t) == 'idx':
        base, ix = T.args(t)[0], T.args(t)[1]
        if T.op(base) == 'in' and len(T.args(base)) == 1:
            ln = T.atom('lenin', T.args(base)[0])
            if eng.known_nonneg(st, T.sub(ix, ln)):
                return False              # an element appended by the call itself
            return True if (resolved(ix) and not from_picked(ix, picked)) or not compared(st, ix, picked) else None
    guarded = any(f[0] in ('in', 'truth', 'eq') and any(isinstance(a, int) and not isinstance(a, bool) and T.mentions(a, t)
                                                         for a in f[1:]) for f in st.facts)
    mix = [oid for oid, o in st.heap.items() if o.kind in ('list', 'tuple', 'set', 'dict') and o.elem is not None
           and rs <= refs(o.elem)]
    if any(m.startswith('in:') for m in mix):
        return None
    if mix and guarded:
        return None
    return True


APPEND = ('append', 'extend', 'iadd', 'iAdd')
IDENT_OPS = ('defaultdict-insert',)


class InputGuard:
    """modifications of the caller's objects"""

    def __init__(self, rep, rule, protected, appendable=(), what='modifies an object of the caller'):
        self.rep, self.rule, self.protected, self.appendable, self.what = rep, rule, protected, set(appendable), what
        self.sites = set()
        self.picked = set()
        self.some = set()          # lists with only those elements of a protected list that pass a test

    def on_comp(self, eng, st, node, target, elem):
        # lists of numbers that were compared before they were taken in
        if elem is not None and any(a == elem.term for f in st.facts if f[0] in ('lt', 'eq') and isinstance(f[1], int)
                                    for m in T.poly(f[1]) for a, e in m):
            self.picked |= refs(target)
        if elem is not None and T.op(elem.term) == 'idx' and T.args(elem.term)[0] in {T.atom('in', r[3:]) for r in self.appendable} and any(
                T.mentions(x, elem.term) for f in st.facts for x in f[1:] if isinstance(x, int) and not isinstance(x, bool)):
            self.some |= refs(target)

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        self.on_comp(eng, st, node, target, elem)

    def _decide(self, eng, st, node, target, op, index=None, kw=None):
        self.rep.count('modification sites looked at', 0 if node in self.sites else 1)
        self.sites.add(node)
        r = touch(eng, st, target, self.protected, self.picked)
        if r is False:
            self.rep.ok(self.rule, node, 'target is not an input object')
            return
        rs = {k for k in refs(target) if self.protected(k)}
        if rs <= self.appendable:
            if op in APPEND:
                self.rep.count('append sites')
                self.rep.ok(self.rule, node, 'appends at the end only')
                return
            if op in ('insert', 'setitem', 'delitem', 'pop') and index is not None and len(rs) == 1:
                ln = T.atom('lenin', list(rs)[0][3:])
                if eng.known_nonneg(st, T.sub(index.term, ln)):
                    self.rep.ok(self.rule, node, 'touches only positions behind the original end')
                    return
                if not resolved(index.term):
                    self.rep.und(self.rule, node, 'position of the %s not known' % op)
                    return
            if op in ('setslice', 'delslice') and len(rs) == 1 and kw.get('lo') is not None and resolved(kw['lo'].term):
                ln = T.atom('lenin', list(rs)[0][3:])
                d = T.sub(kw['lo'].term, ln)
                if eng.known_nonneg(st, d):
                    self.rep.ok(self.rule, node, 'touches only positions behind the original end')
                    return
                n = T.num(d)
                put = kw.get('put')
                if kw.get('hi') is None and T.num(kw['lo'].term) == 0 and put is not None and (
                        any(k[0] != 'ref' or self.protected(k[1]) for k in put.kinds)) and not (
                        kw.get('src') is not None and refs(kw['src']) & self.some):
                    self.rep.und(self.rule, node, 'the whole list is written anew')
                    return
                if T.num(kw['lo'].term) is None and (n is None or n >= 0) and (
                        T.mentions(kw['lo'].term, ln) or n is not None or ('eq', eng.canon(d)) in st.facts):
                    self.rep.und(self.rule, node, 'extent of the %s not known' % op)
                    return
            elif op in ('setslice', 'delslice', 'iop'):
                self.rep.und(self.rule, node, 'extent of the %s not known' % op)
                return
        self.rep.decide(False if r else None, self.rule, node, '%s (%s)' % (self.what, op),
                        'objects: %s; call path: %s' % (', '.join(sorted(rs)), ' > '.join(eng.stack())))

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        self._decide(eng, st, node, target, op, kw.get('index'), kw)

    def on_setattr(self, eng, st, node, target, attr, value):
        self._decide(eng, st, node, target, 'attribute ' + attr)


def check_verts(rep, tier):
    rep.rule('append-only', 'every in-place modification whose target may be the list of vertices is an append/extend '
             '(or touches positions >= the original length), and no vertex of the caller is modified in place')
    g = InputGuard(rep, 'append-only', lambda k: k in ('in:verts', 'in:vert'), ['in:verts'],
                   'modifies the vertex list or a vertex of the caller')
    poly_run(rep, g, tier, stub=False)
    poly_run(rep, g, tier, unitVectors='full', holesInfo='full', faces='list')
    rep.require('modification sites looked at', 10)
    rep.require('append sites', 1)


def check_faces(rep, tier):
    rep.rule('append-only', 'a given face list is only ever extended; the faces already in it are not modified')
    rep.rule('same-list', 'with a given face list (empty or not) every return hands back that very list')
    rep.rule('extended', 'a given face list has been extended when the call returns')
    rep.rule('fresh-list', 'without a face list every return hands back a list created by this call')
    rep.rule('index-lists', 'what is added are lists of integers')

    def left_out(st, elem):
        return any(f[0] == 'in' and v is False and f[1] == elem.term and f[2] == T.atom('in', 'faces') for f, v in st.facts.items())

    class C(InputGuard):
        left = frozenset()

        def on_comp(self, eng, st, node, target, elem):
            super().on_comp(eng, st, node, target, elem)
            if elem is not None and left_out(st, elem):
                self.left |= refs(target)

        def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
            super().on_grown(eng, st, node, target, by, elem, rhs, op, exact)
            if 'in:faces' not in refs(target) or elem is None:
                return
            rep.count('growth of the face list')
            for oid in refs(elem):
                o = st.heap.get(oid)
                if o is None:
                    continue
                if o.kind not in ('list',):
                    rep.decide(False if all(k[0] == 'ref' and k[1] in st.heap and st.heap[k[1]].kind != 'list' for k in elem.kinds) else None,
                               'index-lists', node, 'adds something that is no list', o.kind)
                elif o.elem is not None:
                    n = [k for k in o.elem.kinds if k[0] in ('ref', 'none', 'str')]
                    rep.decide(not n if n == [] or len(n) == len(o.elem.kinds) else None, 'index-lists', node,
                               'adds lists of integers')
            if left_out(st, elem) or (rhs is not None and refs(rhs) & self.left):
                rep.bad('extended', node, 'a new face is left out when the given list has an equal one')
            if any(k[0] == 'num' for k in elem.kinds):
                rep.decide(False if len(elem.kinds) == 1 else None, 'index-lists', node, 'adds bare integers, not faces')
    default_list(rep)
    for how in ('list', 'full'):
        g = C(rep, 'append-only', lambda k: k in ('in:faces', 'in:face'), ['in:faces'], 'modifies the face list of the caller')
        eng, res = poly_run(rep, g, tier, faces=how)
        grown = 0
        for s, v in res:
            rs = refs(v)
            node = eng.find_fn(MOD, 'polygonize').node
            rep.count('returns with a given list')
            if rs == {'in:faces'} and not any(k[0] == 'none' for k in v.kinds):
                rep.ok('same-list', node, 'the given list is returned (%s)' % how)
            elif 'in:faces' not in rs or len(res) == 1 or any(k[0] == 'none' for k in v.kinds) or how == 'full':
                rep.bad('same-list', node, 'a return does not hand back the given list (%s)' % ('possibly empty' if how == 'list' else 'non-empty'))
            else:
                rep.bad('same-list', node, 'some return does not hand back the given list (possibly empty)')
            o = s.heap['in:faces']
            if o.ver != T.atom('v0', 'in:faces'):
                grown += 1
            d = T.sub(o.length, T.atom('lenin', 'faces')) if o.length is not None else None
            if d is not None:
                cs = [c for m, c in T.poly(d).items() if m]
                if any(c > 1 for c in cs):
                    rep.bad('extended', node, 'the new faces are added more than once')
        rep.decide(grown > 0, 'extended', eng.find_fn(MOD, 'polygonize').node, 'the given list has been extended on return')
    rep.require('growth of the face list', 1)
    class D:
        pass
    eng, res = poly_run(rep, D(), tier, faces='none')
    node = eng.find_fn(MOD, 'polygonize').node
    for s, v in res:
        rs = refs(v)
        if any(k[0] in ('none', 'num', 'str', 'bool') for k in v.kinds):
            rep.bad('fresh-list', node, 'a return without a face list hands back %s' % sorted(k[0] for k in v.kinds))
            continue
        bad = [k for k in rs if s.heap[k].origin != 'new' or s.heap[k].kind != 'list']
        if rs and not bad:
            rep.ok('fresh-list', node, 'a new list is returned')
            for k in rs:
                e = s.heap[k].elem
                for kk in refs(e) if e is not None else ():
                    oo = s.heap.get(kk)
                    if oo is not None and oo.kind != 'list':
                        rep.decide(False if all(k in s.heap and s.heap[k].kind != 'list' for k in refs(e)) else None,
                                   'index-lists', node, 'returned faces are lists', oo.kind)
        else:
            rep.decide(False if rs else None, 'fresh-list', node, 'the returned object was not created by this call',
                       ', '.join('%s %s' % (k, s.heap[k].kind) for k in bad))


def defaults(eng, st):
    """the values a call gets that leaves arguments out"""
    fn = eng.find_fn(MOD, 'polygonize')
    a = fn.node.args
    d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    d.update({x.arg: e for x, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None})
    return {k: eng.default(st, e) for k, e in d.items()}


def default_list(rep):
    """the value a call gets that passes no list"""
    eng = new_engine(rep, [])
    st = eng.initial_state([MOD])
    fn = eng.find_fn(MOD, 'polygonize')
    a = fn.node.args
    d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    d.update({x.arg: e for x, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None})
    if 'faces' not in d:
        rep.bad('fresh-list', fn.node, 'a call without a face list is not possible')
        return
    v = eng.default(st, d['faces'])
    if refs(v):
        rep.bad('fresh-list', d['faces'], 'without a face list every call gets one and the same object')
    else:
        rep.ok('fresh-list', d['faces'], 'the default is no object calls could share')


def check_inputs(rep, tier):
    rep.rule('read-only', 'no in-place modification and no attribute store has an object of the caller as its target '
             '(hole table, unit vectors, edge contours, edges, edge points; a skeleton handed to the crossing test)')
    notv = ('in:verts', 'in:vert', 'in:faces', 'in:face')
    g = InputGuard(rep, 'read-only', lambda k: k.startswith('in:') and k not in notv)
    poly_run(rep, g, tier, stub=False)
    poly_run(rep, g, tier, unitVectors='full', holesInfo='full')
    n0 = rep.counts.get('modification sites looked at', 0)
    g2 = InputGuard(rep, 'read-only', lambda k: k.startswith('in:'))
    skel_run(rep, g2, tier)
    from .entry import skeleton_of
    g3 = InputGuard(rep, 'read-only', lambda k: k.startswith('in:'))
    geo_run(rep, g3, 'checkEdgeCrossing', lambda eng, st: [skeleton_of(eng, st)])
    rep.require('modification sites looked at', 20)


# ------------------------------------------------------------------ shared state
class StateGuard:
    def __init__(self, rep):
        self.rep = rep

    at_import = False

    def _inside(self, eng):
        return bool(eng.fstack)

    def _static(self, st, target):
        rs = refs(target)
        hit = [k for k in rs if k in st.heap and st.heap[k].origin == 'static']
        return hit, rs

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if not self._inside(eng):
            return
        self.rep.count('modification sites looked at')
        hit, rs = self._static(st, target)
        if not hit:
            self.rep.ok('no-shared-state', node, 'target is created by the call or given by the caller')
            return
        if op == 'setitem' and kw.get('index') is not None:
            ix = kw['index'].term
            if any(f[0] == 'in' and f[1] == ix and v is True and any(st.heap[h].ver in f[2:] or T.atom('obj', h) in f[2:] for h in hit)
                   for f, v in st.facts.items()):
                self.rep.ok('no-shared-state', node, 'overwrites a slot the user added (debug output on request)')
                return
        self.rep.decide(False if len(hit) == len(rs) or True else None, 'no-shared-state', node,
                        'modifies an object that outlives the call (%s)' % op, ' > '.join(eng.stack()))

    def on_setattr(self, eng, st, node, target, attr, value):
        if not self._inside(eng):
            return
        hit, rs = self._static(st, target)
        if hit:
            self.rep.bad('no-shared-state', node, 'sets attribute %s of an object that outlives the call' % attr)

    def on_globalwrite(self, eng, st, node, mod, name, value):
        if self._inside(eng):
            self.rep.bad('no-shared-state', node, 'writes the module variable %s' % name, ' > '.join(eng.stack()))

    def on_clswrite(self, eng, st, node, cls, attr, value):
        if self._inside(eng):
            self.rep.bad('no-shared-state', node, 'writes the class attribute %s' % attr)

    def on_memo(self, eng, st, node, name):
        self.rep.bad('no-shared-state', node, 'caches results across calls (%s)' % name)

    def on_index(self, eng, st, node, base, index, write, **kw):
        if self._inside(eng) and kw.get('nxt'):
            hit, rs = self._static(st, base)
            if hit:
                self.rep.bad('no-shared-state', node, 'advances an iterator that outlives the call')


def check_calls_independent(rep, tier):
    rep.rule('no-shared-state', 'nothing reachable from the entry points stores to a module variable, a class or function '
             'attribute, a default argument or any object created at import (exception: a slot of a module-level dictionary '
             'the user has added beforehand, i.e. a store guarded by a membership test)')
    g = StateGuard(rep)
    for fn in program_memo():
        rep.bad('no-shared-state', fn, 'caches results across calls (decorator)')
    poly_run(rep, g, tier, stub=False)
    skel_run(rep, StateGuard(rep), tier)
    eng = new_engine(rep, [])
    kept = {k for k, v in defaults(eng, eng.initial_state([MOD])).items() if refs(v)} & {'faces', 'unitVectors', 'holesInfo'}
    if kept:
        eng, res = poly_run(rep, StateGuard(rep), tier, **{k: 'default' for k in kept})
        for st, v in res:
            if any(k in st.heap and st.heap[k].origin == 'static' for k in refs(v)):
                rep.bad('no-shared-state', eng.find_fn(MOD, 'polygonize').node, 'returns an object that all calls share')
    from .entry import skeleton_of
    geo_run(rep, StateGuard(rep), 'checkEdgeCrossing', lambda eng, st: [skeleton_of(eng, st)])
    rep.require('modification sites looked at', 20)


def program_memo():
    out = []
    for f in program().fns.values():
        if any(d.split('(')[0].split('.')[-1] in ('lru_cache', 'cache', 'cached_property') for d in f.decorators):
            if f.cls is None and 'cached_property' not in str(f.decorators):
                out.append(f.node)
    return out


DENY_ROOT = {'random', 'secrets', 'uuid', 'socket', 'subprocess', 'threading', 'multiprocessing', 'datetime', 'os', 'sys', 'io',
             'pathlib', 'shutil', 'tempfile', 'logging', 'warnings', 'urllib', 'http', 'pickle', 'shelve', 'sqlite3', 'gc', 'inspect',
             'asyncio', 'signal', 'platform', 'getpass', 'locale', 'webbrowser', 'ctypes'}
DENY_TIME = {'time', 'time_ns', 'perf_counter', 'perf_counter_ns', 'monotonic', 'process_time', 'clock', 'ctime', 'localtime',
             'gmtime', 'sleep', 'monotonic_ns', 'thread_time', 'strftime'}
DENY_BUILTIN = {'id', 'hash', 'print', 'open', 'input', 'exec', 'eval', '__import__', 'globals', 'locals', 'vars', 'breakpoint'}
OK_ROOT = {'math', 'itertools', 'functools', 'collections', 'heapq', 're', 'operator', 'mathutils', 'copy', 'bisect', 'typing',
           'builtins', 'cmath', 'numbers', 'dataclasses', 'abc', 'enum', 'fractions', 'statistics'}


def ordered(body):
    """does the order of the passes through this loop show in what it leaves behind?"""
    for x in (y for s in body for y in ast.walk(s)):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Return, ast.Break, ast.Assign, ast.Delete)):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert', 'put', 'appendleft'):
            return True
        if isinstance(x, ast.AugAssign) and isinstance(x.value, (ast.List, ast.Tuple, ast.ListComp)):
            return True
    return False


class Silent:
    def __init__(self, rep):
        self.rep = rep
        self.asked = set()

    def compares(self, eng, st, node, v):
        """objects in a heap, or sorted without a key, are compared by their own method"""
        for oid in refs(v):
            o = st.heap.get(oid)
            if o is None or o.kind != 'inst' or o.cls not in eng.classes or o.cls in self.asked:
                continue
            self.asked.add(o.cls)
            m = eng.classes[o.cls].find('__lt__')
            if m is not None:
                eng.call_fn(st, node, m, [v, v], {}, '')

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        if op in ('heappush', 'heappushpop') and kw.get('value') is not None:
            self.compares(eng, st, node, kw['value'])

    def on_extcall(self, eng, st, node, name, args=(), kw=None):
        if not eng.fstack:
            return
        self.rep.count('calls leaving the analysed code')
        parts = name.split('.')
        root, last = parts[0], parts[-1]
        bad = None
        if root in DENY_ROOT and root not in ('sys',):
            bad = name
        elif root == 'sys':
            bad = name if last in ('write', 'exit', 'getsizeof', 'stdout', 'stderr', 'setrecursionlimit') or 'stdout' in parts or 'stderr' in parts else None
        elif root == 'time' and last in DENY_TIME:
            bad = name
        elif root == 'builtins' and last in DENY_BUILTIN:
            bad = name
        if bad and root == 'builtins' and last == 'hash' and args and all(k[0] == 'num' for k in args[0].kinds):
            bad = None
        if bad:
            self.rep.bad('no-ambient-input', node, 'calls %s' % bad, ' > '.join(eng.stack()))
        elif root in OK_ROOT or name.startswith('.'):
            self.rep.ok('no-ambient-input', node, 'calls %s' % name)
        else:
            self.rep.und('no-ambient-input', node, 'calls %s' % name)

    def on_setiter(self, eng, st, node, target):
        if not eng.fstack:
            return
        self.rep.count('iterations over sets')
        for oid in refs(target):
            o = st.heap.get(oid)
            if o is None or o.kind != 'set' or o.elem is None:
                continue
            ks = self.hashed(st, o.elem, 0)
            p = getattr(node, '_p', None)
            loop = node if isinstance(node, ast.For) else p if isinstance(p, ast.For) and p.iter is node else None
            insens = loop is not None and not ordered(loop.body)
            if isinstance(p, ast.comprehension) and isinstance(getattr(p, '_p', None), (ast.SetComp, ast.DictComp)):
                insens = True
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in (
                    'len', 'sorted', 'sum', 'any', 'all', 'set', 'frozenset', 'bool', 'max', 'min'):
                insens = True
            if 'str' in ks or 'inst' in ks:
                self.rep.decide(None if insens else False, 'no-hash-order', node,
                                'iterates over a set of %s: the order differs between runs' % ('strings' if 'str' in ks else 'objects hashed by address'))
            elif ks <= {'num', 'bool', 'none'}:
                self.rep.ok('no-hash-order', node, 'set of numbers or tuples of numbers')
            else:
                self.rep.und('no-hash-order', node, 'set of %s' % sorted(ks))

    def hashed(self, st, v, d):
        out = set()
        for k in v.kinds:
            if k[0] == 'ref':
                o = st.heap.get(k[1])
                if o is None:
                    out.add('unk')
                elif o.kind == 'tuple' and d < 4:
                    for i in (o.items if o.items is not None else ([o.elem] if o.elem is not None else [])):
                        out |= self.hashed(st, i, d + 1)
                elif o.kind == 'inst':
                    out.add('inst')
                else:
                    out.add(o.kind)
            else:
                out.add(k[0])
        return out

    def on_sort(self, eng, st, node, target, kw):
        if not eng.fstack:
            return
        key = (kw or {}).get('key')
        if key is None or all(k[0] == 'none' for k in key.kinds):
            for oid in refs(target):
                o = st.heap.get(oid)
                for x in ((o.items if o.items is not None else [o.elem]) if o is not None else ()):
                    if x is not None:
                        self.compares(eng, st, node, x)
        if key is not None and any(k[0] == 'ext' and str(k[1]).split('.')[-1] in ('id', 'hash') for k in key.kinds):
            self.rep.bad('no-ambient-input', node, 'sorts by object identity')


def check_deterministic(rep, tier):
    rep.rule('no-ambient-input', 'no call reachable from the entry points reads a clock, randomness, object identity, the environment '
             'or files, and none prints or writes anywhere')
    rep.rule('no-hash-order', 'no iteration over a set whose order depends on addresses or on string hashing')
    g = Silent(rep)
    poly_run(rep, g, tier, stub=False)
    skel_run(rep, g, tier)
    from .entry import skeleton_of
    geo_run(rep, g, 'checkEdgeCrossing', lambda eng, st: [skeleton_of(eng, st)])
    rep.require('calls leaving the analysed code', 5)


# ------------------------------------------------------------------ failures
class Atomic:
    def __init__(self, rep, skel):
        self.rep, self.skel = rep, skel

        self.tries = set()

    def on_mutate(self, eng, st, node, target, op, structural, **kw):
        """what is added after the skeletonization has failed"""
        own = [how for t, how in eng.handling if t in self.tries]
        if own and op in APPEND + ('insert', 'clear', 'setitem', 'reverse', 'sort'):
            rs = refs(target)
            if rs and rs <= {'in:verts', 'in:faces'}:
                if own[-1] == 'finally':
                    self.rep.bad('late-commit', node, 'also done when the skeletonization has failed')
                st.marks['afterfail'] = 'line %d' % node.lineno

    def unchanged(self, st, oid):
        o = st.heap.get(oid)
        return o is None or o.ver == T.atom('v0', oid)

    def on_call(self, eng, st, node, fn, env):
        if fn is self.skel:
            self.rep.count('skeletonization calls')
            self.tries |= set(eng.trynodes)
            for oid, nm in (('in:verts', 'the vertex list'), ('in:faces', 'the face list')):
                self.rep.decide(self.unchanged(st, oid), 'late-commit', node, 'when the skeletonization starts, %s is as given' % nm)

    def _raise(self, eng, st, node, definite, what):
        if not eng.fstack or eng.trystack:
            return
        if eng.fstack[0].qual != 'polygonize':
            return
        self.rep.count('points that may raise')
        if self.unchanged(st, 'in:faces'):
            self.rep.ok('faces-last', node, 'face list still as given (%s)' % what)
        else:
            self.rep.decide(False if definite else None, 'faces-last', node, 'an exception raised here leaves a modified face list (%s)' % what)

    def on_raise(self, eng, st, node, **kw):
        if st.marks.get('afterfail') and any(t in self.tries and how == 'except' for t, how in eng.handling):
            self.rep.bad('late-commit', node, 'the skeletonization has failed, but a list of the caller has been changed', st.marks['afterfail'])
        self._raise(eng, st, node, True, 'raise')

    def on_mayraise(self, eng, st, node, what='', **kw):
        if what != 'raise':
            self._raise(eng, st, node, False, what)


def check_atomic(rep, tier):
    rep.rule('late-commit', 'at every call of the skeletonization the vertex list and the face list are still unmodified')
    rep.rule('faces-last', 'no raise statement is reachable after the first modification of the given face list')
    eng0 = new_engine(rep, [])
    eng0.initial_state([MOD])
    fn = eng0.find_fn(MOD, 'skeletonize')
    for spec in ({}, {'faces': 'full', 'unitVectors': 'full', 'holesInfo': 'full'}, {'faces': 'list', 'unitVectors': 'none', 'holesInfo': 'none'}):
        eng, res = poly_run(rep, Atomic(rep, fn), tier, **spec)
    rep.require('skeletonization calls', 1)
    rep.require('points that may raise', 1)


# ------------------------------------------------------------------ heights and coordinates
def elem_comps(eng, st, v):
    """list of component triples, one per object the value may denote"""
    out = []
    for oid in sorted(refs(v)):
        o = st.heap.get(oid)
        if o is None or o.kind != 'vec':
            return None
        d = o.dim or 0
        if not all(str(i) in o.fields for i in range(d)):
            return None
        out.append([o.fields[str(i)] for i in range(d)])
    return out or None


class Appended:
    """the vertices appended to the caller's list"""

    def __init__(self, fn):
        self.fn = fn

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if 'in:verts' in refs(target):
            self.fn(eng, st, node, target, by, elem, op)


def node_height(t):
    """atoms height-of-node occurring in t outside aggregates"""
    out = []
    for m, c in T.poly(t).items():
        for a, e in m:
            if T.op(a) == 'sel' and T.args(a)[1] == '.height' and e > 0:
                out.append(a)
    return sorted(set(out))


def split_linear(t, a):
    """t = p*a + q -> (p, q) or None"""
    p, q = T.ZERO, T.ZERO
    for m, c in T.poly(t).items():
        mono = T.from_poly({m: c})
        e = dict(m).get(a, 0)
        if e == 0:
            q = T.add(q, mono)
        elif e == 1:
            p = T.add(p, T.div(mono, a))
        else:
            return None
    return p, q


def is_max_height(t):
    """maximum over all nodes of the node height"""
    if T.op(t) == 'maxover':
        a, k, n = T.args(t)[:3]
        if T.op(a) == 'gen':
            a, k = T.args(a)[1], T.args(a)[0]
        if T.op(a) == 'sel' and T.args(a)[1] == '.height' and T.op(T.args(a)[0]) == 'idx' and T.args(T.args(a)[0])[0] == SKEL:
            i = T.args(T.args(a)[0])[1]
            if i == k and n == LENS:
                return True
            return False if T.num(T.sub(i, k)) not in (None, 0) else None
        return False if not T.any_op(a, FUZZY | {'obj', 'gen'}) else None
    return None


def check_heights(rep, tier):
    rep.rule('height-slope', 'with a non-zero height every appended vertex has z = base z + node height * height / (largest node height)')
    rep.rule('tan-slope', 'with height zero every appended vertex has z = base z + node height * tan')
    rep.rule('flat', 'with height and tan zero every appended vertex has z = base z')
    rep.rule('base', 'base z is the z coordinate of a vertex of the footprint')

    def one(label, rule, slope_ok):
        def f(eng, st, node, elem, c0):
            rep.count('append sites (%s)' % label)
            cs = elem_comps(eng, st, elem) if elem is not None else None
            if cs is None or any(len(c) != 3 for c in cs):
                rep.und(rule, node, 'components not known (%s)' % label)
                return
            for c in cs:
                z = c[2].term
                if any(T.any_op(x, {'obj'}) for x in T.find(z, lambda x: T.op(x) == 'c')):
                    rep.und(rule, node, 'z depends on lists made on the way (%s)' % label, show(z))
                    continue
                hs = node_height(z)
                if rule == 'flat':
                    base = z
                    if hs and resolved(z):
                        rep.bad(rule, node, 'z varies with the node height although height and tan are zero', show(z))
                        continue
                    if hs:
                        rep.und(rule, node, 'z not resolved', show(z))
                        continue
                else:
                    if len(hs) != 1:
                        if not resolved(z) or special(st, None):
                            rep.und(rule, node, 'z not resolved (%s)' % label, show(z))
                        else:
                            rep.bad(rule, node, 'z is not linear in the node height (%s)' % label, show(z))
                        continue
                    if special(st, hs[0]):
                        rep.und(rule, node, 'a path for nodes of one particular height (%s)' % label)
                        continue
                    lin = split_linear(z, hs[0])
                    if lin is None:
                        rep.decide(False if resolved(z) else None, rule, node, 'z is not linear in the node height (%s)' % label, show(z))
                        continue
                    slope, base = lin
                    if T.op(T.args(hs[0])[0]) == 'idx' and T.args(T.args(hs[0])[0])[0] != SKEL:
                        rep.und(rule, node, 'height of an unknown node', show(hs[0]))
                    s = slope_ok(eng, st, slope, c0)
                    rep.decide(s, rule, node, 'slope is as documented (%s)' % label, 'slope = ' + show(slope))
                # base
                if T.op(base) == 'c' and T.args(base)[1] == '2' and T.op(T.args(base)[0]) == 'idx' and T.args(T.args(base)[0])[0] == VERTS:
                    ix = T.args(T.args(base)[0])[1]
                    rest = T.sub(ix, FIRST)
                    if not resolved(ix):
                        rep.und('base', node, 'index of the base vertex', show(ix))
                    elif T.mentions(rest, FIRST) or not T.mentions(ix, FIRST) or T.mentions(rest, LENV):
                        rep.bad('base', node, 'the base height is not taken from a footprint vertex', 'verts[%s].z' % show(ix))
                    else:
                        v = in_range(rest)
                        rep.decide(v, 'base', node, 'base z is the z of a footprint vertex', 'verts[%s].z' % show(ix))
                elif not resolved(base):
                    rep.und('base', node, 'base z', show(base))
                elif not any(T.op(x) == 'c' for x in T.find(base, lambda x: T.op(x) in ('c', 'sum'))):
                    rep.bad('base', node, 'z does not start from the height of the footprint', show(base))
                elif T.find(base, lambda x: T.op(x) == 'sum'):
                    n = share(base)
                    if n is None or n == T.ONE:
                        rep.und('base', node, 'base z is an aggregate', show(base))
                    else:
                        rep.bad('base', node, 'z is not one z of the footprint above zero: the z coordinates of the footprint '
                                'enter with a total weight other than 1', show(base))
                else:
                    rep.bad('base', node, 'z contains more than base z and node height', show(base))
        return f

    def in_range(rest):
        if not T.subterms(rest):
            pass
        n = T.num(rest)
        if n is not None:
            return 0 <= n < 3
        return None if T.subst(rest, NUMV, T.const(5)) == rest else (0 <= (T.num(T.subst(rest, NUMV, T.const(5))) or 0) < 5
                                                                    if T.num(T.subst(rest, NUMV, T.const(5))) is not None else None)

    def share(t):
        """total weight of the z coordinates in t"""
        for x in T.find(t, lambda x: T.op(x) == 'c' and T.args(x)[1] == '2'):
            t = T.subst(t, x, T.ONE)
        for x in T.find(t, lambda x: T.op(x) == 'sum'):
            lk, body, k, n = T.args(x)
            if T.mentions(body, k):
                return None
            t = T.subst(t, x, T.mul(n, body))
        return t if resolved(t) and not T.any_op(t, {'c', 'idx', 'sel'}) else None

    def special(st, h):
        """does the path hold for nodes of one height only?"""
        return any(f[0] == 'eq' and v is True and isinstance(f[1], int) and node_height(f[1]) and (h is None or T.mentions(f[1], h))
                   for f, v in st.facts.items())

    def picked_by(c, t):
        """t = height of the node that is the largest by some key: is the key the height?"""
        if T.op(t) != 'sel' or T.args(t)[1] != '.height' or T.op(T.args(t)[0]) != 'idx':
            return None
        a = T.args(T.args(t)[0])[1]
        how = c.keyed.get(T.args(a)[0]) if T.op(a) == 'argm' else None
        if T.args(T.args(t)[0])[0] != SKEL:
            return None
        if how is None:
            return False if resolved(a) else None
        what, elem, key = how
        if T.op(key) == 'sel' and T.args(key)[0] == elem and T.args(key)[1] == '.height':
            return what == 'max'
        return False if not T.find(key, lambda x: T.op(x) == 'sel' and T.args(x)[1] == '.height') else None

    def hslope(eng, st, slope, c):
        H = T.atom('in', 'height')
        q = T.div(slope, H)
        inv = T.inv(q)
        if T.op(inv) == 'maxover':
            own = T.find(inv, lambda x: T.op(x) == 'obj')
            if any(T.args(x)[0] in c.some for x in own):
                return False
            return is_max_height(inv)
        if T.op(inv) == 'max':
            ns = [T.num(x) for x in T.args(inv)]
            if any(n is not None and n > 0.001 for n in ns):
                return False
        if T.op(inv) == 'sel':
            return picked_by(c, inv)
        if T.op(inv) in ('max', 'phi', 'unk', 'any') or T.any_op(inv, {'obj'}):
            return None
        return False if resolved(slope) else None

    from .c_nodes import Nodes

    class Heights(Nodes):
        def __init__(self):
            super().__init__(None)
            self.keyed, self.some, self.late, self.zset = {}, set(), set(), []

        def on_keyed(self, eng, st, node, what, source, elem, key):
            self.keyed[eng.key(node)] = (what, elem.term, key.term)

        def on_comp(self, eng, st, node, target, elem):
            super().on_comp(eng, st, node, target, elem)
            # heights of some nodes only
            if elem is not None and T.op(elem.term) == 'sel' and T.args(elem.term)[1] == '.height':
                n = T.args(elem.term)[0]
                if any(isinstance(f[1], int) and not isinstance(f[1], bool) and f[1] != n and T.mentions(f[1], n) and not T.mentions(f[1], elem.term)
                       for f in st.facts if f[0] in ('lt', 'eq', 'truth', 'in')):
                    self.some |= refs(target)

        def put(self, eng, st, node, target, elem, op):
            super().put(eng, st, node, target, elem, op)
            if elem is not None:
                st.marks['putv'] = st.marks.get('putv', frozenset()) | refs(elem)

        def on_backedge(self, eng, st, node, lk):
            super().on_backedge(eng, st, node, lk)
            st.marks.pop('putv', None)

        def changed(self, eng, st, target):
            if not eng.quiet:
                rs = refs(target)
                done = st.marks.get('putv', ())
                self.late |= {r.rstrip('~') for r in rs if r in done or (r.endswith('~') and len(rs) > 1)}

        def on_mutate(self, eng, st, node, target, op, structural, **kw):
            super().on_mutate(eng, st, node, target, op, structural, **kw)
            self.changed(eng, st, target)

        def on_setattr(self, eng, st, node, target, attr, value):
            self.changed(eng, st, target)
            if attr == 'z' and not eng.quiet and value is not None:
                self.zset.append((node, refs(target), value.term, st.copy()))

    def go(f, **spec):
        c = Heights()
        eng, res = poly_run(rep, c, tier, exact=True, **spec)
        final = set()
        for p in c.verts:
            final |= refs(p.elem) if p.elem is not None else set()
        puts = [p for p in c.puts if p.elem is not None and refs(p.elem) and refs(p.elem) <= final and not c.late
                and 'in:verts' not in refs(p.target)]
        for node, rs, z, st in c.zset:
            if spec['height'] == spec['tan'] == 'zero' or not {r.rstrip('~') for r in rs} & c.late or not rs & final:
                continue
            if resolved(z) and not T.any_op(z, {'obj', 'sel'}) and not special(st, None):
                rep.bad('base', node, 'afterwards the vertex is put to a height that does not depend on its node', show(z))
        seen = set()
        for p in puts:
            f(eng, p.st, p.node, p.elem, c)
            seen |= {r.rstrip('~') for r in refs(p.elem)}
        for p in c.verts:
            if p.elem is None or not {r.rstrip('~') for r in refs(p.elem)} <= seen:
                f(eng, p.st, p.node, p.elem, c)

    for h, t in (('pos', 'any'), ('neg', 'any'), ('nonzero', 'nonzero')):
        go(one('height %s' % h, 'height-slope', hslope), height=h, tan=t, faces='none', holesInfo='none', unitVectors='none')
    TT = T.atom('in', 'tan')

    def tslope(eng, st, slope, c):
        return slope == TT or (False if resolved(slope) else None)
    for t in ('pos', 'neg', 'nonzero'):
        go(one('tan %s' % t, 'tan-slope', tslope), height='zero', tan=t, faces='none', holesInfo='none', unitVectors='none')
    go(one('flat', 'flat', None), height='zero', tan='zero', faces='none', holesInfo='none', unitVectors='none')
    go(one('all options', 'tan-slope', tslope), height='zero', tan='nonzero', faces='full', holesInfo='full', unitVectors='full')
    for k in ('height pos', 'height neg', 'tan pos', 'tan neg', 'flat'):
        rep.require('append sites (%s)' % k, 1)


def plain_place(t):
    """the coordinate of one vertex (or nothing at all)"""
    return T.num(t) is not None or all(len(m) == 1 and T.op(m[0][0]) == 'c' and T.op(T.args(m[0][0])[0]) == 'idx' for m in T.poly(t))


class Position:
    def __init__(self, rep):
        self.rep = rep
        self.moved = {}

    def displaced(self, node, axis, t):
        """what has been subtracted from the coordinate of a vertex"""
        d = []
        for m, c in T.poly(t).items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and T.op(m[0][0]) == 'c' and T.op(T.args(m[0][0])[0]) == 'idx' and \
                    T.args(T.args(m[0][0])[0])[0] == T.atom('in', 'verts') and T.args(m[0][0])[1] == str(axis):
                d.append(T.sub(t, m[0][0]))
        if len(d) != 1:
            return
        for x, other in list(self.moved.get(axis, {}).items()):
            if x != d[0] and (plain_place(x) or plain_place(d[0])):
                self.rep.bad('one-displacement', node, 'this edge is displaced by another vector than others', show(d[0]))
        if d[0] in self.moved.setdefault(axis, {}):
            self.rep.ok('one-displacement', node, 'displaced like the other edges')
        self.moved[axis][d[0]] = node

    def on_absuse(self, eng, st, node, value, what):
        if eng.fstack:
            self.rep.bad('no-absolute-use', node, 'uses an absolute coordinate in a %s' % what,
                         'weight %s' % ([show(x) for x in value.w] if value.w else '?'))

    def on_new(self, eng, st, node, cls, obj):
        if cls.name != 'Edge2' or not eng.fstack:
            return
        for p in ('p1', 'p2'):
            v = eng.getfield(st, node, obj, p)
            cs = elem_comps(eng, st, v) if v is not None else None
            if cs is None:
                self.rep.und('relative', node, 'components of %s not known' % p)
                continue
            for c in cs:
                for i, x in enumerate(c):
                    self.rep.count('edge coordinates')
                    self.displaced(node, i, x.term)
                    if x.w is None:
                        self.rep.und('relative', node, 'weight of %s not known' % p, show(x.term))
                    elif all(y == T.ZERO for y in x.w):
                        self.rep.ok('relative', node, 'edge coordinates do not move with the footprint')
                    else:
                        self.rep.decide(False if eng.wdef(x.w) else None, 'relative', node,
                                        'edge coordinates move with the footprint', 'component %d of %s = %s' % (i, p, show(x.term)))


def check_position(rep, tier):
    rep.rule('relative', 'every coordinate handed to the skeletonization has translation weight 0 (it is a difference of absolute '
             'coordinates, so a displacement of the whole footprint cancels)')
    rep.rule('one-displacement', 'the edges of all contours are displaced by the same vector')
    rep.rule('moved-back', 'every coordinate of an appended vertex has translation weight exactly 1 in its own axis and 0 in the others')
    rep.rule('no-absolute-use', 'no value with a non-zero translation weight is compared, multiplied, normalised, hashed or used as a divisor')

    def f(eng, st, node, target, by, elem, op):
        cs = elem_comps(eng, st, elem) if elem is not None else None
        if cs is None or any(len(c) != 3 for c in cs):
            rep.und('moved-back', node, 'components not known')
            return
        for c in cs:
            for i, x in enumerate(c):
                want = tuple(T.ONE if j == i else T.ZERO for j in range(3))
                rep.count('appended coordinates')
                if x.w is None:
                    rep.und('moved-back', node, 'weight not known (axis %d)' % i)
                elif x.w == want:
                    rep.ok('moved-back', node, 'axis %d moves with the footprint' % i)
                else:
                    rep.decide(None if any(T.any_op(y, {'phi'}) for y in x.w) else False, 'moved-back', node,
                               'axis %d of an appended vertex does not move with the footprint' % i,
                               'weight (%s)' % ', '.join(show(y) for y in x.w))
    both = [Position(rep), Appended(f)]
    poly_run(rep, both, tier)
    for uv in ('none', 'full'):
        for ho in ('none', 'full'):
            poly_run(rep, both, tier, unitVectors=uv, holesInfo=ho, faces='none', height='pos')
    poly_run(rep, [Position(rep)], tier, stub=False)
    rep.require('edge coordinates', 8)
    rep.require('appended coordinates', 3)
