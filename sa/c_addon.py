"""The Blender add-on: the mesh it builds, its dialog and its registration."""
import ast
import os
from fractions import Fraction

from .program import Program, AnalysisBroken
from .engine import Engine
from .entry import MOD, mkobj, invec
from .state import T, V
from .base import refs, show, strip

ADD = 'addon'
SIZE = 400


def fresh(rep):
    prog = Program(os.environ.get('SA_REPO', '/repo'), extra=((ADD, '__init__.py'),))
    eng = Engine(prog, [])
    eng.maxitems = eng.unrollmax = SIZE
    return eng


class Log:
    always = True

    def __init__(self):
        self.ext, self.grown, self.calls, self.rets, self.displays = [], [], [], [], []

    def on_extcall(self, eng, st, node, name, args=(), kw=None):
        if not eng.quiet:
            self.ext.append((node, name, list(args), dict(kw or {}), st.copy()))

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if not eng.quiet:
            self.grown.append((node, target, elem, rhs, op, st.copy()))

    def on_comp(self, eng, st, node, target, elem):
        if not eng.quiet:
            self.grown.append((node, target, elem, None, 'append', st.copy()))

    def on_call(self, eng, st, node, fn, env):
        if not eng.quiet:
            self.calls.append((node, fn, dict(env), st.copy()))


def only(vals):
    return vals[0] if len(vals) == 1 else None


def the_list(st, v):
    r = only([k for k in (refs(v) if v is not None else ()) if k in st.heap and st.heap[k].kind in ('list', 'tuple')])
    return st.heap[r] if r is not None else None


def comps(st, v):
    """the three coordinates of a vector value, as terms"""
    r = only([k for k in (refs(v) if v is not None else ()) if k in st.heap and st.heap[k].kind == 'vec'])
    if r is None:
        return None
    o = st.heap[r]
    out = [o.fields.get(str(i)) for i in range(o.dim or 0)]
    return None if len(out) != 3 or None in out else [strip(c.term) for c in out]


def scale_axis(a):
    """the axis of an atom that reads a component of the scale (None: no scale)"""
    if T.op(a) == 'in' and len(T.args(a)) == 2 and T.args(a)[0] == 'scale':
        return int(T.args(a)[1])
    if T.op(a) == 'c' and T.args(a)[0] == T.atom('in', 'scale'):
        i = T.args(a)[1]
        return int(i) if isinstance(i, str) else i if i in (0, 1, 2) else T.num(i)
    return None


def scaled(t):
    """t = constant * scale of one axis -> (constant, axis); None if it has another form"""
    n = T.num(t)
    if n is not None:
        return (Fraction(n), None)
    p = T.poly(t)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if len(m) != 1 or m[0][1] != 1 or scale_axis(m[0][0]) is None:
        return None
    return (Fraction(c), int(scale_axis(m[0][0])))


def known(t):
    """t is a polynomial over the scale only"""
    return all(scale_axis(a) is not None for m in T.poly(t) for a, e in m)


class Unknown(Exception):
    pass


def neval(st, t, ks):
    n = T.num(t)
    if n is not None:
        return Fraction(n)
    k = T.rev[t]
    if k[0] == 'p':
        s = Fraction(0)
        for m, c in k[1]:
            x = Fraction(c)
            for a, e in m:
                x *= neval(st, a, ks) ** e
            s += x
        return s
    if t in ks:
        return Fraction(ks[t])
    if T.op(t) == 'mod':
        a, b = [neval(st, x, ks) for x in T.args(t)[:2]]
        if b:
            return a % b
    if T.op(t) == 'idx':
        base, i = T.args(t)[:2]
        if T.op(base) == 'obj' and T.args(base)[0] in st.heap:
            o = st.heap[T.args(base)[0]]
            j = neval(st, i, ks)
            if o.items is not None and j.denominator == 1 and -len(o.items) <= j < len(o.items):
                return neval(st, o.items[int(j)].term, ks)
    raise Unknown(show(t))


def addon_fn(eng, name):
    return eng.find_fn(ADD, name)


def check_addon(rep, tier):
    rep.rule('block', 'the vertices named by firstVertIndex and numVerts are in the list, at one height, and run counter-clockwise')
    rep.rule('base', 'vertex i of the base lies straight below vertex firstVertIndex + i')
    rep.rule('scale', 'a coordinate is a constant times the scale of its own axis')
    rep.rule('walls', 'wall i joins the edges i, i+1 of base and roof, counter-clockwise seen from outside, and there is one for every edge')
    rep.rule('arguments', 'polygonize gets every value under the right parameter: holes and unit vectors are left out, one positive height or tangent')
    rep.rule('mesh', 'the mesh is made of the vertices given to polygonize, no edges, and the faces it returned, then put in the scene')
    rep.rule('registration', 'unregister takes back exactly what register has registered, with the same objects')
    rep.rule('names', 'button and manual entry use the identifier of the operator')
    rep.rule('execute', 'the operator builds the object with its own settings and reports FINISHED')
    build(rep)
    registration(rep)
    operator(rep)


def build(rep):
    eng = fresh(rep)
    st = eng.initial_state([ADD, MOD])
    fn = addon_fn(eng, 'add_object')
    me, ctx = mkobj(st, 'self', 'inst'), mkobj(st, 'context', 'inst')
    st.heap['in:self'].fields['scale'] = invec(st, 'scale', 3, weights=False)
    log = Log()
    eng.clients = [log]
    pf = eng.find_fn(MOD, 'polygonize')
    polys = []

    def stub(e, s, n, env):
        v = env.get('faces')
        o = mkobj(s, 'polyfaces', 'list', elem=None)
        polys.append((n, dict(env), s.copy(), len(log.ext)))
        r = V(o.term, o.kinds, None)
        return [(s, r)]
    eng.stubs[pf.fid] = stub
    eng.call_fn(st, fn.node, fn, [me, ctx][:len(fn.node.args.args)], {}, '')
    rep.absorb(eng)
    rep.entries.append('%s.add_object' % ADD)
    if not polys:
        rep.und('arguments', fn.node, 'polygonize is not called')
        return
    for n, env, s, _ in polys:
        rep.count('calls of polygonize')
        shape(rep, log, n, env, s)
    mesh(rep, log, polys, fn)
    rep.require('calls of polygonize')


def integer(v):
    n = T.num(v.term) if v is not None else None
    return int(n) if n is not None and Fraction(n).denominator == 1 else None


def shape(rep, log, n, env, s):
    for p, what in (('holesInfo', 'there are no holes'),):
        v = env.get(p)
        if v is None or v.term == T.NONE:
            rep.ok('arguments', n, what)
        else:
            o = the_list(s, v)
            rep.decide(None if o is None or o.items is None else not o.items, 'arguments', n, what, show(v.term))
    v = env.get('unitVectors')
    rep.decide(True if v is None or v.term == T.NONE else None, 'arguments', n,
               'unit vectors are left to polygonize', show(v.term) if v is not None else '')
    h, t = [env.get(p) for p in ('height', 'tan')]
    num = [T.num(x.term) if x is not None and x.kinds and all(k[0] == 'num' for k in x.kinds) else None for x in (h, t)]
    if None in num:
        rep.und('arguments', n, 'height and tangent', '%s, %s' % (h and show(h.term), t and show(t.term)))
    else:
        rep.decide(num[0] >= 0 and num[1] >= 0 and (num[0] > 0 or num[1] > 0), 'arguments', n, 'the roof rises', 'height %s, tan %s' % tuple(num))
    first, cnt = integer(env.get('firstVertIndex')), integer(env.get('numVerts'))
    ol = the_list(s, env.get('verts'))
    if first is None or cnt is None or ol is None or ol.items is None:
        rep.und('block', n, 'the block of the footprint', '')
        return
    items = ol.items
    rep.decide(0 <= first and cnt >= 3 and first + cnt <= len(items), 'block', n, 'the block lies in the list',
               'first %d, number %d, list of %d' % (first, cnt, len(items)))
    if not (0 <= first and cnt >= 3 and first + cnt <= len(items)):
        return
    pts = [comps(s, v) for v in items]
    if None in pts:
        rep.und('block', n, 'the coordinates')
        return
    block = pts[first:first + cnt]
    z = block[0][2]
    dz = [T.sub(p[2], z) for p in block]
    rep.decide(True if all(d == T.ZERO for d in dz) else False if all(known(d) for d in dz) else None, 'block', n, 'the footprint is flat',
               ', '.join(show(d) for d in dz if d != T.ZERO)[:200])
    sc = [[scaled(c) for c in p] for p in pts]
    for i, p in enumerate(sc):
        for ax in range(3):
            c = p[ax]
            rep.count('coordinates')
            if c is None:
                if known(pts[i][ax]):
                    rep.bad('scale', n, 'coordinate %s of vertex %d' % ('xyz'[ax], i), show(pts[i][ax]))
                else:
                    rep.und('scale', n, 'coordinate %s of vertex %d' % ('xyz'[ax], i), show(pts[i][ax])[:200])
            elif c[1] not in (None, ax) or c[1] is None and c[0] != 0:
                rep.bad('scale', n, 'coordinate %s of vertex %d is scaled by the wrong axis or not at all' % ('xyz'[ax], i), show(pts[i][ax]))
    rep.decide(True, 'scale', n, 'coordinates were compared with the scale of their axis')
    if all(p[0] and p[1] for p in sc[first:first + cnt]):
        q = [(p[0][0], p[1][0]) for p in sc[first:first + cnt]]
        area = sum(q[i - 1][0] * q[i][1] - q[i][0] * q[i - 1][1] for i in range(cnt))
        rep.decide(area > 0, 'block', n, 'the footprint runs counter-clockwise', 'twice the signed area: %s' % float(area))
        rep.decide(simple(q), 'block', n, 'the footprint does not touch or cross itself')
    rep.decide(2 * cnt == len(items), 'base', n, 'the list is made of the base and the roof', 'numVerts %d, list of %d' % (cnt, len(items)))
    low = first == cnt == len(items) - cnt
    if low:
        for i in range(cnt):
            a, b = pts[i], pts[first + i]
            d = [T.sub(b[j], a[j]) for j in range(3)]
            if d[0] == T.ZERO and d[1] == T.ZERO:
                up = scaled(d[2])
                rep.decide(None if up is None else up[0] > 0 and up[1] == 2, 'base', n, 'the roof vertex lies above the base vertex %d' % i, show(d[2]))
            else:
                rep.decide(False if known(d[0]) and known(d[1]) else None, 'base', n, 'the roof vertex lies above the base vertex %d' % i,
                           '%s, %s' % (show(d[0]), show(d[1])))
            if a[2] != T.ZERO and known(a[2]):
                rep.bad('base', n, 'base vertex %d lies on the ground' % i, show(a[2]))
    elif 2 * cnt == len(items):
        rep.und('base', n, 'base and roof vertices', 'first %d, number %d, list of %d' % (first, cnt, len(items)))
    walls(rep, log, n, env, s, first, cnt)


def simple(q):
    """no two edges that are not neighbours meet, no two neighbours overlap (exact arithmetic on the constants)"""
    def side(a, b, c):
        x = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        return (x > 0) - (x < 0)

    def on(a, b, c):
        return side(a, b, c) == 0 and min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])
    n = len(q)
    if len(set(q)) != n:
        return False
    e = [(q[i], q[(i + 1) % n]) for i in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            (a, b), (c, d) = e[i], e[j]
            if j == i + 1 or (i == 0 and j == n - 1):
                p = d if j == i + 1 else c
                o = (a, b) if j == i + 1 else (a, b)
                if on(o[0], o[1], p) and n > 3:
                    return False
                continue
            if side(a, b, c) * side(a, b, d) < 0 and side(c, d, a) * side(c, d, b) < 0:
                return False
            if on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
                return False
    return True


def walls(rep, log, n, env, s, first, cnt):
    fo = the_list(s, env.get('faces'))
    if fo is None:
        rep.und('walls', n, 'the list of faces')
        return
    quads = []
    try:
        if fo.items is not None:
            for v in fo.items:
                o = the_list(s, v)
                if o is None or o.items is None:
                    raise Unknown('a wall')
                quads.append((n, [int(neval(s, x.term, {})) for x in o.items]))
        else:
            mine = [g for g in log.grown if refs(g[1]) == refs(env['faces'])]
            N = T.num(fo.length)
            if N is None:
                raise Unknown('number of walls: %s' % show(fo.length))
            looped = False
            for node, target, elem, rhs, op, gs in mine:
                o = the_list(gs, elem)
                if op != 'append' or o is None or o.items is None:
                    raise Unknown('%s %s' % (op, elem and show(elem.term)))
                ks = {a for x in o.items for a in T.find(x.term, lambda y: T.op(y) == 'k')}
                if len(ks) > 1:
                    raise Unknown('nested loops')
                if ks:
                    looped = True
                    for i in range(int(N)):
                        quads.append((node, [int(neval(gs, x.term, {next(iter(ks)): i})) for x in o.items]))
                else:
                    quads.append((node, [int(neval(gs, x.term, {})) for x in o.items]))
            if looped and len(mine) != 1:
                raise Unknown('several places add walls')
    except Unknown as e:
        rep.und('walls', n, 'the walls', str(e))
        return
    seen = set()
    for node, q in quads:
        rep.count('walls')
        r = [q[i:] + q[:i] for i in range(len(q))]
        m = None
        for c in r:
            if len(c) == 4 and 0 <= c[0] < cnt and 0 <= c[1] < cnt and c[1] == (c[0] + 1) % cnt and c[2] == c[1] + first and c[3] == c[0] + first:
                m = c[0]
        if m is None:
            rep.bad('walls', node, 'a wall joins an edge of the base with the edge of the roof above it, counter-clockwise', str(q))
        elif m in seen:
            rep.bad('walls', node, 'every wall is built once', str(q))
        else:
            seen.add(m)
    rep.decide(len(seen) == cnt, 'walls', n, 'there is a wall for every edge of the footprint', '%d of %d' % (len(seen), cnt))


def mesh(rep, log, polys, fn):
    data = [e for e in log.ext if e[1].endswith('.from_pydata')]
    if not data:
        rep.und('mesh', fn.node, 'from_pydata is not called')
        return
    for node, name, args, kw, s in data:
        rep.count('meshes')
        a = args[1:]
        for i, k in enumerate(('vertices', 'edges', 'faces')):
            if k in kw and len(a) == i:
                a.append(kw[k])
        if len(a) < 3:
            rep.und('mesh', node, 'the arguments of from_pydata')
            continue
        for pn, env, ps, _ in polys:
            same = strip(a[0].term) == strip(env['verts'].term)
            rep.decide(True if same else False if the_list(s, a[0]) is not None else None, 'mesh', node,
                       'the mesh gets the vertices that polygonize has extended', show(a[0].term)[:120])
        e = the_list(s, a[1])
        rep.decide(True if e is not None and not e.items and e.length == T.ZERO else False if e is not None and e.items else None, 'mesh', node,
                   'no loose edges', show(a[1].term)[:120])
        ours = a[2].term == T.atom('in', 'polyfaces')
        rep.decide(True if ours else False if the_list(s, a[2]) is not None else None, 'mesh', node,
                   'the mesh gets the faces that polygonize returned (walls and roof)', show(a[2].term)[:120])
        put = [x for x in log.ext if x[1].endswith('object_data_add')]
        if not put:
            rep.und('mesh', node, 'object_data_add is not called')
        for pn, nm, pa, pk, ps in put:
            b = list(pa) + [None] * 2
            c, m = pk.get('context', b[0]), pk.get('obdata', b[1])
            op = pk.get('operator', pa[2] if len(pa) > 2 else None)
            rep.decide(None if c is None else c.term == T.atom('in', 'context') or None if T.op(c.term) != 'in' else c.term == T.atom('in', 'context'),
                       'mesh', pn, 'the object is put into the scene of the context', show(c.term) if c else '')
            rep.decide(None if m is None or not args else True if m.term == args[0].term else None, 'mesh', pn, 'the object carries this mesh')
            if op is None:
                rep.bad('mesh', pn, 'the settings of the operator (place, rotation) are handed over', 'no operator')
            else:
                rep.decide(True if op.term == T.atom('in', 'self') else False if op.term == T.NONE else None, 'mesh', pn,
                           'the settings of the operator (place, rotation) are handed over', show(op.term))


PAIRS = (('register_class', 'unregister_class'), ('register_manual_map', 'unregister_manual_map'),
         ('append', 'remove'), ('prepend', 'remove'))


def run_top(rep, name):
    eng = fresh(rep)
    st = eng.initial_state([ADD, MOD])
    fn = addon_fn(eng, name)
    log = Log()
    eng.clients = [log]
    args = [mkobj(st, a.arg, 'inst') for a in fn.node.args.args]
    r = eng.call_fn(st, fn.node, fn, args, {}, '')
    rep.absorb(eng)
    rep.entries.append('%s.%s' % (ADD, name))
    return eng, fn, log, r


def what_of(v):
    for k in v.kinds:
        if k[0] in ('fn', 'cls'):
            return k[1]
    return None


def calls_of(rep, eng, log):
    """[(container, verb, object, node)] in order, None for an entry not understood"""
    out = []
    for node, name, args, kw, s in log.ext:
        path, _, verb = name.rpartition('.')
        if verb not in {v for p in PAIRS for v in p}:
            continue
        x = [a for a in args if isinstance(a, V) and what_of(a)]
        vals = x or [a for a in kw.values() if what_of(a)]
        out.append((path, verb, what_of(vals[-1]) if vals else None, node))
    return out


def registration(rep):
    e1, f1, l1, _ = run_top(rep, 'register')
    e2, f2, l2, _ = run_top(rep, 'unregister')
    on, off = calls_of(rep, e1, l1), calls_of(rep, e2, l2)
    names = lambda eng, o: next((f.qual for f in eng.prog.fns.values() if f.fid == o), None) or next((c.name for c in eng.classes.values() if c.cid == o), o)
    on = [(p, v, names(e1, o), n) for p, v, o, n in on]
    off = [(p, v, names(e2, o), n) for p, v, o, n in off]
    if not on or not off:
        rep.und('registration', f1.node, 'calls that register or unregister were not found')
    left = list(off)
    for p, v, o, n in on:
        rep.count('registrations')
        wants = {b for a, b in PAIRS if a == v}
        hit = [x for x in left if x[0] == p and x[1] in wants and x[2] == o]
        if hit:
            left.remove(hit[0])
            rep.ok('registration', n, 'taken back by unregister', '%s.%s' % (p, hit[0][1]))
        elif o is None or any(x[2] is None for x in left) or e2.notes or p in ('', '?'):
            rep.und('registration', n, 'taken back by unregister')
        else:
            rep.bad('registration', n, 'unregister does not take this back', '%s.%s(%s)' % (p, v, o))
    for p, v, o, n in left:
        if v in {a for a, b in PAIRS}:
            rep.bad('registration', n, 'unregister registers', '%s.%s(%s)' % (p, v, o))
        elif o is None or any(x[2] is None for x in on) or e1.notes:
            rep.und('registration', n, 'unregister takes back what was registered')
        else:
            rep.bad('registration', n, 'unregister takes back what was never registered', '%s.%s(%s)' % (p, v, o))
    rep.require('registrations', 1)
    # what is registered
    kinds = {v: o for p, v, o, n in on}
    cls = [c for c in e1.classes.values() if c.node is not None and c.name == kinds.get('register_class')]
    idn = class_const(cls[0].node, 'bl_idname') if cls else None
    if idn is None:
        rep.und('names', f1.node, 'the identifier of the operator')
        return
    rep.decide(idn.count('.') == 1 and idn == idn.lower(), 'names', cls[0].node, 'the identifier has the form group.name', idn)
    button = kinds.get('append') or kinds.get('prepend')
    mm = kinds.get('register_manual_map')
    for q, part in ((button, 'button'), (mm, 'manual')):
        if q is None:
            continue
        nm = q.split('.')[-1]
        eng, fn, log, res = run_top(rep, nm)
        if part == 'button':
            ops = [x for x in log.ext if x[1].endswith('.operator')]
            if not ops:
                rep.und('names', fn.node, 'the button')
            for node, name, args, kw, s in ops:
                v = kw.get('operator', args[1] if len(args) > 1 else None)
                lit = strval(v)
                rep.decide(None if lit is None else lit == idn, 'names', node, 'the button starts the operator', str(lit))
        else:
            for s, v in res:
                try:
                    o = the_list(s, v)
                    prefix, pairs = o.items[0], the_list(s, o.items[1])
                    rows = [the_list(s, i).items for i in pairs.items]
                    got = [strval(r[0]) for r in rows]
                except (AttributeError, TypeError, IndexError):
                    rep.und('names', fn.node, 'the manual entry')
                    continue
                if None in got:
                    rep.und('names', fn.node, 'the manual entry')
                else:
                    rep.decide('bpy.ops.' + idn in got, 'names', fn.node, 'the manual entry names the operator', str(got))
                pre = strval(prefix)
                if pre is not None:
                    rep.decide(pre.endswith('/'), 'names', fn.node, 'the manual address is a folder', pre)


def strval(v):
    if v is None:
        return None
    k = T.rev[v.term]
    return ast.literal_eval(k[2]) if k[0] == 'k' and k[1] == 'str' else None


def class_const(node, name):
    for s in node.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == name for t in ts) and isinstance(s.value, ast.Constant):
                return s.value.value
    return None


def operator(rep):
    eng = fresh(rep)
    st = eng.initial_state([ADD, MOD])
    cl = [c for c in eng.classes.values() if c.node is not None and c.node._mod.name == ADD and 'execute' in c.methods]
    if not cl:
        rep.und('execute', 'add-on', 'the operator class')
        return
    for ci in cl:
        fn = ci.methods['execute']
        log = Log()
        eng.clients = [log]
        me = mkobj(st, 'self', 'inst', cls=ci.cid)
        ctx = mkobj(st, 'context', 'inst')
        target = addon_fn(eng, 'add_object')
        seen = []

        def stub(e, s, n, env):
            seen.append((n, [env.get(a.arg) for a in target.node.args.args]))
            return [(s, V(T.NONE, frozenset([('none', 'stub')]), None))]
        eng.stubs[target.fid] = stub
        res = eng.call_fn(st, fn.node, fn, [me, ctx], {}, '')
        rep.absorb(eng)
        rep.entries.append('%s.%s.execute' % (ADD, ci.name))
        rep.count('operators')
        if not seen:
            rep.bad('execute', fn.node, 'the operator builds the object') if not eng.notes else rep.und('execute', fn.node, 'the operator builds the object')
        for n, a in seen:
            ok = [x is not None and x.term for x in a] == [T.atom('in', 'self'), T.atom('in', 'context')]
            rep.decide(ok or (False if all(x is not None and T.op(x.term) == 'in' for x in a) else None), 'execute', n,
                       'the operator hands over its own settings and the context')
        for s, v in res:
            r = only(list(refs(v)))
            o = s.heap.get(r) if r else None
            lits = None
            if o is not None and o.kind == 'set':
                lits = {strval(x) for x in (o.items or ())} or ({strval(o.elem)} if o.elem is not None else None)
            if lits is None or None in lits:
                rep.decide(False if v.term == T.NONE else None, 'execute', fn.node, 'the operator reports its result', show(v.term))
            else:
                rep.decide(lits == {'FINISHED'}, 'execute', fn.node, 'the operator reports its result', str(lits))
    sc = [s for ci in cl for s in ci.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == 'scale']
    for s in sc:
        call = s.annotation
        if isinstance(call, ast.Call):
            kw = {k.arg: k.value for k in call.keywords}
            rep.count('settings')
            nm, d = kw.get('name'), kw.get('default')
            if isinstance(d, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in d.elts):
                rep.decide(all(x.value > 0 for x in d.elts) and len(d.elts) == 3, 'execute', s, 'the default scale is positive on three axes', ast.unparse(d))
    rep.require('operators')
