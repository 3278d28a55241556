"""Entry states: the symbolic inputs of the public functions."""
from .program import Program, AnalysisBroken
from .engine import Engine
from .state import T, V, W0, NUM, Obj

MOD = 'bpypolyskel.bpypolyskel'
EUC = 'bpypolyskel.bpyeuclid'
GRA = 'bpypolyskel.poly2FacesGraph'


def mkobj(st, oid, kind, single=True, elem=None, length=None, cls=None):
    o = Obj(kind, cls, 'in:' + oid, single)
    o.ver = T.atom('v0', 'in:' + oid)
    o.elem = elem
    if kind in ('list', 'dict', 'set'):
        o.length = length if length is not None else T.atom('lenin', oid)
    st.heap['in:' + oid] = o
    return V(T.atom('in', oid), frozenset([('ref', 'in:' + oid)]), None)


def invec(st, oid, dim, weights=True):
    v = mkobj(st, oid, 'vec', single=False)
    o = st.heap['in:' + oid]
    o.dim = dim
    for i in range(dim):
        w = tuple(T.ONE if (j == i and weights) else T.ZERO for j in range(3))
        o.fields[str(i)] = V(T.atom('in', oid, str(i)), frozenset([NUM]), w)
    return V(v.term, v.kinds, None)


def innum(name, w=W0):
    return V(T.atom('in', name), frozenset([NUM]), w)


def maybe_none(v):
    return V(v.term, v.kinds | frozenset([('none', 'in')]), v.w)


def pos(eng, st, t):
    st.facts[('lt', T.neg(t))] = True
    st.facts[('eq', eng.canon(t))] = False


def polygonize_env(eng, st):
    vert = invec(st, 'vert', 3)
    verts = mkobj(st, 'verts', 'list', elem=vert)
    pos(eng, st, st.heap['in:verts'].length)
    hole = mkobj(st, 'hole', 'tuple', single=False)
    st.heap['in:hole'].items = (innum('holeFirst'), innum('holeNum'))
    st.heap['in:hole'].length = T.const(2)
    st.heap['in:hole'].elem = innum('holeAny')
    holes = mkobj(st, 'holesInfo', 'list', elem=hole)
    uv = invec(st, 'unitVector', 3, weights=False)
    uvs = mkobj(st, 'unitVectors', 'list', elem=uv)
    face = mkobj(st, 'face', 'list', single=False, elem=innum('faceIndex'))
    faces = mkobj(st, 'faces', 'list', elem=face)
    first, num = T.atom('in', 'firstVertIndex'), T.atom('in', 'numVerts')
    pos(eng, st, num)
    st.facts[('lt', first)] = False
    st.facts[('lt', T.sub(T.sub(st.heap['in:verts'].length, first), num))] = False
    return {'verts': verts, 'firstVertIndex': innum('firstVertIndex'), 'numVerts': innum('numVerts'),
            'holesInfo': maybe_none(holes), 'height': innum('height'), 'tan': innum('tan'),
            'faces': maybe_none(faces), 'unitVectors': maybe_none(uvs)}


def run_polygonize(eng, override=None):
    st = eng.initial_state([MOD])
    fn = eng.find_fn(MOD, 'polygonize')
    env = polygonize_env(eng, st)
    if override:
        override(eng, st, env)
    params = [a.arg for a in fn.node.args.args]
    for p in env:
        if p not in params:
            raise AnalysisBroken('polygonize has no parameter ' + p)
    return eng.call_fn(st, fn.node, fn, [], env, '')


def skeleton_of(eng, st, weights=False):
    """the documented result of skeletonize: nodes (source, height, sinks) relative to the centre"""
    v = eng._globs.get((MOD, 'Subtree'))
    cid = [k[1] for k in v.kinds if k[0] == 'cls'][0] if v is not None and any(k[0] == 'cls' for k in v.kinds) else None
    if cid is None:
        raise AnalysisBroken('node type Subtree is gone')
    node = mkobj(st, 'node', 'inst', single=False, cls=cid)
    o = st.heap['in:node']
    o.fields['source'] = invec(st, 'node.source', 2, weights=weights)
    o.fields['height'] = innum('node.height')
    sink = invec(st, 'sink', 2, weights=weights)
    o.fields['sinks'] = mkobj(st, 'sinks', 'list', single=False, elem=sink)
    return mkobj(st, 'skeleton', 'list', elem=node)


def stub_skeletonize(eng):
    """replace the call of skeletonize by its documented contract (its body is analysed separately)"""
    fn = eng.find_fn(MOD, 'skeletonize')

    def stub(eng, st, n, env):
        v = skeleton_of(eng, st)
        return [(st, v)]
    eng.stubs[fn.fid] = stub
    return fn


def edge_contours(eng, st):
    v = eng._globs.get((EUC, 'Edge2')) or eng._globs.get((MOD, 'Edge2'))
    if v is None:
        raise AnalysisBroken('class Edge2 is gone')
    cid = [k[1] for k in v.kinds if k[0] == 'cls'][0]
    e = mkobj(st, 'edge', 'inst', single=False, cls=cid)
    o = st.heap['in:edge']
    for f in ('p1', 'p2', 'norm'):
        o.fields[f] = invec(st, 'edge.' + f, 2, weights=(f != 'norm'))
    o.fields['i1'] = innum('edge.i1')
    o.fields['i2'] = innum('edge.i2')
    contour = mkobj(st, 'contour', 'list', single=False, elem=e)
    st.facts[('eq', eng.canon(T.atom('lenin', 'contour')))] = False
    cs = mkobj(st, 'edgeContours', 'list', elem=contour)
    pos(eng, st, st.heap['in:edgeContours'].length)
    return cs


def run_skeletonize(eng):
    st = eng.initial_state([MOD])
    fn = eng.find_fn(MOD, 'skeletonize')
    cs = edge_contours(eng, st)
    return eng.call_fn(st, fn.node, fn, [cs], {}, '')


def run_driver(eng, module, fname, build):
    """analyse one function of a driver module from symbolic arguments build(eng, st) -> {parameter: value}"""
    mod = 'driver.' + module
    st = eng.initial_state([mod])
    fn = eng.find_fn(mod, fname)
    return eng.call_fn(st, fn.node, fn, [], build(eng, st), '')
