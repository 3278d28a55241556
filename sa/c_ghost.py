"""Cleaning ghost arcs: what leaves a node's list, what takes it over, and under which conditions (path by path)."""
import ast
import math

from . import terms, ratfun
from .state import T
from .base import resolved, show, strip
from .entry import skeleton_of
from .c_merge import Watch as Base, start, parts, k_of, field_of, node_no, SK

NEARLY = 0.01          # PARALLEL, as documented


class Watch(Base):
    def __init__(self):
        super().__init__()

    def on_comp(self, eng, st, node, target, elem):
        e = elem.term if elem is not None else None
        if e is not None:
            ends = list(known(st.facts, e))
            st.marks['cmp'] = st.marks.get('cmp', frozenset()) | {('comp', target.term, e, x, None) for x in ends or [None]}

    def on_backedge(self, eng, st, node, lk):
        st.marks['act'] = st.marks.get('act', frozenset()) | st.marks.get('cmp', frozenset())
        super().on_backedge(eng, st, node, lk)
        if isinstance(node, ast.stmt):
            st.marks.pop('cmp', None)

    def on_loopbreak(self, eng, st, node, lk, enters):
        st.marks['act'] = st.marks.get('act', frozenset()) | st.marks.get('cmp', frozenset())
        super().on_loopbreak(eng, st, node, lk, enters)


def known(fs, num):
    """the end whose position the node with this number is known to have"""
    for f, v in fs.items():
        if f[0] == 'truth' and v is True and T.op(f[1]) == 'same':
            a = [x for x in T.args(f[1]) if isinstance(x, int)]
            if len(a) == 2:
                for x, y in (a, a[::-1]):
                    if field_of(x, 'source') == num:
                        yield y


def sink_pair(t):
    """an element of a pair of sinks -> (node, counter, which, sinks term)"""
    if T.op(t) == 'idx' and T.op(T.args(t)[1]) == 'ci':
        n = field_of(T.args(t)[0], 'sinks')
        if n is not None:
            c = T.args(T.args(t)[1])
            return n, c[0], str(c[1]), T.args(t)[0]
    return None


def length2(a, b):
    return T.add(*(T.mul(T.sub(x, y), T.sub(x, y)) for x, y in zip(a, b)))


def xy(t):
    return [T.atom('c', t, '0', T.ZERO), T.atom('c', t, '1', T.ZERO)]


def check_ghosts(rep, tier):
    rep.rule('lost', 'an arc leaves a node only if it led to the node itself, or if its end is taken over by the node at the end of the nearer arc')
    rep.rule('moved', 'an arc that is taken over leaves the node it came from')
    rep.rule('nearer', 'the arc that is moved is the longer one of the two')
    rep.rule('direction', 'arcs are moved only if the two run in the same direction (their cosine is within 0.01 of 1)')
    rep.rule('taker', 'the node that takes over is the one at the end of the shorter arc')
    s = start(rep, tier, 'removeGhosts')
    if s is None or len(s[2].node.args.args) != 1:
        rep.und('lost', None, 'the function that cleans the skeleton is not found under its name and parameters')
        return
    eng, st, fn, _ = s
    w = Watch()
    w.fn = fn
    eng.clients = [w]
    eng.exact_fns = parts(eng, fn)
    old = terms.MAXMONO
    terms.MAXMONO = 600
    try:
        eng.call_fn(st, fn.node, fn, [skeleton_of(eng, st)], {}, '')
        rep.absorb(eng)
        rep.entries.append('removeGhosts(any skeleton), every path kept apart')
        judge(rep, eng, w)
    finally:
        terms.MAXMONO = old
    rep.require('paths that change the list of a node', 2)


def judge(rep, eng, w):
    recs = [(r, False) for r in w.backs] + [(r, True) for r in w.breaks]
    # loops over pairs of sinks
    pl = set()
    for r, br in recs:
        for a in r[3]:
            p = sink_pair(a[2]) if isinstance(a[2], int) else None
            if p:
                pl.add(p[1])
    for r, br in recs:
        lk, node, facts, acts = r
        every = acts
        acts = [a for a in acts if a[0] in ('put', 'remove', 'del', 'set')]
        if not acts:
            continue
        k = k_of(lk)
        if k in pl:
            rep.count('paths that change the list of a node')
            moved(rep, every, node, facts, acts)
        elif any(sink_pair(a[2]) for a in acts if isinstance(a[2], int)):
            continue
        else:
            rep.count('paths that change the list of a node')
            selfloop(rep, node, facts, acts)
    for nd, t, op in w.other:
        rep.und('lost', nd, 'other change of a list', op)


def selfloop(rep, node, facts, acts):
    for a in acts:
        n = field_of(a[1], 'sinks')
        at = a[4] or node
        if a[0] == 'remove' and n is not None and isinstance(a[2], int):
            if field_of(a[2], 'source') == n:
                rep.ok('lost', at, 'an arc from a node to itself')
            elif T.op(a[2]) == 'idx' and field_of(T.args(a[2])[0], 'sinks') == n:
                own = [f for f, v in facts.items() if f[0] == 'truth' and v is True and T.op(f[1]) == 'same' and a[2] in T.args(f[1]) and
                       any(field_of(x, 'source') == n for x in T.args(f[1]) if isinstance(x, int))]
                if own:
                    rep.ok('lost', at, 'an arc from a node to itself')
                else:
                    rep.und('lost', at, 'which arc is removed')
            elif field_of(a[2], 'source') is not None:
                rep.bad('lost', at, 'the arc to another node is removed', show(a[2]))
            else:
                rep.und('lost', at, 'which arc is removed', show(a[2]))
        elif a[0] == 'del' and n is not None and (a[2] is None or T.num(a[2]) is not None):
            rep.bad('lost', at, 'an arc is removed by its place in the list')
        else:
            rep.und('lost', at, 'change of a list', a[0])


def moved(rep, every, node, facts, acts):
    puts = [a for a in acts if a[0] == 'put' and isinstance(a[2], int)]
    rems = [a for a in acts if a[0] == 'remove' and isinstance(a[2], int)]
    odd = [a for a in acts if a[0] in ('del', 'set')]
    if odd:
        for a in odd:
            rep.und('lost', a[4] or node, 'change of a list', a[0])
        return
    rems = [a for a in rems if field_of(a[1], 'sinks') is not None]
    puts = [a for a in puts if field_of(a[1], 'sinks') is not None]
    for a in rems:
        at = a[4] or node
        p = sink_pair(a[2])
        own = field_of(a[1], 'sinks')
        if field_of(a[2], 'source') == own:
            rep.ok('lost', at, 'an arc from a node to itself')
            continue
        if p is None or p[0] != own:
            rep.und('lost', at, 'which arc is removed', show(a[2]))
            continue
        took = [b for b in puts if strip(b[2]) == strip(a[2]) and field_of(b[1], 'sinks') != own]
        has = [f for f, v in facts.items() if f[0] == 'in' and v is True and strip(f[1]) == strip(a[2]) and
               field_of(f[2], 'sinks') not in (None, own)]
        if has:
            rep.ok('lost', at, 'another node leads to its end already')
            near = other_end(facts, p)
            if near is not None:
                taker(rep, every, at, facts, field_of(has[0][2], 'sinks'), near, a[2])
        elif took:
            rep.ok('lost', at, 'its end is taken over by another node on the same path')
        else:
            rep.bad('lost', at, 'an arc is removed though no other node takes over its end')
    for b in puts:
        at = b[4] or node
        p = sink_pair(b[2])
        if p is None:
            rep.und('moved', at, 'which arc is taken over', show(b[2]))
            continue
        n = field_of(b[1], 'sinks')
        gone = [a for a in rems if strip(a[2]) == strip(b[2]) and field_of(a[1], 'sinks') == p[0]]
        if gone:
            rep.ok('moved', at, 'the arc leaves its node on the same path')
        else:
            rep.bad('moved', at, 'an arc is taken over by another node, but stays where it was')
        near = other_end(facts, p)
        if near is None:
            rep.bad('direction', at, 'an arc is moved without comparing it with another one')
            continue
        far = b[2]
        taker(rep, every, at, facts, n, near, far)
        lengths(rep, at, facts, p[0], near, far)
        direction(rep, at, facts, p[0], near, far)


def other_end(facts, p):
    for f in facts:
        if isinstance(f[1], int):
            for x in T.find(f[1], lambda x: sink_pair(x) is not None):
                q = sink_pair(x)
                if q[:2] == p[:2] and q[2] != p[2]:
                    return x
    return None


def taker(rep, every, at, facts, n, near, far):
    ends = list(known(facts, n))
    if T.op(n) == 'idx':
        ends += [a[3] for a in every if a[0] == 'comp' and a[1] == T.args(n)[0]]
    ends = [strip(e) if e is not None else None for e in ends]
    both = {strip(near), strip(far)}
    if not ends and T.num(n) is not None:
        rep.bad('taker', at, 'the node at a fixed place in the skeleton takes over')
        return
    if not ends:
        rep.und('taker', at, 'which node takes over', show(n))
        return
    if set(ends) == {strip(near)}:
        rep.ok('taker', at, 'the node at the end of the other arc takes over')
    elif set(ends) <= both:
        rep.bad('taker', at, 'the arc goes to the node at its own end')
    elif None in ends:
        rep.bad('taker', at, 'any node may take over')
    else:
        rep.und('taker', at, 'which node takes over')


def lengths(rep, at, facts, n, near, far):
    src = T.atom('sel', T.atom('idx', SK, n, T.ZERO), '.source', T.ZERO)
    a, b = length2(xy(strip(near)), xy(strip(src))), length2(xy(strip(far)), xy(strip(src)))
    got = None
    vague = False
    for f, v in facts.items():
        if f[0] != 'lt' or v not in (True, False):
            continue
        x = strip(f[1])
        for p, q, sg in ((a, b, 1), (b, a, -1)):
            for u, z in ((p, q), (T.atom('sqrt', p), T.atom('sqrt', q))):
                if same(x, T.sub(u, z)):
                    r = (v is True) if sg == 1 else (v is False)
                    got = r if got in (None, True) else got
                    # equal lengths do not matter
    if got is True:
        rep.ok('nearer', at, 'the longer arc is moved')
    elif got is False:
        rep.bad('nearer', at, 'the shorter arc is moved to the end of the longer one')
    else:
        rep.und('nearer', at, 'which arc is longer')


def value(t, env):
    """value of a term at given coordinates"""
    k = T.rev[t]
    if t in env:
        return env[t]
    if k[0] == 'c':
        return float(k[1])
    if k[0] == 'p':
        r = 0.0
        for mono, c in k[1]:
            x = float(c)
            for a, e in mono:
                x *= value(a, env) ** e
            r += x
        return r
    if k[0] == 'a' and k[1] == 'sqrt':
        return math.sqrt(value(k[2], env))
    if k[0] == 'a' and k[1] == 'abs':
        return abs(value(k[2], env))
    raise ValueError(k[1] if k[0] == 'a' else k[0])


def leaves(t):
    return T.find(t, lambda x: T.op(x) == 'c')


def same(x, y):
    if x == y:
        return True
    # two different values at one place: not the same; an identity is proved
    at = sorted(set(leaves(x)) | set(leaves(y)))
    for n in range(3):
        env = {a: ((i * i * (n + 2) + 5 * i + 3 * n) % 23) / 7.0 + i for i, a in enumerate(at)}
        try:
            p, q = value(x, env), value(y, env)
        except (ValueError, ZeroDivisionError):
            break
        if abs(p - q) > 1e-6 * (1 + abs(p)):
            return False
    try:
        return ratfun.is_zero(T.sub(x, y)) is True
    except Exception:
        return False


def direction(rep, at, facts, n, near, far):
    src = T.atom('sel', T.atom('idx', SK, n, T.ZERO), '.source', T.ZERO)
    o, p, q = xy(strip(src)), xy(strip(near)), xy(strip(far))
    s0, s1 = [T.sub(x, y) for x, y in zip(p, o)], [T.sub(x, y) for x, y in zip(q, o)]
    dot = T.add(T.mul(s0[0], s1[0]), T.mul(s0[1], s1[1]))
    cos = T.div(dot, T.mul(T.atom('sqrt', length2(p, o)), T.atom('sqrt', length2(q, o))))
    hit, other = [], []
    for f, v in facts.items():
        if f[0] != 'lt' or v not in (True, False):
            continue
        x = strip(f[1])
        if not (T.mentions(x, strip(near)) and T.mentions(x, strip(far))):
            continue
        ab = T.find(x, lambda t: T.op(t) == 'abs')
        if len(set(ab)) == 1:
            u = T.args(ab[0])[0]
            c = T.num(T.sub(x, ab[0]))
            sg = 1
            if c is None:
                c = T.num(T.add(x, ab[0]))
                sg = -1
            if c is None:
                other.append(x)
                continue
            for d in (1, -1):
                for way in (1, -1):
                    # |cos - 1| and, mistaken, |cos + 1|
                    t = T.sub(T.mul(T.const(d), cos), T.const(d * way))
                    if same(u, t):
                        hit.append((way, sg, c, v))
        elif not ab:
            for sg in (1, -1):
                c = None
                y = T.sub(x, cos) if sg == 1 else T.add(x, cos)
                c = T.num(y)
                if c is not None:
                    # sg*cos + c < 0
                    if (sg == -1) == (v is True):
                        hit.append((1, 1, -(1 - abs(c)), True) if c > 0 or sg == 1 else (-1, 1, c, v))
    upper = [(way, -c) for way, sg, c, v in hit if sg == 1 and v is True] + [(way, c) for way, sg, c, v in hit if sg == -1 and v is False]
    good = [c for way, c in upper if way == 1 and 0 < c <= NEARLY + 1e-12]
    if good:
        rep.ok('direction', at, 'the two arcs run in the same direction')
    elif any(way == -1 for way, c in upper):
        rep.bad('direction', at, 'arcs in opposite directions are taken for parallel')
    elif upper:
        rep.bad('direction', at, 'arcs are moved though they need not run in one direction', 'cosine within %s of 1' % float(max(c for w, c in upper)))
    else:
        w = witness(facts, o, p, q)
        if w:
            rep.bad('direction', at, 'arcs are moved though they need not run in one direction', w)
        else:
            rep.und('direction', at, 'whether the arcs run in one direction')


def witness(facts, o, p, q):
    """two arcs in other directions that meet all conditions of the path"""
    mine = set(o + p + q)
    for what, near, far in (('opposite directions', (-1.0, 0.0), (2.0, 0.0)), ('opposite directions', (-1.0, -1.0), (2.0, 2.0)),
                            ('an open angle', (1.0, 0.0), (1.0, 5.0)), ('a right angle', (0.0, 1.0), (2.0, 0.0)), ('a right angle', (1.0, 1.0), (3.0, -3.0))):
        env = dict(zip(o + p + q, (0.0, 0.0) + near + far))
        for f, v in facts.items():
            if f[0] not in ('lt', 'eq', 'truth') or v not in (True, False) or not isinstance(f[1], int):
                continue
            x = strip(f[1])
            at = set(leaves(x))
            if not at & mine:
                continue
            try:
                r = value(x, env)
            except (ValueError, ZeroDivisionError):
                break
            if f[0] == 'truth' and bool(r) != v or f[0] == 'lt' and (r < 0) != v or f[0] == 'eq' and (r == 0) != v:
                break
        else:
            return what
    return None
