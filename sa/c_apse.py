"""Apses: runs of gentle angles in the outer contour, and the circle through each of them (C31)."""
import ast
from re import _parser as rx

from .program import AnalysisBroken
from .state import T, V, W0
from .base import refs, show, strip, FUZZY
from .entry import MOD, EUC, mkobj, invec, innum, edge_contours
from .c_poly import new_engine

CON = T.atom('in', 'contour')
LOW, LEAST = 0.5, 6


def letter(t):
    s = show(t)
    return s[1] if len(s) == 3 and s[0] == s[2] == "'" else None


def norm_at(t):
    """norm of an edge of the contour, component -> (index, component)"""
    if T.op(t) == 'c':
        e, i = T.args(t)[:2]
        if T.op(e) == 'sel' and T.args(e)[1] == '.norm' and T.op(T.args(e)[0]) == 'idx' and T.args(T.args(e)[0])[0] == CON:
            return T.args(T.args(e)[0])[1], str(i)
    return None


def offset(t, base):
    """t = base + a whole number, up to whole turns -> that number"""
    while T.op(t) == 'mod':
        t = T.args(t)[0]
    off = 0
    for m, c in T.poly(T.sub(t, base)).items():
        if m == ():
            off = c
        elif len(m) == 1 and m[0][1] == 1 and T.op(m[0][0]) in ('lenof', 'lenin', 'len?') and c == int(c):
            continue
        else:
            return None
    return int(off) if off == int(off) else None


class Vague(Exception):
    pass


def value(t, cr, x):
    """value of a term that is a function of the cross product cr, for cr = x"""
    n = T.num(t)
    if n is not None:
        return n
    for f, y in ((cr, x), (T.mul(cr, cr), x * x)):
        for g, z in ((f, y), (T.neg(f), -y)):
            n = T.num(T.sub(t, g))
            if n is not None:
                return z + n
    if T.op(t) == 'abs':
        return abs(value(T.args(t)[0], cr, x))
    k = T.rev[t]
    if k[0] == 'p':
        tot = 0
        for m, c in k[1]:
            y = c
            for a, e in m:
                y *= value(a, cr, x) ** e
            tot += y
        return tot
    raise Vague(t)


class Log:
    always = True

    def __init__(self):
        self.comps = []            # (node, refs of the list, element, state)
        self.fits = []             # (node, points, state)
        self.ends = []             # (node, lk, state)
        self.kept = []             # (node, refs of the list, element)
        self.lost = []
        self.reads = []            # (node, index)
        self.breaks = []
        self.made = None

    def on_comp(self, eng, st, node, target, elem):
        if not eng.quiet and elem is not None:
            self.comps.append((node, refs(target), elem, st.copy()))

    def on_grown(self, eng, st, node, target, by, elem, rhs, op, exact=None):
        if elem is not None and op in ('append', 'insert'):
            if refs(elem) & {'in:fitted'}:
                st.marks.pop('P!got', None)
                if not eng.quiet:
                    self.kept.append((node, refs(target), elem))
            elif not eng.quiet:
                self.comps.append((node, refs(target), elem, st.copy()))

    def on_backedge(self, eng, st, node, lk):
        if not eng.quiet:
            self.ends.append((node, lk, st.copy(), 'P!fit' in st.marks))
            if 'P!got' in st.marks:
                self.lost.append(node)
        st.marks.pop('P!got', None)
        st.marks.pop('P!fit', None)

    def on_loopbreak(self, eng, st, node, lk, enters=None, **kw):
        if not eng.quiet:
            self.breaks.append((node, lk, st.copy()))


def check_apses(rep, tier):
    rep.rule('angle', 'an angle of the outer contour counts as gentle exactly if the cross product of the unit vectors of the two edges that meet there is less than 0.5 in size')
    rep.rule('run', 'a run is found as six or more gentle angles in a row, as long as possible')
    rep.rule('around', 'runs are looked for in the angles repeated twice, so that a run across the start of the contour is whole')
    rep.rule('each', 'every run that starts in the first round is fitted; only runs that start in the second are passed over')
    rep.rule('own', 'the circle is fitted through the vertices at the angles of its run, from its first to its last')
    rep.rule('centre', 'the centre of every circle found is kept and returned')
    rep.rule('round', 'a contour that has only gentle angles has no apse')
    rep.rule('outer', 'apses are looked for in the outer contour')
    eng = new_engine(rep, [], tier)
    st = eng.initial_state([MOD, EUC])
    try:
        fn = eng.find_fn(MOD, 'detectApses')
    except AnalysisBroken:
        fn = None
    fit = [f for f in eng.prog.fns.values() if f.qual.split('.')[-1] == 'fitCircle3Points']
    if fn is None or len(fn.node.args.args) != 1 or len(fit) != 1 or len(fit[0].node.args.args) != 1:
        rep.und('run', None, 'the function that detects apses, or the one that fits a circle, is not found under its name and parameters')
        return
    cs = edge_contours(eng, st)
    contour = V(CON, st.heap[next(iter(refs(cs)))].elem.kinds, None)
    log = Log()
    arg = fit[0].node.args.args[0].arg

    def stub(e, s, n, env):
        p = env.get(arg)
        if not e.quiet:
            log.fits.append((n, p, s.copy()))
        a, b = s.copy(), s.copy()
        a.marks['P!fit'] = b.marks['P!fit'] = True
        b.marks['P!got'] = True
        c = invec(b, 'fitted', 2)
        return [(a, V(T.NONE, frozenset([('none', 'fit')]), W0)), (b, e.new_list(b, n, items=[c, innum('radius')], kind='tuple', tag='fit'))]
    eng.stubs[fit[0].fid] = stub
    eng.clients = [log]
    eng.exact_fns = frozenset([fn.fid])
    res = eng.call_fn(st, fn.node, fn, [contour], {}, '')
    rep.absorb(eng)
    rep.entries.append(fn.qual)
    if not log.fits:
        rep.und('each', fn.node, 'no circle is fitted under the name fitCircle3Points')
        return
    rep.count('fits', len({id(f[0]) for f in log.fits}))
    ret = set()
    for s, v in res:
        ret |= refs(v)
    kept(rep, log, ret)
    gentle, chars, vertex = angles(rep, fn, log)
    run = runs(rep, fn, log, gentle, chars)
    if run is not None:
        each(rep, log, run, chars)
        own(rep, log, run, vertex, chars)
    whole(rep, log, gentle, chars)
    asked(rep, tier)
    rep.require('fits')


def asked(rep, tier):
    """the contour apses are looked for in"""
    from .c_clust import start, skeleton_of
    s = start(rep, tier, 'findClusters')
    if s is None or len(s[2].node.args.args) != 5:
        rep.und('outer', None, 'the function that looks for clusters is not found under its name and parameters')
        return
    eng, st, fn, _ = s
    calls = []
    f = eng.find_fn(MOD, 'detectApses')

    def stub(e, x, n, env):
        v = env.get(f.node.args.args[0].arg)
        if v is not None and not e.quiet:
            calls.append((n, strip(v.term)))
        x = x.copy()
        return [(x, mkobj(x, 'centers', 'list', elem=invec(x, 'center', 2)))]
    eng.stubs[f.fid] = stub
    cand = mkobj(st, 'candidates', 'list', elem=innum('candidate'))
    cv = mkobj(st, 'contourVertices', 'list', elem=invec(st, 'contourVertex', 2))
    eng.call_fn(st, fn.node, fn, [skeleton_of(eng, st), cand, cv, edge_contours(eng, st), innum('thresh')], {}, '')
    if not calls:
        rep.und('outer', fn.node, 'the place where apses are looked for was not found')
    for n, t in calls:
        k = T.num(T.args(t)[1]) if T.op(t) == 'idx' and T.args(t)[0] == T.atom('in', 'edgeContours') else None
        rep.decide(None if k is None else k == 0, 'outer', n, 'apses are looked for in the outer contour', show(t)[:120])


def kept(rep, log, ret):
    node = log.fits[0][0]
    good = [k for k in log.kept if k[1] & ret]
    if log.lost:
        # a path on which a circle was found and nothing was appended
        rep.decide(False if log.kept else None, 'centre', log.lost[0], 'the centre of a circle that was found is kept')
        return
    if not good:
        rep.und('centre', node, 'the place where a centre is kept was not found')
        return
    for n, r, e in good:
        rep.ok('centre', n, 'the centre of the circle is kept')


def angles(rep, fn, log):
    """-> letter of gentle angles, the lists they are put in, the vertex of letter 0 (0: first vertex of edge 0)"""
    lists = {}
    for n, r, e, s in log.comps:
        c = letter(strip(e.term))
        if c:
            lists.setdefault(frozenset(r), []).append((n, c, s))
    lists = {r: v for r, v in lists.items() if len({c for _, c, _ in v}) == 2}
    if len(lists) != 1:
        rep.und('angle', fn.node, 'the letters of the angles', 'no list of two letters was found')
        return None, frozenset(), None
    (chars, put), = lists.items()
    node = put[0][0]
    norms, conds = set(), []
    for n, c, s in put:
        fs = []
        for f, val in s.facts.items():
            if f[0] not in ('lt', 'eq', 'truth') or len(f) != 2 or not isinstance(f[1], int):
                continue
            t = strip(f[1])
            at = {norm_at(x) for x in T.find(t, lambda y: norm_at(y) is not None)}
            if at or T.find(t, lambda y: T.op(y) in ('sel', 'c', 'sqrt')):
                fs.append((f[0], t, val))
                norms |= at
        conds.append((n, c, fs))
    idx = sorted({i for i, _ in norms})
    rep.count('angle conditions', sum(len(x[2]) for x in conds))
    if len(idx) != 2:
        ks = {a for i in idx for a in T.find(i, lambda y: T.op(y) == 'k')}
        rep.decide(False if len(idx) == 1 and len(ks) == 1 and all(offset(i, k) is not None for i in idx for k in ks) else None,
                   'angle', node, 'two edges that follow each other are compared', ', '.join(show(i)[:60] for i in idx))
        return None, chars, None
    ks = {a for i in idx for a in T.find(i, lambda y: T.op(y) == 'k')}
    offs = [offset(i, k) for k in ks for i in idx] if len(ks) == 1 else [None]
    if None in offs:
        rep.und('angle', node, 'two edges that follow each other are compared', ', '.join(show(i)[:60] for i in idx))
        return None, chars, None
    if abs(offs[0] - offs[1]) != 1:
        rep.bad('angle', node, 'the two edges compared do not follow each other', 'edges %d and %d' % tuple(sorted(offs)))
        return None, chars, None

    def comp(i, c):
        x = [T.atom('c', T.atom('sel', T.atom('idx', CON, i, T.ZERO), '.norm', T.ZERO), q, T.ZERO) for q in (c, int(c))]
        return x
    have = {norm_at(x): x for n, c, fs in conds for f, t, v in fs for x in T.find(t, lambda y: norm_at(y) is not None)}
    try:
        a0, a1, b0, b1 = have[(idx[0], '0')], have[(idx[0], '1')], have[(idx[1], '0')], have[(idx[1], '1')]
    except KeyError:
        rep.und('angle', node, 'the cross product of two unit vectors', 'not all components take part')
        return None, chars, None
    cr = T.sub(T.mul(a0, b1), T.mul(a1, b0))
    gentle = None
    sides = {}
    try:
        for x in (-1, -0.75, -0.51, -0.49, -0.25, 0, 0.25, 0.49, 0.51, 0.75, 1):
            for n, c, fs in conds:
                ok = True
                for k, t, val in fs:
                    y = value(t, cr, x)
                    if ((y < 0) if k == 'lt' else (abs(y) < 1e-12) if k == 'eq' else bool(y)) != val:
                        ok = False
                if ok:
                    sides.setdefault(x, set()).add(c)
    except Vague as v:
        t = v.args[0]
        # exact, of these two unit vectors only, and yet no function of their cross product
        dot = T.add(T.mul(a0, b0), T.mul(a1, b1))
        wrong = False
        try:
            for n, c, fs in conds:
                for k, u, val in fs:
                    value(u, dot, 0.3)
            wrong = True
        except Vague:
            pass
        rep.decide(False if wrong else None, 'angle', node, 'the angle is judged by the cross product of the unit vectors', show(t)[:200])
        return None, chars, None
    if any(len(v) != 1 for v in sides.values()) or len(sides) != 11:
        rep.und('angle', node, 'the letter of an angle', str(sides)[:200])
        return None, chars, None
    gentle = next(iter(sides[0]))
    wrong = [x for x, v in sides.items() if (gentle in v) != (abs(x) < LOW)]
    rep.decide(not wrong, 'angle', node, 'an angle is gentle exactly if the cross product is less than 0.5 in size',
               'wrong for a cross product of %s' % ', '.join('%g' % x for x in wrong[:4]))
    return gentle, chars, max(offs)


def chars_str(t, chars, comps):
    """'' joined from the letters themselves"""
    if T.op(t) != 'str':
        return False
    return any(T.op(a) == 'obj' and any(str(T.args(a)[0]) in str(r) or str(r) in str(T.args(a)[0]) for r in chars)
               for a in T.args(t) if isinstance(a, int) and not isinstance(a, bool))


def sub_terms(t):
    return [a for a in T.args(t) if isinstance(a, int) and not isinstance(a, bool)]


def find_atoms(t, op):
    return T.find(t, lambda y: T.op(y) == op)


def runs(rep, fn, log, gentle, chars):
    """the search for runs -> predicate telling the terms that are a run"""
    found = None
    lists = {}
    for n, r, e, s in log.comps:
        t = strip(e.term)
        for m in find_atoms(t, 'm'):
            if T.args(m)[0] == 'finditer' and T.op(t) in ('gen', 'idx', 'elemof'):
                found = (n, m)
                for x in r:
                    lists[x] = m
    if found is None:
        for n, p, s in log.fits:
            for f in s.facts:
                if len(f) == 2 and isinstance(f[1], int):
                    for m in find_atoms(strip(f[1]), 'm'):
                        if T.args(m)[0] == 'finditer':
                            found = (n, m)
    if found is None:
        rep.und('run', fn.node, 'the search for runs', 'no search for a pattern was found')
        return None
    node, m = found
    a = T.args(m)[1:]
    pat = [show(x) for x in a]
    pat = next((show(y) for x in a for y in ([x] + (sub_terms(x) if T.op(x) == 're' else [])) if isinstance(y, int) and show(y)[:1] == "'" and show(y)[-1:] == "'"), None)
    flags = any(T.op(x) == 're' and len(T.args(x)) > 2 for x in a) or len(a) > 2
    if pat is None or flags:
        rep.und('run', node, 'the pattern of a run is a constant')
    else:
        pattern(rep, node, pat[1:-1], gentle)
    subj = a[-1] if len(a) > 1 else None
    if subj is None:
        rep.und('around', node, 'what is searched')
    else:
        around(rep, node, subj)
    rep.count('searches')

    def is_run(t):
        return any(T.args(x)[0] == 'finditer' for x in find_atoms(t, 'm')) or \
            any(str(r) in str(T.args(o)[0]) or str(T.args(o)[0]) in str(r) for o in find_atoms(t, 'obj') for r in lists)
    return is_run


def pattern(rep, node, pat, gentle):
    try:
        tree = rx.parse(pat)
    except Exception:
        rep.und('run', node, 'the pattern of a run', pat)
        return
    lo, hi, lazy, ls, other = 0, 0, False, set(), False

    def walk(items, mul):
        nonlocal lo, hi, lazy, other
        for op, arg in items:
            o = str(op)
            if o == 'LITERAL':
                ls.add(chr(arg))
                lo += mul[0]
                hi += mul[1]
            elif o in ('MAX_REPEAT', 'POSSESSIVE_REPEAT', 'MIN_REPEAT'):
                lazy = lazy or o == 'MIN_REPEAT'
                a, b, sub = arg
                b = float('inf') if b is rx.MAXREPEAT else b
                walk(sub, (mul[0] * a, mul[1] * b))
            elif o == 'SUBPATTERN':
                if arg[1] or arg[2]:
                    other = True
                walk(arg[3], mul)
            elif o in ('IN',) and len(arg) == 1 and str(arg[0][0]) == 'LITERAL':
                walk(arg, mul)
            else:
                other = True
    walk(list(tree), (1, 1))
    if other or gentle is None:
        rep.und('run', node, 'the pattern of a run', pat)
        return
    rep.decide(ls == {gentle}, 'run', node, 'a run consists of gentle angles', pat)
    rep.decide(lo == LEAST, 'run', node, 'a run has six or more angles', '%s: %d' % (pat, lo))
    rep.decide(not lazy and hi == float('inf'), 'run', node, 'a run is taken as long as it is', pat)


def around(rep, node, t):
    """the text searched is the letters, twice"""
    a = T.args(t)
    parts = [x for x in sub_terms(t) if T.op(x) == 'str']
    if T.op(t) == 'str' and a and a[0] in ('Add', 'Mult'):
        if a[0] == 'Add' and len(parts) == 2 and parts[0] == parts[1] and T.args(parts[0])[0] not in ('Add', 'Mult'):
            rep.ok('around', node, 'the angles are searched twice around')
        elif a[0] == 'Mult' and len(parts) == 1 and any(T.num(x) == 2 for x in sub_terms(t)):
            rep.ok('around', node, 'the angles are searched twice around')
        else:
            rep.und('around', node, 'the angles are searched twice around', show(t)[:160])
    elif T.op(t) == 'str' and not parts and find_atoms(t, 'obj'):
        rep.bad('around', node, 'the angles are searched once, which cuts a run across the start of the contour', show(t)[:160])
    else:
        rep.und('around', node, 'the angles are searched twice around', show(t)[:160])


def bound(t, run, which):
    """the first position of a run (which = 0), the one behind its last (1)"""
    k = T.op(t)
    if k == 'm' and T.args(t)[0] == ('start', 'end')[which]:
        return run(t)
    if k == 'idx' and T.num(T.args(t)[1]) == which and T.op(T.args(t)[0]) == 'm' and T.args(T.args(t)[0])[0] == 'span':
        return run(T.args(t)[0])
    return False


def is_length(a):
    return T.op(a) in ('lenof', 'lenin', 'len?')


def start_facts(s, run):
    """conditions on the first position of the run -> ([(kind, term, value)] in it and the number of angles only, one that is not)"""
    out, vague = [], None
    for f, val in s.facts.items():
        if len(f) != 2 or not isinstance(f[1], int):
            continue
        t = strip(f[1])
        if not T.find(t, lambda y: T.op(y) == 'm' and run(y)):
            continue
        try:
            number(t, run, 1, 12)
            if f[0] not in ('lt', 'eq', 'truth'):
                raise Vague(t)
            out.append((f[0], t, val))
        except Vague:
            vague = vague or t
    return out, vague


def number(t, run, s, n):
    """value of a term for a run that starts at s in a contour of n angles"""
    c = T.num(t)
    if c is not None:
        return c
    if bound(t, run, 0):
        return s
    if is_length(t) and not T.find(t, lambda y: T.op(y) == 'm'):
        return n
    k = T.rev[t]
    if k[0] == 'p':
        tot = 0
        for m, c in k[1]:
            y = c
            for a, e in m:
                y *= number(a, run, s, n) ** e
            tot += y
        return tot
    if T.op(t) in ('//', 'mod'):
        a, b = [number(x, run, s, n) for x in T.args(t)[:2]]
        if b:
            return a // b if T.op(t) == '//' else a % b
    raise Vague(t)


def first_round(facts, run):
    """a run of the first round that meets the conditions: (start, number of angles), or None"""
    for n in (12, 13, 24):
        for s in range(n):
            if all({'lt': lambda v: v < 0, 'eq': lambda v: v == 0, 'truth': bool}[k](number(t, run, s, n)) == val for k, t, val in facts):
                return s, n
    return None


def each(rep, log, run, chars):
    mine = set()
    for n, p, s in log.fits:
        for f in s.facts:
            if len(f) == 2 and isinstance(f[1], int):
                t = strip(f[1])
                for m in T.find(t, lambda y: T.op(y) == 'm' and run(y)):
                    mine |= {T.args(k)[0] for k in find_atoms(m, 'k')}
    ends = [e for e in log.ends if e[1] in mine]
    node = log.fits[0][0]
    if not ends:
        rep.und('each', node, 'the loop over the runs was not found')
        return

    def judge(n, s, what):
        facts, vague = start_facts(s, run)
        hit = first_round(facts, run)
        rep.decide(True if hit is None else None if vague is not None else False, 'each', n, what,
                   '' if hit is None else show(vague)[:160] if vague is not None else 'also at %d of %d angles' % hit)
    for n, lk, s in log.breaks:
        if lk in mine:
            judge(n, s, 'the search is left only at a run of the second round')
    for n, lk, s, fitted in ends:
        rep.count('rounds of the loop over the runs')
        if fitted:
            rep.ok('each', n, 'a run is fitted')
        else:
            judge(n, s, 'a run that is passed over starts in the second round')


def elements(log, t):
    """elements put into the list a term stands for -> [(node, element term, state)]"""
    out = []
    for n, r, e, s in log.comps:
        for o in find_atoms(t, 'obj'):
            if any(str(x) in str(T.args(o)[0]) or str(T.args(o)[0]) in str(x) for x in r):
                out.append((n, strip(e.term), s))
    return out


def own(rep, log, run, vertex, chars):
    for n, p, s in log.fits:
        pts = [c for c in log.comps if c[1] & refs(p)]
        if not pts:
            rep.und('own', n, 'the points the circle is fitted through', show(p.term)[:120])
            continue
        for pn, r, e, ps in pts:
            t = strip(e.term)
            if T.op(t) != 'sel' or T.args(t)[1] not in ('.p1', '.p2') or T.op(T.args(t)[0]) != 'idx' or T.args(T.args(t)[0])[0] != CON:
                rep.und('own', pn, 'a vertex of the run', show(t)[:160])
                continue
            end = 1 if T.args(t)[1] == '.p2' else 0
            i = T.args(T.args(t)[0])[1]
            todo = [(pn, i, ps)]
            if T.op(i) == 'idx' and T.op(T.args(i)[0]) == 'obj':
                todo = elements(log, T.args(i)[0])
                if not todo or any(g.ifs for g in pn.generators if isinstance(pn, (ast.ListComp, ast.GeneratorExp))):
                    rep.und('own', pn, 'the positions of the run', show(i)[:160])
                    continue
            elif isinstance(pn, (ast.ListComp, ast.GeneratorExp)) and any(g.ifs for g in pn.generators):
                rep.und('own', pn, 'every vertex of the run takes part')
                continue
            for jn, j, js in todo:
                position(rep, jn, j, js, run, vertex, end)


def position(rep, node, j, s, run, vertex, end):
    rep.count('positions')
    wrapped = T.op(j) == 'mod'
    if wrapped:
        d = T.args(j)[1]
        q = T.poly(d)
        if not (len(q) == 1 and list(q.values()) == [1] and all(len(m) == 1 and is_length(m[0][0]) for m in q)):
            rep.decide(False if all(m == () or (len(m) == 1 and is_length(m[0][0])) for m in q) else None, 'own', node,
                       'the positions go round at the number of angles', show(d)[:100])
            return
        j = T.args(j)[0]
    k, off, seen, turn = None, 0, False, 0
    for m, c in T.poly(j).items():
        if m == ():
            off = c
        elif len(m) == 1 and m[0][1] == 1 and bound(m[0][0], run, 0) and c == 1:
            seen = True
        elif len(m) == 1 and m[0][1] == 1 and T.op(m[0][0]) == 'k' and c == 1 and k is None:
            k = m[0][0]
        elif len(m) == 1 and m[0][1] == 1 and is_length(m[0][0]) and c == -1:
            turn = -1
        else:
            rep.und('own', node, 'a position of the run', show(j)[:160])
            return
    if not seen or k is None:
        rep.und('own', node, 'a position of the run', show(j)[:160])
        return
    if vertex is None:
        rep.und('own', node, 'the vertex at a gentle angle')
    else:
        rep.decide(off + end == vertex, 'own', node, 'the vertex is the one at the angle', 'vertex %+d of the angle' % (off + end - vertex))
    if not wrapped and turn == 0:
        lim = [f for f in s.facts if len(f) == 2 and isinstance(f[1], int) and T.find(f[1], is_length) and T.find(f[1], lambda y: y == k)]
        rep.decide(None if lim else False, 'own', node, 'a position beyond the end of the contour goes on at its start')
    else:
        rep.ok('own', node, 'a position beyond the end of the contour goes on at its start')
    # the range: k < end - start
    got = None
    for f, val in s.facts.items():
        if f[0] == 'lt' and len(f) == 2 and val and isinstance(f[1], int):
            q = dict(T.poly(strip(f[1])))
            c = q.pop((), 0)
            if len(q) == 3 and q.get(((k, 1),)) == 1 and any(v == 1 and len(m) == 1 and bound(m[0][0], run, 0) for m, v in q.items()) and \
                    any(v == -1 and len(m) == 1 and bound(m[0][0], run, 1) for m, v in q.items()):
                got = c
    if got is None:
        rep.und('own', node, 'the positions are those of the run, from its first to its last')
    else:
        rep.decide(got == 0 and (off == 0 or off + end == vertex), 'own', node, 'the positions are those of the run, from its first to its last', 'last position %+d' % -got)


def whole(rep, log, gentle, chars):
    for n, p, s in log.fits:
        rel, vague = [], None
        for f, val in s.facts.items():
            if len(f) != 2 or not isinstance(f[1], int):
                continue
            t = strip(f[1])
            if T.op(t) in ('allof?', 'anyof?'):
                es = elements(log, t)
                ls = set()
                neg = False
                for _, e, _ in es:
                    if T.op(e) == 'not':
                        neg, e = True, T.args(e)[0]
                    if T.op(e) == 'same':
                        ls |= {letter(x) for x in sub_terms(e) if letter(x)}
                if len(ls) == 1 and not neg and len(es) == 1:
                    rel.append((T.op(t), next(iter(ls)), val))
                else:
                    vague = vague or t
            elif T.find(t, lambda y: T.op(y) in ('str', 'obj')) and f[0] in ('truth', 'eq', 'lt', 'same', 'in') and \
                    not T.find(t, lambda y: T.op(y) in ('m', 'k')) and T.op(t) != 'obj' and not (set(find_atoms(t, 'len?')) and not find_atoms(t, 'str')):
                if not only_length(t):
                    vague = vague or t
        if gentle is None:
            rep.und('round', n, 'a contour of gentle angles only')
            continue
        good = [r for r in rel if r == ('allof?', gentle, False) or (r[0] == 'anyof?' and r[1] != gentle and r[2])]
        wrong = [r for r in rel if r == ('anyof?', gentle, False) or (r[0] == 'allof?' and r[1] != gentle) or r == ('allof?', gentle, True)]
        if wrong:
            rep.bad('round', n, 'the contours that are passed over are not those of gentle angles only', str(wrong[0]))
        elif good:
            rep.ok('round', n, 'no circle is fitted if all angles are gentle')
        elif vague is not None or rel or any(len(f) != 2 for f in s.facts):
            rep.und('round', n, 'no circle is fitted if all angles are gentle', show(vague)[:160] if vague is not None else str(rel)[:100])
        else:
            rep.bad('round', n, 'a circle is fitted even if all angles are gentle')


def only_length(t):
    """the letters take part by their number only"""
    return not T.find(t, lambda y: T.op(y) == 'str' and y != t) or all(T.op(a) in ('lenof', 'len?', 'lenin') or T.num(a) is not None for m in T.poly(t) for a, _ in m)
