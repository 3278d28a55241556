"""Crash-safety rules: optional values, divisions, names, collections under traversal."""
import ast
import builtins
import sys

from .program import AnalysisBroken, where, loc
from .entry import MOD
from .state import T
from .base import refs, resolved, show
from .c_poly import poly_run, skel_run, geo_run, program, new_engine


def const_nodes():
    ids = {}
    for m in program().modules.values():
        for n in ast.walk(m.tree):
            if hasattr(n, '_id'):
                ids['n%d' % n._id] = n
    return ids


class NoneUse:
    def __init__(self, rep):
        self.rep = rep
        self.ids = const_nodes()
        self.returned = set()
        self.uses = []

    def on_return(self, eng, st, node, fn, value, env):
        self.collect(st, value, 0)

    def collect(self, st, v, d):
        for k in v.kinds:
            if k[0] == 'none' and k[1]:
                self.returned.add(k[1])
            if k[0] == 'ref' and d < 2:
                o = st.heap.get(k[1])
                if o is not None and o.kind == 'tuple' and o.items is not None:
                    for i in o.items:
                        self.collect(st, i, d + 1)

    def on_noneuse(self, eng, st, node, value, what, **kw):
        if not eng.fstack:
            return
        labels = {k[1] for k in value.kinds if k[0] == 'none'}
        definite = all(k[0] == 'none' for k in value.kinds)
        empty = any((f[0] == 'eq' and v is True and T.any_op(f[1], {'lenof', 'lenin', 'len?', 'phi'}) and T.num(f[1]) is None)
                    for f, v in st.facts.items())
        t = value.term
        if not empty and T.op(t) == 'phi':
            # something is known about another variable that got its value where this one did
            empty = any(f[0] in ('isnone', 'truth', 'eq', 'lt') and isinstance(f[1], int) and
                        T.find(f[1], lambda x: x != t and T.op(x) == 'phi' and T.args(x)[0] == T.args(t)[0])
                        for f, v in st.facts.items())
        self.uses.append((node, labels, definite, empty, what, eng.stack(), value.term))

    def settle(self):
        rep = self.rep
        badl = set()
        self.settle_uses(badl)
        for l in self.returned - badl:
            n = self.ids.get(l)
            rep.count('functions results that may be None')
            if n is not None:
                rep.ok('none-guarded', n, 'the None that arises here and is returned reaches no unguarded use')

    def settle_uses(self, badl):
        rep = self.rep
        for node, labels, definite, empty, what, stack, term in self.uses:
            rep.count('uses of possibly missing values')
            src = {l: self.ids.get(l) for l in labels}
            strong = [l for l in labels if l == 'in' or l in self.returned or
                      (src.get(l) is not None and isinstance(src[l], ast.Call))]
            origin = ', '.join('%s' % (loc(src[l]) if src.get(l) is not None else 'parameter default' if l == 'in' else l or 'attribute')
                               for l in sorted(labels))
            txt = 'a value that may be None is used (%s)' % what
            badl |= labels
            if definite and labels - {''}:
                rep.bad('none-guarded', node, txt, 'None from %s; call path %s' % (origin, ' > '.join(stack)))
            elif strong and '' not in labels:
                rep.bad('none-guarded', node, txt, 'None from %s; call path %s' % (origin, ' > '.join(stack)))
            elif '' in labels or empty:
                rep.und('none-guarded', node, txt, 'None from %s' % origin)
            else:
                rep.bad('none-guarded', node, txt, 'None from %s; call path %s' % (origin, ' > '.join(stack)))


class Accesses:
    """what was looked at: attribute reads, subscripts and calls in the functions visited"""

    def __init__(self, rep):
        self.rep = rep

    def done(self, eng):
        n = 0
        for f in eng.visited_fns:
            n += sum(isinstance(x, (ast.Attribute, ast.Subscript, ast.Call, ast.BinOp)) for x in ast.walk(eng.prog.fns[f].node))
        self.rep.count('expressions that need a value', n)


def check_none(rep, tier):
    rep.rule('none-guarded', 'a value that may be None (result of a function with a None return, an omitted argument, a search that '
             'failed) is tested on the path before it is read from, iterated, called or used in arithmetic')
    a = Accesses(rep)
    for kind in ('poly', 'skel'):
        c = NoneUse(rep)
        eng, res = poly_run(rep, c, tier, stub=False) if kind == 'poly' else skel_run(rep, c, tier)
        a.done(eng)
        c.settle()
    for spec in ({'unitVectors': 'none', 'holesInfo': 'none', 'faces': 'none'}, {'unitVectors': 'none', 'holesInfo': 'full'},
                 {'unitVectors': 'full', 'holesInfo': 'none'}):
        c = NoneUse(rep)
        poly_run(rep, c, tier, **spec)
        c.settle()
    rep.assumptions.append('links between wavefront vertices (stored attributes initialised to None) are set before use: undecided, listed')
    rep.require('expressions that need a value', 200)


# ------------------------------------------------------------------ divisions
COUNT = {'lenof', 'lenin', 'len?', 'k', 'count', 'sum1'}


def is_count(t):
    """built from collection sizes only"""
    k = T.rev[t]
    if k[0] == 'c':
        return True
    if k[0] == 'p':
        return all(is_count(a) for m, c in k[1] for a, e in m)
    if k[0] == 'a':
        return k[1] in COUNT or t in (T.atom('in', 'numVerts'), T.atom('in', 'holeNum')) or \
            (k[1] == 'phi' and ':len' in str(k[2:])) or k[1] == 'vers'
    return False


def edge_lengths(t):
    """a length, or a sum of squared lengths, of footprint edges"""
    if T.op(t) == 'sqrt':
        return edge_lengths(T.args(t)[0])
    ps = T.poly(t)
    if len(ps) == 1:
        (m, c), = ps.items()
        if m and all(T.op(a) == 'sqrt' for a, e in m):
            return all(edge_lengths(a) for a, e in m)
    edges = set()
    for m, c in ps.items():
        for a, e in m:
            if T.op(a) != 'c':
                return False
            b = T.args(a)[0]
            if not (T.op(b) == 'sel' and T.args(b)[1] in ('.p1', '.p2')):
                return False
            edges.add(tuple(T.args(b)[::2]))
    rest = t
    for e in edges:
        ends = [T.find(t, lambda x: T.op(x) == 'c' and T.op(T.args(x)[0]) == 'sel' and T.args(T.args(x)[0])[::2] == e
                       and T.args(T.args(x)[0])[1] == end) for end in ('.p1', '.p2')]
        ax = [{T.args(x)[1]: x for x in l} for l in ends]
        if len(ax[0]) != 2 or set(ax[0]) != set(ax[1]) or len(ends[0]) != 2 or len(ends[1]) != 2:
            return False
        q = T.ZERO
        for i in ax[0]:
            d = T.sub(ax[0][i], ax[1][i])
            q = T.add(q, T.mul(d, d))
        x = ax[0][min(ax[0])]
        k = ps.get(((x, 2),), 0)
        if k <= 0:
            return False
        rest = T.sub(rest, T.mul(T.const(k), q))
    return bool(edges) and rest == T.ZERO


def largest_height(t):
    """the largest node height, possibly scaled or with something added that is not negative"""
    ps = T.poly(t)
    have = [c for m, c in ps.items() if any(T.op(a) == 'maxover' and e > 0 for a, e in m)]
    return bool(have) and all(c > 0 for c in ps.values())


class Divisions:
    def __init__(self, rep):
        self.rep = rep

    def on_div(self, eng, st, node, divisor, known, caught):
        if not eng.fstack:
            return
        rep = self.rep
        rep.count('divisions')
        t = divisor.term
        if known:
            rep.ok('nonzero-divisor', node, 'divisor known to be non-zero on every path')
        elif caught:
            rep.ok('nonzero-divisor', node, 'the division is inside a handler for it')
        elif is_count(t):
            rep.und('nonzero-divisor', node, 'divisor is a collection size')
        elif largest_height(t) or T.op(t) in ('max', 'phi') and T.find(t, lambda x: T.op(x) == 'maxover'):
            rep.und('nonzero-divisor', node, 'divisor is the largest node height')
        elif edge_lengths(t):
            rep.und('nonzero-divisor', node, 'divisor is made of footprint edge lengths')
        elif any(k[0] in ('unk',) for k in divisor.kinds) or T.op(t) in ('unk', 'any'):
            rep.und('nonzero-divisor', node, 'divisor not modelled')
        else:
            rep.bad('nonzero-divisor', node, 'divides by a value computed from coordinates that may be zero', 'divisor %s; call path %s'
                    % (show(t)[:160], ' > '.join(eng.stack())))


def check_div(rep, tier):
    rep.rule('nonzero-divisor', 'at every division the divisor is known to be non-zero from the path (a dominating test of an equal value), '
             'from the operations that built it, or the division is inside a handler; accepted without proof: collection sizes, the '
             'largest node height, footprint edge lengths')
    c = Divisions(rep)
    poly_run(rep, c, tier, stub=False)
    skel_run(rep, c, tier)
    poly_run(rep, c, tier, height='nonzero', unitVectors='none')
    from .entry import skeleton_of
    geo_run(rep, c, 'checkEdgeCrossing', lambda eng, st: [skeleton_of(eng, st)])
    rep.require('divisions', 10)


# ------------------------------------------------------------------ traversal
class Traversal:
    def __init__(self, rep):
        self.rep = rep

    def on_loopback(self, eng, st, node, lk, test):
        if eng.fstack:
            self.rep.count('loop bodies')
            if 'D:' + lk not in st.marks:
                self.rep.ok('stable-traversal', node if isinstance(node, ast.stmt) else node, 'what is traversed is not changed in the body')

    def on_iterdirty(self, eng, st, node, lk, where):
        if eng.fstack:
            self.rep.bad('stable-traversal', node, 'the loop goes on over a collection its body has changed',
                         'changed at %s; call path %s' % (where, ' > '.join(eng.stack())))


def check_traversal(rep, tier):
    rep.rule('stable-traversal', 'no path through a loop body changes the size of the collection the loop traverses (directly, through an '
             'alias, or through the collection a pair generator was made from) and then comes back to the loop head')
    c = Traversal(rep)
    poly_run(rep, c, tier, stub=False)
    skel_run(rep, c, tier)
    poly_run(rep, c, tier)
    rep.require('loop bodies', 20)


# ------------------------------------------------------------------ names
def enclosing(n, stop):
    out = []
    while n is not None and n is not stop:
        p = getattr(n, '_p', None)
        out.append((p, n))
        n = p
    return out


def related(fn, tests, name):
    """names the tests depend on, through the assignments and loops of the function"""
    dep = {}
    for w in ast.walk(fn):
        tgt, src = (), ()
        if isinstance(w, ast.Assign):
            tgt, src = w.targets, [w.value]
        elif isinstance(w, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt, src = [w.target], [w.value] if w.value is not None else []
        elif isinstance(w, (ast.For, ast.comprehension)):
            tgt, src = [w.target], [w.iter]
        elif isinstance(w, ast.Call) and isinstance(w.func, ast.Attribute):
            tgt, src = [w.func.value], w.args
        ns = {x.id for e in src for x in ast.walk(e) if isinstance(x, ast.Name)}
        ts = {x.id for e in tgt for x in ast.walk(e) if isinstance(x, ast.Name)}
        # decided under a test: depends on the test as well
        p = w
        while src and p is not None and p is not fn:
            q = getattr(p, '_p', None)
            if isinstance(q, (ast.If, ast.While, ast.IfExp)) and q.test is not p:
                ns |= {x.id for x in ast.walk(q.test) if isinstance(x, ast.Name)}
            p = q
        for x in ts:
            dep.setdefault(x, set()).update(ns)
    import builtins as b
    out = set()
    work = [x.id for t in tests for x in ast.walk(t) if isinstance(x, ast.Name)]
    while work:
        x = work.pop()
        if x in out or x == name or hasattr(b, x):
            continue
        out.add(x)
        work += dep.get(x, ())
    return out


def passes_by(node, name):
    """the name is only bound inside an if-branch, and control comes from the end of that if-statement to the use without another
    decision in between: a path on which the branch is not taken uses the unbound name"""
    fn = node
    while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        if isinstance(fn, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
        fn = getattr(fn, '_p', None)
    if fn is None or name in [a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs]:
        return False
    binds = [w for w in ast.walk(fn) if isinstance(w, ast.Name) and w.id == name and isinstance(w.ctx, ast.Store)]
    if not binds or any(isinstance(w, (ast.Global, ast.Nonlocal)) and name in w.names for w in ast.walk(fn)):
        return False
    if any(isinstance(w, (ast.FunctionDef, ast.ClassDef)) and w.name == name or isinstance(w, ast.alias) and (w.asname or w.name) == name or
           isinstance(w, ast.ExceptHandler) and w.name == name for w in ast.walk(fn)):
        return False
    up = [p for p, _ in enclosing(node, fn)]
    guard = None
    for b in binds:
        if not isinstance(getattr(b, '_p', None), (ast.Assign, ast.AugAssign)):
            return False
        chain = [p for p, _ in enclosing(b, fn) if isinstance(p, ast.stmt) and p is not fn][1:]
        chain = [p for p in chain if p not in up]
        if not chain or not all(isinstance(p, ast.If) for p in chain):
            return False
        if guard is not None and chain[-1] is not guard:
            return False
        guard = chain[-1]
    # a branch that binds nothing falls through
    def falls(body):
        """control can come out of the body with the name unbound and no decision taken but by the if-statements that bind"""
        for s in body:
            if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                return False
            if s in owners:
                return isinstance(s, ast.If) and (falls(s.body) or falls(s.orelse))
            if any(isinstance(w, (ast.Return, ast.Raise, ast.Continue, ast.Break, ast.Try)) for w in ast.walk(s)):
                return False
        return True
    owners = set()
    for b in binds:
        owners.update(p for p, _ in enclosing(b, fn) if isinstance(p, ast.stmt))
    if not falls([guard]):
        return False
    # from the if-statement straight to the use
    parent = guard._p
    if parent not in up:
        return False
    body = next((getattr(parent, f) for f in ('body', 'orelse', 'finalbody') if guard in (getattr(parent, f, None) or [])), None)
    if body is None:
        return False
    for s in body[body.index(guard) + 1:]:
        if s in up:
            for p, c in enclosing(node, s) + []:
                tests = ()
                if isinstance(p, (ast.Try, ast.ExceptHandler, ast.Match)):
                    return False
                if isinstance(p, (ast.If, ast.IfExp, ast.While)) and p.test is not c:
                    tests = (p.test,)
                if isinstance(p, ast.BoolOp) and p.values[0] is not c:
                    tests = p.values[:p.values.index(c)]
                if isinstance(p, ast.For) and p.iter is not c:
                    tests = (p.iter,)
                if tests and related(fn, [guard.test], name) & related(fn, tests, name):
                    return False
            tests = [s.test] if isinstance(s, (ast.If, ast.While)) else [s.iter] if isinstance(s, ast.For) else ()
            if tests and not any(w is node for w in ast.walk(tests[0])) and \
                    related(fn, [guard.test], name) & (related(fn, tests, name) | {name}):
                return False
            return not isinstance(s, (ast.Try, ast.Match))
        if any(isinstance(w, (ast.Return, ast.Raise, ast.Continue, ast.Break, ast.Try)) for w in ast.walk(s)):
            return False
    return False


def spec_count(fmt):
    """number of values a %-format takes; None if it names them or cannot be read"""
    import re
    n = 0
    i = 0
    rx = re.compile(r'%(\([^)]*\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')
    while True:
        i = fmt.find('%', i)
        if i < 0:
            return n
        m = rx.match(fmt, i)
        if m is None or m.group(1):
            return None
        if m.group(5) != '%':
            n += 1
        n += (m.group(2) == '*') + (m.group(4) == '*')
        i = m.end()


def scan_formats(rep, prog):
    """a literal format takes as many values as it is given"""
    tuples = {t.attr for m in prog.modules.values() for w in ast.walk(m.tree) if isinstance(w, ast.Assign)
              for t in w.targets if isinstance(t, ast.Attribute) and not isinstance(w.value, (ast.Constant, ast.Compare))}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                want = spec_count(n.left.value)
                rep.count('formats')
                r = n.right
                if want is None:
                    rep.und('format', n, 'format not read')
                elif isinstance(r, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in r.elts):
                    if len(r.elts) == want:
                        rep.ok('format', n, 'as many values as the format takes')
                    else:
                        rep.bad('format', n, 'the format takes %d values and is given %d' % (want, len(r.elts)))
                elif want > 1 and (isinstance(r, (ast.Constant, ast.JoinedStr)) or isinstance(r, ast.Attribute) and r.attr not in tuples):
                    rep.bad('format', n, 'the format takes %d values and is given one' % want)
                elif want == 1 and isinstance(r, (ast.Constant, ast.JoinedStr)):
                    rep.ok('format', n, 'as many values as the format takes')
                else:
                    rep.und('format', n, 'one operand, which may be a tuple')


class Names:
    def __init__(self, rep):
        self.rep = rep
        self.unb = {}
        self.bound = set()

    def on_unbound(self, eng, st, node, name, definite):
        self.unb.setdefault(node, []).append((name, definite, ' > '.join(eng.stack())))

    def on_boundread(self, eng, st, node, name):
        self.bound.add(node)

    def settle(self):
        for node, l in self.unb.items():
            name = l[0][0]
            if node not in self.bound and all(d for _, d, _ in l):
                self.rep.bad('bound', node, 'name %s is used before it is bound' % name, l[0][2])
            elif passes_by(node, name):
                self.rep.bad('bound', node, 'name %s is bound under a condition only and used whether or not the condition held' % name, l[0][2])
            else:
                self.rep.und('bound', node, 'name %s: bound on some paths only, paths not told apart' % name, l[0][2])

    def on_noattr(self, eng, st, node, cls, attr):
        self.rep.bad('attribute', node, 'attribute %s does not exist' % attr, ' > '.join(eng.stack()))

    def on_arity(self, eng, st, node, fn):
        self.rep.bad('arguments', node, 'call does not match the parameters of %s' % fn.qual, ' > '.join(eng.stack()))


def module_names(m, prog):
    """names bound at module level (anywhere in it), star imports of analysed modules included"""
    out = set()
    star_unknown = False

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def rec(body):
        nonlocal star_unknown
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(s.name)
                continue
            if isinstance(s, ast.Import):
                for a in s.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == '*':
                        tgt = (s.module or '').split('.')[-1]
                        hit = [x for n, x in prog.modules.items() if n.split('.')[-1] == tgt] if s.level else []
                        if hit:
                            o2, su = module_names(hit[0], prog)
                            out.update(o2)
                            star_unknown |= su
                        elif s.module == 'itertools':
                            import itertools
                            out.update(n for n in dir(itertools) if not n.startswith('_'))
                        elif s.module == 'math':
                            import math
                            out.update(n for n in dir(math) if not n.startswith('_'))
                        else:
                            star_unknown = True
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(s, (ast.Assign,)):
                for t in s.targets:
                    targets(t)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                targets(s.target)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                targets(s.target)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        targets(i.optional_vars)
            for w in ast.walk(s) if not isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)) else ():
                if isinstance(w, ast.NamedExpr):
                    targets(w.target)
            for f in ('body', 'orelse', 'finalbody'):
                rec(getattr(s, f, []) or [])
            for h in getattr(s, 'handlers', []) or []:
                if h.name:
                    out.add(h.name)
                rec(h.body)
    rec(m.tree.body)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out, star_unknown


def scan_names(rep, prog, only=None):
    """every name read in a function is bound in an enclosing scope, the module or builtins"""
    for mname, m in prog.modules.items():
        if only is not None and mname not in only:
            continue
        mod, su = module_names(m, prog)
        known = mod | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__'}

        def scope_names(fn):
            out = set()
            a = fn.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                out.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x:
                    out.add(x.arg)
            body = fn.body if isinstance(fn.body, list) else [fn.body]
            work = list(body)
            while work:
                n = work.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    out.add(n.name)
                    continue
                if isinstance(n, ast.Lambda):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        out.add((al.asname or al.name).split('.')[0])
                if isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
                work.extend(ast.iter_child_nodes(n))
            return out

        def visit(n, scopes, infn):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                if not isinstance(n, ast.Lambda):
                    for d in n.decorator_list:
                        visit(d, scopes, infn)
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    visit(d, scopes, infn)
                s = scope_names(n)
                for b in (n.body if isinstance(n.body, list) else [n.body]):
                    visit(b, [x for x in scopes if x[0] != 'class'] + [('fn', s)], True)
                return
            if isinstance(n, ast.ClassDef):
                for b in n.bases + n.decorator_list:
                    visit(b, scopes, infn)
                cs = set()
                for b in n.body:
                    for w in ast.walk(b):
                        if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store):
                            cs.add(w.id)
                    if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                        cs.add(b.name)
                for b in n.body:
                    visit(b, scopes + [('class', cs)], infn)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                s = {w.id for g in n.generators for w in ast.walk(g.target) if isinstance(w, ast.Name)}
                s |= {w.target.id for w in ast.walk(n) if isinstance(w, ast.NamedExpr)}
                for c in ast.iter_child_nodes(n):
                    visit(c, scopes + [('fn', s)], infn)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                rep.count('name reads')
                if n.id in known or any(n.id in s for _, s in scopes):
                    rep.put('ok', 'defined', where(n), 'names are defined')
                elif su:
                    rep.und('defined', n, 'name %s may come from a star import that was not analysed' % n.id)
                else:
                    rep.bad('defined', n, 'name %s is not defined anywhere' % n.id)
            for c in ast.iter_child_nodes(n):
                visit(c, scopes, infn)
        visit(m.tree, [], False)


def scan_attrs(rep, prog):
    """every attribute read through self exists in the class or one of its bases"""
    for mname, m in prog.modules.items():
        classes = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                classes[n.name] = n

        def members(c, seen=()):
            """(names, complete)"""
            out, complete = {'__class__', '__dict__', '__doc__', '__module__', '__init__', '__eq__', '__hash__', '__lt__', '__repr__',
                             '__str__', '__slots__', '__name__'}, True
            for b in c.body:
                if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                    out.add(b.name)
                for w in ast.walk(b) if not isinstance(b, ast.FunctionDef) else ():
                    if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store):
                        out.add(w.id)
            for w in ast.walk(c):
                if isinstance(w, ast.Attribute) and isinstance(w.ctx, ast.Store):
                    out.add(w.attr)
                if isinstance(w, ast.Call) and isinstance(w.func, ast.Name) and w.func.id in ('setattr', 'super'):
                    complete = complete and w.func.id != 'setattr'
                if isinstance(w, ast.FunctionDef) and w.name in ('__getattr__', '__getattribute__'):
                    complete = False
            for b in c.bases:
                if isinstance(b, ast.Name) and b.id in classes and b.id not in seen:
                    o, cm = members(classes[b.id], seen + (c.name,))
                    out |= o
                    complete &= cm
                elif isinstance(b, ast.Name) and b.id == 'object':
                    pass
                elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'namedtuple' and len(b.args) >= 2:
                    f = b.args[1]
                    if isinstance(f, ast.Constant) and isinstance(f.value, str):
                        out |= set(f.value.replace(',', ' ').split())
                        out |= {'_replace', '_asdict', '_fields', 'index', 'count', '_make'}
                    elif isinstance(f, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in f.elts):
                        out |= {e.value for e in f.elts} | {'_replace', '_asdict', '_fields', 'index', 'count', '_make'}
                    else:
                        complete = False
                else:
                    complete = False
            return out, complete
        # attributes stored from outside the class on any object of the module
        outside = {w.attr for w in ast.walk(m.tree) if isinstance(w, ast.Attribute) and isinstance(w.ctx, ast.Store)}
        for cname, c in classes.items():
            names, complete = members(c)
            for f in c.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args:
                    continue
                if any(isinstance(d, ast.Name) and d.id in ('staticmethod',) for d in f.decorator_list):
                    continue
                me = f.args.args[0].arg
                if any(isinstance(w, ast.Name) and w.id == me and isinstance(w.ctx, ast.Store) for w in ast.walk(f)):
                    continue
                for w in ast.walk(f):
                    if isinstance(w, ast.Attribute) and isinstance(w.ctx, ast.Load) and isinstance(w.value, ast.Name) and w.value.id == me:
                        rep.count('attribute reads through self')
                        a = w.attr
                        if a.startswith('__') and not a.endswith('__'):
                            pass
                        if a in names or a in outside or (a.startswith('__') and a.endswith('__')):
                            rep.put('ok', 'member', where(w), 'attributes exist')
                        elif not complete:
                            rep.und('member', w, 'attribute %s: base class not analysed' % a)
                        else:
                            rep.bad('member', w, 'attribute %s does not exist in class %s' % (a, cname))


VEC = set('''angle angle_signed copy cross dot freeze is_frozen is_valid is_wrapped length length_squared lerp magnitude negate normalize normalized orthogonal
owner project reflect resize resize_2d resize_3d resize_4d rotate rotation_difference slerp to_2d to_3d to_4d to_track_quat to_tuple zero Fill Linspace Range Repeat
x y z w Vector Matrix Quaternion Euler Color geometry kdtree bvhtree noise interpolate area_tri barycentric_transform box_fit_2d box_pack_2d closest_point_on_tri
convex_hull_2d delaunay_2d_cdt distance_point_to_plane interpolate_bezier intersect_line_line intersect_line_line_2d intersect_line_plane intersect_line_sphere
intersect_line_sphere_2d intersect_plane_plane intersect_point_line intersect_point_quad_2d intersect_point_tri intersect_point_tri_2d intersect_ray_tri
intersect_sphere_sphere_2d intersect_tri_tri_2d normal points_in_planes tessellate_polygon volume_tetrahedron'''.split())


def known_attrs(prog):
    """every attribute name some object of the library, of the language or of an imported standard module can have; None: not bounded"""
    import builtins
    import importlib
    import re
    import types
    out = set(VEC)
    for c in list(vars(builtins).values()) + list(vars(types).values()) + [re.Pattern, re.Match]:
        if isinstance(c, type):
            out.update(dir(c))
    def stored(body):
        # names bound at module or class level can be read as attributes, locals of functions cannot
        for b in body:
            if isinstance(b, ast.ClassDef):
                stored(b.body)
            elif not isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.update(w.id for w in ast.walk(b) if isinstance(w, ast.Name) and not isinstance(w.ctx, ast.Load))
                for w in ast.walk(b):
                    if isinstance(w, ast.ClassDef):
                        stored(w.body)
    for mname, m in prog.modules.items():
        stored(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.replace(',', ' ').replace(' ', '_').isidentifier():
                out.update(n.value.replace(',', ' ').split())        # fields of named tuples, slots, names handed to setattr
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                out.update(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)) and not getattr(n, 'level', 0):
                for name in [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module]:
                    top = name.split('.')[0]
                    out.update(name.split('.'))
                    if top in ('mathutils', 'bpy') or any(x == name or x.endswith('.' + name) for x in prog.modules):
                        continue
                    if top not in sys.stdlib_module_names:
                        return None
                    try:
                        mod = importlib.import_module(name)
                    except Exception:
                        return None
                    out.update(dir(mod))
                    for c in vars(mod).values():
                        if isinstance(c, type):
                            out.update(dir(c))
    return out


def scan_unknown(rep, prog):
    names = known_attrs(prog)
    for mname, m in prog.modules.items():
        if any(isinstance(n, (ast.Import, ast.ImportFrom)) and (getattr(n, 'module', None) or n.names[0].name).split('.')[0] == 'bpy' for n in ast.walk(m.tree)):
            continue                     # objects of Blender have attributes of their own
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                rep.count('attribute reads')
                a = n.attr
                if names is None:
                    rep.und('exists', n, 'attributes of an imported package')
                elif a in names or set(a) <= set('xyzw') and len(a) <= 4:
                    rep.put('ok', 'exists', where(n), 'some object has the attribute')
                else:
                    rep.bad('exists', n, 'no object has an attribute %s' % a)


def check_names(rep, tier):
    rep.rule('exists', 'every attribute read anywhere is one that some object of the library, of mathutils or of the language has')
    rep.rule('defined', 'every name read anywhere in the package is bound in an enclosing scope, at module level, or built in')
    rep.rule('member', 'every attribute read through self is defined in the class, assigned on it somewhere, or inherited')
    rep.rule('bound', 'on every path a local name is bound before it is read')
    rep.rule('attribute', 'on every path the attributes read exist on the object')
    rep.rule('arguments', 'every call fits the parameters of the function it reaches')
    prog = program()
    scan_names(rep, prog)
    scan_attrs(rep, prog)
    scan_unknown(rep, prog)
    rep.rule('format', 'a literal %-format takes as many values as it is given')
    scan_formats(rep, prog)
    c = Names(rep)
    for k in ('poly', 'skel', 'stub'):
        eng, res = poly_run(rep, c, tier, stub=False) if k == 'poly' else skel_run(rep, c, tier) if k == 'skel' else poly_run(rep, c, tier)
        for f in eng.visited_fns:
            fn = eng.prog.fns[f]
            rep.put('ok', 'bound', fn.qual, 'names bound, attributes and parameters fit on every path')
    from .entry import skeleton_of
    geo_run(rep, c, 'checkEdgeCrossing', lambda eng, st: [skeleton_of(eng, st)])
    c.settle()
    rep.require('name reads', 200)
    rep.require('attribute reads through self', 30)
