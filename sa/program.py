"""Parsing and name resolution of the analysed sources (never executed)."""
import ast
import copy
import os


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is gone: error exit, never a silent pass."""


class Fn:
    def __init__(self, fid, node, mod, qual, cls=None):
        self.fid, self.node, self.mod, self.qual, self.cls = fid, node, mod, qual, cls
        self.decorators = set()
        self.is_gen = False
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                try:
                    self.decorators.add(ast.unparse(d))
                except Exception:
                    pass
            self.is_gen = has_yield(node)


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, cid, name, mod, node=None):
        self.cid, self.name, self.mod, self.node = cid, name, mod, node
        self.bases = []          # Cls or ext name
        self.methods = {}        # name -> Fn
        self.ntfields = None     # namedtuple fields
        self.attrs = {}          # class attribute values (V)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def fields_nt(self):
        for c in self.mro():
            if c.ntfields is not None:
                return c.ntfields
        return None


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src


class Spell(ast.NodeTransformer):
    """all(f(x) for x in (a, b)) is f(a) and f(b); any likewise"""

    def plain(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, (ast.Name, ast.Constant))

    def visit_Call(self, n):
        self.generic_visit(n)
        if not (isinstance(n.func, ast.Name) and n.func.id in ('all', 'any') and len(n.args) == 1 and not n.keywords):
            return n
        g = n.args[0]
        if not isinstance(g, (ast.GeneratorExp, ast.ListComp)) or len(g.generators) != 1:
            return n
        c = g.generators[0]
        if c.ifs or c.is_async or not isinstance(c.target, ast.Name) or not isinstance(c.iter, (ast.Tuple, ast.List)) or \
                not 1 <= len(c.iter.elts) <= 6 or not all(self.plain(e) for e in c.iter.elts):
            return n
        if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr)) for x in ast.walk(g.elt)):
            return n
        parts = [Put(c.target.id, e).visit(copy.deepcopy(g.elt)) for e in c.iter.elts]
        b = parts[0] if len(parts) == 1 else ast.BoolOp(ast.And() if n.func.id == 'all' else ast.Or(), parts)
        return self.placed(ast.UnaryOp(ast.Not(), ast.UnaryOp(ast.Not(), b)), n)

    def placed(self, new, old):
        for x in ast.walk(new):
            if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
                ast.copy_location(x, old)
        return new


class Put(ast.NodeTransformer):
    def __init__(self, name, e):
        self.name, self.e = name, e

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.e)
        return n


class Program:
    def __init__(self, repo='/repo', extra=()):
        self.repo = repo
        self.modules = {}
        self.fns = {}
        self.nid = 0
        pk = os.path.join(repo, 'bpypolyskel')
        if not os.path.isdir(pk):
            raise AnalysisBroken('package directory bpypolyskel is gone')
        for f in sorted(os.listdir(pk)):
            if f.endswith('.py'):
                self.load('bpypolyskel.' + f[:-3], os.path.join(pk, f))
        for name, rel in extra:
            p = os.path.join(repo, rel)
            if os.path.exists(p):
                self.load(name, p)

    def drivers(self):
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drivers')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                self.load('driver.' + f[:-3], os.path.join(d, f))

    def load(self, name, path):
        with open(path, 'rb') as fh:
            src = fh.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse %s: %s' % (path, e))
        if not any(isinstance(x, ast.Name) and x.id in ('all', 'any') and not isinstance(x.ctx, ast.Load) for x in ast.walk(tree)):
            tree = Spell().visit(tree)
        m = Module(name, path, tree, src.decode('utf-8', 'replace'))
        self.modules[name] = m
        self.annotate(tree, m, '')
        return m

    def annotate(self, tree, m, qual):
        def rec(node, qual, cls):
            for ch in ast.iter_child_nodes(node):
                ch._p = node
                self.nid += 1
                ch._id = self.nid
                ch._mod = m
                ch._fn = qual
                if isinstance(ch, ast.ClassDef):
                    rec(ch, (qual + '.' if qual else '') + ch.name, ch.name)
                elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = (qual + '.' if qual else '') + ch.name
                    ch._fninfo = Fn('f%d' % ch._id, ch, m, q)
                    self.fns[ch._fninfo.fid] = ch._fninfo
                    rec(ch, q, None)
                elif isinstance(ch, ast.Lambda):
                    ch._fninfo = Fn('f%d' % ch._id, ch, m, qual + '.<lambda>')
                    self.fns[ch._fninfo.fid] = ch._fninfo
                    rec(ch, qual, cls)
                else:
                    rec(ch, qual, cls)
        tree._id = 0
        tree._mod = m
        tree._fn = ''
        rec(tree, qual, None)


def loc(node):
    m = getattr(node, '_mod', None)
    if m is None:
        return '?'
    p = m.path
    return '%s:%d' % (p, getattr(node, 'lineno', 0))


def where(node):
    return '%s in %s' % (loc(node), getattr(node, '_fn', '') or '<module>')


def snippet(node, n=90):
    try:
        s = ' '.join(ast.unparse(node).split())
    except Exception:
        s = type(node).__name__
    return s if len(s) <= n else s[:n - 3] + '...'
