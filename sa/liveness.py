"""Backward liveness of local names, for structured Python code.

Used only to drop dead locals from abstract states (smaller states, fewer spurious
joins); names captured by nested functions are always considered live.
"""
import ast


class Live:
    def __init__(self, fn_node):
        self.head = {}      # loop node id -> names live at loop head
        self.after = {}     # statement id -> names live after the statement
        self.captured = set()
        body = fn_node.body if isinstance(fn_node.body, list) else []
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            self.captured.add(y.id)
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    self.captured.update(x.names)
        self.block(body, frozenset(), frozenset(), frozenset(), frozenset())

    @staticmethod
    def uses(n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                out.add(x.id)
        return frozenset(out)

    @staticmethod
    def defs(n):
        return frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))

    def block(self, stmts, out, brk, cont, exc):
        for s in reversed(stmts):
            self.after[s._id] = out | self.captured | self.after.get(s._id, frozenset())
            out = self.stmt(s, out, brk, cont, exc)
        return out

    def stmt(self, s, out, brk, cont, exc):
        if isinstance(s, (ast.Return, ast.Raise)):
            return self.uses(s) | exc
        if isinstance(s, ast.Break):
            return brk | exc
        if isinstance(s, ast.Continue):
            return cont | exc
        if isinstance(s, ast.Assign):
            d = frozenset()
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Tuple, ast.List)):
                d = self.defs(s.targets[0])
            u = self.uses(s.value)
            for t in s.targets:
                u |= self.uses(t)
            return (out - d) | u | exc
        if isinstance(s, ast.AugAssign):
            return out | self.uses(s.value) | self.uses(s.target) | self.defs(s.target) | exc
        if isinstance(s, ast.If):
            a = self.block(s.body, out, brk, cont, exc)
            b = self.block(s.orelse, out, brk, cont, exc)
            return a | b | self.uses(s.test) | exc
        if isinstance(s, (ast.For, ast.While)):
            ex = self.block(s.orelse, out, brk, cont, exc) if s.orelse else out
            head = ex
            while True:
                b = self.block(s.body, head, out, head, exc)
                if isinstance(s, ast.For):
                    n = ex | (b - self.defs(s.target)) | self.uses(s.target)
                else:
                    n = ex | b | self.uses(s.test)
                n |= head
                if n == head:
                    break
                head = n
            self.head[s._id] = head | self.captured | exc
            return (head | (self.uses(s.iter) if isinstance(s, ast.For) else frozenset())) | exc
        if isinstance(s, ast.Try):
            h = exc
            for x in s.handlers:
                h = h | self.block(x.body, out, brk, cont, exc)
            if s.finalbody:
                out = self.block(s.finalbody, out, brk, cont, exc)
                h |= out
                brk = brk | out
                cont = cont | out
            o = self.block(s.orelse, out, brk, cont, exc) if s.orelse else out
            return self.block(s.body, o | h, brk | h, cont | h, exc | h)
        if isinstance(s, ast.With):
            b = self.block(s.body, out, brk, cont, exc)
            u = frozenset()
            for i in s.items:
                u |= self.uses(i.context_expr)
            return b | u | exc
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return out | self.uses(s) | exc
        return out | self.uses(s) | exc
