"""Obligations, reports, evidence and the command-line contract of the checks."""
import ast
import json
import os
import time

from .program import AnalysisBroken, where, loc, snippet
from .state import T, V

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RANK = {'ok': 0, 'und': 1, 'known': 2, 'bad': 3}


class Report:
    """obligation key = (rule, place, construct); the worst outcome seen for a key counts"""

    def __init__(self, pid):
        self.pid = pid
        self.obl = {}
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.fns = set()
        self.nodes = 0
        self.entries = []
        self.notes = {}
        self.thin = []

    def rule(self, name, text):
        self.rules[name] = text

    def put(self, status, rule, node, what, detail=''):
        place = where(node) if isinstance(node, ast.AST) else str(node)
        construct = snippet(node) if isinstance(node, ast.AST) else ''
        key = (rule, place, construct, what)
        cur = self.obl.get(key)
        if cur is None or RANK[status] > RANK[cur[0]]:
            self.obl[key] = (status, detail, getattr(node, '_fn', '') if isinstance(node, ast.AST) else '')
        return status

    def ok(self, rule, node, what, detail=''):
        self.put('ok', rule, node, what, detail)

    def bad(self, rule, node, what, detail=''):
        self.put('bad', rule, node, what, detail)

    def und(self, rule, node, what, detail=''):
        self.put('und', rule, node, what, detail)

    def decide(self, cond, rule, node, what, detail=''):
        """cond: True / False / None"""
        self.put('ok' if cond is True else 'bad' if cond is False else 'und', rule, node, what, detail)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def require(self, name, least=1):
        if self.counts.get(name, 0) < least:
            self.thin.append('only %d instance(s) of "%s" found (at least %d expected)' % (self.counts.get(name, 0), name, least))

    def settle(self):
        """anchors that were not found are undecided; if nothing at all was decided the analysis has lost its subject"""
        for t in self.thin:
            self.und('coverage', 'whole program', t)
        if self.thin and not any(o[0] in ('ok', 'bad') for o in self.obl.values()):
            raise AnalysisBroken('%s: %s: the anchor is gone' % (self.pid, '; '.join(self.thin)))

    def absorb(self, eng):
        self.fns |= {eng.prog.fns[f].qual for f in eng.visited_fns}
        self.nodes += eng.visited_nodes
        for k, v in eng.notes.items():
            self.notes['%s %s' % k] = v


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as fh:
            out = json.load(fh).get('findings', [])
    return out


def finish(rep, t0, tier, seed):
    rep.settle()
    known = [k for k in known_findings() if k['property'] == rep.pid]
    bad, kn, und, ok = [], [], [], []
    for key, (status, detail, fn) in sorted(rep.obl.items()):
        rule, place, construct, what = key
        rec = {'rule': rule, 'where': place, 'construct': construct, 'what': what}
        if detail:
            rec['detail'] = detail[:400]
        if status == 'bad':
            hit = [k for k in known if k['rule'] == rule and k.get('function', fn) == fn and
                   k.get('construct', construct) == construct and k.get('what', what) == what]
            (kn if hit else bad).append(rec)
        elif status == 'und':
            und.append(rec)
        else:
            ok.append(rec)
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    n = len(rep.obl)
    ev = {
        'property': rep.pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source in /repo (nothing is executed). %d obligations: %d hold, '
                           '%d undecided (listed, not counted as held), %d violated, %d known findings.'
                           % (n, len(ok), len(und), len(bad), len(kn)),
            'rules': rep.rules,
            'obligations': n, 'discharged': len(ok), 'undecided': len(und),
            'entry_points': rep.entries,
            'functions_analysed': sorted(rep.fns),
            'syntax_nodes_visited': rep.nodes,
            'instance_counts': rep.counts,
            'samples': ok[:25],
            'undecided_list': und[:60],
            'violations_list': bad[:60],
            'unmodelled_constructs': rep.notes,
        },
        'assumptions': rep.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(bad),
    }
    with open(os.path.join(evd, rep.pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print('%s: %d obligations, %d hold, %d undecided, %d violated (%.1f s; %d functions, %d syntax nodes)'
          % (rep.pid, n, len(ok), len(und), len(bad), time.time() - t0, len(rep.fns), rep.nodes))
    for k in kn:
        print('KNOWN-FINDING: property=%s %s: %s [%s]' % (rep.pid, k['where'], k['what'], k['rule']))
    if not bad:
        return 0
    rp = os.path.join(evd, rep.pid + '.violations.txt')
    with open(rp, 'w') as fh:
        for b in bad:
            fh.write('%s\n  rule: %s -- %s\n  construct: %s\n  %s\n  %s\n\n' % (
                b['where'], b['rule'], rep.rules.get(b['rule'], ''), b['construct'], b['what'], b.get('detail', '')))
    for b in bad:
        print('  %s: %s [%s] %s %s' % (b['where'], b['what'], b['rule'], b['construct'], b.get('detail', '')))
    print('VIOLATION property=%s replay=%s' % (rep.pid, rp))
    return 1


# ------------------------------------------------------------------ term helpers
def refs(v):
    return {k[1] for k in v.kinds if k[0] == 'ref'}


FUZZY = {'phi', 'unk', 'any', 'elemof', 'len?', 'argm', 'prev', 'n', 'fver'}


def resolved(t):
    """the term is an exact expression over inputs, loop indices and constants"""
    return not T.any_op(t, FUZZY)


def show(t):
    return T.show(t) if t is not None else 'None'


def strip(t, memo=None):
    """forget heap versions of field reads (to compare access paths)"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    memo[t] = t
    k = T.rev[t]
    r = t
    if k[0] == 'p':
        r = T.ZERO
        for mono, c in k[1]:
            m = T.const(c)
            for a, e in mono:
                m = T.mul(m, T.pow(strip(a, memo), e))
            r = T.add(r, m)
    elif k[0] == 'a':
        def w(x):
            if isinstance(x, bool):
                return x
            if isinstance(x, int):
                return strip(x, memo)
            if isinstance(x, tuple):
                return tuple(w(y) for y in x)
            return x
        a = [w(x) for x in k[2:]]
        if k[1] in ('sel', 'c', 'idx') and len(a) == 3:
            a[2] = T.ZERO
        r = T.atom(k[1], *a)
    memo[t] = r
    return r
