#!/usr/bin/env python3
"""One source for properties.jsonl and MANIFEST.json: python3 tools/spec.py rewrites both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'bpypolyskel/bpypolyskel.py'
EUC = 'bpypolyskel/bpyeuclid.py'
GRA = 'bpypolyskel/poly2FacesGraph.py'
ADD = '__init__.py'
FILES = {'P': PKG, 'E': EUC, 'G': GRA, 'A': ADD}
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(
        id=pid, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': [FILES[f] for f in files], 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
        _t=technique, _n=note))


NA = []


def na(pid, title, statement, over, text, why, files, mech, reason):
    assert len(title) <= 80, title
    P.append(dict(
        id=pid, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': [FILES[f] for f in files], 'mechanism': [{'name': n, 'where': w} for n, w in mech]}))
    NA.append({'property': pid, 'reason': reason})


AI = 'path-sensitive abstract interpretation of the source (heap, aliases, symbolic terms)'
TRUST = ('Trusted: the models of the Python built-ins and of mathutils.Vector in sa/models.py, and that a construct the analysis does not '
         'model (listed in the evidence) does not break the property. Cases it cannot tell are listed as undecided and never reported.')

exec(open(os.path.join(V, 'tools', 'spec_props.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        if '_t' in p:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 -m sa.run %s' % p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 -m sa.run %s' % p['id'],
                           'technique': p['_t'], 'level': 'other', 'level_note': p['_n'] + ' ' + TRUST})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': NA}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1, ensure_ascii=False)
        fh.write('\n')
    import sys
    sys.path.insert(0, V)
    from sa.run import checks as reg
    have = set(reg())
    print('claimed', len(checks), 'not applicable', len(NA), 'missing', {c['property'] for c in checks} ^ have)


main()
