#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `tools/props.py` regenerates both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                     'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in (state or [])],
                     'observe_at': observe or [], 'hook_needed': None}}
    P.append((d, technique, note, na))


SRC = 'src/joedb/'
JN = 'src/joedb/journal/'
exec(open(os.path.join(V, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, *_ in P:
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, tech, note, n in P:
        if n:
            na.append({'property': d['id'], 'reason': n})
        else:
            checks.append({'property': d['id'], 'quick_cmd': './check ' + d['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + d['id'],
                           'technique': tech, 'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: a clang-based extractor dumps the type-checked syntax trees of every source of the library, tools and generated code; rules are decided by a path-sensitive abstract interpreter (no solver, nothing executed). See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    ids = [d['id'] for d, *_ in P]
    assert len(ids) == len(set(ids))
    import sys
    sys.path.insert(0, V)
    sys.dont_write_bytecode = True
    from jsa import runner
    runner.load_checks()
    missing = [c['property'] for c in checks if c['property'] not in runner.CHECKS]
    extra = [c for c in runner.CHECKS if c not in [x['property'] for x in checks]]
    print('%d properties, %d checks, %d n/a; without check: %s; check without property: %s' % (len(P), len(checks), len(na), missing, extra))


main()
