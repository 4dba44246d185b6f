#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the registered checks, and tools/design_tail.md"""
import json, os, sys, importlib, pkgutil, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from jsa import runner
import checks
for m in pkgutil.iter_modules(checks.__path__):
    importlib.import_module('checks.' + m.name)
man = json.load(open(R + '/MANIFEST.json'))
props = [json.loads(l) for l in open(R + '/properties.jsonl') if l.strip()]
by = {c['property']: c for c in man['checks']}
out = [open(R + '/tools/design_head.md').read(), '## 2. The properties, and how each is decided\n']
for p in props:
    c = by.get(p['id'])
    if not c:
        continue
    k = runner.CHECKS[p['id']]
    out.append('### %s. %s\n' % (p['id'], p['title']))
    out.append('%s\n' % p['statement'])
    out.append('* decided by: %s' % c['technique'])
    out.append('* rule: %s' % k['rule'])
    out.append('* entry points: %s' % '; '.join('%s (`%s`)' % (a['name'], a['where']) for a in p['anchors']['mechanism']))
    out.append('* covers: %s; %s' % (p['quantifier']['text'], c['level_note']))
    if k['trusted']:
        out.append('* trusted: %s' % '; '.join(k['trusted']))
    out.append('* beyond tests: %s' % p['why_tests_cant'])
    out.append('* implemented in `%s`, at least %d obligations\n' % (os.path.relpath(k['fn'].__code__.co_filename, R), k['floor']))
t = open(R + '/tools/design_tail.md').read()
kf = json.load(open(R + '/known_findings.json'))['findings']
import re
fx = {}
for f in kf:
    if f['status'] == 'fixed':
        fx.setdefault(f['what'], f)
t = t.replace('@FIXED@', '\n'.join('* %s' % w.replace('fixed: property=', '') for w in fx))
t = t.replace('@KNOWN@', '\n'.join('* **%s**: %s' % (f['property'], f['what']) for f in kf if f['status'] == 'known'))
t = t.replace('@NA@', '\n'.join('* %s: %s' % (n['property'], n['reason']) for n in man['not_applicable']) or 'No listed property is without a check.')
rows = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(R + '/tools/caught.json'))
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s: %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], ', '.join(caught.get(i, [])) or 'none'))
t = t.replace('@SEEDED@', '\n'.join(rows))
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + t)
