#!/usr/bin/env python3
"""Writes DESIGN.md from design-head.md, the specification of the properties and design-tail.md."""
import os, re, sys, glob, json
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
sys.dont_write_bytecode = True
from spec import PROPS
import design_notes as N
V = os.path.dirname(D)
strat = {}
for f in glob.glob(V + '/harness*/src/**/*.rs', recursive=True):
    cur = None
    for m in re.finditer(r'id: "(C\d\d)"|Strategy \{\s*name: "([^"]+)", quick: (\d+), thorough: (\d+)|(\("[a-z0-9-]+"), (\d+), (\d+)', open(f).read()):
        if m.group(1): cur = m.group(1)
        elif m.group(2) and cur: strat.setdefault(cur, []).append((m.group(2), int(m.group(3)), int(m.group(4))))
out = [open(D + '/design-head.md').read().rstrip(), '', '## The properties', '']
for p in sorted(PROPS, key=lambda p: p['id']):
    i = p['id']
    out += [f"### {i} {p['title']}", '', p['statement'], '']
    out += [f"- **Generated**: {N.GEN[i]}"]
    out += [f"- **Oracle**: {N.ORACLE[i]}"]
    out += [f"- **Bounds**: {p['level_note']}"]
    s = strat.get(i, [])
    if s:
        out += ['- **Cost** (cases quick / thorough): ' + '; '.join(f'{n} {q:,} / {t:,}' for n, q, t in s) + '.']
    out += [f"- **Beyond the tests**: {p['why_tests_cant']}", '']
out += [open(D + '/design-tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
