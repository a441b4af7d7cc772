#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os
from props import P, NA
os.chdir(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = open('hook_commits.txt').read().split()
with open('properties.jsonl', 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p.get('observe', []),
                         'hook_needed': p.get('hook')}}
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'cfg(aether_mc)', 'enable': 'RUSTFLAGS="--cfg aether_mc" (set by env.sh)', 'source_commits': HOOK_COMMITS},
     'checks': [{'property': p['id'], 'quick_cmd': f"./check.sh {p['id']} quick", 'thorough_cmd': f"./check.sh {p['id']} thorough",
                 'technique': p['tech'], 'level': 'model_checking', 'level_note': p['note']} for p in P if p['id'] not in NA],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'Every check builds its harness crate against /repo and enumerates a bounded space exhaustively; see DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)

R = json.load(open('tools/results.json')) if os.path.exists('tools/results.json') else {}
out = [open('design_head.md').read()]
out.append(open('design_hooks.md').read() if os.path.exists('design_hooks.md') else '')
out.append('\n## Properties\n')
for p in P:
    out.append(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n* Explored: {p['text']}.\n* Decided by: {p['tech']}.\n* Bounds, assumptions: {p['note']}\n* Why not tests: {p['why']}\n")
    if p['id'] in NA: out.append(f"* Not claimed: {NA[p['id']]}\n")
    b = [(k, v) for k, v in sorted(R.items()) if v['property'] == p['id']]
    if b: out.append('* Planted changes: ' + '; '.join(f"`{k}` ({'caught' if v['caught'] else 'MISSED'})" for k, v in b) + '\n')
out.append(open('design_tail.md').read() if os.path.exists('design_tail.md') else '')
open('DESIGN.md', 'w').write(''.join(out))
