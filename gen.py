#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the metadata kept next to each rule module."""
import importlib, json, os, pkgutil, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '.')
sys.dont_write_bytecode = True
from checker import rules
from checker.rules.util import REGISTRY
for m in pkgutil.iter_modules(rules.__path__):
    importlib.import_module(f'checker.rules.{m.name}')
NA = json.load(open('not_applicable.json')) if os.path.exists('not_applicable.json') else []
with open('properties.jsonl', 'w') as f:
    for pid in sorted(REGISTRY):
        m = REGISTRY[pid]
        assert len(m['title']) <= 80, (pid, len(m['title']))
        a = {'files': m['files'], 'mechanism': m['mechanism']}
        if m['state']:
            a['state'] = m['state']
        if m['observe']:
            a['observe_at'] = m['observe']
        f.write(json.dumps({'id': pid, 'title': m['title'], 'statement': m['statement'],
                            'quantifier': {'over': m['over'], 'text': m['qtext']}, 'why_tests_cant': m['why'], 'anchors': a}) + '\n')
    for n in NA:
        f.write(json.dumps(n['record']) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast"',
       'checks': [{'property': pid, 'quick_cmd': f'python3 check.py {pid} --tier quick', 'thorough_cmd': f'python3 check.py {pid} --tier thorough',
                   'evidence_file': f'evidence/{pid}.json', 'technique': 'static analysis: ' + REGISTRY[pid]['technique'], 'level': 'other',
                   'level_note': REGISTRY[pid]['note'] + (' Assumes: ' + '; '.join(REGISTRY[pid]['assumptions']) + '.' if REGISTRY[pid]['assumptions'] else '')}
                  for pid in sorted(REGISTRY)],
       'not_applicable': [{'property': n['record']['id'], 'reason': n['reason']} for n in NA],
       'notes': 'All checks are pure source analyses of /repo (python ast); nothing of spicelib is imported or executed. known_findings.txt lists recorded defects.'}
json.dump(man, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
sys.path.insert(0, 'dev')
import design
design.write(REGISTRY, NA)
