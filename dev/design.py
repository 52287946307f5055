#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, the metadata of the rules, known_findings.txt and seeded/"""
import glob, json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

def write(REGISTRY, NA):
    o = [open('dev/design_head.md').read()]
    o.append('## Properties\n\nFor each one: the method that decides it, within which bounds, and what it assumes. The statement is in `properties.jsonl`.\n')
    for pid in sorted(REGISTRY):
        m = REGISTRY[pid]
        mod = m['fn'].__module__.split('.')[-1]
        o.append(f"### {pid} {m['title']}\n\n* technique: {m['technique']} (`checker/rules/{mod}.py`)\n* method: {m['explanation']}\n* ranges over: {m['qtext']}\n* bounds: {m['note']}\n" +
                 (f"* assumes: {'; '.join(m['assumptions'])}\n" if m['assumptions'] else '') + f"* beyond tests: {m['why']}\n")
    o.append('## Not applicable\n\n' + ''.join(f"* **{n['record']['id']} {n['record']['title']}** — {n['reason']}\n" for n in NA))
    o.append('\n## Repaired and recorded defects\n\n' + ''.join('* ' + l.strip() + '\n' for l in open('known_findings.txt') if l.startswith(('known:', 'fixed:'))))
    o.append('\n## Planted bugs\n\nAll of them are confirmed by `dev/plant.py` (demo passes without, fails with the patch, stable tests pass) and reported by the check of their property.\n\n| planted bug | check that reports it | needs | breaks |\n|---|---|---|---|\n')
    for d in sorted(glob.glob('seeded/*/meta.json')):
        j = json.load(open(d))
        o.append(f"| {d.split('/')[1]} | {j['property']} | {j['needs']} | {j['what_it_breaks']} |\n")
    open('DESIGN.md', 'w').write('\n'.join(o[:-1 - len(glob.glob('seeded/*/meta.json'))]) + '\n' + ''.join(o[-1 - len(glob.glob('seeded/*/meta.json')):]))
