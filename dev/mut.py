#!/usr/bin/env python3
"""Development aid: applies textual edits to a scratch copy of spicelib and runs checks on it.
usage: mut.py [module ...]   modules: dev/m_*.py defining MUT (must be caught) and BEN (must stay quiet)
entries: (property or 'a,b', file, old, new[, old2, new2 ...])"""
import ast, importlib.util, glob, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = '/tmp/mutwork'
HERE = os.path.dirname(os.path.abspath(__file__))

def plain(src):
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and len(n.body) > 1:
            n.body = n.body[1:]
    return ast.unparse(t)

def one(i, kind, ent):
    pid, fn, *rest = ent
    d = f'{ROOT}/{kind}{i}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo/spicelib', d + '/spicelib', ignore=shutil.ignore_patterns('__pycache__'))
    edits = []
    while rest:
        if rest[0].startswith('@'):
            fn = rest[0][1:]
            rest = rest[1:]
            continue
        edits.append((fn, rest[0], rest[1])); rest = rest[2:]
    for fn, old, new in edits:
        p = f'{d}/spicelib/{fn}'
        s = open(p).read()
        if old not in s:      # fall back on the text without comments and docstrings, normalised
            s = plain(s)
        if old not in s:
            return (kind, i, pid, 'NOMATCH ' + old[:60])
        s = s.replace(old, new, 1)
        try:
            compile(s, p, 'exec')
        except SyntaxError as e:
            return (kind, i, pid, f'SYNTAX {e}')
        open(p, 'w').write(s)
    ids = pid if kind == 'MUT' else 'all'
    r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), ids, '--out', d + '/ev'], capture_output=True, text=True,
                       env=dict(os.environ, SPICELIB_REPO=d, SL_STRICT="1"))
    out = [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith(('OK', 'KNOWN'))]
    shutil.rmtree(d, ignore_errors=True)
    if kind == 'MUT':
        ok = r.returncode == 1
    else:
        ok = r.returncode == 0
    return (kind, i, pid, ('ok   ' if ok else f'FAIL rc={r.returncode} ') + (rest_desc(ent)) + ('' if ok and kind == 'BEN' else '\n        ' + '\n        '.join(out[:3])))

def rest_desc(ent):
    return f"{ent[1]}: {ent[2][:50]!r} -> {ent[3][:60]!r}"

def main():
    jobs = []
    files = [f'{HERE}/m_{a}.py' for a in sys.argv[1:]] or sorted(glob.glob(f'{HERE}/m_*.py'))
    for f in files:
        sp = importlib.util.spec_from_file_location('m', f)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        jobs += [('MUT', e) for e in m.MUT] + [('BEN', e) for e in m.BEN]
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(lambda t: one(t[0], t[1][0], t[1][1]), list(enumerate(jobs))))
    bad = 0
    for kind, i, pid, msg in res:
        fail = not msg.startswith('ok')
        bad += fail
        if fail or '-v' in os.environ.get('MUTV', ''):
            print(kind, i, pid, msg)
    print(f'{len(res)} run, {bad} not as expected')
main()
