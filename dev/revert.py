#!/usr/bin/env python3
"""Development aid: for each fix commit of /repo, undo just that commit in a scratch copy and show which checks notice.
usage: revert.py [pids or all] [commit ...]"""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
pids = sys.argv[1] if len(sys.argv) > 1 else 'all'
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '0781b1b..HEAD'], capture_output=True, text=True).stdout.splitlines()
if len(sys.argv) > 2:
    log = [l for l in log if any(l.startswith(c[:7]) for c in sys.argv[2:])]

def one(l):
    h = l.split()[0]
    d = f'/tmp/revwork/{h}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/spicelib', d + '/spicelib', ignore=shutil.ignore_patterns('__pycache__'))
    diff = subprocess.run(['git', '-C', '/repo', 'show', '--format=', h], capture_output=True).stdout
    r = subprocess.run(['patch', '-R', '-p1', '-F3', '-s', '--no-backup-if-mismatch'], input=diff, cwd=d, capture_output=True)
    if r.returncode:
        shutil.rmtree(d)
        return f'{l}: DOES NOT REVERT'
    r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), pids, '--out', d + '/ev'], capture_output=True, text=True,
                       env=dict(os.environ, SPICELIB_REPO=d))
    out = [x.split()[1].split('=')[1] for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    shutil.rmtree(d)
    return f"{l[:90]}: {' '.join(out) if out else '-'} rc={r.returncode}"

with ThreadPoolExecutor(7) as ex:
    for x in ex.map(one, log):
        print(x)
