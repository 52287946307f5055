"""Development aid: every permission test / every recorded update switched off in turn; P10 / P11 must notice each."""
import os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
jobs = []
for f in sorted(glob.glob('/repo/spicelib/editor/*.py')):
    for i, l in enumerate(open(f)):
        if re.search(r'(if|return|elif).*== UpdatePermission\.Deny', l) and 'def ' not in l:
            jobs.append((f, i, l.replace('== UpdatePermission.Deny', '== UpdatePermission.Initializing and False'), 'P10'))
        if re.match(r'\s+[\w.]*end_update\(.*\)\s*(#.*)?$', l):
            jobs.append((f, i, re.sub(r'\S.*', 'pass', l, count=1), 'P11'))
        if re.match(r'\s+[\w.]*(netlist_updates\.)add_update\(.*\)\s*$', l):
            jobs.append((f, i, re.sub(r'\S.*', 'pass', l, count=1), 'P11'))
        if re.search(r'UpdateType\.(Add|Update|Delete)(Component\w*|Parameter|Instruction)\)', l):
            jobs.append((f, i, re.sub(r'UpdateType\.(Add|Update|Delete)(Component\w*|Parameter|Instruction)\)', lambda m: 'UpdateType.%s%s)' % ({'Add': 'Update', 'Update': 'Add', 'Delete': 'Update'}[m[1]], m[2]), l), 'P11'))
def one(a):
    n, (f, i, new, pid) = a
    d = f'/tmp/mutauto/{n}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo/spicelib', d + '/spicelib', ignore=shutil.ignore_patterns('__pycache__'))
    p = d + f[len('/repo'):]
    L = open(p).read().split('\n')
    old = L[i]; L[i] = new.rstrip('\n')
    try:
        compile('\n'.join(L), p, 'exec')
    except SyntaxError:
        return None
    open(p, 'w').write('\n'.join(L))
    r = subprocess.run([sys.executable, '/verif/check.py', pid, '--out', d + '/ev'], capture_output=True, text=True, env=dict(os.environ, SPICELIB_REPO=d, SL_STRICT="1"))
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, pid, os.path.basename(f), i + 1, L[i].strip()
with ThreadPoolExecutor(7) as ex:
    res = [x for x in ex.map(one, enumerate(jobs)) if x]
for x in res:
    if x[0] != 1:
        print(x)
print(len(res), sum(x[0] == 1 for x in res))
