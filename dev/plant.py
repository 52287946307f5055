#!/usr/bin/env python3
"""Development aid: turns dev/plants_*.py entries into /verif/seeded/<id>/ and confirms each of them in scratch copies.
entry: dict(id=, property=, edits=[(file, old, new), ...], needs=, breaks=, demo='''python source''')
usage: plant.py [id ...]"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(HERE)
BASE = json.load(open('/opt/vp/BASELINE.json'))
SH = '''#!/bin/bash
# run with the repository as working directory
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg timeout 200 /opt/venv/bin/python "$D/demo.py" "$W"
'''

def stable(d):
    rep = d + '/junit.xml'
    subprocess.run(['bash', '-c', f". /opt/vp/env.sh; cd {d} && mkdir -p unittests/temp && PYTHONPATH={d} /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
                    f"--timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={rep} -o python_files='test_*.py *_unittest.py' "
                    "--ignore=unittests/test_montecarlo.py unittests"], capture_output=True)
    ok = set()
    for tc in ET.parse(rep).iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            ok.add(tc.get('classname') + '.' + tc.get('name'))
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    return ok

def one(e):
    d = f"/tmp/plantwork/{e['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('__pycache__'))
    out = f"{VER}/seeded/{e['id']}"
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.sh', 'w').write(SH); os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(e['demo'].lstrip('\n'))
    r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=d, capture_output=True, text=True)
    for f, old, new in e['edits']:
        p = f'{d}/spicelib/{f}'; s = open(p).read()
        if s.count(old) < 1:
            return e['id'], 'NOMATCH ' + old[:70]
        s = s.replace(old, new, 1); compile(s, p, 'exec'); open(p, 'w').write(s)
    diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=e['property'], needs=e['needs'], what_it_breaks=e['breaks']), open(out + '/meta.json', 'w'), indent=1)
    # lines must be original ones
    r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=d, capture_output=True, text=True)
    passed = stable(d)
    want = BASE if isinstance(BASE, list) else BASE.get('stable') or BASE.get('tests') or BASE.get('passed') or []
    missing = [t for t in want if t.split(':', 1)[-1] not in passed and t not in passed and not any(p.endswith(t) or t.endswith(p) for p in passed)]
    r = subprocess.run([sys.executable, VER + '/check.py', 'all', '--out', d + '/ev'], capture_output=True, text=True, env=dict(os.environ, SPICELIB_REPO=d))
    caught = re.findall(r'VIOLATION property=(\S+)', r.stdout)
    shutil.rmtree(d, ignore_errors=True)
    st = []
    if r0.returncode: st.append('DEMO-FAILS-CLEAN ' + (r0.stdout + r0.stderr)[-400:])
    if not r1.returncode: st.append('DEMO-PASSES-PATCHED')
    if missing: st.append(f'TESTS-LOST {missing[:3]}')
    return e['id'], ('OK' if not st else ' | '.join(st)) + f"  caught={caught} {'(own)' if e['property'] in caught else 'MISSED'}" + \
        ('' if r.returncode in (0, 1) else ' ' + r.stderr[-300:]) + '   demo: ' + ((r1.stdout + r1.stderr).strip().splitlines() or [''])[-1][:110]

def main():
    es = []
    for f in sorted(glob.glob(HERE + '/plants_*.py')):
        sp = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        es += m.PLANTS
    if sys.argv[1:]:
        es = [e for e in es if e['id'] in sys.argv[1:] or any(e['property'] == a for a in sys.argv[1:])]
    with ThreadPoolExecutor(5) as ex:
        for i, m in ex.map(one, es):
            print(i, m)
main()
