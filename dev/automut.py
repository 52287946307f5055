#!/usr/bin/env python3
"""Development aid: systematic mutants of the functions a property analyses; lists the ones its checks do not report.
usage: automut.py OUT.json file-substring [ops]      (ops: comma list of del,neg,cmp,const,arg,var)"""
import ast, copy, glob, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(HERE)
sys.path.insert(0, VER)


def functions():
    """file -> qualname -> pids, from the evidence"""
    out = {}
    for f in glob.glob(VER + '/evidence/P*.json'):
        d = json.load(open(f))
        for fn in d['coverage'].get('functions', []):
            q = fn.split(':')[-1]
            out.setdefault(q, set()).add(d['property'])
    return out


class Finder(ast.NodeVisitor):
    def __init__(self):
        self.stack, self.found = [], []

    def visit_ClassDef(self, n):
        self.stack.append(n.name); self.generic_visit(n); self.stack.pop()

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.found.append(('.'.join(self.stack), n))
        self.generic_visit(n)
        self.stack.pop()


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(src, fn, ops):
    """(lineno, description, new source)"""
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def rng(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new):
        a, z = rng(n)
        return (b[:a] + new.encode() + b[z:]).decode()
    nested = {id(x) for y in ast.walk(fn) if isinstance(y, (ast.FunctionDef, ast.Lambda)) and y is not fn for x in ast.walk(y)}
    out = []
    for n in ast.walk(fn):
        if 'del' in ops and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            t = seg(src, n)
            if t.startswith(('_logger', 'print', 'raise')):
                continue
            out.append((n.lineno, 'DEL ' + t[:90], rep(n, 'pass')))
        if 'neg' in ops and isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = seg(src, n.test)
            out.append((n.lineno, 'NEG ' + t[:90], rep(n.test, f'not ({t})')))
            if isinstance(n.test, ast.BoolOp):
                for v in n.test.values:
                    out.append((n.lineno, f'DROP {seg(src, v)[:50]} of {t[:60]}', rep(v, 'True' if isinstance(n.test.op, ast.And) else 'False')))
        if 'cmp' in ops and isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>'}.get(type(n.ops[0]))
            if sw:
                out.append((n.lineno, 'CMP ' + seg(src, n)[:90], rep(n, f'{seg(src, n.left)} {sw} {seg(src, n.comparators[0])}')))
        if 'const' in ops and isinstance(n, ast.Constant) and type(n.value) in (int, bool):
            out.append((n.lineno, f'CONST {n.value} in line {lines[n.lineno - 1].strip()[:80]}', rep(n, str(not n.value) if isinstance(n.value, bool) else str(n.value + 1))))
        if 'arg' in ops and isinstance(n, ast.Call) and not seg(src, n).startswith('_logger'):
            for kw in n.keywords:
                if kw.arg and isinstance(kw.value, ast.Name):
                    out.append((n.lineno, f'KW {kw.arg}={kw.value.id} in {seg(src, n)[:70]}', rep(kw.value, 'None')))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and seg(src, n.args[0]) != seg(src, n.args[1]):
                a0, a1 = seg(src, n.args[0]), seg(src, n.args[1])
                s0, e0 = rng(n.args[0]); s1, e1 = rng(n.args[1])
                out.append((n.lineno, f'SWAP {seg(src, n)[:80]}', (b[:s0] + a1.encode() + b[e0:s1] + a0.encode() + b[e1:]).decode()))
        if 'bin' in ops and isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)) \
                and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            out.append((n.lineno, 'BIN ' + seg(src, n)[:80], rep(n, f'{seg(src, n.left)} {"-" if isinstance(n.op, ast.Add) else "+"} {seg(src, n.right)}')))
    return out


def job(a):
    i, rel, q, ln, desc, text, pids = a
    d = f'/tmp/am/w{i}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo/spicelib', d + '/spicelib', ignore=shutil.ignore_patterns('__pycache__', '*.raw', '*.xml'))
    open(f'{d}/spicelib/{rel}', 'w').write(text)
    try:
        r = subprocess.run([sys.executable, VER + '/check.py', ','.join(sorted(pids)), '--out', d + '/ev'], capture_output=True, text=True, env=dict(os.environ, SPICELIB_REPO=d), timeout=200)
        caught = sorted(set(re.findall(r'VIOLATION property=(\S+)', r.stdout)))
        und = len(re.findall(r'UNDECIDED', r.stdout))
        rc = r.returncode
    except subprocess.TimeoutExpired:
        caught, und, rc = ['timeout'], 0, -1
    shutil.rmtree(d, ignore_errors=True)
    return dict(file=rel, fn=q, line=ln, desc=desc, pids=sorted(pids), caught=caught, undecided=und, rc=rc)


if __name__ == '__main__':
    out, sub = sys.argv[1:3]
    ops = set((sys.argv[3] if len(sys.argv) > 3 else 'del,neg,cmp,const,arg,bin').split(','))
    F = functions()
    jobs = []
    for path in sorted(glob.glob('/repo/spicelib/**/*.py', recursive=True)):
        rel = os.path.relpath(path, '/repo/spicelib')
        if not re.search(sub, rel):
            continue
        src = open(path).read()
        fd = Finder(); fd.visit(ast.parse(src))
        seen = set()
        for q, n in fd.found:
            pids = F.get(q) or F.get(q.split('.<locals>')[0])
            if not pids:
                continue
            for ln, desc, text in mutants(src, n, ops):
                if (ln, desc) in seen:
                    continue
                seen.add((ln, desc))
                try:
                    ast.parse(text)
                except SyntaxError:
                    continue
                jobs.append([len(jobs), rel, q, ln, desc, text, pids])
    prev = None
    if len(sys.argv) > 4:     # automut.py OUT.json file-substring ops function-regex: the survivors of OUT.json once more
        prev = json.load(open(out))
        alive = {(x['file'], x['line'], x['desc']) for x in prev if not x['caught'] and re.search(sys.argv[4], x['fn'])}
        jobs = [j for j in jobs if (j[1], j[3], j[4]) in alive]
    print(len(jobs), 'mutants', flush=True)
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(job, jobs, chunksize=4))
    if prev is not None:
        new = {(x['file'], x['line'], x['desc']): x for x in res}
        for x in res:
            print('caught' if x['caught'] else 'U' if x['undecided'] else 'alive', x['fn'], x['line'], x['desc'][:100].replace('\n', ' '))
        res = [new.get((x['file'], x['line'], x['desc']), x) for x in prev]
    json.dump(res, open(out, 'w'), indent=0)
    print(sum(bool(r['caught']) for r in res), 'reported of', len(res))
