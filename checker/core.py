"""Obligations, findings, evidence and the command-line driver shared by all property checks."""
from __future__ import annotations
import json
import os
import sys
import time
from contextlib import contextmanager
from pathlib import Path
from .project import Project, AnalysisBroken, Func, Cls, REPO
from .paths import Walker, PathResult, Ev, show, TooManyPaths

VERIF = Path(__file__).resolve().parent.parent


class Finding:
    def __init__(self, rule, construct, message, trace=None):
        self.rule, self.construct, self.message, self.trace = rule, construct, message, trace or []

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Ctx:
    """What one property check works with."""

    def __init__(self, pid: str, tier: str, project: Project | None = None):
        self.pid, self.tier = pid, tier
        self.p = project or Project()
        self.findings: dict[str, Finding] = {}
        self.rules: dict[str, dict] = {}
        self.functions: set[str] = set()
        self.paths = 0
        self.notes: list[str] = []
        self.undecided: list[str] = []

    # -- registration ------------------------------------------------
    def rule(self, rid: str, text: str, floor: int = 1):
        self.rules.setdefault(rid, {'text': text, 'obligations': 0, 'constructs': set(), 'floor': floor})
        return rid

    def ok(self, rid: str, construct, n=1):
        r = self.rules[rid]
        r['obligations'] += n
        r['constructs'].add(where(construct))

    def bad(self, rid: str, construct, message, path: PathResult | None = None, node=None):
        r = self.rules[rid]
        r['obligations'] += 1
        w = where(construct)
        r['constructs'].add(w)
        trace = [repr(e) for e in path.events][:60] + [repr(path.outcome)] if path is not None else []
        line = getattr(node, 'lineno', None)
        if line:
            trace = [f"line {line}"] + trace
        f = Finding(rid, w, message, trace)
        self.findings.setdefault(f.key + '|' + message, f)

    def require(self, cond, rid, construct, message, path=None, node=None):
        if cond:
            self.ok(rid, construct)
        else:
            self.bad(rid, construct, message, path, node)
        return bool(cond)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # -- analysis helpers ---------------------------------------------
    def walk(self, func: Func, ctx: Cls | None = None, bind=None, **k) -> list[PathResult]:
        c = ctx if ctx is not None else func.cls
        w = self.last = Walker(self.p, c, **k)
        res = w.run(func, bind)
        self.functions.add(func.where())
        self.functions.update(w.stats['inlined'])
        self.paths += len(res)
        return res

    def walk_loops(self, func: Func, ctx: Cls | None = None, bind=None, **k):
        """(paths, loop iterations): the bodies of for-loops are followed on the side, once each"""
        w = Walker(self.p, ctx if ctx is not None else func.cls, side_loops=True, **k)
        res = w.run(func, bind)
        self.functions.add(func.where())
        self.functions.update(w.stats['inlined'])
        self.paths += len(res) + len(w.loop_traces)
        return res, w.loop_traces

    @contextmanager
    def attempt(self, what):
        """one construct the analysis may fail to follow: recorded as undecided instead of ending the check"""
        try:
            yield
        except Exception as e:
            if STRICT and not isinstance(e, AnalysisBroken):
                raise
            self.undecided.append(f"{where(what)}: {type(e).__name__}: {e}")

    def saw(self, func):
        self.functions.add(func.where() if isinstance(func, Func) else str(func))


def where(c):
    if isinstance(c, Func):
        return c.where()
    if isinstance(c, Cls):
        return f"{c.module.rel}:{c.name}"
    return str(c)


STRICT = bool(os.environ.get('SL_STRICT'))  # development: a construct the analysis trips over is an error, not undecided


# ---------------------------------------------------------------- known findings
def load_known():
    """lines 'known: property=<id> key=<rule>|<construct> :: what fails' ; 'fixed: ...' lines suppress nothing"""
    out = []
    f = VERIF / 'known_findings.txt'
    if f.exists():
        for ln in f.read_text().splitlines():
            if ln.startswith('known:'):
                body = ln[len('known:'):].strip()
                pid = body.split()[0].split('=', 1)[1]
                rest = body.split('key=', 1)[1]
                key, _, what = rest.partition(' :: ')
                out.append((pid, key.strip(), what.strip()))
    return out


def run_property(pid: str, tier: str, prop, checkfn, level, explanation, assumptions, out_dir=None, quiet=False) -> int:
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        checkfn(ctx)
    except Exception as e:
        if STRICT and not isinstance(e, AnalysisBroken):
            raise
        ctx.undecided.append(f"the rest of the check: {type(e).__name__}: {e}")
    for rid, r in ctx.rules.items():
        if r['obligations'] < r['floor'] and not ctx.findings:
            ctx.undecided.append(f"rule {rid} examined {r['obligations']} obligations, expected at least {r['floor']} ({r['text']})")
    if not ctx.findings and not any(r['obligations'] for r in ctx.rules.values()):
        print(f"ANALYSIS-ERROR property={pid}: nothing could be analysed: {ctx.undecided}", file=sys.stderr)
        return 2
    known = [(k, w) for p, k, w in load_known() if p == pid]
    viol, listed = [], []
    for f in ctx.findings.values():
        m = [w for k, w in known if k == f.key or k == f.key + '|' + f.message]
        if m:
            listed.append((f, m[0]))
        else:
            viol.append(f)
    out_dir = Path(out_dir or VERIF / 'evidence')
    out_dir.mkdir(exist_ok=True, parents=True)
    nob = sum(r['obligations'] for r in ctx.rules.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'explanation': explanation,
            'functions_analysed': len(ctx.functions),
            'paths_enumerated': ctx.paths,
            'obligations': nob,
            'rules': {rid: {'rule': r['text'], 'obligations': r['obligations'], 'constructs': sorted(r['constructs'])[:60]}
                      for rid, r in ctx.rules.items()},
            'functions': sorted(ctx.functions)[:200],
            'notes': ctx.notes,
            'undecided': ctx.undecided,
            'analysed_tree': str(ctx.p.repo),
            'modules_parsed': len(ctx.p.modules),
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
        'known_findings': [f.key for f, _ in listed],
    }
    (out_dir / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + '\n')
    for f, w in listed:
        print(f"KNOWN-FINDING: property={pid} {w or f.message} [{f.key}]")
    for u in ctx.undecided:
        print(f"UNDECIDED: property={pid} {u}")
    rc = 0
    rp = out_dir / f"{pid}.replay.txt"
    if viol:
        lines = []
        for f in viol:
            lines.append(f"property {pid}\nrule {f.rule}: {ctx.rules[f.rule]['text']}\nconstruct {f.construct}\n{f.message}")
            lines += ['    ' + t for t in f.trace]
            lines.append('')
        rp.write_text('\n'.join(lines))
        for f in viol:
            print(f"  {f.rule} {f.construct}: {f.message}")
        print(f"VIOLATION property={pid} replay={rp}")
        rc = 1
    else:
        if rp.exists():
            rp.unlink()
        if not quiet:
            print(f"OK property={pid} rules={len(ctx.rules)} obligations={nob} functions={len(ctx.functions)} paths={ctx.paths}"
                  f" wall={time.time() - t0:.2f}s")
    return rc
