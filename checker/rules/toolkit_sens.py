"""Sensitivities and extremes the analyses of sim/tookit give (P51)."""
from .util import *
from .raw_steps import lab_
from .server import paths
from .toolkit import WC, QS, MC, ELEMENTS, LAST
from .toolkit_data import judge, LD, X, DD, PD, DT

DONE, BENCH, PREPARED = (A(SELF, n) for n in ('analysis_executed', 'testbench_executed', 'testbench_prepared'))
# of one element only: the results don't depend on which of them have a tolerance of their own
TOLERANCES = {DD: {'R1': 1}, PD: {}, DT: {'R': 1, 'C': 1}}
EXECUTED = [(p, b, d, (p and b) or d) for p in (True, False) for b in (True, False) for d in (True, False)]


def near(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float, Fraction)) or not isinstance(b, (int, float, Fraction)):
        return a == b
    return abs(a - b) < 1e-6


class Loops:
    """what the lists and dictionaries built in the loops of a function contain, found from the turns of those loops"""

    def __init__(self, ps, measured):
        self.ps, self.measured = ps, measured
        self.entries = {}

    def answers(self, r, w):
        """the measures read on the path whose run is known"""
        for e in r.events:
            if e.kind == 'call' and e.name == 'get_measure_value' and ('res', e.n, e.name) not in w:
                run = e.arg(2, 'run')
                if run is None:
                    continue
                try:
                    w[('res', e.n, e.name)] = self.measured(evaluate(run, w))
                except KeyError:
                    raise Missing
                except Unknown:
                    pass
        return w

    def of(self, v):
        """the entries of the list v on all paths"""
        if v not in self.entries:
            out = []
            for r in self.ps:
                es = built(r, v)
                if es is None:
                    out = None
                    break
                out += [(r, e) for e in es if e.src is not None]
            self.entries[v] = out
        return self.entries[v]

    def value(self, v, r, env):
        """evaluate(), with the lists and dictionaries built on the way"""
        env = self.answers(r, dict(env))
        for _ in range(6):
            todo = [s for s in subvalues(v) if s not in env and s[0] in ('phi', 'grown', 'comp')]
            if not todo:
                break
            done = False
            for s in sorted(todo, key=lambda s: sum(1 for _ in subvalues(s))):
                try:
                    env[s] = self.one(s, r, env)
                    done = True
                except Missing:
                    raise
                except Unknown:
                    pass
            if not done:
                break
        return evaluate(v, env)

    def one(self, s, r, env):
        if s[0] == 'comp':
            if any(x[0] == 'res' and x[2] == 'get_measure_value' for y in s[2] for x in subvalues(y)):
                src, ifs = s[3][0]
                if len(s[3]) > 1:
                    raise Unknown
                out = []
                src_v = self.value(src, r, env)
                for w in bindings(src, {**env, src: src_v}):
                    if all(self.value(i, r, w) for i in ifs):
                        out.append(tuple(self.value(x, r, self.fresh(w)) for x in s[2]))
                return dict(out) if s[1] == 'DictComp' else [x[0] for x in out]
            raise Unknown
        if s[0] == 'grown' and s[1] == 'dict' and len(s[2]) == 1:
            key, val = s[2][0]
            loops = outermost(key)
            loops = [e.value for e in r.events if e.kind == 'iter' and not contains(e.value, s) and any(e.value == x or x in outermost_sources(e.value) for x in loops)]
            if len(set(loops)) != 1:
                raise Unknown
            src = loops[0]
            d = {}
            outer = dict(env)
            for x in subvalues(src):
                if x[0] in ('grown', 'phi', 'comp') and x not in outer:
                    try:
                        outer[x] = self.value(x, r, env)
                    except Missing:
                        raise
                    except Unknown:
                        pass
            for w in bindings(src, outer):
                w = {k: y for k, y in w.items() if k[0] not in ('phi', 'grown') or k in outer and contains(src, k) or k in env}
                d[self.value(key, r, self.fresh(w))] = self.value(val, r, self.fresh(w))
            return d
        if s[0] == 'phi':
            es = self.of(s)
            if not es:
                raise Unknown
            srcs = {e.src for _, e in es if e.added} & {e.value for e in r.events if e.kind == 'iter'}
            es = [(p, e) for p, e in es if e.src in srcs]
            if len(srcs) != 1:
                raise Unknown
            src = srcs.pop()
            outer = dict(env)
            for x in subvalues(src):
                if x[0] in ('grown', 'phi', 'comp') and x not in outer:
                    try:
                        outer[x] = self.value(x, r, env)
                    except Missing:
                        raise
                    except Unknown:
                        pass
            out = []
            for w in bindings(src, outer):
                hit = None
                for p, e in es:
                    try:
                        if all(bool(self.value(l, p, self.fresh(w))) == pol for l, pol in e.facts if l != s):
                            hit = (p, e)
                            break
                    except Unknown:
                        continue
                if hit is None:
                    raise Unknown
                if hit[1].added:
                    out.append(self.value(hit[1].elt, hit[0], self.fresh(w)))
            return out
        raise Unknown

    @staticmethod
    def fresh(w):
        return dict(w)


def outermost(v):
    """the sources of the loops that v itself is an element of"""
    if not isinstance(v, tuple) or not v:
        return []
    if v[0] in ('elem', 'key', 'idx'):
        return [v[1]]
    return [y for x in v if isinstance(x, tuple) for y in outermost(x)]


def outermost_sources(src):
    """what the elements of a loop over src are named after"""
    out = [src]
    if src[0] == 'mcall' and src[2] in ('items', 'keys', 'values'):
        out += outermost_sources(src[1])
    elif src[0] == 'call' and src[1] in ('enumerate', 'list', 'tuple', 'sorted', 'reversed', 'zip'):
        out += [y for x in src[2] for y in outermost_sources(x)]
    return out


def loops_judge(c, rule, lab, ps, env, what, want, measured, models=None):
    L = Loops([r for r in ps if r.outcome.kind in ('return', 'loopback')], measured)
    for r in ps:
        if r.outcome.kind == 'raise' and r.outcome.value == '*':
            continue
        w = dict(env)
        if models:
            for e in r.events:
                if e.kind == 'call' and e.name in models:
                    w[('res', e.n, e.name)] = models[e.name]
        sure, depth = True, 0
        for e in r.events:
            depth += (e.kind == 'iter') - (e.kind == 'loopend')
            if e.kind == 'assume':
                try:
                    if bool(L.value(e.lit, r, w)) != e.pol:
                        sure = False
                        break
                except Missing:
                    if depth <= 0:
                        c.bad(rule, lab, what + ' raises an exception', r)
                    sure = False
                    break
                except Unknown:
                    if depth <= 0:  # the others are conditions of a turn
                        sure = False
                        break
            elif e.kind == 'loop0':
                try:
                    if list(L.value(e.value, r, w)):
                        sure = False
                        break
                except Unknown:
                    sure = False
                    break
        if not sure:
            continue
        if r.outcome.kind == 'raise':
            c.bad(rule, lab, what + ' raises an exception', r)
            continue
        if r.outcome.kind != 'return':
            continue
        try:
            got = L.value(r.outcome.value, r, w)
        except Missing:
            c.bad(rule, lab, what + ' raises an exception', r)
            continue
        except Unknown:
            continue
        c.require(near(got, want), rule, lab, what + f' gives {short(got)} instead of {short(want)}', r)


def short(v):
    if isinstance(v, Fraction):
        return str(float(v))
    if isinstance(v, dict):
        return '{' + ', '.join(f'{k}: {short(x)}' for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        return '(' + ', '.join(short(x) for x in v) + ')'
    return repr(v)


def diffs(values, i):
    d = [abs(values[n] - values[n | 1 << i]) for n in range(len(values)) if not n & 1 << i]
    mean = sum(d) / len(d)
    return mean, (sum((x - mean) ** 2 for x in d) / len(d)) ** 0.5


@prop('P51', 'Sensitivities and extremes follow from the measures of the runs',
      'QuickSensitivityAnalysis.get_sensitivity_data() gives for an element of the circuit the absolute difference between the measure of its run (its place among the elements analysed) and the one of the nominal run -1, in percent of the '
      'sum of these differences over all elements (0 if that sum is 0); for "*" a dictionary of all elements. WorstCaseAnalysis.make_sensitivity_analysis() gives for an element the mean, and as second value the standard deviation, of '
      'the absolute differences between the measures of each pair of runs (of 0 … last_run_number) that differ only in the bit of the element, both in percent of the sum of the means (0 and 0 if that is 0); for "*" a dictionary of '
      'all elements. Both give None unless the analysis, or a prepared testbench, was executed. get_min_max_measure_value() of the worst-case analysis gives the least and the greatest value of the measure if every simulation gave one, '
      'else None, and None before the analysis was executed. Montecarlo.analyse_measurement() gives all values of the measure, or None before.',
      ['inputs', 'histories'],
      'any number of elements and any values of the measures',
      'The tests look at one circuit with few elements of which all measures exist.',
      [WC, QS, MC],
      [dict(name='quick', where=QS + ':QuickSensitivityAnalysis.get_sensitivity_data'), dict(name='worst case', where=WC + ':WorstCaseAnalysis.make_sensitivity_analysis, get_min_max_measure_value'),
       dict(name='montecarlo', where=MC + ':Montecarlo.analyse_measurement')],
      'All paths are enumerated; the lists and dictionaries built in loops are summarised as comprehensions (what a turn of the loop adds, under which conditions), and the value returned is decided by constant propagation for '
      'representative measures.',
      'path enumeration with loop summaries and constant propagation',
      'All paths; the measures are representatives.', ['get_measure_value(measure, run=n) gives the measure of run n (P23)'])
def p51(c: Ctx):
    R1 = c.rule('P51.quick', 'the quick sensitivity is the share of the difference to the nominal run', 6)
    R2 = c.rule('P51.worst', 'the sensitivity is the share of the mean difference between runs that differ in one element', 6)
    R3 = c.rule('P51.extremes', 'least and greatest values are those of the measure', 4)
    R4 = c.rule('P51.executed', 'there are no results before the analysis was executed', 6)
    els = ['R1', 'R2', 'C1']
    quick = [('three elements', {-1: 10, 0: 12, 1: 7, 2: 25}), ('no difference', {-1: 10, 0: 10, 1: 10, 2: 10}), ('one that matters', {-1: 5, 0: 5, 1: 3, 2: 5})]
    with c.attempt('get_sensitivity_data'):
        k = c.p.cls('QuickSensitivityAnalysis')
        lab = lab_(k, 'get_sensitivity_data')
        f = c.p.lookup(k, 'get_sensitivity_data')
        ps = list(paths(c, k, 'get_sensitivity_data', opaque={'read_logfiles', 'get_measure_value'}))
        executed(c, R4, lab, ps)
        for r in ps:
            for e in r.events:
                if e.kind == 'call' and e.name == 'get_measure_value':
                    c.require(e.arg(0, 'measure') == P('measure'), R1, lab, f'the measure {show(e.arg(0, "measure"))} is read', r)
        for what, d in quick:
            total = sum(abs(d[i] - d[-1]) for i in range(3))
            want = {e: abs(d[i] - d[-1]) / total * 100 if total else 0 for i, e in enumerate(els)}
            for ref in ('*', *els):
                loops_judge(c, R1, lab, ps, {PREPARED: True, BENCH: False, DONE: True, ELEMENTS: els, LAST: 3, P('ref'): ref, **TOLERANCES}, f'with {what}, {ref!r}', want if ref == '*' else want[ref], lambda run: d[run])
    worst = [('three elements', [10, 12, 15, 21, 9, 30, 2, 1], els), ('two elements', [10, 12, 15, 21], els[:2]), ('no difference', [5, 5, 5, 5], els[:2]), ('one element', [3, 4], els[:1])]
    with c.attempt('make_sensitivity_analysis'):
        k = c.p.cls('WorstCaseAnalysis')
        lab = lab_(k, 'make_sensitivity_analysis')
        ps = list(paths(c, k, 'make_sensitivity_analysis', opaque={'read_logfiles', 'get_measure_value'}))
        executed(c, R4, lab, ps)
        for r in ps:
            for e in r.events:
                if e.kind == 'call' and e.name == 'get_measure_value':
                    c.require(e.arg(0, 'measure') == P('measure'), R2, lab, f'the measure {show(e.arg(0, "measure"))} is read', r)
        for what, d, es in worst:
            s = {e: diffs(d, i) for i, e in enumerate(es)}
            total = sum(x for x, _ in s.values())
            want = {e: tuple(x / total * 100 if total else 0 for x in s[e]) for e in es}

            def measured(run):
                if not 0 <= run < len(d):
                    raise KeyError(run)
                return d[run]
            for ref in ('*', *es):
                loops_judge(c, R2, lab, ps, {PREPARED: True, BENCH: True, DONE: False, ELEMENTS: es, LAST: len(d) - 1, P('ref'): ref, **TOLERANCES}, f'with {what}, {ref!r}', want if ref == '*' else want[ref], measured)
    with c.attempt('get_min_max_measure_value'):
        k = c.p.cls('WorstCaseAnalysis')
        lab = lab_(k, 'get_min_max_measure_value')
        f = c.p.lookup(k, 'get_min_max_measure_value')
        a = P(f.arg_names()[1])
        ps = list(paths(c, k, 'get_min_max_measure_value', opaque={'read_logfiles', 'get_measure_value'}))
        sims = A(SELF, 'simulations')
        for done, data, n, want in ((True, [3, 1, 2], 3, [1, 3]), (True, [3, 1], 3, None), (True, [5], 1, [5, 5]), (False, [3, 1, 2], 3, None)):
            judge(c, R3 if done else R4, lab, ps, {DONE: done, sims: ['s'] * n, a: 'm'}, {'read_logfiles': lambda r, x, kw: {'m': data, 'n': [7, 8, 9]}},
                  f'{data} of {n} simulations' + ('' if done else ' before the analysis was executed'), want)
    with c.attempt('analyse_measurement'):
        k = c.p.cls('Montecarlo')
        lab = lab_(k, 'analyse_measurement')
        a = P(c.p.lookup(k, 'analyse_measurement').arg_names()[1])
        ps = list(paths(c, k, 'analyse_measurement', opaque={'read_logfiles', 'get_measure_value'}))
        for done, want in ((True, [3, 1, 2]), (False, None)):
            judge(c, R3 if done else R4, lab, ps, {DONE: done, a: 'm'}, {'read_logfiles': lambda r, x, kw: {'m': [3, 1, 2], 'n': [7]}}, 'the measure' + ('' if done else ' before the analysis was executed'), want)


def executed(c, rule, lab, ps):
    for p, b, d, want in EXECUTED:
        for r in ps:
            if r.outcome.kind != 'return':
                continue
            env = {PREPARED: p, BENCH: b, DONE: d}
            if possible(r, env) is not False and not any(e.kind == 'assume' and not decided(e, env) for e in r.events if contains(e.lit or NONE, SELF) and any(contains(e.lit, x) for x in env)):
                none = r.outcome.value == NONE
                c.require(none == (not want), rule, lab, f'with prepared={p}, testbench executed={b}, analysis executed={d} ' + ('nothing is returned' if none else 'a result is returned'), r)


def decided(e, env):
    try:
        return bool(evaluate(e.lit, env)) == e.pol
    except Unknown:
        return False
