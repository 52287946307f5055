"""Deviations of components and parameters (P50) and logs of the runs (P49) of the analyses of sim/tookit."""
from .util import *
from .raw_steps import lab_
from .server import QUIET
from .toolkit import TOL, SIM, CLASSES, SIMS
import re

DD, PD, DT, LOG, RES = (A(SELF, n) for n in ('device_deviations', 'parameter_deviations', 'default_tolerance', 'log_data', 'simulation_results'))
ALLOWED = A(SELF, 'devices_with_deviation_allowed')
PREFIXES = ['R', 'C', 'L', 'V', 'I']
KINDS = {('attr', ('global', 'DeviationType'), n): n for n in ('tolerance', 'minmax', 'none')}
PARTS = ['R1', 'R2', 'C1', 'Q1', 'X1', 'V1', 'M5']
VALUES = {'R1': '10', 'R2': '{rval}', 'C1': '', 'V1': '5', 'L1': '3', 'Q1': '2N2222'}


def D(lo, hi, typ, dist='uniform'):
    return Obj('ComponentDeviation', min_val=lo, max_val=hi, typ=typ, distribution=dist)


def both(c, k, m, opaque=()):
    """the paths of the method and those to the end of the turns of its loops"""
    f = c.p.lookup(k, m)
    op = set(opaque)
    ps, ts = c.walk_loops(f, k, any_iteration=True, opaque=op, no_raise=(QUIET | op) - {'to_float', 'scan_eng', 'read_logfile', 'LTSpiceLogReader', 'QspiceLogReader'})
    return [r for r in ps if not impossible(r)], [r for r in ts if not impossible(r)]


def number(recv, a, kw):
    x = a[0]
    if isinstance(x, (int, float)):
        return x
    try:
        return float(x)
    except ValueError:
        if kw.get('accept_invalid', a[1] if len(a) > 1 else True):
            return x
        raise


def fields(c):
    """the fields of ComponentDeviation and their default values, None if it isn't a plain dataclass"""
    k = c.p.cls('ComponentDeviation')
    if any(isinstance(n, ast.FunctionDef) and n.name in ('__init__', '__new__', '__post_init__') for n in k.node.body):
        return None
    out = []
    for n in k.node.body:
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            d = None
            if isinstance(n.value, ast.Constant):
                d = n.value.value
            elif isinstance(n.value, ast.Attribute):
                d = n.value.attr
            out.append((n.target.id, d))
    return out


def models(c):
    fs = fields(c)

    def deviation(recv, a, kw):
        if fs is None or len(a) > len(fs):
            raise Unknown
        got = dict(fs)
        got.update(zip([n for n, _ in fs], a))
        got.update(kw)
        return Obj('ComponentDeviation', **got)

    def components(recv, a, kw):
        pre = a[0] if a else kw.get('prefixes', '*')
        return [x for x in PARTS if pre == '*' or x[0] in pre]

    def first(recv, a, kw):
        if not a[0] and len(a) > 1:
            return a[1]
        return list(a[0])[0]

    def plain_number(recv, a, kw):
        return number(recv, a, {'accept_invalid': False})
    return {'ComponentDeviation': deviation, 'get_components': components, 'to_float': number, 'scan_eng': plain_number, 'clean': lambda r, a, kw: r,
            'get_component_value': lambda r, a, kw: VALUES[a[0]], 'get_parameter': lambda r, a, kw: {'rval': '3k'}[a[0]], 'next': first}


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def what_(v):
    return repr(v)


def judge(c, rule, lab, ps, env, calls, what, want=Ellipsis, state=None, error=None):
    """decides what the paths do for the given values: the value returned, the final values of `state`, or the exception raised"""
    n = 0
    for r, w, sure in stepped(ps, env, calls):
        if not sure:
            continue
        n += 1
        o = r.outcome
        if sure == BREAKS or o.kind == 'raise' and o.value == '*':
            c.bad(rule, lab, what + ' raises an exception', r)
            continue
        if error is not None:
            c.require(o.kind == 'raise' and error in str(o.value), rule, lab, what + f' does not raise {error}', r)
            continue
        if o.kind == 'raise':
            c.bad(rule, lab, what + f' raises {o.value}', r)
            continue
        if want is not Ellipsis and o.kind == 'return':
            try:
                got = evaluate(o.value, w)
                c.require(same(got, want), rule, lab, what + f' gives {what_(got)} instead of {what_(want)}', r)
            except Missing:
                c.bad(rule, lab, what + ' raises an exception', r)
            except Unknown:
                pass
        for path, v in (state or {}).items():
            try:
                got = evaluate(path, w)
            except Unknown:
                continue
            c.require(same(got, v), rule, lab, what + f' leaves {show(path)} as {what_(got)} instead of {what_(v)}', r)
    return n


P50_ENV = {**KINDS, ALLOWED: PREFIXES}
N0 = D(0.0, 0.0, 'none')


def start():
    return {**P50_ENV, DT: {p: N0 for p in PREFIXES}, DD: {'R2': D(1, 2, 'minmax')}, PD: {'rval': D(3, 4, 'minmax')}}


# reference, value, distribution (None: the default one), what is changed
TOLERANCES = [('R1', 0, None, DD), ('C', 0, None, DT), ('R', 0.1, None, DT), ('I', 0.2, 'normal', DT), ('R1', 0.1, 'normal', DD), ('V1', 0.3, None, DD), ('R2', 0.1, None, DD), ('R9', 0.1, None, None), ('C2', 0.1, 'normal', None), ('Q1', 0.1, None, DD), ('X1', 0.2, None, DD),
              ('L1', 0.1, None, None)]


@prop('P50', 'Tolerances and deviations are kept for the component they were set for',
      'In the toolkit analyses, set_tolerance() of an allowed prefix (R, C, L, V, I) sets the default tolerance of that prefix, of a component of the circuit its own deviation, and of anything else nothing; a tolerance has the type '
      'tolerance and the distribution given (uniform by default). set_tolerances() does the same for every entry of the dictionary. set_deviation() and set_parameter_deviation() keep minimum, maximum and distribution (type minmax) for the '
      'component or parameter named, others being left alone. get_component_value_deviation_type() raises ValueError for other prefixes and gives, with the value as a number, the own deviation of the component, else that of '
      'its prefix; with a value that is empty or not a number, the value as it is and no deviation. get_parameter_value_deviation_type() gives the value and the deviation of the parameter. A deviation is not valid if its two bounds '
      'are equal or its type is none. get_components("*") gives the components with an allowed prefix, in the order of the circuit, and get_components() of other prefixes what the editor gives. reset_tolerances() leaves no deviation '
      'at all and clear_simulation_data() no simulation and no result.',
      ['inputs', 'histories'],
      'any references, values, distributions and deviations set before',
      'The tests run two circuits with a handful of tolerances; a tolerance of the wrong component or a lost distribution changes the statistics only.',
      [TOL],
      [dict(name='tolerances', where=TOL + ':ToleranceDeviations.set_tolerance, set_tolerances, set_deviation, set_parameter_deviation'),
       dict(name='lookup', where=TOL + ':ToleranceDeviations.get_component_value_deviation_type, get_parameter_value_deviation_type, get_components'),
       dict(name='reset', where=TOL + ':ToleranceDeviations.reset_tolerances, clear_simulation_data')],
      'All paths of each method are enumerated and their conditions, the values returned and the attributes left are decided by constant propagation for representative references, components and deviations.',
      'path enumeration with constant propagation over the attributes of the object',
      'All paths, for every analysis class; the inputs are representatives of the cases distinguished in the property.', ['to_float() gives a number for texts of numbers and refuses others'])
def p50(c: Ctx):
    R1 = c.rule('P50.set', 'a tolerance or deviation is kept under its reference with its distribution', 12)
    R2 = c.rule('P50.all', 'every entry of set_tolerances() is set', 4)
    R3 = c.rule('P50.get', 'a component has its own deviation, else the one of its prefix', 8)
    R4 = c.rule('P50.valid', 'a deviation without extent is not valid', 4)
    R5 = c.rule('P50.components', 'components with an allowed prefix are listed in order', 3)
    R6 = c.rule('P50.reset', 'nothing is left after a reset', 4)
    calls = models(c)
    op = {'get_components', 'to_float', 'scan_eng', 'get_component_value', 'get_parameter'}
    for cn in CLASSES:
        k = c.p.cls(cn)
        with c.attempt(f'{cn} set_tolerance'):
            lab = lab_(k, 'set_tolerance')
            ps, ts = both(c, k, 'set_tolerance', op)
            for ref, tol, dist, to in TOLERANCES:
                env = start()
                state = {p: env[p] for p in (DT, DD, PD)}
                if to is not None:
                    state[to] = {**state[to], ref: D(tol, -tol, 'tolerance', dist or 'uniform')}
                tolerance(c, R1, lab, ps, {**env, P('ref'): ref, P('new_tolerance'): tol, P('distribution'): dist or default(c, k, 'set_tolerance')}, calls, f'set_tolerance({ref!r}, {tol}' + (f', {dist!r})' if dist else ')'), state)
        with c.attempt(f'{cn} set_tolerances'):
            lab = lab_(k, 'set_tolerances')
            ps, ts = both(c, k, 'set_tolerances', op)
            for dist in (None, 'normal'):
                given = {ref: tol for ref, tol, _, _ in TOLERANCES}
                where = {ref: to for ref, _, _, to in TOLERANCES}
                env = start()
                base = {**env, P('new_tolerances'): given, P('distribution'): dist or default(c, k, 'set_tolerances')}
                for r, w, sure in stepped(ts, base, calls):
                    if not sure:
                        continue
                    ref = w.get(('key', P('new_tolerances')), w.get(('elem', P('new_tolerances'))))
                    if not isinstance(ref, str):
                        continue
                    if sure == BREAKS or r.outcome.kind != 'loopbody' or r.outcome.value == ('const', 'break'):
                        c.bad(R2, lab, f'set_tolerances() stops at {ref!r}', r)
                        continue
                    state = {p: env[p] for p in (DT, DD, PD)}
                    if where[ref] is not None:
                        state[where[ref]] = {**state[where[ref]], ref: D(given[ref], -given[ref], 'tolerance', dist or 'uniform')}
                    compare(c, R2, lab, r, w, state, f'{ref!r} of set_tolerances()')
                left(c, R2, lab, ps, base, calls, P('new_tolerances'))
            for r in ps:
                if r.outcome.kind == 'return':
                    c.require(any(e.kind in ('loop0', 'iter', 'loopend') and whole(e.value) == P('new_tolerances') or e.kind in ('loop0', 'iter', 'loopend') and contains(e.value, P('new_tolerances')) for e in r.events), R2, lab,
                              'the entries of the dictionary are not all set', r)
        for m, to in (('set_deviation', DD), ('set_parameter_deviation', PD)):
            with c.attempt(f'{cn} {m}'):
                lab = lab_(k, m)
                ps, ts = both(c, k, m, op)
                for ref in ('R1', 'R2', 'rval'):
                    for dist in (None, 'normal'):
                        env = start()
                        state = {p: env[p] for p in (DT, DD, PD)}
                        state[to] = {**state[to], ref: D(7, 9, 'minmax', dist or 'uniform')}
                        judge(c, R1, lab, ps, {**env, P('ref'): ref, P('min_val'): 7, P('max_val'): 9, P('distribution'): dist or default(c, k, m)}, calls, f'{m}({ref!r}, 7, 9' + (f', {dist!r})' if dist else ')'), state=state)
        with c.attempt(f'{cn} get_component_value_deviation_type'):
            m = 'get_component_value_deviation_type'
            lab = lab_(k, m)
            ps, ts = both(c, k, m, op)
            a = P(c.p.lookup(k, m).arg_names()[1])
            own, pre = D(0.1, -0.1, 'tolerance', 'normal'), D(0.2, -0.2, 'tolerance')
            env = {**start(), DD: {'R1': own, 'R2': own, 'L1': own, 'V': own}, DT: {'R': pre, 'V': pre, 'C': pre, 'L': N0, 'I': N0}}
            for ref, want in (('R1', [10.0, own]), ('R2', ['{rval}', N0]), ('C1', ['', N0]), ('V1', [5.0, pre]), ('L1', [3.0, own])):
                judge(c, R3, lab, ps, {**env, a: ref}, calls, f'{m}({ref!r}) with value {VALUES[ref]!r}', want)
            judge(c, R3, lab, ps, {**env, a: 'Q1'}, calls, f"{m}('Q1')", error='ValueError')
        with c.attempt(f'{cn} get_parameter_value_deviation_type'):
            m = 'get_parameter_value_deviation_type'
            lab = lab_(k, m)
            ps, ts = both(c, k, m, op)
            a = P(c.p.lookup(k, m).arg_names()[1])
            judge(c, R3, lab, ps, {**start(), DD: {'rval': N0}, a: 'rval'}, calls, f"{m}('rval')", ['3k', D(3, 4, 'minmax')])
        with c.attempt(f'{cn} get_components'):
            m = 'get_components'
            lab = lab_(k, m)
            ps, ts = both(c, k, m, op)
            a = P(c.p.lookup(k, m).arg_names()[1])
            for pre in ('*', 'R', 'Q', 'RV'):
                want = [x for x in PARTS if (x[0] in PREFIXES if pre == '*' else x[0] in pre)]
                judge(c, R5, lab, ps, {**start(), a: pre}, calls, f'get_components({pre!r})', want)
        with c.attempt(f'{cn} reset_tolerances'):
            lab = lab_(k, 'reset_tolerances')
            ps, ts = both(c, k, 'reset_tolerances', op)
            own = D(0.1, -0.1, 'tolerance', 'normal')
            judge(c, R6, lab, ps, {**start(), DT: {**{p: N0 for p in PREFIXES}, 'R': own}, DD: {'R1': own}, A(SELF, 'testbench_prepared'): True, A(SELF, 'last_run_number'): 5}, calls, 'reset_tolerances()',
                  state={DT: {p: N0 for p in PREFIXES}, DD: {}, PD: {}, A(SELF, 'testbench_prepared'): False, A(SELF, 'last_run_number'): 0})
        with c.attempt(f'{cn} clear_simulation_data'):
            lab = lab_(k, 'clear_simulation_data')
            ps, ts = both(c, k, 'clear_simulation_data', op)
            judge(c, R6, lab, ps, {SIMS: ['s1', 's2'], RES: {'log_data': 1}, A(SELF, 'analysis_executed'): True}, calls, 'clear_simulation_data()', state={SIMS: [], RES: {}, A(SELF, 'analysis_executed'): False})
    with c.attempt('is_not_valid'):
        k = c.p.cls('ComponentDeviation')
        ps, ts = both(c, k, 'is_not_valid')
        for d, want in ((D(0.1, -0.1, 'tolerance'), False), (D(2, 3, 'minmax'), False), (D(3, 2, 'minmax'), False), (D(2, 2, 'minmax'), True), (D(0.0, 0.0, 'tolerance'), True), (D(0.0, 0.0, 'none'), True), (D(0.1, 0.2, 'none'), True)):
            env = {**KINDS, SELF: d, **{A(SELF, n): v for n, v in d.fields.items()}}
            judge(c, R4, lab_(k, 'is_not_valid'), ps, env, calls, f'is_not_valid() of {d}', want)


def default(c, k, m):
    """the default value of the parameter distribution"""
    a = c.p.lookup(k, m).node.args
    names = [x.arg for x in a.args]
    ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = ds.get('distribution')
    return d.value if isinstance(d, ast.Constant) else 'uniform'


def like(got, want):
    """the same deviations; the upper bound of a tolerance does not matter as long as it differs from the lower one"""
    if isinstance(got, Obj) and isinstance(want, Obj) and got.cls == want.cls and want.fields.get('typ') == 'tolerance':
        f, g = dict(got.fields), dict(want.fields)
        a, b = f.pop('max_val', None), g.pop('max_val', None)
        return f == g and (a != f.get('min_val')) == (b != g.get('min_val'))
    if isinstance(got, dict) and isinstance(want, dict):
        return got.keys() == want.keys() and all(like(got[x], want[x]) for x in got)
    return same(got, want)


def compare(c, rule, lab, r, w, state, what):
    for path, v in state.items():
        try:
            got = evaluate(path, w)
        except Unknown:
            continue
        c.require(like(got, v), rule, lab, what + f' leaves {show(path)} as {what_(got)} instead of {what_(v)}', r)


def tolerance(c, rule, lab, ps, env, calls, what, state):
    for r, w, sure in stepped(ps, env, calls):
        if not sure:
            continue
        if sure == BREAKS or r.outcome.kind == 'raise':
            c.bad(rule, lab, what + ' raises an exception', r)
            continue
        compare(c, rule, lab, r, w, state, what)


def LD(steps, data, count):
    return Obj('LogfileData', stepset=steps, dataset=data, step_count=count, measure_count=len(data))


def X(re_):
    return Obj('LTComplex', real=re_, imag=0.0)


ADDED = [  # data kept, data added, data after
    (LD({}, {}, 0), LD({'run': [0, 1]}, {'v': [5, 6], 'w': [7, 8]}, 2), LD({'run': [0, 1]}, {'v': [5, 6], 'w': [7, 8]}, 2)),
    (LD({'run': [0, 1]}, {'v': [5, 6]}, 2), LD({'run': [2, 3, 4]}, {'v': [7, 8, 9]}, 3), LD({'run': [0, 1, 2, 3, 4]}, {'v': [5, 6, 7, 8, 9]}, 5)),
    (LD({'run': [0]}, {'v': [5]}, 1), LD({'run': [1], 't': [3]}, {'v': [6], 'w': [7]}, 1), LD({'run': [0, 1], 't': [3]}, {'v': [5, 6], 'w': [7]}, 2)),
]
OWN_LOG = A(SELF, 'log_data')


@prop('P49', 'The logs of the runs of an analysis are gathered completely and in order',
      'SimAnalysis.add_log_data() adds every step variable and every measure of the log to the data of the analysis: those not seen before as a copy of the list, the others behind the values already there, and adds the number of '
      'steps; with None it does nothing. SimAnalysis.read_logfiles() starts from empty data, reads the log file of every simulation that is not None, in order, adds it, and returns the data. read_logfile() reads the log file of the '
      'run with the reader of its simulator (LTspice or Qspice, ValueError for others) and gives None if the file does not exist or its encoding is not recognised. ToleranceDeviations.read_logfiles() raises RuntimeError unless the '
      'analysis or the testbench was executed, reads the logs only once, and, when they have no step variables, makes the step variable run from the measure runm if there is one (the rounded real part of complex values), else '
      '0, 1, 2, … for as many values as the measures have, with the step count to it. ToleranceDeviations.add_log() ignores runs that failed and logs that cannot be read (None is returned); otherwise the log, given the step variable run '
      'if it has none (from its measure run, else counting on from the last run), is added once and returned.',
      ['inputs', 'histories'],
      'any logs of any runs, in any order',
      'The tests read the logs of two analyses that ran without any failure.',
      [SIM, TOL],
      [dict(name='gathering', where=SIM + ':SimAnalysis.add_log_data, read_logfile, read_logfiles'), dict(name='runs', where=TOL + ':ToleranceDeviations.read_logfiles, add_log')],
      'All paths and the turns of all loops are enumerated and decided by constant propagation for representative logs, following what is written into the data of the analysis.',
      'path enumeration with constant propagation over the attributes of the object',
      'All paths; the logs are representatives of the cases distinguished in the property.', ['The readers raise FileNotFoundError or EncodingDetectError for files that cannot be read'])
def p49(c: Ctx):
    R1 = c.rule('P49.add', 'all step variables and measures of a log are added', 6)
    R2 = c.rule('P49.all', 'the logs of all simulations are read in order', 2)
    R3 = c.rule('P49.read', 'a log file is read with the reader of its simulator', 5)
    R4 = c.rule('P49.runs', 'the runs are numbered when the logs do not say', 5)
    R5 = c.rule('P49.log', 'the log of a run is added once', 5)
    calls = models(c)
    for cn in ('SimAnalysis', *CLASSES):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'add_log_data')
        with c.attempt(f'{cn} add_log_data'):
            lab = lab_(k, 'add_log_data')
            ps, ts = both(c, k, 'add_log_data')
            a = P(f.arg_names()[1])
            judge(c, R1, lab, ps, {OWN_LOG: ADDED[1][0], a: None}, calls, 'add_log_data(None)', state={OWN_LOG: ADDED[1][0]})
            for i, (had, new, want) in enumerate(ADDED):
                what = f'a log with {sorted(new.fields["stepset"])} and {sorted(new.fields["dataset"])} added to {sorted(had.fields["dataset"])}'
                gathered(c, R1, lab, ps, ts, {OWN_LOG: had, a: new}, calls, what, had, new, want, a)
                for kind in ('stepset', 'dataset'):
                    gathered(c, R1, lab, [], ts, {OWN_LOG: had, a: new.with_(kind, {})}, calls, what, had, new, want, a)
            for r in (*ps, *ts):
                for e in r.events:
                    if e.kind == 'setitem' and e.value[0] == 'sub' and e.value[2][0] != 'slice' and e.value[1] in (A(a, 'stepset'), A(a, 'dataset')):
                        c.bad(R1, lab, 'the list of the log is kept instead of a copy', r)
        if cn != 'SimAnalysis' and c.p.lookup(k, 'add_log_data').cls is c.p.lookup(c.p.cls('SimAnalysis'), 'add_log_data').cls:
            pass
    k = c.p.cls('SimAnalysis')
    with c.attempt('read_logfiles'):
        lab = lab_(k, 'read_logfiles')
        ps, ts = both(c, k, 'read_logfiles', {'read_logfile', 'add_log_data'})
        sims = ['s1', None, 's2']
        for r in ps:
            if r.outcome.kind != 'return':
                continue
            v = r.outcome.value
            c.require(v == OWN_LOG or v[0] == 'obj' and v[2] == 'LogfileData', R2, lab, f'{show(v)} is returned', r)
            new = [i for i, e in enumerate(r.events) if e.kind == 'write' and e.path == OWN_LOG]
            c.require(new and r.events[new[-1]].value[0] == 'obj' and r.events[new[-1]].value[2] == 'LogfileData' and not any(e.kind == 'call' and e.name in ('add_log_data', 'read_logfile') for e in r.events[:new[-1]]), R2, lab,
                      'the data is not cleared before the logs are read', r)
            c.require(any(e.kind in ('loop0', 'iter', 'loopend') and whole(e.value) == SIMS for e in r.events), R2, lab, 'the simulations are not all read', r)
            c.require(not any(e.kind == 'loopend' and e.name == 'break' for e in r.events), R2, lab, 'the logs of the simulations that follow are not read', r)
        for r in (*ps, *ts):
            for e in r.events:
                if e.kind in ('loop0', 'iter') and contains(e.value, SIMS):
                    c.require(whole(e.value) == SIMS and not (e.value[0] == 'call' and e.value[1] == 'reversed'), R2, lab, f'the logs are read in the order of {show(e.value)}', r)
        left(c, R2, lab, ps, {SIMS: sims}, {'read_logfile': lambda r, a, kw: 'log ' + a[0], 'LogfileData': lambda r, a, kw: LD({}, {}, 0)}, SIMS)
        for r, w, sure in stepped(ts, {SIMS: sims}, {'read_logfile': lambda r, a, kw: 'log ' + a[0], 'LogfileData': lambda r, a, kw: LD({}, {}, 0)}):
            if not sure:
                continue
            s = w.get(('elem', SIMS), Ellipsis)
            if s is Ellipsis:
                continue
            done = []
            for e in r.events:
                if e.kind == 'call' and e.name == 'add_log_data' and not e.raised:
                    try:
                        done.append(evaluate(e.arg(0, 'log_data'), w))
                    except Unknown:
                        done.append(None)
            c.require(done == ([] if s is None else ['log ' + s]), R2, lab, f'of the simulation {s!r} the logs {done} are added', r)
            c.require(r.outcome.kind == 'loopbody' and r.outcome.value != ('const', 'break'), R2, lab, f'the logs after the simulation {s!r} are not read', r)
    with c.attempt('read_logfile'):
        lab = lab_(k, 'read_logfile')
        f = c.p.lookup(k, 'read_logfile')
        ps, ts = both(c, k, 'read_logfile')
        a = P([n for n in f.arg_names() if n not in ('self', 'cls')][0])

        def reader(name, file, error=None):
            def read(recv, args, kw):
                got = args[0] if args else kw.get('log_filename')
                if error:
                    raise error
                return f'{name} of {got}'
            return read

        class EncodingDetectError(Exception):
            pass
        for sim, rd in (('LTspice', 'LTSpiceLogReader'), ('Qspice', 'QspiceLogReader')):
            env = {a: Obj('RunTask', simulator=Obj(sim, __name__=sim), log_file='a.log', raw_file='a.raw', netlist_file='a.net')}
            env[('call', 'Path', (A(a, 'log_file'),))] = 'a.log'
            judge(c, R3, lab, ps, env, {n: reader(n, 'a.log') for n in ('LTSpiceLogReader', 'QspiceLogReader')}, f'the log of a run of {sim}', f'{rd} of a.log')
            for x in (FileNotFoundError('a.log'), EncodingDetectError()):
                judge(c, R3, lab, ps, env, {n: reader(n, 'a.log', x) for n in ('LTSpiceLogReader', 'QspiceLogReader')}, f'a log of a run of {sim} that raises {type(x).__name__}', None)
        judge(c, R3, lab, ps, {a: Obj('RunTask', simulator=Obj('NGspice', __name__='NGspiceSimulator'), log_file='a.log')}, {}, 'the log of a run of another simulator', error='ValueError')
    for cn in CLASSES:
        k = c.p.cls(cn)
        with c.attempt(f'{cn} read_logfiles'):
            lab = lab_(k, 'read_logfiles')
            numbered(c, R4, lab, k, calls)
        with c.attempt(f'{cn} add_log'):
            lab = lab_(k, 'add_log')
            one_log(c, R5, lab, k, calls)


def left(c, rule, lab, ps, env, calls, src):
    """the function is not left within a turn of the loop over src"""
    for r, w, sure in stepped(ps, env, calls):
        if sure is True and r.outcome.kind == 'return':
            c.require(not any(e.kind == 'iter' and contains(e.value, src) for e in r.events), rule, lab, f'the loop over {show(src)} is left before its end', r)


def gathered(c, rule, lab, ps, ts, env, calls, what, had, new, want, a):
    """every turn of a loop over the step variables or measures adds one of them; all of them have their turn; the steps are counted"""
    seen = set()
    whole_ = [x for x in stepped(ps, env, calls) if x[2] is True and not any(e.kind in ('loop0', 'iter', 'loopend') for e in x[0].events)]
    for r, w, sure in stepped(ts, env, calls):
        if not sure:
            continue
        it = [e for e in r.events if e.kind == 'iter'][-1:]
        for kind in ('stepset', 'dataset'):
            if not it or not contains(it[0].value, A(a, kind)):
                continue
            src = A(a, kind)
            key = w.get(('key', src), w.get(('elem', src)))
            if not isinstance(key, str):
                continue
            seen.add((kind, key))
            if sure == BREAKS:
                c.bad(rule, lab, what + f': {key!r} raises an exception', r)
                continue
            c.require(r.outcome.kind == 'loopbody' and r.outcome.value != ('const', 'break'), rule, lab, what + f': nothing is added after {key!r}', r)
            try:
                got = evaluate(A(OWN_LOG, kind), w)
            except Unknown:
                continue
            c.require(got == {**had.fields[kind], key: want.fields[kind][key]}, rule, lab, what + f': {key!r} becomes {got.get(key) if isinstance(got, dict) else got} instead of {want.fields[kind][key]}', r)
    for kind in ('stepset', 'dataset'):
        left(c, rule, lab, ps, env, calls, A(a, kind))
    for r in ps:
        if r.outcome.kind != 'return' or any(e.kind == 'assume' and e.lit == ('isnone', a) and e.pol for e in r.events):
            continue
        counts = [e for e in r.events if e.kind in ('aug', 'write') and e.path == A(OWN_LOG, 'step_count')]
        ok = len(counts) == 1
        if ok:
            try:
                v = counts[0].value if counts[0].kind == 'write' else ('bin', counts[0].op, counts[0].path, counts[0].value)
                ok = evaluate(v, env) == want.fields['step_count']
            except Unknown:
                pass
        c.require(ok, rule, lab, what + ': the number of steps is not added', r)
        for kind in ('stepset', 'dataset'):
            c.require(any(e.kind in ('loop0', 'iter', 'loopend') and contains(e.value, A(a, kind)) for e in r.events) or any(contains(s, A(a, kind)) for e in r.events if e.kind != 'assume' for s in (e.value, e.recv, *(e.args or ())) if s), rule, lab,
                      what + f': the {kind} is not added', r)


# data read, step variable expected
RUNS = [
    (LD({'run': [4, 5]}, {'v': [1, 2], 'runm': [8, 9]}, 2), {'run': [4, 5]}),
    (LD({}, {'v': [1, 2, 3], 'runm': [0, 1, 2]}, 0), {'run': [0, 1, 2]}),
    (LD({}, {'v': [1, 2], 'runm': [X(2.9999), X(0.0001)]}, 0), {'run': [3, 0]}),
    (LD({}, {'v': [1, 2, 3]}, 0), {'run': [0, 1, 2]}),
    (LD({}, {'v': [1, 2, 3], 'runm': []}, 0), {'run': [0, 1, 2]}),
]


def numbered(c, rule, lab, k, calls):
    ps, ts = both(c, k, 'read_logfiles', {'read_logfiles', 'read_logfile', 'add_log_data'})
    done, bench = A(SELF, 'analysis_executed'), A(SELF, 'testbench_executed')
    env0 = {done: False, bench: False, RES: {}, SIMS: [], OWN_LOG: RUNS[0][0]}
    judge(c, rule, lab, ps, env0, calls, 'read_logfiles() before any run', error='RuntimeError')
    for a, b in ((True, False), (False, True), (True, True)):
        env = {**env0, done: a, bench: b}
        for r, w, sure in stepped(ps, {**env, RES: {'log_data': 'kept'}}, calls):
            if sure:
                c.require(r.outcome.kind == 'return' and sure != BREAKS and not any(e.kind == 'call' and e.name == 'read_logfiles' for e in r.events), rule, lab, 'the logs are read again', r)
                if r.outcome.kind == 'return':
                    try:
                        c.require(evaluate(r.outcome.value, w) == 'kept', rule, lab, 'the data read before is not returned', r)
                    except Unknown:
                        pass
        for r, w, sure in stepped(ps, {**env, RES: {'callback_returns': []}}, calls):
            if sure is True:
                c.require(sum(e.kind == 'call' and e.name == 'read_logfiles' for e in r.events) == 1, rule, lab, 'the logs are not read', r)
        for data, steps in RUNS:
            n = len(steps['run'])
            new = data.with_('stepset', steps).with_('step_count', n)
            judge(c, rule, lab, ps, {**env, OWN_LOG: data}, calls, f'data with {data.fields["stepset"] or data.fields["dataset"]}', new, {OWN_LOG: new, RES: {'log_data': new}})
            for r, w, sure in stepped(ps, {**env, OWN_LOG: data}, calls):
                if sure is True:
                    c.require(sum(e.kind == 'call' and e.name == 'read_logfiles' for e in r.events) == 1, rule, lab, 'the logs are not read', r)


LOGS = [  # log read, data of the analysis, step variable expected
    (LD({'run': [4, 5]}, {'v': [1, 2], 'run': [8, 9]}, 2), LD({}, {}, 0), {'run': [4, 5]}),
    (LD({}, {'v': [1, 2, 3], 'run': [6, 7, 8]}, 0), LD({'run': [0, 1]}, {'v': [4, 4]}, 2), {'run': [6, 7, 8]}),
    (LD({}, {'v': [1, 2], 'run': [X(2.9999), X(4.0001)]}, 0), LD({}, {}, 0), {'run': [3, 4]}),
    (LD({}, {'v': [1, 2, 3]}, 0), LD({}, {}, 0), {'run': [0, 1, 2]}),
    (LD({}, {'v': [1, 2, 3]}, 0), LD({'run': [-1, 0, 4]}, {'v': [4, 4, 4]}, 3), {'run': [5, 6, 7]}),
    (LD({}, {'v': [1], 'run': []}, 0), LD({'run': [7]}, {'v': [4]}, 1), {'run': [8]}),
]


def one_log(c, rule, lab, k, calls):
    ps, ts = both(c, k, 'add_log', {'read_logfile', 'add_log_data'})
    a = P(c.p.lookup(k, 'add_log').arg_names()[1])
    for code, log, had, steps in [(1, *LOGS[0]), (-2, *LOGS[0]), (0, None, LOGS[0][1], None), *[(0, *x) for x in LOGS]]:
        env = {a: Obj('RunTask', retcode=code), OWN_LOG: had}
        added = log is not None and code == 0
        want = log.with_('stepset', steps).with_('step_count', len(steps['run'])) if added else None
        what = f'a run with return code {code} and ' + (f'a log with {log.fields["stepset"] or log.fields["dataset"]}' if log else 'a log that cannot be read')
        m = {**calls, 'read_logfile': lambda r, x, kw: log}
        judge(c, rule, lab, ps, env, m, what, want)
        for r, w, sure in stepped(ps, env, m):
            if sure is not True:
                continue
            es = [e for e in r.events if e.kind == 'call' and e.name == 'add_log_data']
            c.require(len(es) == (1 if added else 0), rule, lab, what + f' is added {len(es)} times', r)
            for e in es:
                i = r.events.index(e)
                c.require(not any(x.kind in ('write', 'aug', 'setitem') and contains(x.path, e.arg(0, 'log_data')) for x in r.events[i + 1:] if e.arg(0, 'log_data') is not None), rule, lab, what + ' is changed after it was added', r)
                try:
                    c.require(evaluate(e.arg(0, 'log_data'), w) == want, rule, lab, what + ' is not what is added', r)
                except Unknown:
                    pass
