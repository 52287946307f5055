"""SimStepper (P29) and the sweep iterators (P45)."""
from .util import *
from ..algebra import Num
from .raw_data import iscall, arg
from .raw_steps import lab_
from .logs import plain
from .server import paths, kw_
from fractions import Fraction
import itertools

STEP = 'spicelib/sim/sim_stepping.py'
ITER = 'spicelib/utils/sweep_iterators.py'
IL, CV, ED, RUNNER, INFO = (A(SELF, n) for n in ('iter_list', 'current_values', 'editor', 'runner', 'sim_info'))
SETTER = {'set_parameter': 'param', 'set_component_value': 'component', 'set_element_model': 'model'}


def same(n, a, b):
    return a == b or n(a) == n(b)


def step_of(v):
    """X of X.elem"""
    return v[1] if v is not None and v[0] == 'attr' and v[2] == 'elem' else None


def kind_of(r, step, upto):
    """what the path assumes step.what to be; None if nothing"""
    for e in r.events[:upto]:
        if e.kind == 'assume' and e.pol:
            l = plain(e)
            if l[0] == 'cmp' and l[1] == 'eq':
                for a, b in ((l[2], l[3]), (l[3], l[2])):
                    if a == ('attr', step, 'what') and b[0] == 'const':
                        return b[1]
    return None


def next_step(r, i):
    """(index, event number) of the last X[index].__next__() / next(X[index]) before event i"""
    for j in range(i - 1, -1, -1):
        e = r.events[j]
        if e.kind == 'call' and e.name in ('__next__', 'next') and not e.raised:
            src = e.recv if e.name == '__next__' else (e.args[0] if e.args else None)
            return src, ('res', e.n, e.name)
    return None, None


# ------------------------------------------------------------------------------------------------ P29
@prop('P29', 'SimStepper runs every combination of the sweeps once, with its values set',
      'SimStepper.run_all() calls the run() of the runner once for every combination of the values of the sweeps added (a sweep over any iterable, also a generator), with the innermost sweep being the one added last. '
      'For each value it calls the method of the editor that belongs to the kind of sweep (set_parameter(), set_component_value() or set_element_model()) with the element of that sweep, and records the value '
      'in current_values, before the run it belongs to. The run gets the editor, the callback and its arguments, the switches, the timeout and exe_log given, and the file name made by filenamer from the current values, '
      'if given. sim_info holds for each task started (a run that was refused is passed over), under its run number, a copy of the current values and the name of its netlist. Values set with the set_…() methods go to the editor and to current_values. '
      'run_all() waits for the end of the simulations exactly if asked to. total_number_of_simulations() is the product of the lengths of the non-empty sweeps. export_step_info() writes one row per run, '
      'with its number and its values, and knows the columns of all runs.',
      ['inputs', 'histories'],
      'any number of sweeps of any kind over any values',
      'The tests run one set of sweeps with one simulator; a missing combination or a value set too late looks like a good run.',
      [STEP],
      [dict(name='run_all()', where=STEP + ':SimStepper.run_all'), dict(name='sweeps', where=STEP + ':StepInfo'), dict(name='export', where=STEP + ':SimStepper.export_step_info')],
      'One step of the nested counter from any state: on each path the counter is shown to go forward after a value, back and restarted after the last value, and back to the last sweep after a run; the setter called, '
      'the values recorded and the arguments of the run are compared along the paths.',
      'path-sensitive dataflow with loop-step invariants',
      'All paths; loops by one iteration from any state. Empty sweeps and two sweeps of one element are not covered.', [])
def p29(c: Ctx):
    R1 = c.rule('P29.set', 'the value of a sweep is set with the method of its kind', 3)
    R2 = c.rule('P29.count', 'the counter visits every combination', 3)
    R3 = c.rule('P29.run', 'runs get the editor and the arguments', 1)
    R4 = c.rule('P29.info', 'sim_info has the values of each run', 1)
    R5 = c.rule('P29.sweep', 'sweeps are stored with their kind and can be iterated again', 4)
    R6 = c.rule('P29.direct', 'values set directly are set and recorded', 5)
    R7 = c.rule('P29.wait', 'waits exactly if asked to', 1)
    R8 = c.rule('P29.total', 'the total is the product of the lengths', 1)
    R9 = c.rule('P29.export', 'one row per run and all columns', 2)
    k = c.p.cls('SimStepper')
    with c.attempt('run_all'):
        run_all(c, k, R1, R2, R3, R4, R7)
    with c.attempt('sweeps'):
        sweeps(c, k, R5)
    with c.attempt('direct'):
        direct(c, k, R6)
    with c.attempt('total'):
        for r in paths(c, k, 'total_number_of_simulations'):
            lab = 'SimStepper.total_number_of_simulations'
            its = [(i, e) for i, e in enumerate(r.events) if e.kind == 'iter']
            v = r.outcome.value
            if v is None or r.outcome.kind != 'return':
                continue
            if not its:
                c.require(v == ('const', 1) or not concrete(v), R8, lab, f'{show(v)} is returned without sweeps', r)
                continue
            i, it = its[0]
            if whole(it.value) != IL:
                continue
            n = Num(r)
            el = ('elem', it.value)
            init = next((s for a, s in (it.start or {}).items() if contains(v, ('phi', a)) or True), None)
            names = [a for a in (it.start or {}) if r.st.env.get(a) is not None and (r.st.env[a] == v)]
            L = {('call', 'len', (el,)), ('call', 'len', (A(el, 'iter'),))}
            empty = any(e.kind == 'assume' and (plain(e) in L | {el, A(el, 'iter')} and not e.pol) for e in r.events)
            if len(names) == 1:
                phi = [x for x in subvalues(v) if x[0] == 'phi']
                base = phi[0] if phi else ('phi', names[0])
                if (it.start or {}).get(names[0]) is not None:
                    c.require(it.start[names[0]] == ('const', 1), R8, lab, f'the product starts with {show(it.start[names[0]])}', r)
            else:
                base = next((x for x in subvalues(v) if x[0] in ('phi', 'local')), None)
            if base is None:
                c.require(v[0] != 'const' and not deep(v, lambda x: x[0] == 'elem') or empty, R8, lab, f'{show(v)} does not combine the lengths of all sweeps', r)
                continue
            if empty:
                continue
            ok = any(n(v) == n(base) * n(x) for x in L | {('call', 'len', (x,)) for x in L})
            ln = [x for x in subvalues(v) if x[0] == 'call' and x[1] == 'len' or x[0] == 'res']
            c.require(ok, R8, lab, f'a sweep changes the total from {show(base)} to {show(v)}', r)
    with c.attempt('export'):
        export(c, k, R9)


def run_all(c, k, R1, R2, R3, R4, R7):
    lab = 'SimStepper.run_all'
    op = set(SETTER) | {'wait_completion', 'run', 'iter', '__next__', 'next'}
    sig = c.p.lookup(c.p.cls('AnyRunner'), 'run').arg_names()[1:]
    own = c.p.lookup(k, 'run_all').arg_names()
    for r in paths(c, k, 'run_all', opaque=op, raising={'__next__', 'next'}):
        n = Num(r)
        n.known.clear()
        n.memo.clear()
        evs = r.events
        # setters
        taken = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.name in ('__next__', 'next')]
        for i, e in enumerate(evs):
            if not (iscall(e, *SETTER) and e.recv == ED):
                continue
            s = step_of(arg(e, 0, 'element', 'param', 'device'))
            if s is None:
                a0 = arg(e, 0, 'element', 'param', 'device')
                if a0 is not None and (concrete(a0) or a0[0] == 'res' and any(a0[1] == t.n for _, t in taken)):
                    c.bad(R1, lab, f'{e!r} does not set the element of the sweep', r)
                continue
            what = kind_of(r, s, i)
            others = {x[1] for y in evs[:i] if y.kind == 'assume' and y.pol for x in subvalues(plain(y)) if x[0] == 'attr' and x[2] == 'what'}
            if what is None:
                own = [x for x in evs[:i] if x.kind == 'assume' and not x.pol and plain(x)[0] == 'cmp' and plain(x)[1] == 'eq' and ('const', SETTER[e.name]) in plain(x)[2:4] and any(y == ('attr', s, 'what') for y in plain(x)[2:4])]
                c.require(not own, R1, lab, f'{e.name}() is called for a sweep that is not of kind {SETTER[e.name]!r}', r)
                if others and s not in others and not any(same(n, o, s) for o in others if o[0] == s[0] == 'sub'):
                    c.bad(R1, lab, f'{e!r}: the kind tested is the one of another sweep', r)
                continue
            if what not in SETTER.values():
                continue
            c.require(SETTER[e.name] == what, R1, lab, f'{e.name}() is called for a sweep of kind {what!r}', r)
            v = arg(e, 1, 'value', 'model')
            src, res = next_step(r, i)
            if src is not None and s[0] == 'sub' and src[0] == 'sub':
                if v is not None and v[0] == 'res' and any(v[1] == t.n for _, t in taken):
                    c.require(v == res and same(n, src[2], s[2]), R1, lab, f'{e!r} sets the value of another sweep', r)
                elif v is not None and (concrete(v) or v[0] == 'attr'):
                    c.bad(R1, lab, f'{e!r} does not set the value of the sweep', r)
            # recorded before the end of the iteration or the run
            end = next((j for j in range(i, len(evs)) if iscall(evs[j], 'run') and evs[j].recv == RUNNER), len(evs))
            rec = [x for x in evs[:end] if x.kind == 'setitem' and x.path[0] == 'sub' and x.path[1] == CV]
            upd = [x for x in evs[:end] if iscall(x, 'update', 'setdefault') and x.recv == CV]
            good = [x for x in rec if same(n, x.path[2], A(s, 'elem'))]
            if good:
                c.require(good[-1].value == v, R1, lab, f'{show(good[-1].value)} is recorded as value of the sweep, {show(v)} is set', r)
            elif rec or not upd:
                c.bad(R1, lab, f'{e!r}: the value is not recorded under the name of the element in current_values', r)
            if what is not None:
                sets = [x for x in evs[:end] if iscall(x, *SETTER) and x.recv == ED and step_of(arg(x, 0, 'element', 'param', 'device')) == s and arg(x, 1, 'value', 'model') == v]
                c.require(len(sets) <= 1, R1, lab, 'the value of a sweep is set several times', r)
        # every value taken is set
        for i, e in taken:
            if e.raised:
                continue
            src = e.recv if e.name == '__next__' else (e.args[0] if e.args else None)
            if src is None or src[0] != 'sub':
                continue
            if r.outcome.kind == 'raise':
                continue
            if not any(iscall(x, *SETTER) and x.recv == ED for x in evs[i:]):
                c.bad(R1, lab, 'a value is taken from a sweep but not set', r)
        counter(c, r, n, taken, R2, lab)
        # runs
        runs = [(i, e) for i, e in enumerate(evs) if iscall(e, 'run') and e.recv == RUNNER]
        for i, e in runs:
            run(c, r, i, e, sig, own, R3, lab)
            info(c, r, i, e, R4, lab)
        c.require(len(runs) <= 1, R3, lab, 'a combination is run twice', r)
        # wait
        if r.outcome.kind == 'return':
            ask = next((e.pol for e in evs if e.kind == 'assume' and plain(e) == ('param', 'wait_completion')), None)
            waits = [e for e in evs if iscall(e, 'wait_completion')]
            if ask is True:
                c.require(bool(waits), R7, lab, 'does not wait for the simulations although asked to', r)
            elif ask is False:
                c.require(not waits, R7, lab, 'waits for the simulations although asked not to', r)
            else:
                c.require(False, R7, lab, 'the argument wait_completion makes no difference', r)
            if waits and runs:
                c.require(evs.index(waits[-1]) > runs[-1][0], R7, lab, 'waits before the last run', r)


def counter(c, r, n, taken, R2, lab):
    """the steps of the counter of the nested sweeps"""
    evs = r.events
    if not taken:
        idx = None
        for e in evs:
            if e.kind == 'assume':
                for x in subvalues(e.lit):
                    if x[0] == 'cmp' and x[1] == 'lt' and x[3] == ('call', 'len', (IL,)) and x[2][0] == 'phi':
                        idx = x[2]
    else:
        src = taken[0][1].recv if taken[0][1].name == '__next__' else taken[0][1].args[0]
        if src[0] != 'sub':
            return
        idx = src[2]
    if idx is None or idx[0] != 'phi':
        return
    name = idx[1]
    for e in evs:
        if e.kind == 'iter' and e.start and name in e.start and concrete(e.start[name]):
            c.require(concrete(e.start[name])[0] == 0, R2, lab, f'the counter starts with {show(e.start[name])}', r)
    end = r.st.env.get(name)
    if end is None:
        return
    runs = [i for i, e in enumerate(evs) if iscall(e, 'run') and e.recv == RUNNER]

    def inside(upto, v):
        """whether v is assumed to be less than the number of sweeps / negative: (below, negative)"""
        below = neg = None
        for e in evs[:upto]:
            if e.kind == 'assume':
                l = plain(e)
                if l[0] == 'cmp' and l[1] in ('lt', 'le'):
                    if same(n, l[2], v):
                        if l[1] == 'lt' and l[3] == ('call', 'len', (IL,)):
                            below = e.pol
                        elif l[3] == ('const', 0) and l[1] == 'lt' or l[3] in (('const', -1), ('neg', ('const', 1))) and l[1] == 'le':
                            neg = e.pol
                    elif same(n, l[3], v) and (l[2] == ('const', 0) and l[1] == 'le' or l[2] in (('const', -1), ('neg', ('const', 1))) and l[1] == 'lt'):
                        neg = not e.pol
                elif l[0] == 'cmp' and l[1] == 'eq' and (same(n, l[2], v) and n(l[3]) == -1 or same(n, l[3], v) and n(l[2]) == -1):
                    neg = e.pol   # the counter goes down in steps of one
        return below, neg
    # the counter goes down in steps of one: below 0 it is -1
    lits = [(plain(e), e.pol) for e in evs if e.kind == 'assume']
    for l, pol in lits:
        if pol and l[0] == 'cmp' and l[1] == 'lt' and l[3] == ('const', 0):
            if any(not q and m[0] == 'cmp' and m[1] == 'eq' and same(n, m[2], l[2]) and n(m[3]) == -1 for m, q in lits):
                return
    if runs and taken and taken[-1][0] < runs[-1] and not taken[-1][1].raised and len(taken) == 1:
        b, _ = inside(runs[-1], ('bin', '+', idx, ('const', 1)))
        c.require(b is False, R2, lab, 'a simulation is run before all sweeps have a value', r)
    elif runs and not taken:
        b, _ = inside(runs[-1], idx)
        c.require(b is False, R2, lab, 'a simulation is run before all sweeps have a value', r)
    if runs:
        if not (taken and taken[-1][0] > runs[-1]):
            c.require(n(end) == n(('call', 'len', (IL,))) - 1, R2, lab, f'after a run the counter goes on with sweep {show(end)} instead of the last one', r)
        return
    if len(taken) != 1:
        if not taken and r.outcome.kind == 'return':
            _, neg = inside(len(evs), idx)
            c.require(neg is True, R2, lab, 'ends although there are combinations left', r)
        return
    i, e = taken[0]
    if r.outcome.kind == 'raise':
        return
    if not e.raised:
        if r.outcome.kind == 'return':
            b, neg = inside(len(evs), ('bin', '+', idx, ('const', 1)))
            _, neg0 = inside(i, idx)
            c.require(neg is True and neg0 is False, R2, lab, 'ends after a value was taken, without a run', r)  # cannot be taken: the counter was not negative
            return
        c.require(n(end) == n(idx) + 1, R2, lab, f'after a value was set the counter goes on with {show(end)}', r)
        return
    c.require(n(end) == n(idx) - 1, R2, lab, f'after the last value of a sweep the counter goes on with {show(end)} instead of the sweep before', r)
    src = e.recv if e.name == '__next__' else e.args[0]
    again = [x for x in evs[i:] if x.kind == 'setitem' and x.path[0] == 'sub' and x.path[1] == src[1]]
    ok = False
    for x in again:
        made = next((y for y in evs if y.kind == 'call' and x.value[0] == 'res' and y.n == x.value[1]), None)
        of = made.args[0] if made is not None and made.name in ('iter', 'enumerate') and made.args else made.recv if made is not None and made.name == '__iter__' else \
            x.value[2][0] if x.value[0] == 'call' and x.value[1] == 'iter' else None
        if of is not None and same(n, x.path[2], idx) and any(y[0] == 'sub' and y[1] == IL and same(n, y[2], idx) for y in subvalues(of)):
            ok = True
    c.require(ok, R2, lab, 'a sweep that ended is not started again for the next value of the one before', r)


def run(c, r, i, e, sig, own, R3, lab):
    got = dict(zip(sig, e.args or ()))
    got.update(dict(e.kw or ()))
    if any(x[0] == '**' or a == '**' for a, x in (e.kw or ())) or any(x[0] == 'star' for x in e.args or ()):
        return
    c.require(got.get('netlist') == ED, R3, lab, f'the netlist run is {show(got["netlist"]) if "netlist" in got else "missing"} and not the editor', r)
    for a in ('callback', 'callback_args', 'switches', 'timeout', 'exe_log'):
        if a in own:
            v = got.get(a)
            c.require(v == ('param', a), R3, lab, f'the argument {a} is not passed on to the run', r) if v is None or v[0] in ('const', 'param') else None
    f = got.get('run_filename')
    ask = next((x.pol if plain(x) == ('param', 'filenamer') else not x.pol for x in r.events[:i] if x.kind == 'assume' and plain(x) in (('param', 'filenamer'), ('isnone', ('param', 'filenamer')))), None)
    if ask is False:
        c.require(f in (None, NONE), R3, lab, f'{show(f)} is used as file name without filenamer' if f else '', r)
    elif ask is True:
        made = next(((j, x) for j, x in enumerate(r.events[:i]) if x.kind == 'call' and f is not None and f[0] == 'res' and x.n == f[1]), None)
        if made is None:
            if f in (None, NONE) or f[0] == 'param':
                c.bad(R3, lab, 'the file name made by filenamer is not used', r)
            return
        j, x = made
        c.require(x.recv == ('param', 'filenamer') or x.name in ('filenamer', '<value>') or x.recv is None, R3, lab, f'{show(f)} is not made by filenamer', r)
        kws = dict(x.kw or ())
        c.require(kws.get('**') is None or strip_old(kws['**']) in (CV, ('mcall', CV, 'copy', ())) or kws['**'][0] not in ('attr', 'param'), R3, lab, 'filenamer does not get the current values', r)
        late = [y for y in r.events[j:i] if y.kind == 'setitem' and y.path[0] == 'sub' and y.path[1] == CV]
        c.require(not late, R3, lab, 'filenamer is called before all values are set', r)
    elif f in (None, NONE):
        c.bad(R3, lab, 'the file name made by filenamer is not used', r)


def info(c, r, i, e, R4, lab):
    task = ('res', e.n, 'run')
    stored = [x for x in r.events[i:] if x.kind == 'setitem' and x.path[0] == 'sub' and x.path[1] == INFO]
    for x in stored:
        upto = r.events.index(x)
        tests = [y for y in r.events[i:upto] if y.kind == 'assume' and plain(y) in (task, ('isnone', task)) and y.pol == (plain(y) == task)]
        c.require(bool(tests), R4, lab, 'a run that was refused gives an error instead of being passed over', r)
    upd = [x for x in r.events[i:] if x.kind == 'call' and x.recv == INFO]
    none = [x for x in r.events[i:] if x.kind == 'assume' and not x.pol and plain(x) in (task, A(task, 'netlist_file'))] + \
        [x for x in r.events[i:] if x.kind == 'assume' and x.pol and plain(x) in (('isnone', task), ('isnone', A(task, 'netlist_file')))]
    if not stored:
        if not none and not upd and r.outcome.kind != 'raise':
            c.bad(R4, lab, 'a run is not recorded in sim_info', r)
        return
    for x in stored:
        c.require(strip_old(x.path[2]) in (A(task, 'runno'),) or x.path[2][0] in ('local', 'phi'), R4, lab, f'sim_info is stored under {show(x.path[2])} and not under the number of the run', r)
        v = x.value
        c.require(strip_old(v) != CV, R4, lab, 'sim_info holds the dictionary that changes with the next values, not a copy of it', r)
        copied = v[0] == 'mcall' and v[1] == CV and v[2] == 'copy' or v[0] == 'call' and v[1] in ('dict', 'copy', 'deepcopy') or v[0] in ('grown', 'dict', 'obj', 'res')
        has = [y for y in r.events[i:] if y.kind == 'setitem' and y.path[0] == 'sub' and y.path[1] == v and y.path[2] == ('const', 'netlist')]
        name = A(A(task, 'netlist_file'), 'name')
        if v[0] == 'mcall' and v[1] == CV and v[2] == 'copy':
            c.require(bool(has) and has[-1].value == name, R4, lab, f'the name of the netlist of the run is not in sim_info', r)
            c.ok(R4, lab)
        elif dict_items(v) is not None:
            d = dict_items(v)
            if 'netlist' in d and v[0] == 'grown':
                c.require(d['netlist'] == name, R4, lab, f'{show(d["netlist"])} is stored as name of the netlist', r)
            if v[0] == 'dict' and not deep(v, lambda y: y == CV):
                c.bad(R4, lab, 'the current values are not stored in sim_info', r)
        elif deep(v, lambda y: y == CV):
            c.ok(R4, lab)


def sweeps(c, k, R5):
    si = c.p.cls('StepInfo')
    kinds = {'add_param_sweep': 'param', 'add_value_sweep': 'component', 'add_model_sweep': 'model'}
    init = c.p.lookup(si, '__init__')
    if init is None:
        return
    names = init.arg_names()[1:]
    for m, kind in kinds.items():
        f = c.p.lookup(k, m)
        elem, it = f.arg_names()[1:3]
        for r in paths(c, k, m, opaque={'get_component_value', 'StepInfo'}, raising={'get_component_value'}):
            lab = 'SimStepper.' + m
            if r.outcome.kind == 'raise':
                continue
            made = [e for e in r.events if e.kind == 'call' and e.name == 'StepInfo']
            if not made:
                if not any(e.kind == 'call' and e.recv == IL for e in r.events) and not any(e.kind == 'aug' and e.path == IL for e in r.events):
                    c.bad(R5, lab, 'the sweep is not stored', r)
                continue
            e = made[-1]
            got = dict(zip(names, e.args or ()))
            got.update(dict(e.kw or ()))
            if len(names) == 3:
                c.require(got.get(names[0]) == ('const', kind), R5, lab, f'the sweep is stored with the kind {show(got.get(names[0]))}', r)
                c.require(got.get(names[1]) == ('param', elem), R5, lab, f'the sweep is stored for {show(got.get(names[1]))}', r)
                v = got.get(names[2])
                c.require(v is not None and contains(v, ('param', it)), R5, lab, f'the sweep is stored with the values {show(v)}', r)
            add = [x for x in r.events if x.recv == IL and x.kind == 'call' and x.name in LIST_MUT] + [x for x in r.events if x.kind in ('aug', 'write') and x.path == IL]
            if not add:
                c.bad(R5, lab, 'the sweep is not stored', r)
            for x in add:
                if x.kind == 'call':
                    c.require(x.name == 'append', R5, lab, f'{x!r}: the sweep added last must be the innermost', r)
    # several iterations over the values
    for r in paths(c, si, '__init__'):
        for e in r.events:
            if e.kind == 'write' and e.path == A(SELF, 'iter'):
                c.require(e.value != ('param', names[-1]) and not (e.value[0] == 'call' and e.value[1] == 'iter'), R5, 'StepInfo',
                          'the values are iterated several times, but an iterator only gives them once', r)
                if e.value[0] == 'call' and e.value[1] in ('set', 'frozenset', 'sorted', 'reversed'):
                    c.bad(R5, 'StepInfo', f'{e.value[1]}() changes the values or their order', r)
    for r in paths(c, si, '__len__'):
        v = r.outcome.value
        if v is not None:
            c.require(contains(v, A(SELF, 'iter')) or not concrete(v), R5, 'StepInfo.__len__', f'{show(v)} is not the number of values', r)
            n = Num(r)
            if v[0] == 'bin':
                c.require(n(v) == n(('call', 'len', (A(SELF, 'iter'),))), R5, 'StepInfo.__len__', f'{show(v)} is not the number of values', r)


def direct(c, k, R6):
    for m in ('set_parameters', 'set_parameter', 'set_component_values', 'set_component_value', 'set_element_model'):
        f = c.p.lookup(k, m)
        many = m.endswith('s')
        args = f.arg_names()[1:]
        for r in paths(c, k, m, opaque=set(SETTER) | {'set_parameters', 'set_component_values'}):
            lab = 'SimStepper.' + m
            if r.outcome.kind == 'raise':
                continue
            fw = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.recv == ED and not e.raised]
            own = [e for e in r.events if e.kind == 'call' and e.recv == SELF and e.name in set(SETTER)]
            if not fw:
                if not own and not any(e.kind == 'iter' for e in r.events) and not any(e.kind == 'loop0' for e in r.events):
                    c.bad(R6, lab, 'the value is not set in the editor', r)
                continue
            i, e = fw[0]
            single = m.rstrip('s') if many else m
            c.require(e.name in (m, single), R6, lab, f'{e.name}() of the editor is called', r)
            if not many:
                got = list(e.args or ()) + [v for _, v in e.kw or ()]
                c.require(got == [('param', a) for a in args], R6, lab, f'{e!r} does not set the value given', r)
                rec = [x for x in r.events if x.kind == 'setitem' and x.path[0] == 'sub' and x.path[1] == CV]
                upd = [x for x in r.events if x.kind == 'call' and x.recv == CV]
                if rec:
                    c.require(rec[-1].path[2] == ('param', args[0]) and rec[-1].value == ('param', args[1]), R6, lab, f'{rec[-1]!r}: the value is recorded wrongly', r)
                elif not [x for x in upd if x.name != 'setdefault']:
                    c.bad(R6, lab, 'the value set is not recorded in current_values' + (' if there is one already' if upd else ''), r)
            elif e.name == m:
                kw = dict(e.kw or ())
                c.require('**' in kw and len(kw) == 1 or not kw and len(e.args or ()) == 1, R6, lab, f'{e!r} does not set the values given', r)
                upd = [x for x in r.events if x.kind == 'call' and x.recv == CV and x.name == 'update'] + [x for x in r.events if x.kind == 'setitem' and x.path[0] == 'sub' and x.path[1] == CV] + \
                    [x for x in r.events if x.kind == 'aug' and x.path == CV]
                if not upd and not any(x.kind == 'loop0' for x in r.events):
                    c.bad(R6, lab, 'the values set are not recorded in current_values', r)


def export(c, k, R9):
    lab = 'SimStepper.export_step_info'
    ps = list(paths(c, k, 'export_step_info', opaque={'DictWriter', 'writer', 'writerow', 'writerows', 'writeheader'}))
    loops = set()   # those that write rows
    for r in ps:
        inside = []
        for x in r.events:
            if x.kind == 'iter':
                inside.append(x.node)
            elif x.kind == 'loopend' and inside:
                inside.pop()
            elif iscall(x, 'writerow'):
                loops |= {id(y) for y in inside}
    for r in ps:
        if r.outcome.kind not in ('return', 'loopback', 'loopbody'):
            if r.outcome.kind == 'raise' and r.outcome.value == 'StopIteration':
                c.bad(R9, lab, 'fails without runs', r)
            continue
        w = [e for e in r.events if iscall(e, 'DictWriter')]
        if not w:
            continue
        e = w[0]
        fn = arg(e, 1, 'fieldnames')
        if fn is not None:
            for x in subvalues(fn):
                if x[0] == 'sub' and x[1] == INFO and not inside_comp(fn, x):
                    c.bad(R9, lab, f'the columns are the values of one run ({show(x)}); others may have more', r)
            calls = {y.n: y for y in r.events if y.kind == 'call'}
            for x in subvalues(fn):
                y = calls.get(x[1]) if x[0] == 'res' else None
                for a in (y.args or ()) if y is not None else ():
                    for z in subvalues(a):
                        if z[0] == 'sub' and z[1] == INFO and not inside_comp(a, z):
                            c.bad(R9, lab, f'the columns are the values of one run ({show(z)}); others may have more', r)
                if y is not None and y.name == 'next' and y.args and contains(y.args[0], INFO):
                    c.bad(R9, lab, 'the columns are the values of one run; others may have more', r)
            c.require(contains(fn, ('const', 'runno')) or fn[0] in ('res', 'phi', 'local'), R9, lab, 'there is no column for the number of the run', r)
        d = arg(e, 99, 'delimiter')
        c.require(d == ('param', 'delimiter'), R9, lab, 'the delimiter given is not used', r)
        its = [(i, x) for i, x in enumerate(r.events) if x.kind == 'iter' and contains(x.value, INFO) and (id(x.node) in loops or not loops)]
        if not its:
            continue
        rows = [x for x in r.events if iscall(x, 'writerow') and x.recv == ('res', e.n, 'DictWriter')]
        if any(iscall(x, 'writerows') for x in r.events):
            continue
        i, it = its[-1]
        hdr = [j for j, x in enumerate(r.events) if iscall(x, 'writeheader')]
        c.require(len([x for x in rows if r.events.index(x) > i]) == 1, R9, lab, 'not exactly one row is written for a run', r)
        c.require(bool(hdr) and hdr[0] < i, R9, lab, 'the header is not written first', r)
        # the values of that run
        ups = [x for x in r.events[i:] if iscall(x, 'update') or x.kind in ('setitem', 'aug')]
        if rows:
            v = rows[-1].args[0] if rows[-1].args else None
            seen = [v] + [a for x in ups if x.kind == 'call' for a in x.args] + [x.recv for x in ups if x.kind == 'call'] + [x.value for x in ups if x.kind != 'call']
            for s in seen:
                if s is not None and contains(s, CV):
                    c.bad(R9, lab, 'the row has the current values instead of those of the run', r)
            subs = [x for s in seen if s is not None for x in subvalues(s) if x[0] == 'sub' and x[1] == INFO]
            els = [x for s in seen if s is not None for x in subvalues(s) if x[0] == 'elem']
            for x in subs:
                c.require(x[2][0] in ('elem', 'item', 'phi', 'local'), R9, lab, f'the row has the values of run {show(x[2])}', r)
            if not subs and not els and v is not None and v[0] in ('dict', 'grown'):
                c.bad(R9, lab, 'the row does not have the values of the run', r)


def inside_comp(v, x):
    """x only occurs within comprehensions of v, in dependence of their element"""
    if v == x:
        return x[2][0] == 'elem'
    if not isinstance(v, tuple):
        return True
    if v and v[0] == 'comp':
        return True
    return all(inside_comp(y, x) for y in v if isinstance(y, tuple))


# ------------------------------------------------------------------------------------------------ P45
class Lin:
    """values as sums of atoms with rational factors: linear (log=False), or the logarithm of products of powers (log=True)"""

    def __init__(self, r, sub=None, log=False):
        self.calls = {e.n: e for e in r.events if e.kind == 'call'}
        self.sub, self.log = sub or {}, log

    def __call__(self, v):
        """{atom: factor}, None if not of that form"""
        if v in self.sub:
            return self.sub[v]
        if v[0] == 'res' and v[1] in self.calls:
            e = self.calls[v[1]]
            v = ('call', e.name, tuple(e.args or ()), tuple(e.kw or ()))
        if v[0] == 'call' and len(v[2]) == 1 and v[1] == 'float':
            return self(v[2][0])
        k = self.number(v)
        if self.log:
            if k is not None:
                return {} if k == 1 else None if k <= 0 else {('log', k): Fraction(1)}
            if v[0] == 'bin' and v[1] in ('*', '/'):
                return self.add(self(v[2]), self(v[3]), 1 if v[1] == '*' else -1)
            if v[0] == 'bin' and v[1] == '**' or v[0] == 'call' and v[1] == 'pow' and len(v[2]) == 2:
                b, x = (v[2], v[3]) if v[0] == 'bin' else v[2]
                return self.scale(self(b), x)
            if v[0] == 'call' and v[1] == 'exp' and len(v[2]) == 1:
                return self.exp(v[2][0])
        else:
            if k is not None:
                return {ONE: k} if k else {}
            if v[0] == 'bin' and v[1] in ('+', '-'):
                return self.add(self(v[2]), self(v[3]), 1 if v[1] == '+' else -1)
            if v[0] == 'bin' and v[1] in ('*', '/'):
                a, b = self.number(v[2]), self.number(v[3])
                if b:
                    return self.scale(self(v[2]), v[3], v[1] == '/')
                if a is not None and v[1] == '*':
                    return self.scale(self(v[3]), v[2])
            if v[0] == 'neg':
                return self.scale(self(v[1]), ('const', -1))
        if v[0] in ('attr', 'param', 'old'):
            return {v: Fraction(1)}
        if v[0] == 'bin' and v[1] == '*' and not self.log:
            return {v: Fraction(1)}
        return None

    def number(self, v):
        if v in self.sub:
            s = self.sub[v]
            return None if s is None or self.log else Fraction(0) if not s else s.get(ONE) if set(s) == {ONE} else None
        if v[0] == 'neg':
            k = self.number(v[1])
            return None if k is None else -k
        k = concrete(v)
        if k is not None and isinstance(k[0], (int, float)) and not isinstance(k[0], bool):
            return Fraction(k[0])
        return None

    @staticmethod
    def add(a, b, f):
        if a is None or b is None:
            return None
        out = dict(a)
        for k, x in b.items():
            out[k] = out.get(k, 0) + f * x
        return {k: x for k, x in out.items() if x}

    def scale(self, a, x, inv=False):
        if a is None:
            return None
        k = self.number(x)
        if k is not None:
            return {b: (y / k if inv else y * k) for b, y in a.items() if y * k} if k or not inv else None
        if x[0] == 'neg':
            a = self.scale(a, ('const', -1))
            x = x[1]
        if x[0] == 'bin' and x[1] == '/' and self.number(x[2]) is not None:
            a = self.scale(a, x[2])
            return None if a is None else {('per', b, x[3]): y for b, y in a.items()}
        return {('times', b, x): y for b, y in a.items()}

    def exp(self, v):
        """logarithm of exp(v)"""
        if v[0] == 'res' and v[1] in self.calls:
            e = self.calls[v[1]]
            v = ('call', e.name, tuple(e.args or ()), ())
        if v[0] == 'call' and v[1] == 'log' and len(v[2]) == 1:
            return self(v[2][0])
        if v[0] == 'neg':
            return self.scale(self.exp(v[1]), ('const', -1))
        if v[0] == 'bin' and v[1] in ('+', '-'):
            return self.add(self.exp(v[2]), self.exp(v[3]), 1 if v[1] == '+' else -1)
        if v[0] == 'bin' and v[1] == '/':
            a = self.exp(v[2])
            k = self.number(v[3])
            if a is None or k == 0:
                return None
            return {b: y / k for b, y in a.items()} if k is not None else {('per', b, v[3]): y for b, y in a.items()}
        if v[0] == 'bin' and v[1] == '*':
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                x = self.exp(a)
                if x is not None:
                    return self.scale(x, b)
        return None


ONE = ('one',)
START, STOP, DELTA, VAL, NIT, FIN = (A(SELF, n) for n in ('start', 'stop', 'step', 'val', 'niter', 'finished'))


def fold(r):
    """the values of the attributes at the end of the path, in terms of the parameters"""
    now, old = {}, {}

    def put(v):
        if not isinstance(v, tuple) or not v:
            return v
        if v in old:
            return old[v]
        if v in now:
            return now[v]
        if v[0] == 'old':
            return now.get(v[1], v[1])
        return tuple(put(x) for x in v)
    conds = []
    for e in r.events:
        if e.kind == 'assume':
            conds.append((put(e.lit), e.pol))
        elif e.kind in ('write', 'aug') and e.path[0] == 'attr' and e.path[1] == SELF:
            v = put(e.value)
            if e.kind == 'aug':
                v = ('bin', e.op, now.get(e.path, e.path), v)
            old[('old', e.path, e.n + 1)] = now.get(e.path, e.path)
            now[e.path] = v
    return now, conds


def sign_of(lin, signs):
    """sign of a sum of atoms with known signs; None if it depends"""
    if lin is None:
        return None
    s = {(1 if x > 0 else -1) * signs[a] if a in signs else None for a, x in lin.items()}
    s.discard(0)
    return 0 if not s else None if None in s or len(s) > 1 else s.pop()


def decide(lit, L, sign):
    """value of a comparison, with sign() giving the sign of a difference; None if unknown"""
    if lit[0] == 'truthy':
        lit = lit[1]
    if lit[0] == 'not':
        d = decide(lit[1], L, sign)
        return None if d is None else not d
    if lit[0] in ('and', 'or'):
        ds = [decide(x, L, sign) for x in lit[1]]
        stop = lit[0] == 'or'
        return stop if stop in ds else None if None in ds else not stop
    if lit[0] == 'cmp' and lit[1] in ('lt', 'le', 'eq') and L.log and ('const', 0) in (lit[2], lit[3]):
        # all quantities are positive
        return {('lt', True): True, ('le', True): True, ('eq', True): False, ('lt', False): False, ('le', False): False, ('eq', False): False}[lit[1], lit[2] == ('const', 0)]
    if lit[0] == 'cmp' and lit[1] in ('lt', 'le', 'eq'):
        a, b = L(lit[2]), L(lit[3])
        if a is None or b is None:
            return None
        s = sign(Lin.add(b, a, -1))
        return None if s is None else {'lt': s > 0, 'le': s >= 0, 'eq': s == 0}[lit[1]]
    if lit[0] in ('param', 'attr', 'old') and not L.log:
        s = sign(L(lit))
        return None if s is None else s != 0
    return None


@prop('P45', 'Sweeps give every point from start to stop, including the last',
      'sweep(start, stop, step) gives start, start + step, start + 2 step … computed from the number of the point (rounding errors do not add up), upwards or downwards, up to and including stop where the points meet it in spite '
      'of rounding errors, and nothing beyond: with a positive step and stop below start it counts down from start, with a negative step and stop above start it counts down from stop to start. sweep(stop) '
      'starts at 0. sweep_n(start, stop, N) is the sweep with a step of (stop - start)/(N - 1). sweep_log(start, stop, step) multiplies by step, downwards if stop is below start, and from stop down to start if step is below 1 '
      'and stop above start, with the last point included in the same way; sweep_log_n(start, stop, N) gives the N values start * f**i, where f**(N - 1) is stop/start. Iterating over a sweep again gives the same points from the beginning.',
      ['inputs'],
      'any numbers start, stop and step (start differs from stop and N from 1)',
      'Which sweeps lose their last point to rounding depends on the numbers: the tests sample a few.',
      [ITER],
      [dict(name='sweep', where=ITER + ':sweep'), dict(name='sweep_log', where=ITER + ':sweep_log'), dict(name='sweep_log_n', where=ITER + ':sweep_log_n'), dict(name='sweep_n', where=ITER + ':sweep_n')],
      'The paths of the constructors and of __next__() are decided for each combination of the order of start and stop, the sign of the step and the position of the point relative to stop, all comparisons being linear '
      '(for logarithmic sweeps in the logarithms); the points returned and the attributes set are compared as polynomials.',
      'abstract interpretation over a sign domain with linear forms',
      'All paths. Equality is that of real numbers; the tolerance for rounding is required to be positive and less than half a step.', [])
def p45(c: Ctx):
    R1 = c.rule('P45.direction', 'start, stop and step agree after construction', 4)
    R2 = c.rule('P45.point', 'the points are computed from their number', 3)
    R3 = c.rule('P45.end', 'ends after stop, with a tolerance', 4)
    R4 = c.rule('P45.reset', 'iterating again starts from the beginning', 3)
    R5 = c.rule('P45.n', 'sweeps of N points', 2)
    with c.attempt('sweep'):
        stepped(c, c.p.cls('sweep'), False, R1, R2, R3)
    with c.attempt('sweep_log'):
        stepped(c, c.p.cls('sweep_log'), True, R1, R2, R3)
    with c.attempt('sweep_log_n'):
        log_n(c, c.p.cls('sweep_log_n'), R2, R5)
    for cn in ('sweep', 'sweep_log', 'sweep_log_n'):
        with c.attempt(cn):
            reset(c, c.p.cls(cn), R4)
    with c.attempt('sweep_n'):
        f = c.p.function(ITER, 'sweep_n')
        a, b, m = (('param', x) for x in f.arg_names()[:3])
        for r in c.walk(f, None, opaque={'sweep'}):
            for e in r.events:
                if e.kind == 'call' and e.name == 'sweep':
                    n = Num(r)
                    got = [arg(e, i, x) for i, x in enumerate(('start', 'stop', 'step'))]
                    want = (n(b) - n(a)) / (n(m) - 1)
                    st = got[2]
                    if None in got:
                        c.bad(R5, 'sweep_n', f'{e!r}: not start, stop and step', r)
                        continue
                    if contains(st, 'abs'):
                        c.require(any(n(unabs(st, f)) == want for f in (1, -1)), R5, 'sweep_n', f'{show(st)} is not (stop - start)/(N - 1)', r)
                    else:
                        c.require(n(st) == want, R5, 'sweep_n', f'{show(st)} is not (stop - start)/(N - 1)', r)
                    c.require(got[0] == a and got[1] == b, R5, 'sweep_n', f'{e!r}: not from start to stop', r)


def unabs(v, sg, of=None):
    """with abs(x) replaced by x or -x"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'call' and v[1] == 'abs' and len(v[2]) == 1 and of in (None, v[2][0]):
        return v[2][0] if sg > 0 else ('neg', v[2][0])
    return tuple(unabs(x, sg, of) for x in v)


def expand(L, v, sg):
    """with the results of calls written as calls, and abs(x) as x or -x"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'res' and v[1] in L.calls:
        e = L.calls[v[1]]
        v = ('call', e.name, tuple(e.args or ()), tuple(e.kw or ()))
    if v[0] == 'call' and v[1] in ('abs', 'fabs') and len(v[2]) == 1:
        x = expand(L, v[2][0], sg)
        return x if sg > 0 else ('neg', x)
    return tuple(expand(L, x, sg) for x in v)


def stepped(c, k, log, R1, R2, R3):
    lab = k.name
    a, b, d = (('param', x) for x in c.p.lookup(k, '__init__').arg_names()[1:4])
    u, w = {('u',): Fraction(1)}, {('w',): Fraction(1)}   # the smaller one of start and stop, and the (positive) distance to the other
    mag = {('m',): Fraction(1)}                           # the (positive) size of the step
    for given in (True, False):
        for order, sg, scale in itertools.product((1, -1), repeat=3):
            if True:
                first = Lin.add(u, w, 1) if order < 0 else u
                last = u if order < 0 else Lin.add(u, w, 1)
                if not given:
                    # from 0 (or 1) to the only number given
                    first, last = {}, {k_: order * x for k_, x in w.items()}
                step = {k_: sg * x for k_, x in mag.items()}
                sub = {a: first if given else last, b: last, d: step}
                signs = {('w',): 1, ('m',): 1}
                if scale < 0 and log:
                    continue

                def sign(x):
                    if x is not None and ONE in x and len(x) > 1:
                        # steps and distances that are all above, or all below, the constants of the source
                        return sign_of({y: z for y, z in x.items() if (y == ONE) == (scale < 0)}, {**signs, ONE: 1})
                    return sign_of(x, {**signs, ONE: 1})
                for r in paths(c, k, '__init__'):
                    now, conds = fold(r)
                    L = Lin(r, sub, log)
                    skip = False
                    unknown = False
                    for lit, pol in conds:
                        p = lit[1] if lit[0] == 'truthy' else lit
                        if p == ('isnone', b):
                            v = not given
                        else:
                            v = decide(unabs(lit, sg, d), L, sign)
                        if v is None:
                            unknown = True
                        elif v != pol:
                            skip = True
                            break
                    if skip:
                        continue
                    what = (f"start {'<' if order > 0 else '>'} stop" if given else f"stop {'above' if order > 0 else 'below'} the default start") + f", step {'upwards' if sg > 0 else 'downwards'}"
                    if r.outcome.kind == 'raise':
                        if not unknown:
                            c.bad(R1, lab, f'{r.outcome!r} for {what}', r)
                        continue
                    s1, t1, d1 = (L(now[x]) if x in now else None for x in (START, STOP, DELTA))
                    if log and DELTA in now and now[DELTA][0] == 'neg':
                        c.bad(R1, lab, f'the factor {show(now[DELTA])} is negative', r)
                    if s1 is not None and t1 is not None:
                        c.require((s1, t1) in ((first, last), (last, first)), R1, lab, f'goes from {show(now[START])} to {show(now[STOP])}', r)
                    if None in (s1, t1, d1) or unknown:
                        continue
                    # what is documented
                    if order > 0 and sg < 0:
                        want = (last, first, step)
                    elif order < 0 and sg > 0:
                        want = (first, last, {k_: -x for k_, x in step.items()})
                    else:
                        want = (first, last, step)
                    for g, x, n in zip((s1, t1, d1), want, ('starts', 'stops', 'steps')):
                        c.require(g == x, R1, lab, f'{n} wrongly for {what}', r)
                    if VAL in now and log:
                        c.require(L(now[VAL]) == want[0], R1, lab, f'the first value is wrong for {what}', r)
                    if NIT in now and not log:
                        c.require(now[NIT] == ('const', 0), R1, lab, 'does not start with the first point', r)
    # points
    for sg in (1, -1):
        for r in paths(c, k, '__next__'):
            now, conds = fold(r)
            n = Num(r)
            if log:
                point = VAL
                c.require(VAL in now and log_equal(r, now[VAL], ('bin', '*', VAL, DELTA)) or r.outcome.kind == 'raise', R2, lab, f'the next value is {show(now.get(VAL, VAL))}', r)
            else:
                point = ('bin', '+', START, ('bin', '*', NIT, DELTA))
                c.require(NIT in now and n(now[NIT]) == n(NIT) + 1 or r.outcome.kind == 'raise', R2, lab, f'the number of the next point is {show(now.get(NIT, NIT))}', r)
            if r.outcome.kind == 'return':
                v = unold(r, r.outcome.value)
                c.require(log_equal(r, v, point) if log else n(v) == n(point), R2, lab, f'{show(v)} is returned as point', r)
            # where the sweep ends: the point is stop + x steps
            L = Lin(r, {}, log)
            for x in (Fraction(-3), Fraction(0), Fraction(1, 10**11), Fraction(1), Fraction(5)):
                def sign(lin, x=x):
                    return relative(lin, n, log, point, x, sg)
                skip = unknown = False
                for lit, pol in conds:
                    v = decide_pos(unabs(lit, sg, DELTA), L, sign, n, log, point, x, sg)
                    if v is None:
                        unknown = True
                    elif v != pol:
                        skip = True
                        break
                if skip or unknown:
                    continue
                way = 'upwards' if sg > 0 else 'downwards'
                if r.outcome.kind == 'return':
                    c.require(x < Fraction(1, 2), R3, lab, f'counting {way}, a point {x} steps beyond stop is returned', r)
                elif r.outcome.kind == 'raise' and r.outcome.value == 'StopIteration':
                    c.require(x >= Fraction(1, 2), R3, lab, f'counting {way}, ' + (f'a point {-x} steps before stop is left out' if x < 0 else 'a point equal to stop is left out' if not x else
                              'the last point is left out when a rounding error puts it beyond stop'), r)


def unold(r, v):
    """values before the changes made on the path"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'old':
        return v[1]
    return tuple(unold(r, x) for x in v)


def log_equal(r, a, b):
    L = Lin(r, {}, True)
    x, y = L(unold(r, a)), L(unold(r, b))
    return x is not None and x == y


def decide_pos(lit, L, sign, n, log, point, x, sg):
    if lit[0] == 'truthy':
        lit = lit[1]
    if lit[0] == 'not':
        d = decide_pos(lit[1], L, sign, n, log, point, x, sg)
        return None if d is None else not d
    if lit[0] in ('and', 'or'):
        ds = [decide_pos(y, L, sign, n, log, point, x, sg) for y in lit[1]]
        stop = lit[0] == 'or'
        return stop if stop in ds else None if None in ds else not stop
    if lit[0] != 'cmp' or lit[1] not in ('lt', 'le', 'eq'):
        return None
    if log and lit[2:] in ((DELTA, ('const', 1)), (('const', 1), DELTA)):
        s = sg if lit[2] == ('const', 1) else -sg
    elif log:
        d = Lin.add(L(lit[3]), L(lit[2]), -1)
        s = sign(d)
    else:
        s = sign(('bin', '-', lit[3], lit[2]))
    return None if s is None else {'lt': s > 0, 'le': s >= 0, 'eq': s == 0}[lit[1]]


def relative(d, n, log, point, x, sg):
    """sign of a difference when the point is x steps beyond stop and steps have the sign sg"""
    if log:
        if d is None:
            return None
        d = dict(d)
        # log(point) = log(stop) + x log(step)
        p = d.pop(VAL, Fraction(0))
        t = d.pop(STOP, Fraction(0))
        if p + t == 0 and START not in d:
            f = d.pop(DELTA, Fraction(0)) + p * x
            return None if d else 0 if not f else sg if f > 0 else -sg
        if p == 0 and set(d) == {START} and d[START] == -t:
            return sg if t > 0 else -sg   # the sweep goes from start to stop
        if p == 0 and t == 0 and set(d) == {DELTA}:
            return sg if d[DELTA] > 0 else -sg
        return None
    v = n(d)
    P, S, T, D = n(point), n(START), n(STOP), n(DELTA)
    for f in (D, Fraction(1)):
        for one in (1, -1):
            # v = one * (point - stop - k step) [* step]
            k = (P - T - one * v / f) / D
            if abs(k) <= 4 and plain_number(k):
                s = x - k
                if f == 1:
                    s = s * sg
                s = s * one
                return 0 if not s else 1 if s > 0 else -1
    for q, s in ((D, sg), (T - S, sg)):
        for one in (1, -1):
            if v == one * q:
                return s * one
    return None


def plain_number(k):
    """a constant of the source rather than an accident of the random atoms"""
    f = float(k)
    return Fraction(f) == k or Fraction(repr(f)) == k or abs(k) < 5 and k.denominator < 1000


def log_n(c, k, R2, R5):
    lab = k.name
    names = c.p.lookup(k, '__init__').arg_names()[1:4]
    a, b, m = (('param', x) for x in names)
    for r in paths(c, k, '__init__'):
        if r.outcome.kind == 'raise' or any(p and (l[1] if l[0] == 'truthy' else l) == ('isnone', m) for l, p in fold(r)[1]):
            continue
        now, _ = fold(r)
        c.require(now.get(START) == a, R5, lab, f'starts with {show(now.get(START, NONE))}', r)
        L = Lin(r, {}, True)
        st = now.get(DELTA)
        if st is None:
            continue
        got = L(expand(L, st, 1))
        if got is None:
            continue
        c.require(L(expand(L, st, -1)) == got, R5, lab, f'the factor between points ({show(st)}) does not go down when stop is below start', r)
        count = next((x for x in now if now[x] == m), None)
        if count is None:
            continue
        n = Num(r)
        ok = len(got) == 2 and {x[:2] for x in got} == {('per', b), ('per', a)} and all(n(x[2]) == n(m) - 1 for x in got) and \
            all(y == (1 if x[1] == b else -1) for x, y in got.items())
        c.require(ok, R5, lab, f'the factor between points is {show(st)}', r)
        c.require(now.get(NIT, ('const', 0)) == ('const', 0), R5, lab, 'does not start with the first point', r)
        for q in paths(c, k, '__next__'):
            nq = Num(q)
            nw, conds = fold(q)
            D = None
            for lit, pol in conds:
                l = lit[1] if lit[0] == 'truthy' else lit
                if l[0] == 'cmp' and l[1] in ('lt', 'le') and len(conds) == 1:
                    d = nq(('bin', '-', l[3], l[2]))
                    w = nq(count) - nq(NIT)
                    # number < count  <=>  d > 0 or d >= 0, over whole numbers
                    off = next((t for t in (-2, -1, 0, 1, 2) if d == w + t), None)
                    neg = next((t for t in (-2, -1, 0, 1, 2) if d == -w + t), None)
                    if off is not None:
                        D = (w_ := (0 if l[1] == 'le' else 1) - off, pol)   # w >= w_
                    elif neg is not None:
                        D = (1 - ((0 if l[1] == 'le' else 1) - neg), not pol)
                    if off is None and neg is None:
                        D = None
            if D is not None:
                lim, more = D
                if neg is not None and off is None:
                    # -w + t >= (0|1)  <=>  w <= t - (0|1)
                    lim = neg - (0 if l[1] == 'le' else 1) + 1
                good = lim == 1 and more == (q.outcome.kind == 'return')
                c.require(good, R5, lab, 'does not give exactly N points', q)
            if q.outcome.kind == 'return':
                v = unold(q, q.outcome.value)
                c.require(log_equal(q, v, ('bin', '*', START, ('bin', '**', DELTA, NIT))), R2, lab, f'{show(v)} is returned as point', q)
                c.require(NIT in nw and nq(nw[NIT]) == nq(NIT) + 1, R2, lab, f'the number of the next point is {show(nw.get(NIT, NIT))}', q)


def reset(c, k, R4):
    used = set()
    for r in paths(c, k, '__next__'):
        used |= {e.path for e in r.events if e.kind in ('write', 'aug') and e.path[0] == 'attr' and e.path[1] == SELF}
    for r in paths(c, k, '__iter__'):
        if r.outcome.kind != 'return':
            continue
        now, _ = fold(r)
        if r.outcome.value != SELF:
            continue
        if NIT in used:
            c.require(now.get(NIT) == ('const', 0), R4, k.name, 'iterating again goes on with the number of the last point', r)
        if VAL in used:
            c.require(now.get(VAL) == START, R4, k.name, 'iterating again goes on with the last value', r)
        if FIN in used:
            c.require(now.get(FIN) in (('const', False), ('const', 0)), R4, k.name, 'iterating again leaves the sweep finished', r)
        for x in used - {NIT, VAL, FIN}:
            c.require(x in now, R4, k.name, f'{show(x)} changes with each point but is not reset', r)
