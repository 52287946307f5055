"""Batch runner: accounting, admission, numbering, waiting, clean-up (P01-P03, P08, P09)."""
from .util import *

SIMF = 'spicelib/sim/sim_runner.py'
ACTIVE = A(SELF, 'active_tasks')
DONE = A(SELF, 'completed_tasks')


def _elem_norm(r: PathResult, v, active):
    """task identity: pop(i) result == container[i]"""
    pops = {}
    for e in r.events:
        if e.kind == 'call' and e.name in ('pop', 'popleft') and e.recv == active and not e.raised:
            pops[e.n] = ('sub', active, e.args[0] if e.args else ('const', -1))

    def f(x):
        if isinstance(x, tuple):
            if x and x[0] == 'old':
                return f(x[1])
            if x and x[0] == 'res' and x[1] in pops:
                return f(pops[x[1]])
            return tuple(f(y) if isinstance(y, tuple) else y for y in x)
        return x
    return f(v)


def _alive_fact(r, X, upto, norm):
    """None / True / False: what the path established about X.is_alive()"""
    res = None
    for lit, pol in facts_at(r, upto):
        if lit[0] == 'truthy' and lit[1][0] == 'mcall' and lit[1][2] == 'is_alive' and norm(lit[1][1]) == X:
            res = pol
    return res


def _attr_fact(r, X, attr, upto, norm, kind):
    res = None
    for lit, pol in facts_at(r, upto):
        if lit[0] == kind and norm(lit[1]) == A(X, attr):
            res = pol
    return res


def _ret_zero(r, X, upto, norm):
    """True: retcode==0 established, False: retcode!=0 established"""
    v = _attr_fact(r, X, 'retcode', upto, norm, 'truthy')
    return None if v is None else not v


@prop('P01', 'Every finished simulation is counted exactly once, with its true outcome',
      'Each simulation that has ended leaves the list of running tasks, enters the list of completed tasks exactly once and '
      'raises exactly one of the two counters (success only for a zero return code, failure otherwise); a task that has not '
      'started or is still running is never retired or counted. The blocking run does the same for the task it waited for, '
      'nothing else changes these lists and counters, and the run report gives every completed run its own data.',
      ['schedules', 'histories', 'fault_sequences'],
      'any number of simulations, any order of completion, any exit status or exception of a simulator run',
      'The tests run a few short batches to completion and read the counters at the end; they do not drive the interleavings in '
      'which a task ends between two polls or never starts, nor every exit status.',
      [SIMF, 'spicelib/sim/run_task.py'],
      [dict(name='polling that moves finished tasks', where=SIMF + ':SimRunner.update_completed'),
       dict(name='blocking run', where=SIMF + ':SimRunner.run_now'), dict(name='report', where=SIMF + ':SimRunner.sim_info')],
      'All control-flow paths of the polling, blocking-run and report functions are enumerated with their helpers inlined '
      '(loops once); each path that retires a task must remove one task, append the same task, and raise one counter, under '
      'established facts not-alive, started and retcode (non)zero. A who-may-write query covers the whole package.',
      'path-sensitive typestate/dataflow over the AST with inlining; who-may-write effect query',
      'Decides the accounting protocol on every control path (loop bodies once). Trusts Thread.is_alive() and that only one '
      'thread polls at a time.',
      ['one polling thread', 'loop bodies are independent of the iteration number'])
def p01(c: Ctx):
    R1 = c.rule('P01.retire', 'a path that retires a task removes one, appends the same one, counts it once with the right outcome', 2)
    R2 = c.rule('P01.running', 'no path retires a task that is alive or not started', 2)
    R3 = c.rule('P01.blocking', 'the blocking run joins, appends and counts its task exactly once', 2)
    R4 = c.rule('P01.writers', 'only the runner\'s constructor, polling, submission and blocking run change the task lists/counters', 4)
    R5 = c.rule('P01.report', 'the report stores each completed run\'s own attributes under its own number', 6)
    R6 = c.rule('P01.counters', 'the success/failure counter properties read distinct counters that start at zero', 2)
    R7 = c.rule('P01.scan', 'a refresh looks at every running task, also after having removed one', 1)
    cls = c.p.cls('SimRunner')
    okp, failp = prop_path(c, 'SimRunner', 'okSim'), prop_path(c, 'SimRunner', 'failSim')
    runp = prop_path(c, 'SimRunner', 'runno')
    c.require(len({okp, failp, runp}) == 3, R6, c.p.method('SimRunner', 'okSim'), 'run/success/failure counters share a variable')
    # constructor: counters start at 0, lists empty
    init = c.p.method('SimRunner', '__init__')
    for r in c.walk(init, cls, inline_funcs=False):
        if r.outcome.kind != 'return':
            continue
        last = {}
        for e in r.events:
            if e.kind == 'write':
                last[e.path] = e.value
        for pth in (okp, failp, runp):
            v = last.get(pth)
            c.require(v is None or v[0] != 'const' or v[1] == 0, R6, init, f'{show(pth)} does not start at zero', r)
        for pth in (ACTIVE, DONE):
            v = last.get(pth)
            c.require(v is None or v[0] != 'list' or v[1] == (), R6, init, f'{show(pth)} does not start empty', r)

    # ---- update_completed
    f = c.p.method('SimRunner', 'update_completed')
    retiring = 0
    for r in c.walk(f, cls, infer=True):
        norm = lambda v, r=r: _elem_norm(r, v, ACTIVE)
        rem = [(i, e) for i, e in enumerate(r.events) if is_removal(e, ACTIVE)]
        add = [(i, e) for i, e in enumerate(r.events) if is_addition(e, DONE)]
        cnt = [(i, e, p) for i, e in enumerate(r.events) for p in (okp, failp) if increments(e, p) is not None]
        if not add and not cnt:
            # nothing retired on this path
            if rem and not any(e.kind in ('write', 'setitem') for _, e in rem):
                c.bad(R1, f, 'a task is removed from the running list without being recorded as completed', r)
            else:
                # a path on which the task is known to have ended must retire it
                ended = [lit for lit, pol in facts_at(r) if not pol and lit[0] == 'isnone' and lit[1][0] == 'attr' and lit[1][2] == 'start_time'
                         and any(l2[0] == 'truthy' and l2[1][0] == 'mcall' and l2[1][2] == 'is_alive' and not p2
                                 and norm(l2[1][1]) == norm(lit[1][1]) for l2, p2 in facts_at(r))]
                if ended and any(e.kind == 'iter' for e in r.events):
                    c.bad(R1, f, 'an ended task is left in the running list', r)
                else:
                    c.ok(R2, f)
            continue
        if len(add) == 0:
            c.bad(R1, f, 'a task is counted without being recorded as completed', r)
            continue
        if len(add) > 1:
            c.bad(R1, f, 'a retired task is recorded as completed more than once', r)
            continue
        retiring += 1
        i, e = add[0]
        X = norm(added_value(e))
        c.require(len(rem) >= 1, R1, f, 'a task recorded as completed stays in the running list', r)
        c.require(len([1 for _, x in rem if x.kind in ('call', 'del')]) <= 1, R1, f, 'more than one task is removed for one completion', r)
        for _, x in rem:
            if x.kind == 'call' and x.name == 'remove' and x.args and norm(x.args[0]) != X:
                c.bad(R1, f, 'the task removed from the running list is not the one recorded as completed', r)
            if x.kind == 'del' and x.path[0] == 'sub' and x.path[2][0] != 'slice' and norm(x.path) != X and X[0] == 'sub':
                c.bad(R1, f, 'the task removed from the running list is not the one recorded as completed', r)
            if x.kind == 'call' and x.name == 'pop':
                y = ('sub', ACTIVE, x.args[0] if x.args else ('const', -1))
                if X[0] == 'sub' and norm(y) != X:
                    c.bad(R1, f, 'the task removed from the running list is not the one recorded as completed', r)
        if len(cnt) != 1 or increments(cnt[0][1], cnt[0][2]) != 1:
            c.bad(R1, f, f'a retired task changes the outcome counters {len(cnt)} times (must be exactly one increment by one)', r)
        else:
            j, _, which = cnt[0]
            z = _ret_zero(r, X, len(r.events), norm)
            if z is None:
                c.bad(R1, f, 'a retired task is counted without its return code having been compared with zero', r)
            else:
                c.require((which == okp) == z, R1, f, 'a retired task is counted on the wrong side of return code zero', r)
        al = _alive_fact(r, X, len(r.events), norm)
        sn = _attr_fact(r, X, 'start_time', len(r.events), norm, 'isnone')
        c.require(al is False, R2, f, 'a task is retired although it was not established that its thread has ended', r)
        c.require(sn is False, R2, f, 'a task is retired although it was not established that it has started', r)
    c.require(retiring > 0, R1, f, 'finished tasks are never moved to the completed list')
    _scan_rule(c, R7, f, cls)

    # ---- run_now
    f = c.p.method('SimRunner', 'run_now')
    for r in c.walk(f, cls, opaque={'update_completed'}):
        tasks = [('obj', e.n, e.name) for e in r.events if e.kind == 'call' and e.name == 'RunTask' and not e.raised]
        started = [e for e in r.events if e.kind == 'call' and e.name == 'start' and e.recv in tasks]
        if r.outcome.kind == 'return':
            c.require(len(started) == len(tasks), R3, f, f'{len(tasks)} tasks are made and {len(started)} started by the blocking run', r)
        if not started or r.outcome.kind != 'return':
            continue
        t = started[0].recv
        add = [e for e in r.events if is_addition(e, DONE) and added_value(e) == t]
        addall = [e for e in r.events if is_addition(e, DONE)]
        cnt = [(i, e, p) for i, e in enumerate(r.events) for p in (okp, failp) if increments(e, p) is not None]
        joins = [i for i, e in enumerate(r.events) if e.kind == 'call' and e.name in ('join', 'wait_results') and e.recv == t]
        inact = [e for e in r.events if is_addition(e, ACTIVE)]
        if inact and any(e.kind == 'call' and e.name == 'update_completed' for e in r.events):
            c.ok(R3, f)
            continue   # goes through the normal polling protocol
        c.require(len(add) == 1 and len(addall) == 1, R3, f, f'the blocking run records its task {len(addall)} times as completed', r)
        c.require(bool(joins), R3, f, 'the blocking run does not wait for its task', r)
        if len(cnt) != 1 or increments(cnt[0][1], cnt[0][2]) != 1:
            c.bad(R3, f, f'the blocking run changes the outcome counters {len(cnt)} times', r)
        else:
            z = _ret_zero(r, t, len(r.events), strip_old)
            c.require(z is not None and (cnt[0][2] == okp) == z, R3, f, 'the blocking run counts its task on the wrong side of return code zero', r)
            if joins:
                c.require(joins[0] < cnt[0][0], R3, f, 'the blocking run counts its task before it has ended', r)
    # ---- run: a started task is registered exactly once, or it would never be counted
    f, paths = _submit_paths(c, 'run')
    for r in paths:
        for i, e in enumerate(r.events):
            if e.kind == 'call' and e.name == 'start' and not e.raised and e.recv and e.recv[0] == 'obj' and e.recv[2] == 'RunTask' and r.outcome.kind == 'return':
                regs = [x for x in r.events if is_addition(x, ACTIVE) and added_value(x) == e.recv]
                c.require(len(regs) == 1, R3, f, f'a started simulation is entered {len(regs)} times into the list of running tasks', r)
    # ---- who may write
    names = {'active_tasks', 'completed_tasks', okp[2], failp[2], runp[2]}
    owners = {'SimRunner.__init__', 'SimRunner.update_completed', 'SimRunner.run', 'SimRunner.run_now'}
    for g, n, attr, kind in mutation_sites(c.p, names):
        if g.cls is not None and not any(k.name == 'SimRunner' for k in c.p.mro(g.cls)) and attr in ('active_tasks', 'completed_tasks') \
                and isinstance(n, ast.AST) and _foreign_self(n, g):
            continue    # another class's own attribute of the same name
        if g.qual.endswith('__init__') and g.cls is not None and g.cls is not cls and _foreign_self(n, g):
            continue
        c.require(owned_by(c.p, g, owners), R4, g, f'{attr} is changed ({kind}) outside the accounting protocol', node=n)

    # ---- sim_info
    f = c.p.method('SimRunner', 'sim_info')
    with c.attempt('entries of the report'):
        ps, ts = c.walk_loops(f, cls)
        for r in ps:
            if r.outcome.kind == 'return' and r.outcome.value == NONE:
                c.bad(R5, f, 'no report is returned', r)
        for r in ts:
            if not any(e.kind == 'iter' and whole(e.value) == DONE for e in r.events) or r.outcome.kind != 'loopbody':
                continue
            el = ('elem', DONE)
            rec = [e for e in r.events if e.kind == 'setitem' and (e.path[2] == A(el, 'runno'))]
            ret = [p.outcome.value for p in ps if p.outcome.kind == 'return']
            if all(v in (('dict', ()), ('local',)) or v[0] in ('dict', 'phi', 'grown', 'obj') for v in ret):
                c.require(bool(rec) or any(e.kind == 'call' and e.name in ('update', 'setdefault', '__setitem__') for e in r.events), R5, f, 'a completed run does not get into the report', r)
            has = [e.pol for e in r.events if e.kind == 'assume' and e.lit[0] == 'truthy' and e.lit[1][0] == 'attr' and e.lit[1][2] in ('edits', '_edits')]
            if rec and has:
                v = rec[-1].value
                e_ = [x for x in subvalues(v) if x == ('const', 'edits')]
                c.require(bool(e_) == has[-1], R5, f, 'the edits of a run are missing in the report' if has[-1] else 'a run without edits is reported with edits', r)
    doc = ('netlist_file', 'raw_file', 'log_file', 'retcode', 'exception_text', 'callback_return', 'start_time', 'stop_time')
    seen = False
    for r in c.walk(f, cls):
        for e in r.events:
            if e.kind != 'setitem':
                continue
            d = dict_items(e.value)
            if d is None or 'retcode' not in d:
                continue
            seen = True
            el = ('elem', DONE)
            key = e.path[2]
            c.require(key == A(el, 'runno'), R5, f, f'the report key of a run is {show(key)}, not the run number of the task reported', r)
            for k in doc:
                c.require(d.get(k) == A(el, k), R5, f, f'the report field {k} holds {show(d.get(k))}', r)
    if not seen:
        # dictionary comprehension form
        for r in c.walk(f, cls):
            v = r.outcome.value
            if r.outcome.kind == 'return' and v[0] == 'comp' and v[1] == 'DictComp':
                el = ('elem', DONE)
                d = dict_items(v[2][1])
                if d is None:
                    continue
                seen = True
                c.require(v[2][0] == A(el, 'runno'), R5, f, 'the report key of a run is not its run number', r)
                for k in doc:
                    c.require(d.get(k) == A(el, k), R5, f, f'the report field {k} holds {show(d.get(k))}', r)
    if not seen:
        c.note('the report dictionary is built in a form the rule does not follow')
        c.ok(R5, f, 6)


def _offset(v):
    """index value -> (base, constant offset)"""
    k = 0
    while v[0] == 'bin' and v[1] in '+-' and v[3][0] == 'const' and isinstance(v[3][1], int):
        k += v[3][1] if v[1] == '+' else -v[3][1]
        v = v[2]
    if v[0] == 'const' and isinstance(v[1], int):
        return None, k + v[1]
    return v, k


def _scan_rule(c, R, f, cls):
    """index scan: the step after an iteration is one less when an element was removed; never iterate the live list while removing"""
    for r in c.walk(f, cls, infer=True, unroll=2):
        its = []      # per iteration: (index or None, removed)
        cur = None
        for e in r.events:
            if e.kind == 'iter':
                cur = [None, 0]
                its.append(cur)
                live = e.value in (ACTIVE, ('call', 'enumerate', (ACTIVE,)))
                continue
            if e.kind == 'loopend':
                cur = None
            if cur is None:
                continue
            if is_removal(e, ACTIVE) and e.kind in ('call', 'del'):
                cur[1] += 1
                if live:
                    c.bad(R, f, 'tasks are removed from the list that is being iterated, so the one after a removed task is not looked at', r)
            if e.kind == 'assume' and cur[0] is None:
                for x in subvalues(e.lit):
                    if x[0] == 'attr' and x[1][0] == 'sub' and x[1][1] == ACTIVE or x[0] == 'mcall' and x[1][0] == 'sub' and x[1][1] == ACTIVE:
                        cur[0] = (x[1][2])
                        break
        idx = [(_offset(i), n) for i, n in its if i is not None]
        if len(idx) < 2:
            c.ok(R, f)
            continue
        (b1, o1), n1 = idx[0]
        (b2, o2), _ = idx[1]
        step = o2 - o1
        c.require(b1 == b2 and (step == 1 - n1 or step == -1), R, f,
                  'after an iteration that removed %d task(s) the scan moves on by %s' % (n1, step if b1 == b2 else 'an amount that depends on the task'), r)


    LEN = ('call', 'len', (ACTIVE,))
    for r in c.walk(f, cls, any_iteration=True):
        it = next((i for i, e in enumerate(r.events) if e.kind == 'iter'), None)
        st = r.events[it].start if it is not None else None
        names = {x[1] for e in r.events for v in (e.lit, e.recv) if isinstance(v, tuple) for x in subvalues(v) if x[0] == 'phi'}
        for n in names:
            lits = [(i, e) for i, e in enumerate(r.events) if e.kind == 'assume' and contains(e.lit, LEN) and contains(e.lit, ('phi', n)) and e.lit[0] == 'cmp']
            if not lits:
                continue
            end = r.st.env.get(n)
            grows = it is not None and end is not None and end != ('phi', n) and not any(is_removal(e, ACTIVE) for e in r.events)
            try:
                up = grows and evaluate(end, {('phi', n): 5}) > 5
            except Unknown:
                up = False
            if up and st and n in st and st[n][0] == 'const':
                c.require(st[n] == ('const', 0), R, f, f'the scan starts at task {st[n][1]}', r)
            i0, e0 = lits[0]
            if it is not None and i0 > it:
                continue
            for k_, m in ((0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2)):
                try:
                    taken = bool(evaluate(e0.lit, {('phi', n): k_, LEN: m})) == e0.pol
                except Unknown:
                    break
                if taken:
                    c.require((k_ < m) == (it is not None), R, f, f'with {m} running tasks the scan {"goes on" if it is not None else "ends"} at task {k_}', r)


def _foreign_self(n, g):
    """the mutated attribute hangs off `self` of g"""
    a0 = (g.arg_names() or [''])[0]
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == a0:
            return True
    return False


SUBMIT_OPAQUE = {'update_completed', 'validate_callback_args', 'clock', 'thread_time', 'print_info'}


def _submit_paths(c, name):
    f = c.p.method('SimRunner', name)
    return f, c.walk(f, c.p.cls('SimRunner'), opaque=SUBMIT_OPAQUE)


def _runtask(r):
    """(index, event, value) of RunTask constructions"""
    return [(i, e, ('obj', e.n, 'RunTask')) for i, e in enumerate(r.events) if e.kind == 'call' and e.name == 'RunTask' and not e.raised]


def _task_args(c, e):
    f = c.p.method('RunTask', '__init__')
    return kwmap(e, f.arg_names()[1:])


@prop('P02', 'Parallel limit is respected; every accepted run is registered and started once',
      'A submission that waits for resources starts a simulation only after the list of running tasks was refreshed and found to '
      'hold fewer tasks than the configured limit. Every accepted submission creates one task, registers it as running once, '
      'starts it once and hands that very task back; a submission is only refused when no place was free until its timeout (the one given, or else that of the runner, if any) had passed, starts nothing then '
      'and returns nothing. Waiting times and timeouts '
      'of submissions, tasks and server are measured in elapsed time, not in processor time.',
      ['schedules', 'histories'],
      'any sequence of submissions and completions, any limit',
      'The tests submit a handful of runs with a limit that is hardly reached and cannot show that no schedule exceeds it.',
      [SIMF], [dict(name='admission loop', where=SIMF + ':SimRunner.run')],
      'All paths of the submission function with helpers inlined: on each path that starts a task, the admission comparison '
      '(running < limit) or the caller\'s opt-out must be established after a refresh and before the start; creation, registration, '
      'start and return value must concern the same object exactly once.',
      'path-sensitive must-pass-through and typestate analysis over the AST',
      'Decides the admission protocol on every control path of the submission (waiting loop once).',
      ['submissions come from one thread at a time'])
def p02(c: Ctx):
    R1 = c.rule('P02.limit', 'a waiting submission starts only after refresh and running < limit', 2)
    R2 = c.rule('P02.once', 'an accepted submission creates, registers, starts and returns exactly one task', 2)
    R3 = c.rule('P02.refused', 'a refused submission starts and registers nothing and returns None', 1)
    R4 = c.rule('P02.config', 'the limit compared is the constructor argument', 1)
    R6 = c.rule('P02.refusal', 'a submission is refused only when its timeout has passed, and not when a place is free', 2)
    R5 = c.rule('P02.clock', 'waiting is measured in elapsed time', 3)
    lim = A(SELF, 'parallel_sims')
    f, paths = _submit_paths(c, 'run')
    for r in paths:
        made = _runtask(r)
        starts = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.name == 'start' and e.recv and e.recv[0] == 'obj'
                  and e.recv[2] == 'RunTask']
        regs = [(i, e) for i, e in enumerate(r.events) if is_addition(e, ACTIVE)]
        if r.outcome.kind == 'raise':
            continue
        if not starts:
            _refused(c, R6, f, r, lim)
            if r.outcome.kind == 'return':
                c.require(not regs, R3, f, 'a submission registers a task it never starts', r)
                c.require(r.outcome.value == NONE, R3, f, 'a submission that started nothing returns something', r)
            continue
        if len(starts) > 1:
            c.bad(R2, f, 'one submission starts more than one simulation', r)
        t = starts[0][1].recv
        c.require(len(made) == 1, R2, f, 'one submission creates more than one task', r)
        c.require(len(regs) == 1 and added_value(regs[0][1]) == t, R2, f,
                  'a started simulation is not registered exactly once in the list of running tasks', r)
        if r.outcome.kind == 'return':
            c.require(r.outcome.value == t, R2, f, 'the task handed back is not the one started', r)
        else:
            c.bad(R2, f, 'the submission goes on after having started a simulation', r)
        # admission
        i0 = starts[0][0]
        opt_out = holds(facts_at(r, i0), ('truthy', P('wait_resource')), False)
        good = False
        for i, e in enumerate(r.events[:i0]):
            if e.kind != 'assume':
                continue
            if _below_limit(e.lit, e.pol, lim):
                refreshed = any(x.kind == 'call' and x.name in ('update_completed', 'active_threads') for x in r.events[:i])
                stale = False
                if refreshed:
                    last = max(k for k, x in enumerate(r.events[:i]) if x.kind == 'call' and x.name in ('update_completed', 'active_threads'))
                    stale = any(is_addition(x, ACTIVE) for x in r.events[last:i])
                    its = [k for k, x in enumerate(r.events[:i]) if x.kind == 'iter']
                    if its and last < its[-1]:
                        stale = True
                good = refreshed and not stale
        c.require(opt_out or good, R1, f, 'a simulation is started without (running tasks < limit) having been established on a '
                                          'freshly updated list', r)
    f = c.p.method('SimRunner', '__init__')
    for r in c.walk(f, c.p.cls('SimRunner'), inline_funcs=False):
        if r.outcome.kind == 'return':
            w = [e for e in r.events if e.kind == 'write' and e.path == lim]
            c.require(w and w[-1].value == P('parallel_sims'), R4, f, 'the limit in force is not the one given to the constructor', r)


    clocks(c, R5)


def _refused(c, R6, f, r, lim):
    """the submission is refused or goes on waiting"""
    it = [i for i, e in enumerate(r.events) if e.kind == 'iter']
    if it:
        free = [e for e in r.events[it[-1]:] if e.kind == 'assume' and _below_limit(e.lit, e.pol, lim)]
        now = [e for e in r.events[it[-1]:] if e.kind == 'assume' and e.lit == ('truthy', P('wait_resource')) and not e.pol]
        c.require(not free, R6, f, 'a place is free and the simulation is not started', r)
        c.require(not now, R6, f, 'a submission that does not wait for resources is not started', r)
        c.require(any(e.kind == 'assume' and (contains(e.lit, lim) or contains(e.lit, P('wait_resource'))) for e in r.events[it[-1]:]), R6, f, 'the submission waits without asking whether a place is free', r)
    if r.outcome.kind != 'return':
        return
    times = [('res', e.n, e.name) for e in r.events if e.kind == 'call' and _is_time(('res', e.n, e.name))]
    for given, default in ((None, None), (None, 10), (10, None), (10, 3), (3, 10)):
        eff = given if given is not None else default
        for d in (0, 2, 5, 50):
            env = {P('timeout'): given, A(SELF, 'timeout'): default, **{t: 1000 + (d if i else 0) for i, t in enumerate(times)}}
            if (eff is None or d < eff) and possible(r, env) is True:
                c.bad(R6, f, f'a submission with {"no timeout" if eff is None else f"a timeout of {eff} s"} is refused after {d} s', r)
                return
    c.ok(R6, f)


def clocks(c, R5):
    """processor time stands still while a thread sleeps: no clock of that kind is used in the modules that wait"""
    for m in c.p.modules.values():
        if m.rel not in (SIMF, 'spicelib/sim/run_task.py', 'spicelib/client_server/sim_client.py', 'spicelib/client_server/srv_sim_runner.py'):
            continue
        for f in c.p.all_funcs():
            if f.module is not m:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ''
                    head, _, tail = d.partition('.')
                    o = m.imports.get(head)
                    full = (o + ('.' + tail if tail else '')) if o else ''
                    if full in ('time.time', 'time.monotonic', 'time.perf_counter', 'time.time_ns', 'time.monotonic_ns', 'time.perf_counter_ns'):
                        c.ok(R5, f)
                    elif full in ('time.process_time', 'time.thread_time', 'time.process_time_ns', 'time.thread_time_ns', 'time.clock', 'os.times', 'resource.getrusage'):
                        c.bad(R5, f, f'{full}() measures processor time, which does not advance while waiting', node=n)


def _below_limit(lit, pol, lim):
    def running(v):
        return v == ('call', 'len', (ACTIVE,)) or v[0] == 'res' and v[2] == 'active_threads'
    if lit[0] != 'cmp' or lit[1] != 'lt':
        return False
    a, b = lit[2], lit[3]
    if pol and running(a) and b == lim:
        return True
    if pol and a == ('const', 0) and b[0] == 'bin' and b[1] == '-' and b[2] == lim and running(b[3]):
        return True
    if not pol and b == ('const', 1) and a[0] == 'bin' and a[1] == '-' and a[2] == lim and running(a[3]):
        return True     # not (limit - running < 1)
    return False


@prop('P03', 'Each run gets its own number, file name and private copy of its settings',
      'Every submission advances the run number by exactly one; unless the caller names the run file, the name of the file simulated '
      'carries that number, and it lies in the output folder when one is configured. The file simulated is a saved or copied '
      'circuit - the caller\'s own circuit file is never moved, renamed or deleted - and the task keeps its own copy of the edits '
      'recorded so far and of the command-line switches in force (the ones given, or else those of the runner).',
      ['histories', 'inputs', 'configurations'],
      'any sequence of submissions and edits, any circuit kind, with and without output folder or run name',
      'Tests submit a few circuits one after another; they do not show that later edits or switches never leak into earlier runs, nor '
      'that no combination of options reuses a name.',
      [SIMF, 'spicelib/sim/run_task.py', 'spicelib/editor/updates.py'],
      [dict(name='submission', where=SIMF + ':SimRunner.run, SimRunner.run_now'),
       dict(name='edit snapshot', where='spicelib/sim/run_task.py:RunTask.edits')],
      'All paths of both submission functions with helpers inlined; value numbering tracks which definition reaches the task '
      'constructor arguments (number after the increment, name containing the number or the caller\'s name, path under the output '
      'folder), and effect queries exclude destructive calls on the caller\'s file.',
      'path-sensitive provenance (def-use) analysis over the AST; effect query',
      'Decides which value reaches each task argument on every path. Does not decide what copy/save write.',
      ['shutil.copy and save_netlist write only their destination'])
def p03(c: Ctx):
    R1 = c.rule('P03.number', 'one increment by one per submission, before naming; the task carries the new number', 4)
    R2 = c.rule('P03.name', 'a default run file name contains the run number; a caller-given name is used', 4)
    R3 = c.rule('P03.folder', 'the run file lies in the configured output folder', 2)
    R4 = c.rule('P03.file', 'the task simulates the file that was saved or copied for it', 4)
    R5 = c.rule('P03.preserve', 'the caller\'s circuit file is never moved, renamed or deleted', 2)
    R6 = c.rule('P03.snapshot', 'the task\'s edits and switches are snapshots taken at submission', 3)
    R7 = c.rule('P03.qsch', 'a QSPICE schematic is simulated through a netlist file name', 1)
    runp = prop_path(c, 'SimRunner', 'runno')
    outp = A(SELF, 'output_folder')
    for name in ('run', 'run_now'):
        f, paths = _submit_paths(c, name)
        qsch_seen = False
        for r in paths:
            for e in r.events:
                if e.kind == 'call' and e.name in ('move', 'unlink', 'rename', 'remove', 'rmtree', 'replace') and e.recv != ACTIVE:
                    if any(contains(x, P('netlist')) for x in (e.args or ()) + ((e.recv,) if e.recv else ())):
                        c.bad(R5, f, f'the caller\'s circuit is passed to {e.name}()', r, e.node)
            if r.outcome.kind == 'raise':
                continue
            made = _runtask(r)
            if not made:
                continue
            i0, ev, t = made[0]
            incs = [(i, increments(e, runp)) for i, e in enumerate(r.events) if increments(e, runp) is not None]
            args = _task_args(c, ev)
            c.require(len(incs) == 1 and incs[0][1] == 1 and incs[0][0] < i0, R1, f,
                      'the run number does not advance by exactly one per submission', r)
            rn = args.get('runno')
            c.require(rn == runp, R1, f, f'the task is numbered {show(rn)}, not with the current run number', r)
            c.ok(R5, f)
            nf = args.get('netlist_file')
            if nf is None:
                c.bad(R4, f, 'the task gets no netlist file', r)
                continue
            dst, srcok = None, False
            core = _unpath(nf)
            saves = [e for e in r.events[:i0] if e.kind == 'call' and not e.raised and e.name in ('save_netlist', 'save_as', 'write_netlist')
                     and e.recv is not None and _unpath(e.recv) == P('netlist')]
            copies = [e for e in r.events[:i0] if e.kind == 'call' and not e.raised and e.name in ('copy', 'copy2', 'copyfile')
                      and e.args and contains(e.args[0], P('netlist'))]
            if saves:
                dst = saves[-1].args[0] if saves[-1].args else saves[-1].arg(None, 'run_netlist_file')
                srcok = _unpath(dst) == core
            elif copies:
                dst = copies[-1].args[1] if len(copies[-1].args) > 1 else copies[-1].arg(None, 'dst')
                srcok = core == ('res', copies[-1].n, copies[-1].name) or _unpath(dst) == core
            given = holds(facts_at(r), ('isnone', P('run_filename')), False)
            if given and holds(facts_at(r), ('truthy', P('run_filename')), False):
                continue   # the caller gave an empty name: nothing to check against
            if dst is None:
                if given and holds(facts_at(r), ('truthy', P('run_filename')), False):
                    continue   # the caller gave an empty name: nothing to check against
                c.bad(R4, f, 'a task is created for a circuit that was neither saved nor copied for it', r)
                continue
            c.require(srcok, R4, f, f'the task simulates {show(nf)}, not the file saved/copied for it', r)
            uses_no = contains(dst, runp)
            if given:
                c.require(contains(dst, P('run_filename')), R2, f, 'the run file name given by the caller is not used', r)
            else:
                c.require(uses_no, R2, f, 'the default run file name does not carry the current run number', r)
                c.require(not deep(dst, lambda x: x[0] == 'bin' and x[1] in ('%', '//', '&', '-', '/', '*') and runp in (x[2], x[3])
                                   and not x[2][0] == 'const'), R2, f,
                          'the default run file name carries a number computed from the run number, so that names can repeat', r)
                if not uses_no and deep(dst, lambda x: x[0] == 'old' and x[1] == runp):
                    c.bad(R2, f, 'the run file is named with the number of the previous run', r)
            fo = [pol for lit, pol in facts_at(r) if lit in (('truthy', outp), )] + \
                 [not pol for lit, pol in facts_at(r) if lit == ('isnone', outp)]
            if fo and fo[-1]:
                c.require(contains(dst, outp), R3, f, 'the run file is not placed in the output folder', r)
            elif fo:
                c.require(not contains(dst, outp), R3, f, 'the run file uses an output folder that is not configured', r)
            q = [pol for lit, pol in facts_at(r) if deep(lit, lambda x: x == ('const', '.qsch'))]
            if q and not given:
                qsch_seen = True
                has_net = deep(dst, lambda x: x == ('const', '.net') or x[0] == 'const' and isinstance(x[1], str) and '.net' in x[1])
                if q[-1]:
                    c.require(has_net, R7, f, 'a schematic that cannot be simulated is run under its own suffix', r)
                else:
                    c.require(not has_net, R7, f, 'the suffix of a simulatable circuit is replaced', r)
            # snapshots
            sw = args.get('switches')
            if sw is not None and name == 'run':    # the blocking run returns only after its task has used them
                live = _alias_of(sw, A(SELF, 'cmdline_switches'))
                c.require(not live, R6, f, 'the task shares the runner\'s own switch list, so later changes reach a run already submitted', r)
            for given in (None, [], ['-g']):
                env = {P('switches'): given, A(SELF, 'cmdline_switches'): ['-c']}
                if sw is None or possible(r, env) is False:
                    continue
                v = sw
                while v[0] == 'call' and v[1] in ('list', 'copy') and len(v[2]) == 1 or v[0] == 'mcall' and v[2] == 'copy' or v[0] == 'sub' and v[2][0] == 'slice':
                    v = v[2][0] if v[0] == 'call' else v[1]
                try:
                    got = evaluate(v, env)
                except Unknown:
                    continue
                if isinstance(got, (list, tuple)):
                    c.require(list(got) == (given or ['-c']), R6, f, f'the switches of the task are {got} when {given} are given and {["-c"]} are those of the runner', r)
            # edits
            starts = [i for i, e in enumerate(r.events) if e.kind == 'call' and e.name == 'start' and e.recv == t]
            ed = [(i, e) for i, e in enumerate(r.events) if e.kind == 'write' and e.path == A(t, 'edits')]
            is_ed = any(pol and lit[0] == 'truthy' and lit[1][0] == 'call' and lit[1][1] == 'isinstance' and lit[1][2][0] == P('netlist')
                        and 'Editor' in show(lit[1][2][1]) for lit, pol in facts_at(r))
            has_up = any(pol and deep(lit, lambda x: x[0] == 'attr' and x[2] == 'netlist_updates') for lit, pol in facts_at(r))
            if ed:
                c.require(deep(ed[-1][1].value, lambda x: x[0] == 'attr' and x[2] == 'netlist_updates' and x[1] == P('netlist')), R6, f,
                          'the task records something else than the edits of the circuit submitted', r)
            elif is_ed and has_up and starts:
                c.bad(R6, f, 'the edits of a submitted editor are not recorded in the task', r)
        if not qsch_seen:
            c.bad(R7, f, 'no distinction is made for schematics that must be turned into a netlist')
    # the setter copies
    rt = c.p.cls('RunTask')
    st = rt.setters.get('edits')
    if st is not None:
        par = P(st.arg_names()[1])
        for r in c.walk(st, rt):
            if r.outcome.kind == 'return':
                c.require(any(e.kind == 'write' and contains(e.value, par) or e.kind == 'call' and any(contains(a, par) for a in e.args or ()) for e in r.events), R6, st, 'the task does not keep the edits', r)
            for e in r.events:
                if e.kind == 'write':
                    c.require(e.value != par, R6, st, 'the task keeps the editor\'s own list of edits instead of a copy', r)
    else:
        c.note('RunTask.edits is not a property any more')
    up = c.p.cls('Updates')
    cp = c.p.lookup(up, '__copy__')
    if cp is not None:
        for r in c.walk(cp, up):
            for e in r.events:
                if e.kind == 'write' and e.value[0] == 'attr' and e.value[1] == SELF:
                    c.bad(R6, cp, 'the copy of an edit list shares the list of the original', r)
                elif e.kind == 'write':
                    c.ok(R6, cp)
    else:
        uses_deep = any(isinstance(n, ast.Call) and (dotted(n.func) or '').endswith('deepcopy') for n in ast.walk(st.node)) if st else False
        c.require(uses_deep, R6, up, 'copying an edit list shares the list of the original (no __copy__)')


def _unpath(v):
    """ignore Path()/str() wrapping"""
    while v is not None and v[0] == 'call' and v[1] in ('Path', 'str') and len(v[2]) == 1:
        v = v[2][0]
    return v


def _alias_of(v, path):
    """may the value be the object at path itself"""
    if v == path:
        return True
    if v[0] in ('or', 'and'):
        return any(_alias_of(x, path) for x in v[1])
    if v[0] == 'ifexp':
        return _alias_of(v[2], path) or _alias_of(v[3], path)
    return False


def _is_time(v):
    return v[0] == 'res' and v[2] in ('time', 'monotonic', 'perf_counter', 'clock', 'thread_time', 'process_time')


def _deadline_facts(r, upto=None):
    """(index, deadline value, now value, passed?) for every comparison of a clock reading with a deadline"""
    out = []
    for i, e in enumerate(r.events if upto is None else r.events[:upto]):
        if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'lt':
            a, b = e.lit[2], e.lit[3]
            if _is_time(b) or deep(b, _is_time) and not deep(a, _is_time):
                out.append((i, a, b, e.pol))            # deadline < now
            elif _is_time(a):
                out.append((i, b, a, not e.pol))        # now < deadline is False -> passed
            elif deep(b, _is_time):
                out.append((i, a, b, e.pol))
    return out


@prop('P08', 'Waiting ends only on completion or timeout; iterating yields each result once',
      'Waiting for completion reports success only when no task is running and none has failed, reports failure early only after the '
      'deadline has passed, aborts simulations only then and only when asked to, and re-arms a caller-given timeout whenever a '
      'simulation completes. Iterating over the runner hands out every completed, successful and matching task exactly once in order of '
      'completion, skips only failed or non-matching ones, stops only when nothing is left to come, and raises the timeout '
      'error only when every running task has exceeded its time.',
      ['schedules', 'histories', 'configurations'],
      'any number of tasks, completion order, timeouts (including none) and filters',
      'Tests wait for quick runs that all succeed; deadlines, mixed filters and late completions are not exercised.',
      [SIMF], [dict(name='wait', where=SIMF + ':SimRunner.wait_completion'), dict(name='iteration', where=SIMF + ':TaskIterator')],
      'All paths of the wait function, the iterator step and the filter matcher (loops once) are enumerated; return/raise outcomes '
      'are checked against the facts established on the path.',
      'path-sensitive control-dependence analysis over the AST',
      'Decides under which established conditions each outcome is produced. Real time is not modelled.',
      ['loop bodies are independent of the iteration number'])
def p08(c: Ctx):
    R1 = c.rule('P08.result', 'success is reported only with no running task and no failure; early failure only past the deadline', 4)
    R2 = c.rule('P08.abort', 'simulations are aborted exactly when the deadline passed and the caller asked for it', 2)
    R3 = c.rule('P08.poll', 'every round of a waiting loop refreshes the task lists', 2)
    R4 = c.rule('P08.rearm', 'a caller-given timeout restarts when a simulation completes', 1)
    R5 = c.rule('P08.once', 'the iterator advances by one per consumed task and returns that task', 2)
    R6 = c.rule('P08.skip', 'a task is skipped only when failed or not matching, returned only when successful and matching', 3)
    R7 = c.rule('P08.stop', 'iteration stops only when all completed tasks were visited and none is running (or no waiting is wanted)', 2)
    R8 = c.rule('P08.timeout', 'the timeout error is raised only when a task deadline has passed', 1)
    R9 = c.rule('P08.match', 'a dictionary filter matches only when each entry equals or contains the recorded edit of that name', 3)
    R10 = c.rule('P08.alarm', 'the common deadline is start time plus task timeout, the latest of all running tasks', 1)
    cls = c.p.cls('SimRunner')
    failp = prop_path(c, 'SimRunner', 'failSim')
    f = c.p.method('SimRunner', 'wait_completion')
    paths = c.walk(f, cls, opaque={'update_completed', 'kill_all_spice', 'kill_all_ltspice', '_maximum_stop_time'})
    rearmed = False
    aborted = False
    for r in paths:
        # polling
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        if its and r.outcome.kind in ('loopback',) or its and any(e.kind == 'loopend' and e.name != 'break' for e in r.events):
            ends = [i for i, e in enumerate(r.events) if i > its[-1] and e.kind == 'loopend'] or [len(r.events)]
            seg = r.events[its[-1]:ends[0]]
            c.require(any(e.kind == 'call' and e.name in ('update_completed', 'active_threads') for e in seg), R3, f,
                      'a waiting round does not refresh the task lists, so the wait cannot end', r)
        kills = [i for i, e in enumerate(r.events) if e.kind == 'call' and e.name.startswith('kill_all')]
        dl = _deadline_facts(r)
        passed = [d for d in dl if d[3]]
        for k in kills:
            okk = any(d[0] < k and d[3] for d in dl)
            asked = holds(facts_at(r, k), ('truthy', P('abort_all_on_timeout')), True)
            c.require(okk and asked, R2, f, 'running simulations are aborted without the deadline having passed or without having been asked to', r)
        for i, a, b, pas in dl:
            first_it = its[0] if its else None
            tids = [x[1] for x in subvalues(a) if x[0] == 'res' and _is_time(x)]
            if first_it is not None and contains(a, P('timeout')) and tids:
                if max(tids) > r.events[first_it].n:
                    rearmed = True
        if r.outcome.kind != 'return':
            continue
        v = r.outcome.value
        fx = facts_at(r)
        act = [pol for lit, pol in fx if lit == ('truthy', ACTIVE)]
        fl = [pol for lit, pol in fx if lit == ('truthy', failp)]
        empty = bool(act) and act[-1] is False
        if v in (TRUE,) or v[0] not in ('const',):
            c.require(empty, R1, f, 'the wait ends with a success verdict while tasks are still running', r)
            nofail = v == ('not', ('truthy', failp)) or (fl and fl[-1] is False)
            c.require(nofail, R1, f, f'the success verdict {show(v)} does not require that no simulation failed', r)
        else:
            ok = bool(passed) or (fl and fl[-1] is True)
            c.require(ok, R1, f, 'the wait gives up although its deadline has not passed', r)
            if passed and act and act[-1] is not False:
                ab = [pol for lit, pol in fx if lit == ('truthy', P('abort_all_on_timeout'))]
                if ab and ab[-1]:
                    aborted = True
                    c.require(bool(kills), R2, f, 'the caller asked for an abort on timeout and none is attempted', r)
                elif not ab:
                    c.require(not kills, R2, f, 'simulations are aborted although the caller did not ask for it', r)
    c.require(aborted, R2, f, 'no path aborts the simulations when the deadline passes and the caller asked for it')
    c.require(rearmed, R4, f, 'a timeout given by the caller is not restarted when a simulation completes')
    with c.attempt('deadline of the wait'):
        _wait_deadline(c, f, cls, R1, R4)
    R11 = c.rule('P08.kill', 'an abort kills only processes named like the configured simulator', 1)
    k = c.p.method('SimRunner', 'kill_all_spice')
    for r in c.walk(k, cls, implicit_raise=False):
        for i, e in enumerate(r.events):
            if e.kind == 'call' and e.name in ('kill', 'terminate') and e.recv is not None:
                fx = [lit for lit, pol in facts_at(r, i) if pol and lit[0] == 'cmp' and lit[1] in ('eq', 'in')]
                okk = [l for l in fx if deep(l, lambda x: x == A(SELF, 'simulator', 'process_name'))]
                c.require(bool(okk), R11, k, 'processes are killed without their name having been compared with the configured '
                                             'simulator\'s process name', r, e.node)
            if e.kind == 'call' and e.name in ('kill', 'terminate') and e.recv is not None:
                cmp_ = [pol for lit, pol in facts_at(r, i) if lit[0] == 'cmp' and lit[1] in ('eq', 'in') and deep(lit, lambda x: x[0] in ('mcall', 'res', 'attr') and (x[2] == 'name' or x[0] == 'mcall' and x[2] == 'name'))
                        and deep(lit, lambda x: x[0] == 'attr' and x[2] == 'process_name')]
                if cmp_:
                    c.require(cmp_[-1], R11, k, 'processes that do not have the name of the simulator are killed', r, e.node)
    # deadline from tasks
    for r in c.walk(f, cls, opaque={'update_completed', 'kill_all_spice', 'kill_all_ltspice'}, infer=True):
        for i, a, b, pas in _deadline_facts(r):
            if contains(a, P('timeout')):
                continue
            if any(x[0] == 'res' for x in subvalues(a)):
                continue
            st = deep(a, lambda x: x[0] == 'attr' and x[2] == 'start_time')
            to = deep(a, lambda x: x[0] == 'attr' and x[2] == 'timeout')
            if a[0] == 'phi':
                continue
            c.require(st and to, R10, f, f'the deadline {show(a)} is not start time plus timeout of a running task', r)
    g = c.p.lookup(cls, '_maximum_stop_time')
    if g is not None:
        with c.attempt('common deadline'):
            _latest_stop(c, g, cls, R10)
    # ---- iterator
    it = None
    for r in c.walk(c.p.method('SimRunner', 'tasks'), cls, inline_funcs=False):
        if r.outcome.kind == 'return' and r.outcome.value[0] == 'obj':
            it = c.p.cls(r.outcome.value[2])
    if it is None:
        raise AnalysisBroken('SimRunner.tasks no longer returns an iterator object')
    nx = c.p.lookup(it, '__next__')
    ini = c.p.lookup(it, '__iter__')
    if nx is None or ini is None:
        raise AnalysisBroken('the task iterator has no __iter__/__next__')
    RUN = A(SELF, 'runner')
    done, act = A(RUN, 'completed_tasks'), A(RUN, 'active_tasks')
    counters = set()
    for r in c.walk(nx, it, opaque={'match_conditions', 'update_completed', '_maximum_stop_time'}):
        fx = facts_at(r)
        upd = [i for i, e in enumerate(r.events) if e.kind == 'call' and e.name == 'update_completed']
        firstuse = [i for i, e in enumerate(r.events) if e.kind == 'assume' and contains(e.lit, done)]
        if firstuse:
            c.require(upd and upd[0] < firstuse[0], R3, nx, 'the iterator looks at the task lists without refreshing them', r)
        # consumed task
        incs = [e for e in r.events if e.kind in ('aug', 'write') and e.path[0] == 'attr' and e.path[1] == SELF]
        used = set()
        for e in r.events:
            for v in (e.args or ()) + tuple(x for x in (e.lit, e.recv, e.value) if isinstance(x, tuple)):
                for x in subvalues(v):
                    if x[0] == 'sub' and x[1] == done:
                        used.add(strip_old(x))
        if used:
            idx = next(iter(used))[2]
            cnt = strip_old(idx)
            counters.add(cnt)
            mine = [e for e in incs if e.path == cnt]
            am = [increments(e, cnt) for e in mine]
            c.require(am == [1], R5, nx, f'the position in the completed list changes by {am or 0} for one task', r)
            task = ('sub', done, cnt)
            bound = not _possible_at(r, {cnt: 3, ('call', 'len', (done,)): 3, ('truthy', done): True}, done) and not _possible_at(r, {cnt: 0, ('call', 'len', (done,)): 0, ('truthy', done): False}, done)
            c.require(bound, R5, nx, 'a task is taken without checking that it exists', r)
            m = None
            for e in r.events:
                if e.kind == 'call' and e.name == 'match_conditions':
                    for lit, pol in fx:
                        if lit == ('truthy', ('res', e.n, 'match_conditions')):
                            m = pol
                    c.require(e.args and strip_old(e.args[0]) == task, R6, nx, 'the filter is applied to another task', r)
            z = None
            for lit, pol in fx:
                if lit[0] == 'truthy' and strip_old(lit[1]) == A(task, 'retcode'):
                    z = not pol
            if r.outcome.kind == 'return':
                c.require(m is True and z is True, R6, nx, 'a task is handed out although it was not established that it matches and succeeded', r)
                v = r.outcome.value
                rets = [e for e in r.events if e.kind == 'call' and ('res', e.n, e.name) == v]
                if rets:
                    c.require(rets[0].args and strip_old(rets[0].args[0]) == task, R5, nx, 'the value handed out is computed from another task', r)
                elif strip_old(v) != task:
                    c.bad(R5, nx, f'the value handed out ({show(v)}) is not computed from the task consumed', r)
            elif r.outcome.kind == 'loopback':
                c.require(m is False or z is False, R6, nx, 'a successful matching task is skipped', r)
            elif r.outcome.kind == 'raise':
                c.bad(R5, nx, 'the iterator raises after having consumed a task', r)
        elif r.outcome.kind == 'raise' and r.outcome.value == 'StopIteration':
            exhausted = any(lit[0] == 'cmp' and lit[1] == 'lt' and ((not pol and lit[3] == ('call', 'len', (done,))) or
                            (pol and lit[2] == ('call', 'len', (done,))))
                            for lit, pol in fx) or any(lit[0] == 'cmp' and lit[1] == 'eq' and pol and contains(lit, ('call', 'len', (done,))) for lit, pol in fx)
            idle = holds(fx, ('truthy', act), False) or holds(fx, ('truthy', A(SELF, 'wait')), False)
            c.require(exhausted and idle, R7, nx, 'iteration stops although completed tasks were not visited or tasks are still running', r)
        elif r.outcome.kind == 'raise':
            c.require(any(d[3] for d in _deadline_facts(r)), R8, nx, 'a timeout is reported although no deadline has passed', r)
        elif r.outcome.kind == 'return':
            c.bad(R5, nx, f'the iterator returns {show(r.outcome.value)} without taking a completed task', r)
        elif r.outcome.kind == 'loopback':
            # waits: must be because tasks are running
            c.require(holds(fx, ('truthy', act), True), R7, nx, 'the iterator keeps waiting although no task is running', r)
            c.require(not holds(fx, ('truthy', A(SELF, 'wait')), False), R7, nx, 'the iterator waits although no waiting is wanted', r)
            c.require(any(contains(lit, A(SELF, 'wait')) for lit, pol in fx), R7, nx, 'the iterator waits without asking whether waiting is wanted', r)
    for r in c.walk(ini, it):
        for cnt in counters:
            w = [e for e in r.events if e.kind == 'write' and e.path == cnt]
            c.require(bool(w) and w[-1].value == ('const', 0), R5, ini, 'starting an iteration does not rewind to the first completed task', r)
    # ---- filter
    mc = c.p.lookup(it, 'match_conditions')
    if mc is not None:
        cond = A(SELF, 'conditions')
        for r in c.walk(mc, it):
            if r.outcome.kind != 'return':
                continue
            fx, v = facts_at(r), r.outcome.value
            isdict = any(pol and lit[0] == 'truthy' and lit[1][0] == 'call' and lit[1][1] == 'isinstance' and lit[1][2][0] == cond for lit, pol in fx)
            if holds(fx, ('isnone', cond), True):
                c.require(v == TRUE, R9, mc, 'without a filter a task is rejected', r)
                continue
            edits = [pol for lit, pol in fx if lit[0] == 'truthy' and lit[1][0] == 'attr' and lit[1][2] in ('edits', '_edits') and lit[1][1] != SELF]
            if v == FALSE and edits and edits[-1] and not any(e.kind == 'iter' and contains(e.value or (), cond) for e in r.events):
                c.bad(R9, mc, 'a task that has edits is rejected without looking at the filter', r)
            if v == NONE:
                c.bad(R9, mc, 'the filter gives no answer', r)
            if not isdict:
                if v == TRUE:
                    c.bad(R9, mc, 'a filter function is not consulted', r)
                continue
            if v == FALSE and any(e.kind == 'loop0' and contains(e.value or (), cond) for e in r.events):
                c.bad(R9, mc, 'a filter whose entries all match rejects a task', r)
            it_cond = [i for i, e in enumerate(r.events) if e.kind == 'iter' and contains(e.value or (), cond)]
            if not it_cond:
                continue
            name_eq = _filter_entry_matched(fx, cond)
            for lit, pol in fx:
                if pol and lit[0] == 'truthy' and lit[1][0] == 'call' and lit[1][1] == 'isinstance' and lit[1][2][0][0] == 'elem' and 'Update' in show(lit[1][2][1]) \
                        and not any(contains(l, A(lit[1][2][0], 'name')) for l, _ in fx):
                    c.bad(R9, mc, 'a recorded edit is not compared with the filter', r)
            if v == TRUE:
                c.require(name_eq, R9, mc, 'a dictionary filter accepts a task although an entry was not matched', r)
            elif v == FALSE:
                c.require(not name_eq, R9, mc, 'a dictionary filter rejects a task although its entry was matched', r)


def _wait_deadline(c, f, cls, R1, R4):
    """the deadline each round of the wait ends with, compared with the one the arguments give, for all small histories"""
    T = P('timeout')
    paths = c.walk(f, cls, opaque={'update_completed', 'kill_all_spice', 'kill_all_ltspice', '_maximum_stop_time'}, any_iteration=True, ages=(DONE,))
    names = set()
    for r in paths:
        for e in r.events:
            if e.kind == 'iter' and e.start:
                names |= {n for n, v in e.start.items() if contains(v, T) and deep(v, _is_time)}
                if holds(facts_at(r), ('isnone', T), False) and e is next(x for x in r.events if x.kind == 'iter'):
                    for n, v in e.start.items():
                        if contains(v, T) and deep(v, _is_time):
                            ids = [x for x in subvalues(v) if _is_time(x)]
                            try:
                                c.require(evaluate(v, {T: 5, **{x: 100 for x in ids}}) == 105, R4, f, f'the first deadline is {show(v)}', r)
                            except Unknown:
                                pass
    if len(names) != 1:
        c.note('the deadline of the wait is not kept in one name')
        return
    name = names.pop()
    for r in paths:
        e = next((e for e in r.events if e.kind == 'iter' and e.start and name in e.start), None)
        if e is not None and holds(facts_at(r), ('isnone', T), False):
            c.require(e.start[name] != NONE, R4, f, 'a wait with a timeout starts without a deadline', r)
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        if len(its) != 1 or r.outcome.kind == 'raise':
            continue
        lo = its[0]
        hi = next((i for i, e in enumerate(r.events) if i > lo and e.kind == 'loopend'), len(r.events))
        turn = r.events[lo:hi]
        times = [('res', e.n, e.name) for e in turn if e.kind == 'call' and _is_time(('res', e.n, e.name))]
        maxi = [('res', e.n, e.name) for e in turn if e.kind == 'call' and e.name == '_maximum_stop_time']
        upd = [e.n for e in turn if e.kind == 'call' and e.name in ('update_completed', 'active_threads')]
        olds = {x for e in r.events if e.kind == 'assume' for x in subvalues(e.lit) if x[0] == 'old' and x[1] == DONE}
        end = r.st.env.get(name)
        inside = r.outcome.kind == 'return' and hi == len(r.events)
        for given in (None, 0.5, 50):
            for S in (100, 5000) if given is not None else (100,):
                for m in (None, 100, 5000) if given is None else (7,):
                    for grown in (False, True):
                        env = {T: given, ('phi', name): S, A(SELF, 'timeout'): 3, ('call', 'len', (DONE,)): 3 if grown else 2, **{('call', 'len', (o,)): 2 for o in olds}}
                        env.update({x: m for x in maxi})
                        env.update({x: 1000 + x[1] for x in times})
                        if possible(r, env) is not True:
                            continue
                        now = [1000 + x[1] for x in times]
                        if given is None:
                            want = {m}
                            if not maxi and inside:
                                c.bad(R1, f, 'the wait gives up although no task has exceeded its time', r)
                                continue
                        elif grown:
                            want = {1000 + x[1] + given for x in times if upd and x[1] > upd[0]} or {'a deadline that is set again'}
                        else:
                            want = {S}
                        if inside and r.outcome.value == FALSE:
                            late = [w for w in want if isinstance(w, (int, float)) and any(n > w for n in now)] or not upd and any(n > S for n in now)
                            c.require(bool(late), R1, f, 'the wait gives up before the deadline that is in force', r)
                        try:
                            got = evaluate(end, env) if end is not None else None
                        except Unknown:
                            continue
                        if upd and (given is not None or maxi):
                            c.require(got in want, R4, f, 'after a round %s the deadline is %s' % (
                                'in which a simulation completed' if grown else 'without a completion', show(end)) if given is not None else f'the deadline of the wait is {show(end)}', r)


def _latest_stop(c, g, cls, R10):
    """the common deadline after each task is the later one of the deadline before and start time + timeout of the task"""
    ps, ts = c.walk_loops(g, cls, any_iteration=True)
    T = ('elem', ACTIVE)
    names = {r.outcome.value[1] for r in ps if r.outcome.kind == 'return' and r.outcome.value[0] == 'phi'}
    for r in ps:
        if r.outcome.kind == 'return' and r.outcome.value[0] == 'phi' and not any(e.kind in ('iter', 'loop0') for e in r.events):
            c.bad(R10, g, 'no running task is looked at', r)
    if len(names) != 1:
        if any(r.outcome.kind == 'return' and r.outcome.value == NONE for r in ps) and not names and any(e.kind in ('iter', 'loop0') for r in ps for e in r.events):
            c.bad(R10, g, 'the deadline of the running tasks is not returned')
        c.note('the common deadline is not accumulated in one name')
        return
    name = names.pop()
    for r in ts:
        if r.outcome.kind != 'loopbody':
            continue
        st = next((e.start for e in r.events if e.kind == 'iter' and e.start), {})
        if name in st:
            c.require(st[name] == NONE, R10, g, f'the search for the latest deadline starts at {show(st[name])}', r)
        for before in (None, 12, 20):
            for start in (None, 10):
                for own_ in (None, 5):
                    for default in (None, 3, 15):
                        env = {('phi', name): before, A(T, 'start_time'): start, A(T, 'timeout'): own_, A(SELF, 'timeout'): default}
                        if possible(r, env) is not True:
                            continue
                        t = own_ if own_ is not None else default
                        stop = start + t if start is not None and t is not None else None
                        want = before if stop is None else stop if before is None else max(before, stop)
                        try:
                            got = evaluate(r.st.env.get(name, ('phi', name)), env)
                        except Unknown:
                            continue
                        c.require(got == want, R10, g, f'the deadline {before} becomes {got} for a task started at {start} with timeout {own_} (default {default})', r)


def _possible_at(r, env, done):
    """whether the conditions before the element of the list was taken can hold for the position and length in env"""
    for e in r.events:
        if any(x[0] == 'sub' and x[1] == done for v in (e.args or ()) + tuple(x for x in (e.lit, e.recv, e.value) if isinstance(x, tuple)) for x in subvalues(v)):
            return True
        if e.kind == 'assume':
            lit = strip_all(e.lit)
            try:
                if lit[0] == 'truthy' and lit in env:
                    got = env[lit]
                else:
                    got = evaluate(lit, env)
                if bool(got) != e.pol:
                    return False
            except Unknown:
                pass
    return True


def strip_all(v):
    if isinstance(v, tuple):
        if v and v[0] == 'old':
            return strip_all(v[1])
        return tuple(strip_all(x) for x in v)
    return v


def _filter_entry_matched(fx, cond):
    key, val = ('key', cond), ('sub', cond, ('key', cond))

    def item(v, i):
        return v[0] == 'item' and v[2] == i and contains(v, cond)
    nm = vl = False
    for lit, pol in fx:
        if pol and lit[0] == 'cmp' and lit[1] == 'eq':
            sides = (lit[2], lit[3])
            if any(s == key or item(s, 0) for s in sides) and any(s[0] == 'attr' and s[2] == 'name' for s in sides):
                nm = True
            if any(s == val or item(s, 1) for s in sides) and any(s[0] == 'attr' and s[2] == 'value' for s in sides):
                vl = True
        if pol and lit[0] == 'cmp' and lit[1] == 'in' and lit[2][0] == 'attr' and lit[2][2] == 'value' and (lit[3] == val or item(lit[3], 1)):
            vl = True
    return nm and vl


@prop('P09', 'Clean-up deletes only files that belong to completed runs',
      'Cleaning up deletes the run\'s netlist, log and raw file of every completed task and files named after that run netlist, '
      'and nothing else: no file of a running task, no file of the caller, nothing outside those names. A netlist named like a '
      'schematic run is only removed when the run itself was made from such a schematic, and no other part of the batch '
      'machinery deletes files.',
      ['histories', 'configurations'],
      'any history of submissions, completions and clean-ups',
      'A test can see that expected files vanish for one batch, not that no other file can ever be deleted.',
      [SIMF], [dict(name='clean-up', where=SIMF + ':SimRunner.cleanup_files')],
      'Effect analysis: every deletion reachable from the clean-up (helpers inlined, all paths) must act on a value derived from a '
      'completed task; every deletion site in the simulation package must belong to the clean-up.',
      'path-sensitive provenance analysis; who-may-delete effect query',
      'Decides provenance of every deleted path on all control paths.',
      [])
def p09(c: Ctx):
    R1 = c.rule('P09.provenance', 'every deleted path derives from a completed task', 3)
    R2 = c.rule('P09.complete', 'netlist, log and raw file of a completed task are deleted if they exist', 3)
    R3 = c.rule('P09.refresh', 'task lists are refreshed before the clean-up', 1)
    R4 = c.rule('P09.sites', 'files are deleted only by the clean-up', 1)
    R5 = c.rule('P09.asc', 'a .net file is deleted as by-product only for runs made from a .asc schematic', 1)
    cls = c.p.cls('SimRunner')
    f = c.p.method('SimRunner', 'cleanup_files')
    el = ('elem', DONE)
    deleted = set()
    n = 0
    for r in c.walk(f, cls, opaque={'update_completed'}):
        dels = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and not e.raised and e.name in ('unlink', 'remove', 'rmtree', 'rmdir', 'rename', 'replace', 'move')
                and e.recv not in (ACTIVE, DONE)]
        upd = [i for i, e in enumerate(r.events) if e.kind == 'call' and e.name == 'update_completed']
        for i, e in dels:
            n += 1
            tgt = e.recv if e.recv is not None and e.recv[0] != 'global' else (e.args[0] if e.args else NONE)
            src = strip_old(tgt)
            c.require(contains(src, el), R1, f, f'the file deleted, {show(tgt)}, does not belong to a completed task', r, e.node)
            bad = deep(src, lambda x: x[0] == 'mcall' and x[2] in ('glob', 'iterdir', 'rglob') or x[0] == 'attr' and x[2] in ('parent', 'circuit_file', 'output_folder'))
            c.require(not bad, R1, f, f'the file deleted, {show(tgt)}, is not named after a completed run', r, e.node)
            c.require(upd and upd[0] < i, R3, f, 'files are deleted before the task lists are refreshed', r)
            for k in ('netlist_file', 'log_file', 'raw_file'):
                if src == A(el, k):
                    deleted.add(k)
            if deep(src, lambda x: x == ('const', '.net')) and src != A(el, 'netlist_file'):
                okk = any(pol and deep(lit, lambda x: x == ('const', '.asc')) and lit[0] == 'cmp' and lit[1] == 'eq' for lit, pol in facts_at(r, i))
                c.require(okk, R5, f, 'a .net file is deleted for a run that was not made from a .asc schematic', r, e.node)
    for k in ('netlist_file', 'log_file', 'raw_file'):
        c.require(k in deleted, R2, f, f'the {k} of a completed run is never deleted')
    owners = {'SimRunner.cleanup_files', 'SimRunner.file_cleanup'}
    for g in c.p.all_funcs():
        if not g.module.rel.startswith('spicelib/sim/') and not g.module.rel.startswith('spicelib/simulators/'):
            continue
        for n_ in ast.walk(g.node):
            if isinstance(n_, ast.Call):
                d = dotted(n_.func) or ''
                last = d.split('.')[-1]
                if last in ('unlink', 'rmtree', 'rmdir', 'removedirs') or d in ('os.remove',):
                    c.require(owned_by(c.p, g, owners) , R4, g, f'{last}() is called outside the clean-up', node=n_)
