"""One simulation task: outcome record and callback protocol (P04, P05)."""
import itertools
from .util import *

RTF = 'spicelib/sim/run_task.py'
RET = A(SELF, 'retcode')
LOGGING = {'print_info', 'format_time_difference'}


def _task_paths(c):
    f = c.p.method('RunTask', 'run')
    helpers = {'format_time_difference', 'print_info'}
    return f, c.walk(f, c.p.cls('RunTask'), opaque=helpers, no_raise=helpers | {'time', 'info', 'error', 'debug', 'warning', 'print', 'format_exc'})


def _sim_calls(r):
    return [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.name == 'run' and e.recv == A(SELF, 'simulator')]


def _last_write(r, path, upto=None):
    v = None
    for i, e in enumerate(r.events if upto is None else r.events[:upto]):
        if e.kind == 'write' and e.path == path:
            v = (i, e)
    return v


@prop('P04', 'Whatever the simulator does, the task ends with a definite, truthful record',
      'However a simulation ends - any exit status, a timeout or any other exception - its task records a return code that is zero '
      'only if the simulator itself returned zero, keeps the error text of an exception, records its end time and its log file, and '
      'never lets the exception escape. A raw file is reported only for a zero return code, the log of a failed run is set aside under the '
      '.fail suffix and reported under that name, and results are handed out only after the task has ended.',
      ['fault_sequences', 'inputs'],
      'any return code, any exception raised while launching or waiting for the simulator, any combination of existing output files',
      'Tests run simulators (or stand-ins) that succeed; failures at each possible point of a task are not provoked.',
      [RTF], [dict(name='task body', where=RTF + ':RunTask.run'), dict(name='result access', where=RTF + ':RunTask.get_results, RunTask.wait_results')],
      'All paths of the task body including the exceptional exits of the simulator call are enumerated with value numbering of the '
      'return code; result accessors are checked against the liveness facts on each path.',
      'path-sensitive exception-flow and provenance analysis over the AST',
      'Decides every path with exceptions possible at each call inside a try block.',
      ['logging does not raise'])
def p04(c: Ctx):
    R1 = c.rule('P04.retcode', 'every path stores a return code: the simulator\'s own, or a nonzero constant after an exception', 4)
    R2 = c.rule('P04.contain', 'no exception of the simulator escapes the task', 2)
    R3 = c.rule('P04.times', 'start and end times and the log file are recorded on every path', 4)
    R4 = c.rule('P04.raw', 'a raw file is reported only for return code zero', 4)
    R5 = c.rule('P04.fail', 'the log of a failed run is renamed to .fail and reported under that name', 2)
    R6 = c.rule('P04.results', 'results are handed out only after the task has started and ended', 3)
    R7 = c.rule('P04.wait', 'waiting for results ends as soon as the task has ended', 1)
    R8 = c.rule('P04.text', 'the text of an exception is kept', 1)
    R9 = c.rule('P04.names', 'raw and log are named after the run netlist, the raw with the simulator\'s extension', 2)
    f, paths = _task_paths(c)
    RAW, LOG, NET = A(SELF, 'raw_file'), A(SELF, 'log_file'), A(SELF, 'netlist_file')
    init = c.p.method('RunTask', '__init__')
    for r in c.walk(init, c.p.cls('RunTask'), inline_funcs=False):
        w = _last_write(r, RET)
        if r.outcome.kind == 'return':
            c.require(w is not None and w[1].value[0] == 'const' and w[1].value[1] not in (0, None, False), R1, init,
                      'a task that has not run yet already has a successful return code', r)
            for k in ('start_time', 'stop_time', 'raw_file', 'log_file'):
                w = _last_write(r, A(SELF, k))
                c.require(w is not None and w[1].value == NONE, R3, init, f'{k} of a task that has not run is not empty', r)
    saw_exc = False
    for r in paths:
        sims = _sim_calls(r)
        if not sims:
            if r.outcome.kind == 'return':
                c.bad(R1, f, 'a path of the task never runs the simulator', r)
            continue
        i0, sim = sims[-1]
        if sim.raised:
            saw_exc = True
            if r.outcome.kind == 'raise' and not any(e.kind == 'except' for e in r.events):
                c.bad(R2, f, 'an exception of the simulator escapes the task', r)
                continue
        w = _last_write(r, RET)
        if w is None or w[0] < i0 and sim.raised:
            c.bad(R1, f, 'a path of the task ends without having stored a return code', r)
        else:
            v = w[1].value
            if sim.raised:
                c.require(v[0] == 'const' and v[1] not in (0, None, False), R1, f, f'after an exception the return code is {show(v)}', r)
                t = _last_write(r, A(SELF, 'exception_text'))
                c.require(t is not None and deep(t[1].value, lambda x: x[0] in ('exc',) or x[0] == 'res' and x[2] in ('format_exc',)), R8, f,
                          'the text of the exception is not kept', r)
            else:
                c.require(v == ('res', sim.n, 'run'), R1, f, f'the return code stored is {show(v)}, not what the simulator returned', r)
        c.require(not (r.outcome.kind == 'raise' and sim.raised and not any(e.kind == 'call' and e.recv == SELF and e.name == 'callback' for e in r.events)),
                  R2, f, 'an exception of the simulator makes the task die', r)
        if r.outcome.kind != 'return':
            continue
        st = [i for i, e in enumerate(r.events) if e.kind == 'write' and e.path == A(SELF, 'stop_time') and i > i0]
        sta = [i for i, e in enumerate(r.events) if e.kind == 'write' and e.path == A(SELF, 'start_time') and i < i0]
        c.require(bool(st), R3, f, 'the end time is not recorded', r)
        c.require(bool(sta), R3, f, 'the start time is not recorded before the simulator runs', r)
        lg = _last_write(r, LOG)
        c.require(lg is not None and lg[0] > i0, R3, f, 'the log file is not recorded', r)
        zero = None
        for lit, pol in facts_at(r):
            if lit[0] == 'truthy' and lit[1] in (RET, ('res', sim.n, 'run')):
                zero = not pol
        raww = _last_write(r, RAW)
        if raww is not None and raww[0] > i0 and raww[1].value != NONE:
            c.require(zero is True, R4, f, 'a raw file is reported although the return code was not found to be zero', r)
            c.require(_named_after(raww[1].value, NET) and deep(raww[1].value, lambda x: x[0] == 'attr' and x[2] == 'raw_extension'), R9, f,
                      f'the raw file {show(raww[1].value)} is not named after the run netlist with the simulator\'s extension', r)
        elif zero is True:
            c.bad(R4, f, 'a run that returned zero reports no raw file', r)
        else:
            c.ok(R4, f)
        if lg is not None:
            firstlog = [e for i, e in enumerate(r.events) if e.kind == 'write' and e.path == LOG and i > i0][0] if lg[0] > i0 else None
            if firstlog is not None:
                c.require(_named_after(firstlog.value, NET), R9, f, f'the log file {show(firstlog.value)} is not named after the run netlist', r)
        renames = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.name in ('replace', 'rename', 'move') and not e.raised
                   and (e.recv is not None and _logval(e.recv, LOG, NET) or any(_logval(a, LOG, NET) for a in e.args or ()))]
        exists = [pol for lit, pol in facts_at(r) if lit[0] == 'truthy' and lit[1][0] == 'mcall' and lit[1][2] == 'exists' and _logval(lit[1][1], LOG, NET)]
        if zero is False and (not exists or exists[-1]):
            if not renames:
                c.bad(R5, f, 'the log of a failed run is not set aside', r)
            else:
                i, e = renames[0]
                c.require(any(deep(a, lambda x: x == ('const', '.fail')) for a in e.args), R5, f, 'the log of a failed run is not given the .fail suffix', r)
                after = [x for j, x in enumerate(r.events) if j > i and x.kind == 'write' and x.path == LOG]
                good = any(x.value == ('res', e.n, e.name) or deep(x.value, lambda y: y == ('const', '.fail')) for x in after)
                c.require(good, R5, f, 'the log of a failed run is renamed but still reported under its old name', r)
        elif zero is True:
            c.require(not renames, R5, f, 'the log of a successful run is renamed', r)
    c.require(saw_exc, R2, f, 'the simulator is not called where its exceptions can be caught')
    # accessors
    g = c.p.method('RunTask', 'get_results')
    AL = ('truthy', ('mcall', SELF, 'is_alive', ()))
    for r in c.walk(g, c.p.cls('RunTask')):
        if r.outcome.kind != 'return':
            continue
        v, fx = r.outcome.value, facts_at(r)
        alive = _alive_self(r, fx)
        notst = [pol for lit, pol in fx if lit == ('isnone', A(SELF, 'start_time'))]
        if v == NONE:
            c.require(alive is True or notst and notst[-1], R6, g, 'a finished task hands out no result', r)
            continue
        c.require(alive is False and notst and not notst[-1], R6, g, 'results are handed out before the task has ended', r)
        cb = [pol for lit, pol in fx if lit == ('truthy', A(SELF, 'callback'))] + [not pol for lit, pol in fx if lit == ('isnone', A(SELF, 'callback'))]
        if cb and cb[-1]:
            c.require(v == A(SELF, 'callback_return'), R6, g, f'with a callback the result is {show(v)}', r)
        elif cb:
            c.require(v == ('tuple', (RAW, LOG)), R6, g, f'without a callback the result is {show(v)}, not (raw file, log file)', r)
        else:
            c.bad(R6, g, 'the result does not depend on whether there is a callback', r)
    w = c.p.method('RunTask', 'wait_results')
    for r in c.walk(w, c.p.cls('RunTask'), opaque={'get_results'}):
        if r.outcome.kind == 'loopback' or any(e.kind == 'iter' for e in r.events):
            # must not keep waiting for an ended task
            its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
            fx = facts_at(r, its[0])
            al = _alive_self(r, fx)
            ns = [pol for lit, pol in fx if lit == ('isnone', A(SELF, 'start_time'))]
            c.require(not (al is False and ns and ns[-1] is False), R7, w, 'waiting goes on although the task has started and ended', r)
        elif r.outcome.kind == 'return':
            fx = facts_at(r)
            al = _alive_self(r, fx)
            ns = [pol for lit, pol in fx if lit == ('isnone', A(SELF, 'start_time'))]
            joined = any(e.kind == 'call' and e.name == 'join' for e in r.events)
            c.require(joined or (al is False and ns and ns[-1] is False), R7, w, 'waiting ends although the task may not have ended', r)


def _alive_self(r, fx):
    res = None
    alive_calls = {e.n for e in r.events if e.kind == 'call' and e.name == 'is_alive' and e.recv == SELF}
    for lit, pol in fx:
        if lit[0] == 'truthy' and (lit[1] == ('mcall', SELF, 'is_alive', ()) or lit[1][0] == 'res' and lit[1][1] in alive_calls):
            res = pol
    return res


def _named_after(v, net):
    v = strip_old(v)
    return v[0] == 'mcall' and v[2] == 'with_suffix' and v[1] == net or v[0] == 'mcall' and contains(v, net)


def _logval(v, LOG, NET):
    v = strip_old(v)
    return v == LOG or v[0] == 'mcall' and v[2] == 'with_suffix' and v[1] == NET and v[3] == (('const', '.log'),)


@prop('P05', 'A callback runs at most once, only when due, and cannot break the run',
      'The user\'s callback is called at most once per simulation, and exactly when the simulation succeeded (return code zero with its raw and log '
      'files present) or calling it on errors was requested; it receives the raw file, the log file and the declared extra arguments, and what it returns is '
      'what the task reports. A failing callback never escapes, never changes the recorded outcome, and is followed by the '
      'same bookkeeping; a process callback is started, its result fetched and then joined, and always delivers a result. Extra arguments '
      'that do not match the callback\'s signature are rejected at submission.',
      ['inputs', 'fault_sequences', 'configurations'],
      'any callback (function, other callable, process class), any arguments, any exception inside, any outcome of the simulation',
      'Tests use one or two well-behaved callbacks after successful runs.',
      [RTF, SIMF if False else 'spicelib/sim/sim_runner.py', 'spicelib/sim/process_callback.py'],
      [dict(name='callback section of the task body', where=RTF + ':RunTask.run'),
       dict(name='argument validation', where='spicelib/sim/sim_runner.py:SimRunner.validate_callback_args')],
      'All paths of the task body, of the process-callback body and of the argument validation are enumerated; each callback invocation must be '
      'dominated by the due-condition, carry the two files and the stored arguments and be contained.',
      'path-sensitive control-dependence, typestate and exception-flow analysis over the AST',
      'Decides gating, arguments, containment and process protocol on every path. The callback itself is opaque.',
      ['logging does not raise'])
def p05(c: Ctx):
    R1 = c.rule('P05.due', 'a callback is called only when wanted and due', 4)
    R2 = c.rule('P05.must', 'a callback that is due is called', 2)
    R3 = c.rule('P05.args', 'the callback gets raw file, log file and the stored extra arguments', 4)
    R4 = c.rule('P05.contain', 'an exception of the callback never escapes and changes no outcome', 2)
    R5 = c.rule('P05.return', 'what the callback returns is what the task reports', 2)
    R6 = c.rule('P05.process', 'a process callback is started, read, then joined', 2)
    R7 = c.rule('P05.deliver', 'a process callback delivers a result even when its function raises', 1)
    R8 = c.rule('P05.validate', 'callback arguments are validated before a run is accepted and passed by name', 5)
    R9 = c.rule('P05.anycallable', 'nothing but calling is required of the callback object', 1)
    f, paths = _task_paths(c)
    CB, ARGS = A(SELF, 'callback'), A(SELF, 'callback_args')
    RAW, LOG = A(SELF, 'raw_file'), A(SELF, 'log_file')
    CBR = A(SELF, 'callback_return')
    called_paths = due_paths = 0
    proc_seen = False
    for r in paths:
        sims = _sim_calls(r)
        if not sims or r.outcome.kind == 'raise' and sims[-1][1].raised and not any(e.kind == 'except' for e in r.events):
            continue
        i0, sim = sims[-1]
        cbs = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.name == 'callback' and e.recv == SELF]
        fx = facts_at(r)
        has = [pol for lit, pol in fx if lit == ('truthy', CB)] + [not pol for lit, pol in fx if lit == ('isnone', CB)]
        onerr = [pol for lit, pol in fx if lit == ('truthy', A(SELF, 'callback_on_error'))]
        zero = None
        for lit, pol in fx:
            if lit[0] == 'truthy' and lit[1] in (RET, ('res', sim.n, 'run')):
                zero = not pol
        raw_ex = _exists(fx, RAW, c, '.raw')
        log_ex = _exists(fx, LOG, c, '.log')
        success = zero is True and raw_ex is True and log_ex is True
        failure = zero is False or raw_ex is False or log_ex is False or sim.raised
        if cbs:
            called_paths += 1
            i, e = cbs[0]
            c.require(len(cbs) == 1, R1, f, 'the callback is called more than once for one simulation', r)
            c.require(has and has[-1], R1, f, 'the callback is called without checking that there is one', r)
            c.require(success or (onerr and onerr[-1]), R1, f,
                      'the callback is called for a failed simulation although calling it on errors was not requested', r)
            c.require(i > i0, R1, f, 'the callback is called before the simulator has run', r)
            a = e.args or ()
            c.require(len(a) >= 2 and _is_file(a[0], RAW, r) and _is_file(a[1], LOG, r), R3, f,
                      f'the callback is called with {", ".join(map(show, a))} instead of the raw and the log file', r)
            an = [pol for lit, pol in fx if lit == ('isnone', ARGS)] + [not pol for lit, pol in fx if lit == ('truthy', ARGS)]
            kws = dict(e.kw or ())
            if an and an[-1]:
                c.require('**' not in kws or kws['**'] != ARGS, R3, f, 'extra arguments are passed although there are none', r)
            elif an:
                c.require(kws.get('**') == ARGS or any(_mentions_args(v, ARGS) for v in kws.values()), R3, f,
                          'the extra arguments given by the caller do not reach the callback', r)
            if e.raised:
                c.require(r.outcome.kind != 'raise', R4, f, 'an exception of the callback escapes the task', r)
                late = [x for x in r.events[i:] if x.kind == 'write' and x.path in (RET, RAW, LOG)]
                c.require(not late, R4, f, 'a failing callback changes the recorded outcome of the simulation', r)
                w = [x for x in r.events[i:] if x.kind == 'write' and x.path == CBR and x.value != NONE]
                c.require(not w, R5, f, 'a failed callback leaves a result behind', r)
            elif r.outcome.kind == 'return':
                res = ('res', e.n, 'callback')
                isproc = [pol for lit, pol in fx if lit[0] == 'truthy' and lit[1][0] == 'call' and lit[1][1] == 'isinstance' and lit[1][2][0] == res]
                w = [(j, x) for j, x in enumerate(r.events) if j > i and x.kind == 'write' and x.path == CBR]
                raised_later = any(x.kind == 'call' and x.raised for x in r.events[i + 1:])
                if isproc and isproc[-1]:
                    proc_seen = True
                    if raised_later:
                        continue
                    st = [j for j, x in enumerate(r.events) if x.kind == 'call' and x.name == 'start' and x.recv == res]
                    jn = [j for j, x in enumerate(r.events) if x.kind == 'call' and x.name == 'join' and x.recv == res]
                    gt = [(j, x) for j, x in enumerate(r.events) if x.kind == 'call' and x.name == 'get' and contains(x.recv, res)]
                    c.require(bool(st) and bool(gt) and st[0] < gt[0][0], R6, f, 'a process callback is not started before its result is fetched', r)
                    c.require(bool(jn), R6, f, 'a process callback is never joined', r)
                    if jn and gt:
                        c.require(gt[0][0] < jn[0], R6, f, 'a process callback is joined before its result is fetched (deadlock on a full queue)', r)
                    c.require(bool(w) and bool(gt) and w[-1][1].value == ('res', gt[0][1].n, 'get'), R5, f, 'the result of a process callback is not what the task reports', r)
                else:
                    c.require(bool(w) and w[-1][1].value == res, R5, f, 'the value returned by the callback is not what the task reports', r)
        else:
            if r.outcome.kind == 'return' and has and has[-1] and (success or onerr and onerr[-1] and (failure or success)):
                c.bad(R2, f, 'a callback that is due is not called', r)
            elif r.outcome.kind == 'return':
                due_paths += 1
                c.ok(R2, f)
                w = _last_write(r, CBR)
                c.require(w is None or w[1].value == NONE, R5, f, 'a task without callback result reports one', r)
        # attribute requirements on the callback
        for e in r.events:
            if e.kind == 'call' and e.name == 'callback':
                break
            for v in (e.args or ()):
                if deep(v, lambda x: x[0] == 'attr' and x[1] == CB and x[2] not in ('__class__', '__doc__')):
                    c.bad(R9, f, 'an attribute is read from the callback outside any protection, which callables without it do not survive', r)
        c.ok(R9, f)
    c.require(called_paths > 0, R2, f, 'the callback is never called')
    c.require(proc_seen, R6, f, 'process callbacks are not recognised')
    # the child side
    pc = c.p.cls('ProcessCallback')
    g = c.p.lookup(pc, 'run')
    for r in c.walk(g, pc, opaque={'callback'}, raise_everywhere=True, no_raise={'put', 'print', 'format_exc', 'error', 'info'}):
        called = [e for e in r.events if e.kind == 'call' and e.name == 'callback']
        if not called:
            continue
        puts = [e for e in r.events if e.kind == 'call' and e.name in ('put', 'put_nowait') and contains(e.recv, A(SELF, 'queue'))]
        c.require(len(puts) == 1, R7, g, f'a process callback puts {len(puts)} results when its function {"raises" if called[0].raised else "returns"}', r)
        if puts and not called[0].raised:
            res = ('res', called[0].n, 'callback')
            isn = [pol for lit, pol in facts_at(r) if lit == ('isnone', res)]
            if not (isn and isn[-1]):
                c.require(puts[0].args and contains(puts[0].args[0], res), R5, g, 'the child process does not send back what the function returned', r)
            a = called[0].args
            c.require(len(a) >= 2 and a[0] == A(SELF, 'raw_file') and a[1] == A(SELF, 'log_file'), R3, g, 'the process callback does not pass on the raw and log files', r)
            c.require(dict(called[0].kw or ()).get('**') == A(SELF, 'kwargs'), R3, g, 'the process callback does not pass on the extra arguments', r)
    gi = pc.methods.get('__init__')
    if gi is not None:
        for r in c.walk(gi, pc):
            for k, p in (('raw_file', 'raw'), ('log_file', 'log')):
                names = gi.arg_names()
                pos = names[1] if k == 'raw_file' else names[2]
                w = _last_write(r, A(SELF, k))
                c.require(w is not None and w[1].value == P(pos), R3, gi, f'the process callback stores {show(w[1].value) if w else "nothing"} as {k}', r)
    # validation
    v = c.p.method('SimRunner', 'validate_callback_args')
    CBP, AP = P('callback'), P('callback_args')
    npar = None
    for r in c.walk(v, c.p.cls('SimRunner')):
        fx = facts_at(r)
        none_cb = holds(fx, ('isnone', CBP), True) or holds(fx, ('truthy', CBP), False)
        if r.outcome.kind == 'raise':
            c.require(not none_cb, R8, v, 'a submission without callback is rejected', r)
            continue
        if r.outcome.kind != 'return':
            continue
        val = r.outcome.value
        if none_cb:
            c.require(val == NONE, R8, v, 'arguments are kept for a missing callback', r)
            continue
        # number of parameters established
        few = [pol for lit, pol in fx if lit[0] == 'cmp' and lit[1] == 'lt' and lit[3] == ('const', 2) and lit[2][0] == 'call' and lit[2][1] == 'len']
        c.require(few and few[-1] is False, R8, v, 'a callback with fewer than two parameters is accepted', r)
        extra = [pol for lit, pol in fx if lit[0] == 'cmp' and lit[1] == 'lt' and lit[2] == ('const', 2) and lit[3][0] == 'call' and lit[3][1] == 'len']
        if extra and extra[-1]:
            c.require(holds(fx, ('isnone', AP), False) or holds(fx, ('truthy', AP), True), R8, v, 'missing extra arguments are accepted', r)
            cnt = any(lit[0] == 'cmp' and lit[1] == 'eq' and contains(lit, ('call', 'len', (AP,))) and pol for lit, pol in fx)
            c.require(cnt, R8, v, 'extra arguments are accepted without comparing their number with the callback\'s parameters', r)
            istup = any(pol and lit[0] == 'truthy' and lit[1][0] == 'call' and lit[1][1] == 'isinstance' and lit[1][2][0] == AP and 'tuple' in show(lit[1][2][1]) for lit, pol in fx)
            if istup:
                c.require(val[0] == 'comp' and val[1] == 'DictComp' or val[0] in ('grown', 'call', 'phi', 'dict'), R8, v, 'a tuple of extra arguments is not turned into named arguments', r)
                if val[0] == 'comp' and val[1] == 'DictComp':
                    # position arithmetic: args[pos-2] for pos>1
                    vv = val[2][1]
                    off = [x for x in subvalues(vv) if x[0] == 'bin' and x[1] == '-' and x[3][0] == 'const']
                    if off:
                        c.require(off[0][3][1] == 2, R8, v, 'extra arguments are assigned to the wrong parameters', r)
            else:
                c.require(val == AP, R8, v, f'the named extra arguments are replaced by {show(val)}', r)
    _match(c, v, CBP, AP, R8)
    # the submission uses the validated arguments
    fr = c.p.method('SimRunner', 'run')
    for r in c.walk(fr, c.p.cls('SimRunner'), opaque={'update_completed', 'validate_callback_args', '_prepare_sim', 'active_threads'}):
        for e in r.events:
            if e.kind == 'call' and e.name == 'RunTask':
                names = c.p.method('RunTask', '__init__').arg_names()[1:]
                a = kwmap(e, names)
                val = [x for x in r.events if x.kind == 'call' and x.name == 'validate_callback_args']
                c.require(bool(val) and val[0].args[:2] == (CBP, AP) and a.get('callback_args') == ('res', val[0].n, 'validate_callback_args'), R8, fr,
                          'the task does not get the validated callback arguments', r)
                c.require(a.get('callback') == CBP and a.get('callback_on_error') == P('callback_on_error'), R8, fr,
                          'the task does not get the callback settings given by the caller', r)


MATCH = [(['raw'], None, 'ValueError'), (['raw', 'log'], None, None), (['raw', 'log', 'a', 'b'], {'b': 1, 'c': 2}, 'ValueError'), (['raw', 'log', 'a'], None, 'ValueError'),
         (['raw', 'log', 'a'], (5,), {'a': 5}), (['raw', 'log', 'a', 'b'], (5, 6), {'a': 5, 'b': 6}), (['raw', 'log', 'a', 'b'], (5,), 'ValueError'), (['raw', 'log', 'a', 'b'], (5, 6, 7), 'ValueError'),
         (['raw', 'log', 'a', 'b'], {'b': 1, 'a': 2}, {'a': 2, 'b': 1}), (['raw', 'log', 'a', 'b'], {'a': 1, 'c': 2}, 'ValueError'), (['raw', 'log', 'a', 'b'], {'a': 1}, 'ValueError'),
         (['raw', 'log', 'a'], {'a': 1, 'c': 2}, 'ValueError')]


def _match(c, f, CBP, AP, R8):
    """which extra arguments fit the parameters of a callback, decided for all shapes of them"""
    ps = [r for r in c.walk(f, c.p.cls('SimRunner'), any_iteration=True) if not impossible(r)]
    for (names, args, want), process in itertools.product(MATCH, (False, True)):
        def extra(r):
            out = {('isnone', CBP): False, ('truthy', CBP): True}
            for e in r.events:
                if e.kind == 'call' and e.name == 'signature':
                    out[A(('res', e.n, e.name), 'parameters')] = {n: n for n in names}
                elif e.kind == 'call' and e.name == 'isclass':
                    out[('res', e.n, e.name)] = process
                elif e.kind == 'assume':
                    out.update({x: process for x in subvalues(e.lit) if x and x[0] == 'call' and x[1] in ('issubclass', 'isinstance') and x[2][0] == CBP})
            return out
        got = outcomes(ps, {AP: args}, extra)
        if any(not t for _, _, t in got):
            continue
        for r, _, _ in got:
            for e in r.events:
                if e.kind == 'call' and e.name == 'signature' and e.args:
                    c.require(e.args[0] == (A(CBP, 'callback') if process else CBP) or e.args[0] not in (CBP, A(CBP, 'callback')), R8, f, f'the parameters of {show(e.args[0])} are looked at for a ' + ('process callback' if process else 'function'), r)
        raised = [r for r, _, _ in got if r.outcome.kind == 'raise']
        done = [(r, w) for r, w, _ in got if r.outcome.kind == 'return']
        what = f'a callback with the parameters {names} and the arguments {args!r}'
        if want == 'ValueError':
            if not raised:
                c.require(not done, R8, f, f'{what} is accepted', done[0][0] if done else None)
            else:
                c.require(all(r.outcome.value == want for r in raised), R8, f, f'{what} raises {raised[0].outcome.value}', raised[0])
            continue
        if not c.require(not raised, R8, f, f'{what} is rejected', raised[0] if raised else None):
            continue
        for r, w in done:
            try:
                v = evaluate(r.outcome.value, w)
            except Missing as e:
                c.bad(R8, f, f'{what} fails with {e}', r)
                continue
            except Unknown:
                continue
            c.require(v == want, R8, f, f'{what} gives {v!r}', r)


def _exists(fx, path, c, ext):
    res = None
    for lit, pol in fx:
        if lit[0] == 'truthy' and lit[1][0] == 'mcall' and lit[1][2] in ('exists', 'is_file'):
            v = strip_old(lit[1][1])
            if v == path or v[0] == 'mcall' and v[2] == 'with_suffix' and (v[3] == (('const', ext),) or ext == '.raw' and 'raw_ext' in show(v)):
                # only the check made for the verdict counts, not the one guarding the renaming of the log
                if res is None or pol is False:
                    res = pol
    return res


def _is_file(v, path, r):
    if strip_old(v) == path:
        return True
    w = _last_write(r, path)
    return w is not None and w[1].value == v


def _mentions_args(v, ARGS):
    return deep(v, lambda x: x[0] == 'sub' and x[1] == ARGS)
