"""Launching simulators and validating their switches (P06, P07)."""
from .util import *
from ..paths import list_items

SIMF = 'spicelib/sim/simulator.py'
CLS = ('cls',)


def flat(v):
    """items of a list expression, unknown sublists as ('star', x)"""
    if v[0] == 'bin' and v[1] == '+':
        return flat(v[2]) + flat(v[3])
    it = list_items(v)
    if it is not None:
        out = ()
        for x in it:
            out += flat(x[1]) if x[0] == 'star' and x[1] != v else (x,)
        return out
    return (('star', v),)


def sim_classes(c):
    base = c.p.cls('Simulator')
    out = [k for k in c.p.subclasses(base) if k is not base]
    if len(out) < 4:
        raise AnalysisBroken(f'only {len(out)} simulator classes found')
    return base, out


def launches(r, c):
    """process launches on a path: (index, event)"""
    return [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and not e.raised and
            (e.name in ('run', 'Popen', 'call', 'check_call', 'check_output') and e.recv == ('global', 'subprocess')
             or e.name in ('system', 'popen') and e.recv == ('global', 'os'))]


@prop('P06', 'Settings of a run reach the simulator process, and its exit status comes back',
      'For every supported simulator, running a netlist starts exactly one process whose argument list consists of the configured executable, '
      'the netlist (with its log and raw file where the simulator takes them) and all given switches, without a shell, with '
      'exactly the timeout and working directory given, and with output redirected as requested; the process\'s own exit status is '
      'returned unchanged. LTspice under wine is given the netlist on drive Z:, the native LTspice of macOS is called with -b only and refuses schematics, netlist creation and switches; NGspice is '
      'given its compatibility mode, if one is set. Without an available executable nothing is started and a simulator error is raised; a '
      'simulator is reconfigured only to an executable that exists, and running one never alters its configuration.',
      ['inputs', 'configurations'],
      'any netlist path, switches (none, one string, list), timeout, working directory, redirection and platform branch, for every simulator',
      'No simulator is installed where the tests run, so the launching code of most simulators is never executed by a test.',
      [SIMF, 'spicelib/simulators/ltspice_simulator.py', 'spicelib/simulators/ngspice_simulator.py', 'spicelib/simulators/qspice_simulator.py',
       'spicelib/simulators/xyce_simulator.py', 'spicelib/sim/run_task.py', 'spicelib/sim/sim_runner.py'],
      [dict(name='process launch', where=SIMF + ':run_function'), dict(name='command lines', where='spicelib/simulators/*:run, create_netlist')],
      'All paths of run() of every Simulator subclass (and netlist creation) are enumerated with run_function inlined; the argument list is '
      'reconstructed symbolically and every keyword traced back to the parameter it must come from.',
      'path-sensitive taint/provenance analysis over the AST, sibling implementations compared against one rule',
      'Decides data flow on all paths; what the operating system does with the process is outside.',
      ['subprocess.run behaves as documented'])
def p06(c: Ctx):
    R1 = c.rule('P06.available', 'a process is started only when the executable was found, otherwise SpiceSimulatorError', 8)
    R2 = c.rule('P06.argv', 'the argument list is executable + netlist + switches (+ log and raw file)', 16)
    R3 = c.rule('P06.params', 'timeout, working directory and redirection are passed on', 16)
    R4 = c.rule('P06.noshell', 'no shell is involved', 8)
    R5 = c.rule('P06.retcode', 'the exit status is returned unchanged', 8)
    R6 = c.rule('P06.noconfig', 'running does not alter the simulator configuration', 8)
    R7 = c.rule('P06.forward', 'runner and task forward the settings', 3)
    R8 = c.rule('P06.create', 'a simulator is configured only with an executable that exists', 2)
    R10 = c.rule('P06.command', 'the command line is the one the simulator needs on the platform', 16)
    R9 = c.rule('P06.netlist', 'netlist creation reports a file only if the process succeeded and the file exists', 1)
    base, sims = sim_classes(c)
    for k in sims:
        for name in ('run', 'create_netlist'):
            f = c.p.lookup(k, name)
            if f is None or f.is_abstract:
                if name == 'run':
                    c.bad(R1, k, f'{k.name} does not define run()')
                continue
            if f.cls is base and name == 'run':
                c.bad(R1, k, f'{k.name} inherits the placeholder run()')
                continue
            names = f.arg_names()
            src = P(names[1])
            any_launch = False
            ps = c.walk(f, k)
            with c.attempt('command lines'):
                _commands(c, R10, k, f, name)
            for r in ps:
                la = launches(r, c)
                avail = _available(r)
                if not la:
                    if r.outcome.kind == 'raise':
                        if avail is False:
                            c.require('SpiceSimulatorError' in str(r.outcome.value), R1, f, 'a missing executable is not reported as SpiceSimulatorError', r)
                    elif r.outcome.kind == 'return':
                        c.bad(R1, f, 'a path returns without having started the simulator', r)
                    continue
                any_launch = True
                i, e = la[0]
                c.require(len(la) == 1, R2, f, 'more than one process is started', r)
                c.require(avail is True, R1, f, 'a process is started without the executable having been found', r)
                kw = dict(e.kw)
                c.require('shell' not in kw and e.name not in ('system', 'popen') or kw.get('shell') == FALSE, R4, f, 'a shell is used to start the simulator', r)
                args = e.args[0] if e.args else kw.get('args')
                items = flat(args)
                c.require(items and items[0] == ('star', A(CLS, 'spice_exe')), R2, f, f'the command does not start with the configured executable: {show(args)}', r)
                c.require(sum(1 for x in items if x == ('star', A(CLS, 'spice_exe'))) == 1, R2, f, 'the executable appears more than once in the command', r)
                nets = [x for x in items if x[0] != 'star' and _is_source(x, src)]
                c.require(len(nets) == 1, R2, f, f'the circuit file appears {len(nets)} times in the command', r)
                sw = _switch_items(items, r)
                c.require(sw is True, R2, f, sw if isinstance(sw, str) else '', r)
                if name == 'run':
                    _outputs(c, R2, f, k, items, src, r)
                c.require(kw.get('timeout') == P('timeout'), R3, f, f'the process gets timeout {show(kw.get("timeout"))}', r)
                c.require(kw.get('cwd') == P('cwd'), R3, f, f'the process gets working directory {show(kw.get("cwd"))}', r)
                log = [pol for lit, pol in facts_at(r, i) if lit == ('truthy', P('exe_log'))]
                so, se = kw.get('stdout'), kw.get('stderr')
                if log and log[-1]:
                    op = [x for x in r.events[:i] if x.kind == 'call' and x.name == 'open' and ('res', x.n, 'open') == so]
                    c.require(bool(op), R3, f, 'with a console log wanted, the output does not go to an opened file', r)
                    if op:
                        tgt = op[0].args[0] if op[0].args else op[0].recv
                        c.require(contains(tgt, src) and deep(tgt, lambda x: x == ('const', '.exe.log')), R3, f,
                                  f'the console log is written to {show(tgt)}', r)
                    c.require(se is not None and show(se).endswith('STDOUT') or se == so, R3, f, 'with a console log wanted, the error output does not go there', r)
                else:
                    c.require(so == P('stdout') and se == P('stderr'), R3, f, 'the redirection given by the caller is not passed on', r)
                if name == 'run' and r.outcome.kind == 'return':
                    v = r.outcome.value
                    c.require(v == A(('res', e.n, e.name), 'returncode') or v[0] == 'res' and v[1] == e.n and e.name == 'call', R5, f,
                              f'the value returned is {show(v)}, not the exit status of the process', r)
                if name == 'create_netlist' and r.outcome.kind == 'return':
                    v = r.outcome.value
                    ok0 = any(not pol and lit == ('truthy', A(('res', e.n, e.name), 'returncode')) for lit, pol in facts_at(r))
                    ex = any(pol and lit[0] == 'truthy' and lit[1][0] == 'mcall' and lit[1][2] in ('exists', 'is_file') and lit[1][1] == v for lit, pol in facts_at(r))
                    c.require(ok0 and ex, R9, f, 'a netlist is reported although the process failed or the file was not found', r)
                for x in r.events:
                    t = x.path if x.kind in ('write', 'aug', 'setitem', 'del') else x.recv if x.kind == 'call' and x.name in LIST_MUT else None
                    if t is not None and _rooted(t):
                        c.bad(R6, f, f'running changes the configuration ({x!r:.80})', r, x.node)
                c.ok(R6, f)
            c.require(any_launch, R1, f, 'the simulator is never started')
    # create_from
    f = c.p.lookup(base, 'create_from')
    if f is None:
        raise AnalysisBroken('Simulator.create_from not found')
    for r in c.walk(f, base, opaque={'guess_process_name'}):
        w = [(i, e) for i, e in enumerate(r.events) if e.kind == 'write' and e.path[0] == 'attr' and e.path[1] == CLS]
        if r.outcome.kind == 'raise' and 'FileNotFound' in str(r.outcome.value):
            c.require(not w, R8, f, 'the configuration is changed although the executable was not found', r)
        elif r.outcome.kind == 'return':
            sets = {e.path[2] for _, e in w}
            c.require({'spice_exe', 'process_name'} <= sets, R8, f, 'executable and process name are not both set', r)
            for i, e in w:
                found = any(pol and lit[0] == 'truthy' and (lit[1][0] == 'mcall' and lit[1][2] in ('exists', 'is_file') or
                                                            lit[1][0] in ('res', 'call') and 'which' in show(lit[1])) for lit, pol in facts_at(r, i))
                c.require(found, R8, f, 'a simulator is configured with an executable that was not found', r, e.node)
    # forwarding
    t = c.p.method('RunTask', 'run')
    n = 0
    for r in c.walk(t, c.p.cls('RunTask')):
        for e in r.events:
            if e.kind == 'call' and e.name == 'run' and e.recv == A(SELF, 'simulator'):
                n += 1
                a = kwmap(e, ['netlist_file', 'cmd_line_switches', 'timeout', 'stdout', 'stderr', 'cwd', 'exe_log'])
                c.require(contains(a.get('netlist_file', NONE), A(SELF, 'netlist_file')), R7, t, 'the task does not simulate its own netlist', r)
                for p, at in (('cmd_line_switches', 'switches'), ('timeout', 'timeout'), ('cwd', 'cwd'), ('exe_log', 'exe_log')):
                    c.require(a.get(p) == A(SELF, at), R7, t, f'the task passes {show(a.get(p))} as {p} instead of its own setting', r)
    c.require(n > 0, R7, t, 'the task never runs its simulator')
    ini = c.p.method('RunTask', '__init__')
    for r in c.walk(ini, c.p.cls('RunTask')):
        for at in ('switches', 'timeout', 'cwd', 'exe_log', 'simulator', 'netlist_file', 'runno'):
            w = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, at)]
            c.require(bool(w) and w[-1].value == P(at), R7, ini, f'the task does not keep the {at} it was given', r)
    pnames = ini.arg_names()[1:]
    for m in ('run', 'run_now'):
        f = c.p.method('SimRunner', m)
        seen = 0
        for r in c.walk(f, c.p.cls('SimRunner'), opaque={'update_completed', 'validate_callback_args', '_prepare_sim', 'active_threads'}):
            for i, e in enumerate(r.events):
                if e.kind == 'call' and e.name == 'RunTask':
                    seen += 1
                    a = kwmap(e, pnames)
                    prep = [x for x in r.events[:i] if x.kind == 'call' and x.name == '_prepare_sim']
                    c.require(bool(prep) and a.get('netlist_file') == ('res', prep[-1].n, '_prepare_sim'), R7, f, 'the task does not get the prepared run netlist', r)
                    c.require(a.get('simulator') == A(SELF, 'simulator'), R7, f, 'the task does not get the configured simulator', r)
                    c.require(a.get('cwd') == A(SELF, 'cwd'), R7, f, 'the task does not get the working directory of the runner', r)
                    c.require(a.get('exe_log') == P('exe_log'), R7, f, 'the task does not get the console log setting', r)
                    tn = [pol for lit, pol in facts_at(r, i) if lit == ('isnone', P('timeout'))]
                    want = A(SELF, 'timeout') if tn and tn[0] else P('timeout')
                    c.require(a.get('timeout') == want, R7, f, f'the task gets timeout {show(a.get("timeout"))} instead of {show(want)}', r)
                    sw = a.get('switches', NONE)
                    given = [pol for lit, pol in facts_at(r, i) if lit == ('truthy', P('switches'))]
                    none = [pol for lit, pol in facts_at(r, i) if lit == ('isnone', P('switches'))]
                    if none and none[0] or given and not given[-1]:
                        c.require(contains(sw, A(SELF, 'cmdline_switches')), R7, f, 'without explicit switches the task does not get those of the runner', r)
                    elif given and given[-1]:
                        c.require(contains(sw, P('switches')) and not contains(sw, A(SELF, 'cmdline_switches')), R7, f, 'explicit switches do not replace those of the runner', r)
        c.require(seen > 0, R7, f, 'no task is created')


def _rooted(t):
    while t[0] in ('attr', 'sub'):
        t = t[1]
    return t == CLS


PLATFORM = ('attr', ('global', 'sys'), 'platform')
EXE = A(CLS, 'spice_exe')
MODE = A(CLS, '_compatibility_mode')
WINE, MAC, PLAIN = ['wine', '/w/drive_c/LTspice.exe'], ['/Applications/LTspice.app/Contents/MacOS/LTspice'], ['/opt/sim']
# class, function, platform, executable, settings, netlist, switches given, expected arguments after the executable (None: refused)
COMMANDS = [
    ('LTspice', 'run', 'linux', WINE, {}, '/d/c.net', SW, ['-Run', '-b', 'Z:/d/c.net', *SW_])
    for SW, SW_ in ((None, []), ('-alt', ['-alt']), (['-alt', '-ascii'], ['-alt', '-ascii']))
] + [
    ('LTspice', 'run', 'darwin', WINE, {}, '/d/c.asc', ['-alt'], ['-Run', '-b', 'Z:/d/c.asc', '-alt']),
    ('LTspice', 'run', 'darwin', MAC, {}, '/d/c.net', None, ['-b', '/d/c.net']),
    ('LTspice', 'run', 'darwin', MAC, {}, '/d/c.asc', None, None),
    ('LTspice', 'run', 'win32', ['C:/LT/LTspice.exe'], {}, '/d/c.asc', ['-alt'], ['-Run', '-b', '/d/c.asc', '-alt']),
    ('LTspice', 'create_netlist', 'linux', WINE, {}, '/d/c.asc', None, ['-netlist', '/d/c.asc']),
    ('LTspice', 'create_netlist', 'darwin', WINE, {}, '/d/c.asc', ['-x'], ['-netlist', '/d/c.asc', '-x']),
    ('LTspice', 'create_netlist', 'darwin', MAC, {}, '/d/c.asc', None, None),
    ('LTspice', 'create_netlist', 'win32', ['C:/LT/LTspice.exe'], {}, '/d/c.asc', '-x', ['-netlist', '/d/c.asc', '-x']),
    ('NGspiceSimulator', 'run', 'linux', PLAIN, {MODE: 'kiltpsa'}, '/d/c.net', ['-q'], ['-q', '-D', 'ngbehavior=kiltpsa', '-b', '-o', '/d/c.log', '-r', '/d/c.raw', '/d/c.net']),
    ('NGspiceSimulator', 'run', 'win32', PLAIN, {MODE: 'a'}, '/d/c.cir', None, ['-D', 'ngbehavior=a', '-b', '-o', '/d/c.log', '-r', '/d/c.raw', '/d/c.cir']),
    ('NGspiceSimulator', 'run', 'linux', PLAIN, {MODE: None}, '/d/c.net', '-q', ['-q', '-b', '-o', '/d/c.log', '-r', '/d/c.raw', '/d/c.net']),
    ('Qspice', 'run', 'linux', PLAIN, {}, '/d/c.net', ['-ASCII'], ['-o', '/d/c.log', '/d/c.net', '-ASCII']),
    ('Qspice', 'run', 'win32', PLAIN, {}, '/d/c.net', None, ['-o', '/d/c.log', '/d/c.net']),
    ('XyceSimulator', 'run', 'linux', PLAIN, {}, '/d/c.net', ['-quiet'], ['-quiet', '-l', '/d/c.log', '-r', '/d/c.raw', '/d/c.net']),
    ('XyceSimulator', 'run', 'win32', PLAIN, {}, '/d/c.net', '-quiet', ['-quiet', '-l', '/d/c.log', '-r', '/d/c.raw', '/d/c.net']),
]
PAIRS = {'-o', '-r', '-l', '-D'}
GIVES = {'exists': lambda *a: True, 'is_file': lambda *a: True, 'isfile': lambda *a: True, 'which': lambda *a: '/usr/bin/x'}


def _commands(c, rule, k, f, name):
    names = f.arg_names()
    ps = c.walk(f, k, opaque={'exists', 'is_file', 'isfile'}, no_raise={'exists', 'is_file', 'isfile', 'which', 'info', 'warning', 'debug', 'error'})
    for kn, fn, platform, exe, settings, net, sw, want in COMMANDS:
        if kn != k.name or fn != name:
            continue
        env = {PLATFORM: platform, EXE: exe, P(names[1]): net, P(names[2]): sw, P('exe_log'): False, **settings}
        what = f'{exe[0]} on {platform} for {net}'
        for r, w, sure in simulated(ps, env, GIVES):
            la = launches(r, c)
            if not la:
                continue
            if not _decided(r, w, la[0][0]):
                continue
            if want is None:
                c.bad(rule, f, f'{what} is not refused', r)
                continue
            v = la[0][1].args[0] if la[0][1].args else dict(la[0][1].kw or ()).get('args', NONE)
            try:
                got = [str(x) for x in evaluate(v, w)]
            except Unknown:
                continue
            got, full = got[len(exe):] if got[:len(exe)] == exe else got, exe + want
            pairs = [got[i + 1:i + 2] == want[want.index(x) + 1:][:1] for i, x in enumerate(got) if x in PAIRS and x in want]
            c.require(sorted(got) == sorted(want) and all(pairs), rule, f, f'{what} is called with {got} instead of {want}', r)
        if want is not None:
            for r, w, sure in simulated(ps, env, GIVES):
                if sure is True and not launches(r, c):
                    c.require(r.outcome.kind not in ('raise',) or 'NotImplementedError' not in str(r.outcome.value), rule, f, f'{what} is refused', r)


def _decided(r, env, upto):
    for e in r.events[:upto]:
        if e.kind == 'assume':
            try:
                evaluate(e.lit, env)
            except Unknown:
                return False
    return True


FREE = ['a.b', 'x y/z.txt']
TAKES = {'<int_option>': (['5', '12'], ['five', '']), '<onoff_option>': (['on', 'OFF'], ['maybe', '']), '<truefalse_option>': (['true', 'False'], ['yes', '']),
         '<redef_param_option>': (['ignore', 'uselast', 'usefirst', 'warn', 'error'], ['last', '']), 'var_value': (['filetype=ascii', 'a=1'], ['filetype', ''])}


def _switches(c, rule, k, f, T, table, defaults):
    names = f.arg_names()
    SW, PAR = P(names[1]), P(names[2])
    ps = c.walk(f, k, opaque={'int'}, no_raise={'info', 'warning', 'debug'})
    modes = [{MODE: 'kiltpsa'}, {MODE: None}] if any(contains(e.lit, MODE) for r in ps for e in r.events if e.kind == 'assume') else [{}]
    base = {T: table, A(CLS, '_default_run_switches'): defaults, PLATFORM: 'linux', EXE: PLAIN}

    def number(recv, a, kw):
        return int(a[0])
    jobs = [(s, '', [], {}) for s in (None, '', '   ')] + [('-no_such_switch', '', ValueError, {}), ('nosuch', 'x', ValueError, {})]
    for d in defaults:
        jobs += [(d, '', [], {}), (f' {d} ', 'x', [], {}), (d[1:], '', [], {})]
    for key, row in table.items():
        if key in defaults:
            continue
        one = len(row) == 1
        tok = None if one else row[1]
        good, bad = TAKES.get(tok, (FREE, []))
        for p in good:
            want = [t.replace('<path>', p) for t in row] if one else [row[0], p]
            spelled = [key, f' {key}  '] + ([key[1:]] if not key.startswith('--') and key[1:2] != '-' else [])
            for s in spelled:
                jobs.append((s, p, want, {}))
        for p in bad:
            jobs.append((key, p, [], {}))
        if tok == 'var_value':
            for m in modes:
                jobs.append((key, 'ngbehavior=lt', [] if m.get(MODE) else [row[0], 'ngbehavior=lt'], m))
    if any(e.kind == 'assume' and contains(e.lit, PLATFORM) for r in ps for e in r.events):
        jobs.append((next(iter(table)), 'x', ValueError, {PLATFORM: 'darwin', EXE: MAC}))
        jobs.append(('-alt', '', ['-alt'], {PLATFORM: 'darwin', EXE: WINE}))
    for s, p, want, more in jobs:
        env = {**base, **modes[0], SW: s, PAR: p, **more}
        what = f'switch {s!r}' + (f' with {p!r}' if p else '')
        found = simulated(ps, env, {'int': number})
        for r, w, sure in found:
            if r.outcome.kind == 'raise' and '*' in str(r.outcome.value) and any(x.outcome.kind == 'return' for x, _, _ in found):
                continue
            if not sure or r.outcome.kind not in ('return', 'raise'):
                continue
            turns = [e.value for e in r.events if e.kind == 'iter']
            if any(contains(r.outcome.value, ('elem', t)) or contains(r.outcome.value, ('list', ())) for t in turns):
                continue  # a list built in a loop: its length is not known here
            if r.outcome.kind == 'raise' or sure == BREAKS:
                c.require(want is ValueError and 'ValueError' in str(r.outcome.value), rule, f, f'{what} ' + ('raises an exception' if want is not ValueError else 'does not raise ValueError'), r)
                continue
            if want is ValueError:
                c.bad(rule, f, f'{what} is not refused', r)
                continue
            try:
                got = evaluate(r.outcome.value, w)
            except Missing:
                c.bad(rule, f, f'{what} raises an exception', r)
                continue
            except Unknown:
                continue
            c.require(list(got) == want if got is not None else False, rule, f, f'{what} yields {got!r} instead of {want!r}', r)


def _available(r):
    res = None
    neg = False
    there = {('res', e.n, e.name) for e in r.events if e.kind == 'call' and e.name in ('exists', 'is_file', 'isfile') and
             any(contains(a, A(CLS, 'spice_exe')) for a in (e.recv or (),) + tuple(e.args or ()))}
    for lit, pol in facts_at(r):
        if lit[0] == 'isnone' and lit[1][0] == 'res' and lit[1][2] == 'which':
            lit, pol = ('truthy', lit[1]), not pol
        if lit[0] != 'truthy':
            continue
        v = lit[1]
        hit = v[0] == 'mcall' and v[2] in ('exists', 'is_file', 'isfile') and contains(v, A(CLS, 'spice_exe')) or v in there or \
            v[0] in ('res', 'call', 'mcall') and ('which' in show(v) or 'is_available' in show(v))
        if hit:
            if pol:
                res = True
            else:
                neg = True
        if v == A(CLS, 'spice_exe') and not pol:
            neg = True
        if v[0] == 'call' and v[1] == 'len' and not pol:
            neg = True
    return res if res else (False if neg else None)


def _is_source(x, src):
    """the netlist itself, not a file derived from it by suffix"""
    return contains(x, src) and not deep(x, lambda y: y[0] == 'mcall' and y[2] in ('with_suffix', 'with_name'))


def _switch_items(items, r):
    sw = P('cmd_line_switches')
    isn = [pol for lit, pol in facts_at(r) if lit == ('isnone', sw)]
    isstr = [pol for lit, pol in facts_at(r) if lit[0] == 'truthy' and lit[1][0] == 'call' and lit[1][1] == 'isinstance' and lit[1][2][0] == sw]
    n = sum(1 for x in items if x in (('star', sw), sw))
    if isn and isn[-1]:
        return True if not n else 'None is put into the command'
    if isstr and isstr[-1]:
        return True if sum(1 for x in items if x == sw) == 1 else 'a single switch given as string is not one argument of the command'
    if not isstr and not isn:
        return True if n else 'the given switches do not reach the command'
    return True if sum(1 for x in items if x == ('star', sw)) == 1 else 'the given switches do not all reach the command'


def _outputs(c, R, f, k, items, src, r):
    """-o/-l take the .log file, -r takes the raw file with the simulator's own extension"""
    ext = cconst(c, k, 'raw_extension')
    for j, x in enumerate(items[:-1]):
        if x[0] != 'const' or not isinstance(x[1], str):
            continue
        nx = items[j + 1]
        if x[1] in ('-o', '-l'):
            okk = contains(nx, src) and deep(nx, lambda y: y[0] == 'mcall' and y[2] == 'with_suffix' and y[3] == (('const', '.log'),))
            c.require(okk, R, f, f'{x[1]} is followed by {show(nx)}, not by the log file of the run', r)
        elif x[1] == '-r':
            okk = contains(nx, src) and deep(nx, lambda y: y[0] == 'mcall' and y[2] == 'with_suffix' and
                                             (y[3] == (('const', ext),) or y[3] == (A(CLS, 'raw_extension'),)))
            c.require(okk, R, f, f'{x[1]} is followed by {show(nx)}, not by the raw file ({ext}) of the run', r)


# --------------------------------------------------------------------------------------------- switches
@prop('P07', 'Switch validation accepts exactly the supported switches and keeps its tables',
      'Validating a command line switch yields nothing for an empty switch or one that is always set anyway, refuses an unknown '
      'switch with a ValueError, and otherwise yields a new list of arguments in which the option is spelled as in the table of the simulator, '
      'with the parameter substituted; every switch of the table can actually be produced. A rejected parameter yields nothing, and '
      'no result ever shares storage with the table.',
      ['inputs', 'configurations'],
      'any switch string and parameter, any row of every simulator\'s switch table',
      'Tests try a handful of switches of one simulator, not every row of every table, nor later changes of returned lists.',
      ['spicelib/simulators/ltspice_simulator.py', 'spicelib/simulators/ngspice_simulator.py', 'spicelib/simulators/qspice_simulator.py', 'spicelib/simulators/xyce_simulator.py'],
      [dict(name='switch tables', where='spicelib/simulators/*:*_args'), dict(name='validation', where='spicelib/simulators/*:valid_switch')],
      'Every table row is evaluated from source and matched against the enumerated paths of the validator that are compatible with it; returned values are '
      'checked for provenance and aliasing.',
      'table evaluation + path enumeration + aliasing query over the AST',
      'Complete over the rows; the meaning of a switch to the real simulator is outside.',
      [])
def p07(c: Ctx):
    R1 = c.rule('P07.rows', 'table rows are well formed', 40)
    R2 = c.rule('P07.unknown', 'only switches of the table produce arguments, others raise ValueError', 4)
    R3 = c.rule('P07.fresh', 'a result never shares storage with the table', 4)
    R4 = c.rule('P07.empty', 'empty and always-set switches produce nothing', 8)
    R5 = c.rule('P07.producible', 'every row can be produced with its parameter', 40)
    R6 = c.rule('P07.reject', 'a rejected parameter produces nothing, an accepted one something', 1)
    R8 = c.rule('P07.sample', 'each switch of each table yields its arguments however it is written, and only with a parameter it takes', 200)
    R7 = c.rule('P07.dash', 'the table is looked up with the stripped, dash-prefixed switch', 8)
    base, sims = sim_classes(c)
    for k in sims:
        f = c.p.lookup(k, 'valid_switch')
        if f is None or f.is_abstract:
            c.bad(R2, k, f'{k.name} does not define valid_switch()')
            continue
        names = f.arg_names()
        SW, PAR = P(names[1]), P(names[2])
        paths = c.walk(f, k, opaque={'using_macos_native_sim'}, no_raise={'info', 'warning', 'debug'})
        tabs = set()
        for r in paths:
            for lit, pol in facts_at(r):
                for x in subvalues(lit):
                    if x[0] == 'attr' and x[1] == CLS and isinstance(cconst(c, k, x[2]), dict):
                        tabs.add(x[2])
            if r.outcome.kind == 'return':
                for x in subvalues(r.outcome.value):
                    if x[0] == 'attr' and x[1] == CLS and isinstance(cconst(c, k, x[2]), dict):
                        tabs.add(x[2])
        if len(tabs) != 1:
            raise AnalysisBroken(f'{k.name}.valid_switch consults {len(tabs)} tables')
        tname = next(iter(tabs))
        T = A(CLS, tname)
        table = cconst(c, k, tname)
        defaults = cconst(c, k, '_default_run_switches')
        construct = f"{k.module.rel}:{k.name}.{tname}"
        usable = []
        for r in paths:
            fx = [(_table_get(lit, T), pol) for lit, pol in facts_at(r)]
            fx = [(('cmp', 'in', lit[1][2], T), not pol) if lit[0] == 'isnone' and lit[1][0] == 'sub' and lit[1][1] == T else
                  (('cmp', 'in', lit[1][2], T), pol) if lit[0] == 'truthy' and lit[1][0] == 'sub' and lit[1][1] == T else (lit, pol) for lit, pol in fx]
            if r.outcome.kind == 'loopback':
                continue
            inT = [(lit[2], pol) for lit, pol in fx if lit[0] == 'cmp' and lit[1] == 'in' and lit[3] == T]
            empty = r.outcome.kind == 'return' and r.outcome.value in (('list', ()), ('grown', 'list', ()))
            none = holds(fx, ('isnone', SW), True)
            if none:
                c.require(empty, R4, f, 'no switch does not yield an empty list', r)
                continue
            blank = any(lit[0] == 'truthy' and not pol and lit[1][0] == 'mcall' and lit[1][2] == 'strip' and lit[1][1] == SW for lit, pol in fx)
            deflt = any(pol and lit[0] == 'cmp' and lit[1] == 'in' and 'default' in show(lit[3]) for lit, pol in fx)
            notdef = any(not pol and lit[0] == 'cmp' and lit[1] == 'in' and 'default' in show(lit[3]) for lit, pol in fx)
            if blank or deflt:
                c.require(empty, R4, f, 'a blank or always-set switch yields arguments', r)
                continue
            if r.outcome.kind == 'raise':
                if inT:
                    c.require(not inT[-1][1], R2, f, 'a switch of the table is refused', r)
                    c.require('ValueError' in str(r.outcome.value), R2, f, 'an unknown switch does not raise ValueError', r)
                continue
            v = _table_get(r.outcome.value, T)
            if not inT:
                subs = [x for x in subvalues(v) if x[0] == 'sub' and x[1] == T]
                if subs:
                    inT = [(subs[0][2], True)]       # indexing the table fails for anything else
            if empty:
                if inT and not inT[-1][1]:
                    c.bad(R2, f, 'an unknown switch is silently ignored', r)
                continue
            c.require(bool(inT) and inT[-1][1], R2, f, 'arguments are produced for a switch that is not in the table', r)
            c.require(notdef, R4, f, 'arguments are produced without checking for switches that are always set', r)
            if not inT:
                continue
            key = inT[-1][0]
            row = ('sub', T, key)
            dashed = any(pol and lit[0] == 'cmp' and lit[1] == 'eq' and ('const', '-') in lit for lit, pol in fx) or \
                any(lit[0] == 'truthy' and pol and 'startswith' in show(lit) for lit, pol in fx)
            c.require(contains(key, ('mcall', SW, 'strip', ())), R7, f, 'the switch is looked up without surrounding blanks removed', r)
            if dashed:
                c.require(not deep(key, lambda x: x == ('const', '-')), R7, f, 'a dash is added to a switch that has one', r)
            else:
                c.require(deep(key, lambda x: x == ('const', '-')), R7, f, 'a switch without dash is looked up as it is', r)
            c.require(v != row and not (v[0] == 'mcall' and v[2] == 'get' and v[1] == T), R3, f,
                      'the list stored in the table is handed out itself, so a caller extending it changes the simulator', r)
            usable.append((r, fx, key, row, v))
            rej = False
            for lit, pol in fx:
                if lit[0] == 'cmp' and lit[1] == 'in' and contains(lit[2], PAR) and lit[3][0] in ('tuple', 'list', 'set'):
                    rej = rej or not pol
            if any(e.kind == 'except' for e in r.events):
                rej = True
            c.require(not rej or not deep(v, lambda x: x == PAR), R6, f, 'a rejected parameter is passed on all the same', r)
        with c.attempt('switches'):
            _switches(c, R8, k, f, T, table, defaults or [])
        for key, row in table.items():
            good = isinstance(row, list) and row and all(isinstance(t, str) for t in row) and isinstance(key, str)
            if not good:
                c.bad(R1, construct, f'the row of {key!r} is not a list of strings')
                continue
            opt = row[0].split('<')[0]
            c.require(key.startswith('-') and key == key.strip() and ' ' not in key, R1, construct, f'the switch {key!r} is not a single dashed word')
            c.require(opt.lower() == key.lower(), R1, construct, f'switch {key!r} is emitted as {row[0]!r}')
            c.require(len(row) <= 2, R1, construct, f'switch {key!r} is emitted as more than two arguments')
            c.require(key not in [d for d in (defaults or []) if d in table and d != key], R1, construct, '')
            produced = None
            for r, fx, kv, rowv, v in usable:
                if not _compatible(fx, kv, rowv, key, row):
                    continue
                toks = _tokens(v, rowv, row, PAR, kv, key)
                if toks is None:       # opaque: cannot tell, accept
                    produced = True
                    break
                want_param = len(row) == 2 or '<' in row[0]
                left = [t for t in toks if isinstance(t, str) and '<' in t]
                if (not want_param or any(t is PAR or isinstance(t, tuple) for t in toks)) and not left:
                    produced = True
                    break
            if defaults and key in defaults:
                produced = True
            c.require(bool(produced), R5, construct, f'switch {key!r} of the table can never be produced with its parameter')


def _table_get(v, T):
    if isinstance(v, tuple):
        if v and v[0] == 'mcall' and v[2] == 'get' and v[1] == T:
            return ('sub', T, _table_get(v[3][0], T))
        return tuple(_table_get(x, T) if isinstance(x, tuple) else x for x in v)
    return v


def _compatible(fx, kv, rowv, key, row):
    for lit, pol in fx:
        if lit[0] == 'cmp' and lit[1] in ('eq', 'in', 'lt'):
            a = _val(lit[2], kv, rowv, key, row)
            b = _val(lit[3], kv, rowv, key, row)
            if a is None or b is None:
                continue
            try:
                res = a == b if lit[1] == 'eq' else a in b if lit[1] == 'in' else a < b
            except TypeError:
                continue
            if bool(res) != pol:
                return False
    return True


def _val(v, kv, rowv, key, row):
    if v[0] == 'const':
        return v[1]
    if v in (rowv,):
        return row
    if v == kv:
        return key
    if v[0] == 'call' and v[1] == 'len' and v[2][0] == rowv:
        return len(row)
    if v[0] == 'sub' and v[1] == rowv and v[2][0] == 'const':
        try:
            return row[v[2][1]]
        except Exception:
            return '\0missing'
    if v[0] in ('tuple', 'list', 'set'):
        out = [_val(x, kv, rowv, key, row) for x in v[1]]
        return None if any(x is None for x in out) else out
    return None


def _tokens(v, rowv, row, PAR, kv, key):
    """the arguments produced for one row; parameter-dependent ones as tuples; None if not understood"""
    if v[0] == 'comp' and v[1] == 'ListComp' and contains(v, rowv):
        rep = [x for x in subvalues(v) if x[0] == 'mcall' and x[2] == 'replace']
        if not rep:
            return list(row)
        pat = rep[0][3][0]
        if pat[0] != 'const':
            return None
        return [('p', t) if pat[1] in t else t for t in row]
    if v[0] in ('mcall', 'call') and (v[2] == 'copy' or v[1] == 'list') and contains(v, rowv) or v == rowv:
        return list(row)
    if v[0] == 'sub' and v[1] == rowv:
        return list(row)
    it = list_items(v)
    if it is None:
        return None
    out = []
    for x in it:
        if contains(x, PAR):
            out.append(('p', x))
        elif x[0] == 'const':
            out.append(x[1])
        elif x == kv:
            out.append(key)
        else:
            y = _val(x, kv, rowv, key, row)
            if y is None:
                return None
            out.append(y)
    return out
