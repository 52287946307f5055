"""Settings of servers, their managers, runners and clients (P31)."""
from .util import *
from .raw_data import iscall, arg
from .raw_steps import lab_
from .logs import plain
from .server import paths, CLI, SRV, RUN, SERVER, bare

SIM = 'spicelib/sim/sim_runner.py'
SCRIPT = 'spicelib/scripts/run_server.py'
GIVEN = ('simulator', 'parallel_sims', 'timeout', 'output_folder')
OPTION = {'parallel_sims': 'parallel', 'output_folder': 'output', 'port': 'port', 'timeout': 'timeout', 'host': 'host'}


def bound(c, e, k):
    """parameter -> value of the constructor call e of class k, None if not known"""
    f = c.p.lookup(k, '__init__')
    pos = f.arg_names()[1:]
    if any(a[0] == 'star' for a in e.args or ()) or any(n == '**' for n, _ in e.kw or ()):
        return None
    out = dict(zip(pos, e.args or ()))
    out.update(dict(e.kw or ()))
    return out


def passed(c, k, made, rule):
    """the constructor of k passes its settings on to the one of `made`"""
    lab = lab_(k, '__init__')
    f = c.p.lookup(k, '__init__')
    own = set(f.arg_names()) | {a.arg for a in f.node.args.kwonlyargs}
    for r in paths(c, k, '__init__', opaque={made, 'start'}):
        if r.outcome.kind != 'return':
            continue
        es = [e for e in r.events if e.kind == 'call' and e.name == made and not e.raised]
        c.require(len(es) == 1, rule, lab, f'{len(es)} {made} are made', r)
        for e in es:
            got = bound(c, e, c.p.cls(made))
            if got is None:
                continue
            for a in GIVEN:
                if a not in own:
                    continue
                v = got.get(a)
                c.require(v is not None and (v == P(a) or contains(v, P(a))), rule, lab, f'{a} is ' + ('not passed on' if v is None else f'passed on as {show(v)}'), r)


@prop('P31', 'Servers, runners and clients work with the settings they were given',
      'A SimServer gives its simulator, number of parallel simulations, timeout and output folder to the ServerSimRunner it makes, which gives them to its SimRunner. A SimRunner keeps the simulator (refusing to be made without one, '
      'or with something that is not a Simulator class), the number of parallel simulations, the timeout, the output folder and the working directory it was given, the two folders being made if they do not exist. '
      'A SimServer listens on the host and port given, offers its own methods, and starts its manager and a thread that serves requests; running() tells whether the manager goes on. '
      'The run_server script makes the server from its options, with the class of the simulator named, and stops it when a signal asks for it. A SimClient talks to the address and port given and opens one session there, which is '
      'the one it closes.',
      ['configurations', 'inputs'],
      'any settings of servers, runners and clients',
      'No test makes a server, and a setting lost on the way shows as a wrong folder or a wrong limit, not as an error.',
      [SRV, RUN, SIM, CLI, SCRIPT],
      [dict(name='server', where=SRV + ':SimServer.__init__'), dict(name='manager', where=RUN + ':ServerSimRunner.__init__'), dict(name='runner', where=SIM + ':SimRunner.__init__'), dict(name='client', where=CLI + ':SimClient.__init__'),
       dict(name='script', where=SCRIPT + ':main')],
      'Each setting is followed from the parameter of one constructor to the argument of the next one and to the attribute it ends in, along all paths.',
      'path-sensitive provenance analysis across constructors',
      'All paths.', [])
def p31(c: Ctx):
    R1 = c.rule('P31.pass', 'settings are passed on to the runner', 6)
    R2 = c.rule('P31.keep', 'the runner keeps its settings', 8)
    R3 = c.rule('P31.listen', 'the server listens where it was told, and serves', 3)
    R4 = c.rule('P31.script', 'the script makes the server from its options', 4)
    R5 = c.rule('P31.client', 'the client talks to the address given, in one session', 3)
    sv, mg, rn, cl = (c.p.cls(x) for x in ('SimServer', 'ServerSimRunner', 'SimRunner', 'SimClient'))
    with c.attempt('server'):
        passed(c, sv, 'ServerSimRunner', R1)
    with c.attempt('manager'):
        passed(c, mg, 'SimRunner', R1)
    with c.attempt('runner'):
        runner(c, rn, R2)
    with c.attempt('listen'):
        listen(c, sv, R3)
    with c.attempt('script'):
        script(c, sv, R4)
    with c.attempt('client'):
        client(c, cl, R5)


def runner(c, k, R2):
    lab = lab_(k, '__init__')
    f = c.p.lookup(k, '__init__')
    own = set(f.arg_names()) | {a.arg for a in f.node.args.kwonlyargs}
    for r in paths(c, k, '__init__'):
        if impossible(r):
            continue
        last = {}
        for e in r.events:
            if e.kind == 'write' and e.path[0] == 'attr' and e.path[1] == SELF:
                last[e.path[2]] = e.value
        none = {a: possible(r, {P(a): None}) for a in ('simulator', 'output_folder', 'cwd')}
        isinst = [e for e in r.events if e.kind == 'assume' and deep(e.lit, lambda x: x[0] == 'call' and x[1] in ('issubclass', 'isinstance') and contains(x, P('simulator')))]
        if r.outcome.kind == 'raise':
            if r.outcome.value in ('ValueError', 'TypeError'):
                about = [e for e in r.events if e.kind == 'assume' and contains(e.lit, P('simulator'))]
                bad = isinst and isinst[-1].pol
                c.require(bool(about) and not bad, R2, lab, 'a valid simulator is refused', r)
            continue
        if r.outcome.kind != 'return':
            continue
        c.require(none['simulator'] is False or not none['simulator'] and isinst, R2, lab, 'a runner is made without simulator', r)
        if isinst:
            c.require(isinst[-1].pol, R2, lab, 'a runner is made with something that is not a simulator', r)
        for a in ('parallel_sims', 'timeout', 'simulator'):
            if a in own:
                c.require(last.get(a) == P(a) or a in last and contains(last[a], P(a)), R2, lab, f'{a} is ' + (f'kept as {show(last[a])}' if a in last else 'not kept'), r)
        for a in ('output_folder', 'cwd'):
            if a not in own:
                continue
            v = last.get(a)
            if v is None:
                c.bad(R2, lab, f'{a} is not kept', r)
                continue
            given = possible(r, {P(a): 'some folder'})
            if any(e.kind == 'assume' and contains(e.lit, P(a)) for e in r.events):
                if given is False:
                    c.require(v == NONE or v == P(a), R2, lab, f'{a} is {show(v)} although none was given', r)
                    continue
                if none[a] is False:
                    c.require(v == P(a) or contains(v, P(a)), R2, lab, f'{a} is {show(v)} instead of the one given', r)
                    others = [b for b in own if b != a and contains(v, P(b))]
                    c.require(not others, R2, lab, f'{a} is made from {others}', r)
                    ex = [e for e in r.events if e.kind == 'call' and e.name in ('exists', 'is_dir', 'isdir') and contains(e.recv if e.recv is not None else NONE, P(a)) or
                          e.kind == 'call' and e.name in ('exists', 'is_dir', 'isdir') and (e.recv == A(SELF, a) or any(contains(x, P(a)) or x == A(SELF, a) for x in e.args or ()))]
                    mk = [e for e in r.events if e.kind == 'call' and e.name in ('mkdir', 'makedirs') and (e.recv is not None and (contains(e.recv, P(a)) or e.recv == A(SELF, a)) or any(contains(x, P(a)) or x == A(SELF, a) for x in e.args or ()))]
                    for e in ex:
                        pol = [x.pol for x in r.events if x.kind == 'assume' and plain(x) == ('res', e.n, e.name)]
                        if pol and not pol[-1]:
                            c.require(bool(mk), R2, lab, f'a missing {a} is not made', r)
                        elif pol and pol[-1] and mk and not any(n == 'exist_ok' for y in mk for n, _ in y.kw or ()):
                            c.bad(R2, lab, f'an existing {a} is refused', r)
                    if not ex:
                        c.require(bool(mk) and any(n == 'exist_ok' for y in mk for n, _ in y.kw or ()), R2, lab, f'a missing {a} is not made', r)


def listen(c, sv, R3):
    lab = lab_(sv, '__init__')
    for r in paths(c, sv, '__init__', opaque={'ServerSimRunner'}):
        if r.outcome.kind != 'return':
            continue
        calls = [e for e in r.events if e.kind == 'call' and not e.raised]
        rpc = next((e for e in calls if e.name.endswith('XMLRPCServer')), None)
        if rpc is not None:
            a = arg(rpc, 0, 'addr')
            if a is not None and a[0] == 'tuple':
                c.require(tuple(a[1]) == (P('host'), P('port')), R3, lab, f'listens on {show(a)}', r)
            reg = [e for e in calls if e.name == 'register_instance']
            fun = [e for e in calls if e.name == 'register_function']
            c.require(bool(fun) or any(e.args and e.args[0] == SELF for e in reg), R3, lab, 'the methods of the server are not offered', r)
        man = [e for e in calls if e.name == 'start' and e.recv is not None]
        kept = {e.path[2]: e.value for e in r.events if e.kind == 'write' and e.path[0] == 'attr' and e.path[1] == SELF}
        sm = next((a for a, v in kept.items() if v[0] in ('obj', 'res') and v[2] == 'ServerSimRunner'), None)
        if sm is not None:
            c.require(any(e.recv in (A(SELF, sm), kept[sm]) for e in man), R3, lab, 'the manager is not started, so that no simulation ever ends', r)
        th = [e for e in calls if e.name == 'Thread']
        for e in th:
            t = arg(e, 1, 'target')
            name = t[2] if t is not None and t[0] == 'attr' else None
            if name == 'serve_forever':
                res = ('res', e.n, 'Thread')
                at = {A(SELF, a) for a, v in kept.items() if v == res} | {res}
                c.require(any(x.recv in at for x in man) or any(x.name == 'serve_forever' for x in calls), R3, lab, 'requests are not served', r)
    for r in paths(c, sv, 'running', opaque={'running'}):
        if r.outcome.kind == 'return':
            v = r.outcome.value
            asked = [e for e in r.events if iscall(e, 'running', 'is_alive')]
            if asked:
                c.require(v is not None and v == ('res', asked[-1].n, asked[-1].name) or v is not None and v[0] == 'call' and v[1] == 'bool', R3, lab_(sv, 'running'), f'running() is {show(v)}', r)
            else:
                c.require(v is None or concrete(v) is None, R3, lab_(sv, 'running'), f'running() is always {show(v)}', r)


def script(c, sv, R4):
    f = c.p.function(SCRIPT, 'main')
    if f is None:
        return
    lab = 'run_server.main'
    for r in c.walk(f, None, opaque={'SimServer', 'running', 'stop_server'}, any_iteration=True):
        made = next((e for e in r.events if e.kind == 'call' and e.name == 'SimServer' and not e.raised), None)
        if made is None:
            continue
        got = bound(c, made, sv)
        if got is None:
            continue
        opts = next((('res', e.n, e.name) for e in r.events if e.kind == 'call' and e.name in ('parse_args', 'parse_known_args')), None)
        if opts is None:
            continue
        dest = set()
        for e in r.events:
            if e.kind == 'call' and e.name == 'add_argument':
                d = dict(e.kw or ()).get('dest')
                names = [a[1] for a in e.args if a[0] == 'const' and isinstance(a[1], str)]
                long = next((n for n in names if n.startswith('--')), names[0] if names else None)
                if d is not None and d[0] == 'const':
                    dest.add(d[1])
                elif long:
                    dest.add(long.lstrip('-').replace('-', '_'))
        for a, o in OPTION.items():
            if o not in dest:
                continue
            v = got.get(a)
            if v is None:
                c.bad(R4, lab, f'the option {o} is not used', r)
            elif v[0] == 'attr' and v[1] == opts:
                c.require(v[2] == o, R4, lab, f'{a} is the option {v[2]}', r)
            elif v[0] == 'const' and a == 'parallel_sims':
                n = A(opts, o)
                c.require(not any(possible(r, {n: x}) is True for x in (4, 2) if x != v[1]), R4, lab, f'{a} is {show(v)} whatever the option {o} says', r)
            elif v[0] == 'const':
                c.bad(R4, lab, f'{a} is {show(v)} whatever the option {o} says', r)
            else:
                wrong = [x for x in subvalues(v) if x and x[0] == 'attr' and x[1] == opts and x[2] in OPTION.values() and x[2] != o]
                c.require(not wrong, R4, lab, f'{a} is made from the option {wrong[0][2] if wrong else ""}', r)
        s = got.get('simulator')
        name = s[1] if s is not None and s[0] in ('global', 'class', 'func', 'name') else None
        if isinstance(name, str):
            said = None
            for e in r.events:
                if e.kind == 'assume' and e.pol:
                    l = plain(e)
                    if l[0] == 'cmp' and l[1] == 'eq' and 'simulator' in show(l):
                        said = next((x[1] for x in l[2:4] if x[0] == 'const'), said)
            if isinstance(said, str):
                c.require(name.lower().startswith(said.lower()), R4, lab, f'{name} is used for {said}', r)
        # ends
        obj = {('obj', made.n, 'SimServer'), ('res', made.n, 'SimServer')}
        ask = [e for e in r.events if e.kind == 'assume' and deep(e.lit, lambda x: x[0] == 'global' and 'kill' in str(x[1]))]
        stop = [e for e in r.events if iscall(e, 'stop_server')]
        if ask and r.outcome.kind in ('return', 'loopback'):
            c.require(bool(stop) == ask[-1].pol, R4, lab, 'the server is not stopped by a signal' if ask[-1].pol else 'the server is stopped without a signal', r)


def client(c, k, R5):
    lab = lab_(k, '__init__')
    for r in paths(c, k, '__init__'):
        if r.outcome.kind != 'return':
            continue
        kept = {e.path[2]: e.value for e in r.events if e.kind == 'write' and e.path[0] == 'attr' and e.path[1] == SELF}
        px = next((e for e in r.events if iscall(e, 'ServerProxy', 'Server')), None)
        if px is not None:
            u = arg(px, 0, 'uri')
            for a in ('host_address', 'port'):
                c.require(u is not None and (contains(u, P(a)) or u[0] == 'res'), R5, lab, f'{show(u)} does not depend on the {a}', r)
        st = [e for e in r.events if iscall(e, 'start_session')]
        c.require(len(st) == 1, R5, lab, f'{len(st)} sessions are opened', r)
        if st:
            c.require(kept.get('session_id') == ('res', st[0].n, 'start_session'), R5, lab, 'the session that was opened is not kept', r)
    for r in paths(c, k, '__del__') if c.p.lookup(k, '__del__') else ():
        if r.outcome.kind == 'return':
            c.require(any(iscall(e, 'close_session') for e in r.events) or any(e.kind in ('assume', 'except') for e in r.events), R5, lab_(k, '__del__'), 'the session is not closed', r)
    for r in paths(c, k, 'close_session'):
        if r.outcome.kind == 'return':
            es = [e for e in r.events if iscall(e, 'close_session')]
            c.require(bool(es) or any(e.kind in ('assume', 'except') for e in r.events), R5, lab_(k, 'close_session'), 'the session is not closed', r)
            for e in es:
                c.require(bool(e.args) and e.args[0] == A(SELF, 'session_id'), R5, lab_(k, 'close_session'), f'{show(e.args[0]) if e.args else "nothing"} is closed', r)
