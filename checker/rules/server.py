"""Simulation server and client: calls between them (P25), sessions (P26), files and tasks (P27), threads (P28), jobs of the client (P44)."""
from .util import *
from .raw_data import iscall, arg
from .raw_steps import lab_
from .logs import plain
from .raw_write import contradictory

CLI = 'spicelib/client_server/sim_client.py'
SRV = 'spicelib/client_server/sim_server.py'
RUN = 'spicelib/client_server/srv_sim_runner.py'
SERVER, SID = A(SELF, 'server'), A(SELF, 'session_id')
SESS, MAN = A(SELF, 'sessions'), A(SELF, 'simulation_manager')
QUIET = {'exists', 'time', 'sleep', 'write', 'seek', 'read', 'getvalue', 'read_bytes', 'BytesIO', 'ZipFile', 'info', 'debug', 'error', 'warning', 'close', 'namelist',
         'extractall', 'extract', 'append', 'pop', 'open', 'JobInformation', 'Binary', 'start', 'current_thread', 'Thread'}


def paths(c, k, m, opaque=(), raising=(), **kw):
    f = c.p.lookup(k, m)
    op = {'exists'} | set(opaque)
    for r in c.walk(f, k, any_iteration=True, opaque=op, no_raise=(QUIET | op) - set(raising), **kw):
        if not impossible(r):
            yield r


def bare(v):
    """without conversions that keep the elements"""
    while v[0] == 'call' and v[1] in ('set', 'list', 'tuple', 'frozenset', 'sorted', 'iter') and len(v[2]) == 1 or v[0] == 'mcall' and v[2] == 'copy' or \
            v[0] == 'sub' and v[2] == ('slice', NONE, NONE, NONE):
        v = v[2][0] if v[0] == 'call' else v[1]
    return v


def of_session(r, v, sid):
    """v are the runs of the session sid"""
    v = bare(v)
    if v[0] == 'sub' and v[1] == SESS:
        return v[2] == sid
    if v[0] == 'mcall' and v[1] == SESS and v[2] in ('get', 'setdefault', 'pop'):
        return v[3][0] == sid
    if v[0] == 'res' and v[2] in ('pop', 'get', 'setdefault'):
        e = next((x for x in r.events if x.n == v[1]), None)
        return e is not None and e.recv == SESS and bool(e.args) and e.args[0] == sid
    if v[0] == 'item' or not deep(v, lambda x: x == SESS):
        return None
    return False if deep(v, lambda x: x[0] == 'mcall' and x[2] == 'values' and x[1] == SESS) else None


def in_session(r, runno, sid, upto=None):
    """what the path assumes about runno being a run of the session"""
    for e in (r.events if upto is None else r.events[:upto]):
        if e.kind == 'assume':
            l = plain(e)
            if l[0] == 'cmp' and l[1] == 'in' and l[2] == runno and of_session(r, l[3], sid):
                return e.pol
    return None


# ------------------------------------------------------------------------------------------------ P25
@prop('P25', 'Client and server agree on every remote call and on the files sent',
      'Every remote procedure SimClient calls is a public method of SimServer, is called with as many positional arguments as it takes and with the session of the client first (except start_session()), and no public method of SimServer '
      'returns None, which XML-RPC cannot send. The archive sent with run() is complete before it is read, contains the netlist under the name that is sent as its circuit name, and each existing dependency under its bare '
      'name; the server extracts it into its output folder and simulates the netlist of that name there, after it was extracted. Sources added are extracted there too, and the client returns the answer of the server. What SimServer.get_files() returns as data is the content of the archive of the run, and the '
      'client stores it unchanged under the name returned. zip_files() archives exactly those of the raw and log file that exist.',
      ['inputs', 'histories'],
      'any netlist, dependencies and order of calls',
      'There are no tests of client and server; each of them would be tested against a stand-in for the other one.',
      [CLI, SRV, RUN],
      [dict(name='calls', where=CLI + ':SimClient'), dict(name='procedures', where=SRV + ':SimServer'), dict(name='archive of the results', where=RUN + ':zip_files')],
      'Each remote call on each path of the client is matched with the signature of the method of the server; what is written to archives, read from them and returned is followed through both.',
      'cross-module call matching and path-sensitive provenance analysis',
      'All paths; loops by one iteration from any state.', [])
def p25(c: Ctx):
    R1 = c.rule('P25.call', 'remote calls fit the methods of the server', 6)
    R2 = c.rule('P25.none', 'remote procedures never return None', 6)
    R3 = c.rule('P25.archive', 'the archive sent is complete and has the netlist under its name', 3)
    R4 = c.rule('P25.extract', 'the server simulates the netlist that was sent', 2)
    R5 = c.rule('P25.result', 'the data of the results is passed on unchanged', 2)
    R6 = c.rule('P25.zip', 'exactly the existing files are archived', 3)
    cl, sv = c.p.cls('SimClient'), c.p.cls('SimServer')
    called = set()
    for m, f in sorted(cl.methods.items()):
        with c.attempt(lab_(cl, m)):
            for r in paths(c, cl, m):
                for i, e in enumerate(r.events):
                    if e.kind != 'call' or e.recv != SERVER:
                        continue
                    called.add(e.name)
                    lab = lab_(cl, m)
                    t = c.p.lookup(sv, e.name)
                    if t is None and e.name.startswith('system.'):
                        continue
                    if not c.require(t is not None and not e.name.startswith('_'), R1, lab, f'the server has no procedure {e.name}()', r):
                        continue
                    names = t.arg_names()[1:]
                    nd = len(t.node.args.defaults)
                    c.require(not e.kw, R1, lab, f'{e.name}() is called with named arguments, which XML-RPC does not have', r)
                    n = len(e.args)
                    if any(a[0] == 'star' for a in e.args):
                        continue
                    c.require(len(names) - nd <= n <= len(names), R1, lab, f'{e.name}() takes {len(names)} arguments, {n} are sent', r)
                    for a, p in zip(e.args, names):
                        if p == 'session_id':
                            c.require(a == SID, R1, lab, f'{show(a)} is sent instead of the session', r)
                        elif p in f.arg_names() and a[0] == 'param' and a != P(p):
                            c.bad(R1, lab, f'{a[1]} is sent as {p}', r)
                        elif a == SID:
                            c.bad(R1, lab, f'the session is sent as {p}', r)
                    archive(c, r, i, e, names, lab, R3)
    for m in sorted(called | {m for m in sv.methods if not m.startswith('_')}):
        t = c.p.lookup(sv, m)
        if t is None:
            continue
        with c.attempt(lab_(sv, m)):
            for r in paths(c, sv, m, opaque={'erase_files_of_runno', 'add_simulation', 'add_sources'} - {m}):
                if r.outcome.kind == 'return':
                    v = r.outcome.value
                    vs = v[1] if v[0] in ('tuple', 'list') and v[1] and isinstance(v[1][0], tuple) else (v,)
                    c.require(v is not None and NONE not in (v,) + tuple(vs), R2, lab_(sv, m), 'None is returned, which XML-RPC cannot send', r)
    with c.attempt(lab_(sv, 'run')):
        extract(c, sv, R4)
    with c.attempt(lab_(sv, 'add_sources')):
        sources(c, cl, sv, R3, R4)
    with c.attempt(lab_(cl, 'get_runno_data')):
        results(c, cl, sv, R5)
    with c.attempt('zip_files'):
        zipping(c, R6)


def archive(c, r, i, e, names, lab, R3):
    d = dict(zip(names, e.args))
    z = d.get('zip_data')
    if z is None:
        return
    zips = [(j, x) for j, x in enumerate(r.events[:i]) if x.kind == 'call' and x.name == 'ZipFile' and not x.raised]
    src = next((x for x in r.events[:i] if x.kind == 'call' and z == ('res', x.n, x.name) and x.name in ('read', 'getvalue', 'getbuffer')), None)
    if src is None and z[0] == 'mcall' and z[2] in ('getvalue', 'read'):
        class src_:
            recv, name, n = z[1], z[2], None
        src = src_
    if not zips or src is None:
        return
    j, zf = zips[-1]
    zr = ('res', zf.n, 'ZipFile')
    if not zf.args or zf.args[0] != src.recv:
        return
    k = r.events.index(src) if src.n is not None else i
    closed = [q for q, x in enumerate(r.events) if j < q < k and (x.kind == 'exit' and contains(x.value, zr) or x.kind == 'call' and x.name == 'close' and x.recv == zr)]
    c.require(bool(closed), R3, lab, 'the archive is read before it is complete', r)
    if src.name == 'read':
        seeks = [x for x in r.events[j:k] if x.kind == 'call' and x.name == 'seek' and x.recv == src.recv and x.args and x.args[0] == ('const', 0)]
        c.require(bool(seeks), R3, lab, 'the archive is not read from its start', r)
    m = arg(zf, 1, 'mode')
    ws = [x for x in r.events[j:k] if x.kind == 'call' and x.name in ('write', 'writestr') and x.recv == zr and not x.raised]
    name = d.get('circuit_name')
    if name is not None:
        c.require(any(len(x.args) > 1 and x.args[1] == name for x in ws) or any(arg(x, 1, 'arcname') == name for x in ws), R3, lab, 'the netlist is not in the archive under the name that is sent', r)
        for x in ws:
            if arg(x, 1, 'arcname') == name and x.name == 'write':
                c.require(deep(name, lambda y: y == x.args[0]) or x.args[0][0] not in ('param', 'elem'), R3, lab, f'{show(x.args[0])} is sent as the netlist', r)
    for x in ws:
        s, n = x.args[0], arg(x, 1, 'arcname')
        if s[0] == 'elem':
            if n is None or n == s or n[0] in ('call', 'mcall') and not deep(n, lambda y: y[0] == 'attr' and y[2] == 'name' or y[0] in ('call', 'mcall', 'res') and y[-2 if y[0] == 'call' else 2] in ('basename', 'split')) \
                    and n[1 if n[0] == 'call' else 2] in ('str', 'as_posix', 'Path', 'resolve', 'absolute', 'relative_to', 'fspath', 'relpath', 'normpath'):
                c.bad(R3, lab, 'a file is sent with its directories', r)
            elif n[0] == 'attr' and n[2] in ('name', 'stem', 'suffix', 'parent'):
                c.require(n[2] == 'name' and contains(n, s), R3, lab, f'a file is sent under the name {show(n)}', r)
    # every file that exists is sent
    for q, x in enumerate(r.events[j:k], j):
        if x.kind == 'iter' and x.value is not None and bare(x.value)[0] == 'param':
            el = ('elem', bare(x.value))
            end = next((y for y, v in enumerate(r.events[q:], q) if v.kind == 'loopend'), len(r.events))
            sent = any(y.kind == 'call' and y.name == 'write' and y.recv == zr and contains(y.args[0], el) for y in r.events[q:end])
            known = [y.pol for y in r.events[q:end] if y.kind == 'assume' and (plain(y)[0] == 'res' and plain(y)[2] in ('exists', 'is_file') or plain(y)[0] == 'mcall' and plain(y)[2] in ('exists', 'is_file'))]
            other = [y for y in r.events[q:end] if y.kind == 'assume' and not (plain(y)[0] in ('res', 'mcall') and plain(y)[2] in ('exists', 'is_file', 'endswith'))]
            if not known and sent and not other and not tried(r, c):
                c.bad(R3, lab, 'it is not checked that a file that is sent exists', r)
            if known and not other:
                c.require(sent == known[0], R3, lab, 'an existing file is not sent' if known[0] else 'a file that does not exist is sent', r)


def tried(r, c):
    return any(isinstance(x, ast.Try) for f in (c.p.lookup(c.p.cls('SimClient'), m) for m in ('run', 'add_sources')) if f is not None for x in ast.walk(f.node))


def extract(c, sv, R4):
    lab = lab_(sv, 'run')
    out = A(SELF, 'output_folder')
    for r in paths(c, sv, 'run', opaque={'add_simulation'}):
        for i, e in enumerate(r.events):
            if iscall(e, 'add_simulation') and not e.raised:
                ex = [x for x in r.events[:i] if x.kind == 'call' and x.name in ('extractall', 'extract') and not x.raised]
                unknown = any(x.kind == 'assume' and plain(x)[0] == 'cmp' and plain(x)[1] == 'lt' for x in r.events[:i])
                c.require(bool(ex) or unknown, R4, lab, 'the simulation starts before the files were extracted', r)
                for x in ex:
                    p = arg(x, 0 if x.name == 'extractall' else 1, 'path')
                    c.require(p is not None and contains(p, out), R4, lab, 'the files are not extracted into the output folder', r)
                n = e.args[0] if e.args else None
                if n is not None:
                    c.require(contains(n, P('circuit_name')) and contains(n, out), R4, lab, f'{show(n)} is simulated', r)


def sources(c, cl, sv, R3, R4):
    """files sent are unpacked, and the answer says so"""
    out = A(SELF, 'output_folder')
    lab = lab_(sv, 'add_sources')
    known = ('cmp', 'in', P(c.p.lookup(sv, 'add_sources').arg_names()[1]), A(SELF, 'sessions'))
    for r in paths(c, sv, 'add_sources'):
        if r.outcome.kind != 'return':
            continue
        env = {known: True}
        for e in r.events:
            if e.kind == 'assume':
                for x in subvalues(e.lit):
                    if x and x[0] == 'call' and x[1] == 'len' and x[2] and x[2][0][0] == 'res':
                        env[x] = 2
                        env[x[2][0]] = ['a', 'b']
        ex = [x for x in r.events if x.kind == 'call' and x.name in ('extractall', 'extract') and not x.raised]
        loops = [x for x in r.events if x.kind == 'loop0']
        if possible(r, env) is True and not loops:
            c.require(bool(ex), R4, lab, 'the files that were sent are not extracted', r)
            try:
                v = evaluate(r.outcome.value, env)
                c.require(bool(v), R4, lab, f'{show(r.outcome.value)} is answered although the files were added', r)
            except Unknown:
                pass
        if possible(r, {known: False}) is True and any(e.kind == 'assume' and contains(e.lit, known) for e in r.events):
            try:
                c.require(not evaluate(r.outcome.value, {}), R4, lab, f'{show(r.outcome.value)} is answered to an unknown session', r)
            except Unknown:
                pass
        for x in ex:
            p = arg(x, 0 if x.name == 'extractall' else 1, 'path')
            c.require(p is not None and contains(p, out), R4, lab, 'the files are not extracted into the output folder', r)
    lab = lab_(cl, 'add_sources')
    for r in paths(c, cl, 'add_sources'):
        sent = [e for e in r.events if e.kind == 'call' and e.recv == SERVER and e.name == 'add_sources' and not e.raised]
        if r.outcome.kind == 'return' and sent:
            v = r.outcome.value
            c.require(v is not None and (contains(v, ('res', sent[-1].n, 'add_sources')) or v == TRUE and not any(e.kind == 'assume' and not e.pol and contains(e.lit, ('res', sent[-1].n, 'add_sources')) for e in r.events)
                                         and any(e.kind == 'assume' and contains(e.lit, ('res', sent[-1].n, 'add_sources')) for e in r.events)
                                         or v == FALSE and any(e.kind == 'assume' and contains(e.lit, ('res', sent[-1].n, 'add_sources')) for e in r.events)), R3, lab, f'{show(v)} is returned instead of the answer of the server', r)
    lab = lab_(cl, 'run')
    dep = P('dependencies')
    if 'dependencies' in c.p.lookup(cl, 'run').arg_names():
        for r in paths(c, cl, 'run'):
            its = [e for e in r.events if e.kind in ('iter', 'loop0') and e.value is not None and bare(e.value) == dep]
            sent = [e for e in r.events if e.kind == 'call' and e.recv == SERVER and e.name == 'run']
            if its:
                c.require(possible(r, {dep: None}) is False, R3, lab, 'a netlist without dependencies cannot be sent', r)
            elif sent and any(e.kind == 'assume' and contains(e.lit, dep) for e in r.events):
                c.require(possible(r, {dep: ['a', 'b']}) is not True, R3, lab, 'the dependencies are not sent', r)


def results(c, cl, sv, R5):
    lab = lab_(cl, 'get_runno_data')
    for r in paths(c, cl, 'get_runno_data'):
        g = next((e for e in r.events if iscall(e, 'get_files')), None)
        if g is None:
            continue
        res = ('res', g.n, 'get_files')
        for e in r.events:
            if e.kind == 'call' and e.name in ('write', 'write_bytes') and e.args:
                v = e.args[0]
                if v[0] == 'attr' and v[2] == 'data' and v[1][0] in ('item', 'sub') and v[1][1] == res:
                    j = v[1][2]
                    c.require(j in (1, ('const', 1)), R5, lab, 'the name is stored as the data', r)
                elif contains(v, res):
                    c.require(v[0] in ('attr', 'call'), R5, lab, f'{show(v)} is stored', r)
            if e.kind == 'call' and e.name == 'open' and len(e.args) > 1 and e.args[1][0] == 'const':
                c.require(e.args[1][1] in ('wb', 'bw', 'xb', 'w+b', 'wb+'), R5, lab, 'the data is not stored as it is', r)
        if r.outcome.kind == 'return' and any(e.kind == 'call' and e.name in ('write', 'write_bytes') for e in r.events):
            o = next((e for e in r.events if e.kind == 'call' and e.name == 'open'), None)
            if o is not None and o.args:
                c.require(r.outcome.value == o.args[0], R5, lab, f'{show(r.outcome.value)} is returned, the data is in {show(o.args[0])}', r)
    lab = lab_(sv, 'get_files')
    for r in paths(c, sv, 'get_files', opaque={'erase_files_of_runno'}):
        for it in {e.value for e in r.events if e.kind == 'iter' and e.value is not None}:
            x = ('sub', ('elem', it), ('const', 'zipfile'))
            if any(e.kind == 'call' and e.recv == x for e in r.events):
                c.require(possible(r, {x: None}) is False, R5, lab, 'a run without archive breaks the call', r)
            if any(e.kind == 'assume' and contains(e.lit, x) for e in r.events) and r.outcome.kind in ('return', 'loopback') and \
                    not any(e.kind == 'call' and (e.recv == x or x in (e.args or ())) for e in r.events):
                c.require(possible(r, {x: 'a file'}) is not True, R5, lab, 'the archive of a run is not sent', r)
        if r.outcome.kind == 'return' and r.outcome.value[0] == 'tuple' and len(r.outcome.value[1]) == 2:
            n, b = r.outcome.value[1]
            z = data_source(r, b)
            if z is not None:
                src = z[0]
                c.require(n == ('attr', src, 'name') or not (n[0] == 'attr' and n[1] == src) and n != ('const', ''), R5, lab, f'{show(n)} is returned as name of {show(src)}', r)


def data_source(r, b):
    """(path, index of the reading event) of the file whose content is sent"""
    ev = {e.n: (i, e) for i, e in enumerate(r.events) if e.kind == 'call'}
    if b[0] in ('obj', 'res') and b[2] == 'Binary' and b[1] in ev:
        a = ev[b[1]][1].args
        b = a[0] if a else b
    elif b[0] == 'call' and b[1] == 'Binary' and b[2]:
        b = b[2][0]
    if b[0] in ('res', 'mcall') and b[2] in ('read', 'read_bytes'):
        if b[0] == 'res':
            i, e = ev.get(b[1], (None, None))
            rec, nm = (e.recv, e.name) if e is not None else (None, None)
        else:
            i, rec, nm = None, b[1], b[2]
        if nm == 'read_bytes':
            return rec, i
        if rec is not None and rec[0] == 'res' and rec[2] == 'open' and rec[1] in ev:
            o = ev[rec[1]][1]
            return (o.recv if o.recv is not None else o.args[0]), i
    return None


def zipping(c, R6):
    f = c.p.function(RUN, 'zip_files')
    lab = 'zip_files'
    raw, log = P(f.arg_names()[0]), P(f.arg_names()[1])
    for r in c.walk(f, None, any_iteration=True, opaque={'exists'}, no_raise=QUIET | {'with_suffix'}):
        if impossible(r):
            continue
        there = {}
        for e in r.events:
            if e.kind == 'assume':
                l = plain(e)
                for p in (raw, log):
                    if l[0] == 'res' and l[2] == 'exists' and any(x.n == l[1] and x.recv == p for x in r.events) or l[0] == 'mcall' and l[2] in ('exists', 'is_file') and l[1] == p:
                        there[p] = there.get(p, True) and e.pol
                    elif l[0] == 'call' and l[1] == 'isinstance' and l[2][0] == p and not e.pol or l == ('isnone', p) and e.pol:
                        there[p] = False
        if len({e.pol for e in r.events if e.kind == 'assume' and plain(e)[0] == 'res' and plain(e)[2] == 'exists' and any(x.n == plain(e)[1] and x.recv == raw for x in r.events)}) > 1 or \
           len({e.pol for e in r.events if e.kind == 'assume' and plain(e)[0] == 'res' and plain(e)[2] == 'exists' and any(x.n == plain(e)[1] and x.recv == log for x in r.events)}) > 1:
            continue                # the file appears or disappears meanwhile
        if len({(e.lit, e.pol) for e in r.events if e.kind == 'assume' and deep(e.lit, lambda x: x[0] == 'call' and x[1] == 'isinstance')}) > \
                len({e.lit for e in r.events if e.kind == 'assume' and deep(e.lit, lambda x: x[0] == 'call' and x[1] == 'isinstance')}):
            continue
        if r.outcome.kind != 'return':
            continue
        ws = [e.args[0] for e in r.events if e.kind == 'call' and e.name == 'write' and e.args and not e.raised]
        for p in (raw, log):
            if p in there and not any(w[0] == 'elem' for w in ws):
                c.require((p in ws) == there[p], R6, lab, f'the {p[1]} is left out' if there[p] else f'the {p[1]} is archived although it does not exist', r)
            elif p not in there and r.outcome.value != NONE and not any(w[0] == 'elem' for w in ws) and ws and p not in ws:
                c.bad(R6, lab, f'the {p[1]} is left out', r)
            elif p not in there and p in ws and not any(e.kind == 'try' for e in r.events) and not any(e.kind == 'assume' and deep(e.lit, lambda x: x[0] in ('res', 'mcall') and x[2] in ('exists', 'is_file')) and not
                                                                                                 any(x.recv in (raw, log) for x in r.events if plain(e)[0] == 'res' and x.n == plain(e)[1]) for e in r.events):
                c.bad(R6, lab, f'the {p[1]} is archived even if it does not exist', r)
            for i, e in enumerate(r.events):
                if e.kind == 'call' and e.recv == p:
                    given = [x for x in r.events[:i] if x.kind == 'assume' and contains(x.lit, p)]
                    c.require(bool(given), R6, lab, f'fails without {p[1]}', r)
        if r.outcome.value == NONE:
            c.require(not any(there.get(p) for p in (raw, log)), R6, lab, 'no archive is made although there are results', r)
        elif there.get(raw) is False and there.get(log) is False:
            c.bad(R6, lab, 'an archive is announced although there are no results', r)
        else:
            z = next((e for e in r.events if e.kind == 'call' and e.name == 'ZipFile'), None)
            if z is not None and z.args:
                c.require(z.args[0] == r.outcome.value, R6, lab, f'{show(r.outcome.value)} is returned, the archive is {show(z.args[0])}', r)


# ------------------------------------------------------------------------------------------------ P26
@prop('P26', 'Sessions of the simulation server do not see or touch each other',
      'SimServer.status() gives exactly the runs of the session that are completed; get_files() only gives the results of a run of that session and of the run number asked for, and otherwise an empty name and no data; '
      'run() of an unknown session extracts nothing, starts nothing and returns -1, and a started simulation is recorded in the session that asked for it and in no other; close_session() erases only the '
      'files of the runs of that session, goes on when one of them cannot be erased, and removes only that session; each session gets a new random identifier.',
      ['histories', 'schedules'],
      'any number of sessions and any order of calls',
      'There are no tests of the server; a mix-up between sessions only shows with several clients.',
      [SRV],
      [dict(name='sessions', where=SRV + ':SimServer')],
      'On each path of the procedures of the server, what is returned, recorded or erased is traced to the session of the call and to the tests made on the path.',
      'path-sensitive provenance and guard analysis',
      'All paths including those on which erasing fails; loops by one iteration from any state.', [])
def p26(c: Ctx):
    R1 = c.rule('P26.status', 'exactly the completed runs of the session are reported', 2)
    R2 = c.rule('P26.files', 'results are only given to their session', 2)
    R3 = c.rule('P26.run', 'simulations are recorded in the session that asked for them', 3)
    R4 = c.rule('P26.close', 'closing a session leaves the others alone', 3)
    R5 = c.rule('P26.start', 'session identifiers are new', 1)
    k = c.p.cls('SimServer')
    CT = A(MAN, 'completed_tasks')
    sid = P('session_id')
    with c.attempt(lab_(k, 'status')):
        lab = lab_(k, 'status')
        for r in paths(c, k, 'status'):
            if r.outcome.kind != 'return':
                continue
            es = built(r, r.outcome.value)
            if concrete(r.outcome.value) is not None and not any(e.kind == 'loop0' for e in r.events) and not any(e.kind == 'assume' for e in r.events):
                c.bad(R1, lab, 'completed runs are left out', r)
            if es is None:
                if r.outcome.value in (SESS, ('sub', SESS, sid)) or of_session(r, r.outcome.value, sid):
                    c.bad(R1, lab, 'runs are reported that are not completed', r)
                continue
            for e in es:
                src = bare(e.src)
                if src == CT:
                    no = ('sub', ('elem', e.src), ('const', 'runno'))
                    hit = None
                    for l, pol in e.facts:
                        m = l[1] if l[0] == 'truthy' else l
                        if m[0] == 'cmp' and m[1] == 'in' and m[2][0] == 'sub' and m[2][2] == ('const', 'runno') and of_session(r, m[3], sid):
                            hit = pol
                    if e.added:
                        if hit is None and any(deep(l, lambda x: x == SESS) and not deep(l, lambda x: x[0] == 'mcall' and x[2] in ('values', 'items')) for l, _ in e.facts):
                            continue
                        c.require(hit is True, R1, lab, 'runs of other sessions are reported', r)
                        c.require(e.elt == no or contains(e.elt, no) or e.elt[0] in ('res', 'phi', 'obj'), R1, lab, f'{show(e.elt)} is reported', r)
                    elif hit is True and len([1 for l, _ in e.facts]) == 1:
                        c.bad(R1, lab, 'completed runs are left out', r)
                    elif hit is True:
                        c.bad(R1, lab, 'completed runs are left out', r)
                elif of_session(r, src, sid):
                    ok = [l for l, pol in e.facts if pol and deep(l, lambda x: x == CT)]
                    if e.added:
                        c.require(bool(ok) or any(x[0] not in ('elem', 'truthy') and not contains(x, CT) for x, _ in e.facts), R1, lab, 'runs are reported that are not completed', r)
        for r in paths(c, k, 'status'):
            end = [e for e in r.events if e.kind == 'loopend' and e.value is not None and bare(e.value) == CT and e.name == 'break']
            if end:
                c.bad(R1, lab, 'completed runs are left out', r)
    with c.attempt(lab_(k, 'get_files')):
        lab = lab_(k, 'get_files')
        no = P('runno')
        for r in paths(c, k, 'get_files', opaque={'erase_files_of_runno'}):
            for i, e in enumerate(r.events):
                if iscall(e, 'erase_files_of_runno'):
                    a = arg(e, 0, 'runno')
                    c.require(in_session(r, no, sid, i) is True, R2, lab, 'the files of another session are erased', r)
                    c.require(a == no or a[0] == 'sub' and a[2] == ('const', 'runno'), R2, lab, f'the files of run {show(a)} are erased', r)
            if r.outcome.kind != 'return' or r.outcome.value[0] != 'tuple' or len(r.outcome.value[1]) != 2:
                continue
            n, b = r.outcome.value[1]
            z = data_source(r, b)
            mine = in_session(r, no, sid)
            if z is None:
                if n != ('const', '') and n[0] == 'attr':
                    c.require(mine is True, R2, lab, 'results are given to another session', r)
                elif mine is False:
                    c.ok(R2, lab)
                continue
            c.require(mine is True, R2, lab, 'results are given to another session', r)
            x = z[0]
            if x[0] == 'sub' and x[2] == ('const', 'zipfile') and x[1][0] == 'elem' and bare(x[1][1]) == CT:
                eq = [e.pol for e in r.events if e.kind == 'assume' and plain(e)[0] == 'cmp' and plain(e)[1] == 'eq' and no in plain(e)[2:4] and ('sub', x[1], ('const', 'runno')) in plain(e)[2:4]]
                comp = x[1][1][0] == 'comp'
                c.require(bool(eq) and eq[-1] or comp, R2, lab, 'the results of another run are given', r)
            elif x[0] == 'sub' and x[2][0] == 'const' and x[2][1] != 'zipfile':
                c.bad(R2, lab, f'{show(x)} is sent instead of the archive', r)
    with c.attempt(lab_(k, 'run')):
        lab = lab_(k, 'run')
        for r in paths(c, k, 'run', opaque={'add_simulation'}):
            known = None
            for i, e in enumerate(r.events):
                if e.kind == 'assume':
                    l = plain(e)
                    if l[0] == 'cmp' and l[1] == 'in' and l[2] == sid and l[3] == SESS:
                        known = e.pol
                if e.kind == 'call' and e.name in ('extractall', 'extract', 'add_simulation') and not e.raised:
                    c.require(known is True or known is None and any(x.kind == 'assume' and contains(x.lit, SESS) and contains(x.lit, sid) for x in r.events[:i]), R3, lab, f'{e.name}() is called for an unknown session', r)
            adds = [e for e in r.events if iscall(e, 'add_simulation') and not e.raised]
            if r.outcome.kind == 'return' and not adds:
                c.require(r.outcome.value in (('const', -1), ('neg', ('const', 1))), R3, lab, f'{show(r.outcome.value)} is returned although no simulation was started', r)
            recs = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.name in ('append', 'add', 'insert', 'extend') and e.recv is not None and deep(e.recv, lambda x: x == SESS)
                    or e.kind in ('aug', 'setitem') and e.path is not None and deep(e.path, lambda x: x == SESS)]
            for i, e in recs:
                t = e.recv if e.kind == 'call' else e.path
                o = of_session(r, t, sid)
                if o is not None:
                    c.require(o, R3, lab, 'a simulation is recorded in another session', r)
                if e.kind == 'call' and e.name in ('append', 'add') and adds:
                    c.require(e.args[0] == ('res', adds[-1].n, 'add_simulation'), R3, lab, f'{show(e.args[0])} is recorded instead of the run number', r)
                if e.kind == 'setitem' and o and e.value[0] == 'list' and not contains(e.value, ('sub', SESS, sid)):
                    c.bad(R3, lab, 'the earlier runs of the session are forgotten', r)
            if adds and r.outcome.kind == 'return':
                res = ('res', adds[-1].n, 'add_simulation')
                st = started(r, res)
                c.require(r.outcome.value == res or st is False and r.outcome.value in MINUS1 or st is UNSURE, R3, lab, f'{show(r.outcome.value)} is returned instead of the run number', r)
                if st in (False, None):
                    c.require(not recs, R3, lab, 'a simulation that was not started is recorded', r)
                if st in (True, None):
                    c.require(bool(recs), R3, lab, 'a started simulation is not recorded', r)
    with c.attempt(lab_(k, 'close_session')):
        lab = lab_(k, 'close_session')
        ps = list(paths(c, k, 'close_session', opaque={'erase_files_of_runno'}, raising={'erase_files_of_runno'}))
        closing_os = any(e.kind == 'except' and e.name in OSERR for r in ps for e in r.events)
        for r in ps:
            failed = any(e.kind == 'call' and e.name == 'erase_files_of_runno' and e.raised for e in r.events)
            if failed and r.outcome.kind == 'raise' and closing_os:
                continue
            for i, e in enumerate(r.events):
                if iscall(e, 'erase_files_of_runno'):
                    a = arg(e, 0, 'runno')
                    if a is not None and a[0] == 'elem':
                        o = of_session(r, a[1], sid)
                        if o is not None:
                            c.require(o, R4, lab, 'the files of other sessions are erased', r)
                    elif a is not None and a[0] == 'sub' and a[1][0] == 'elem' and bare(a[1][1]) == CT:
                        c.require(in_session(r, a, sid, i) is True, R4, lab, 'the files of other sessions are erased', r)
                elif e.kind == 'call' and e.name == 'cleanup_completed':
                    c.bad(R4, lab, 'the files of other sessions are erased', r)
                elif e.kind == 'call' and e.recv == SESS and e.name in ('clear', 'popitem'):
                    c.bad(R4, lab, 'other sessions are closed', r)
            c.require(not (failed and r.outcome.kind == 'raise'), R4, lab, 'the session stays open when a file cannot be erased', r)
            known = [e.pol for e in r.events if e.kind == 'assume' and plain(e)[0] == 'cmp' and plain(e)[1] == 'in' and plain(e)[2] == sid and plain(e)[3] == SESS]
            gone = any(e.kind == 'del' and e.path == ('sub', SESS, sid) or e.kind == 'call' and e.name == 'pop' and e.recv == SESS and e.args and e.args[0] == sid for e in r.events)
            if r.outcome.kind == 'return' and known and known[0]:
                c.require(gone, R4, lab, 'the session stays open', r)
                over = any(e.kind == 'iter' or e.kind == 'loop0' for e in r.events)
                c.require(over or not any(True for e in r.events if iscall(e, 'erase_files_of_runno')) and not gone or any(iscall(e, 'erase_files_of_runno') for e in r.events), R4, lab, 'the files of the session are not erased', r)
                if any(e.kind == 'loopend' and e.name == 'break' for e in r.events):
                    c.bad(R4, lab, 'not all files of the session are erased', r)
    with c.attempt(lab_(k, 'start_session')):
        lab = lab_(k, 'start_session')
        for r in paths(c, k, 'start_session'):
            if r.outcome.kind != 'return':
                continue
            v = r.outcome.value
            ws = [e for e in r.events if e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] == SESS]
            for e in ws:
                c.require(e.path[2] == v, R5, lab, 'the identifier returned is not the one of the session', r)
                c.require(e.value in (('list', ()), ('set', ()), ('call', 'list', ()), ('call', 'set', ())) or e.value[0] not in ('list', 'attr', 'param', 'global'), R5, lab, 'the runs of sessions are kept in the same list', r)
                rnd = deep(v, lambda x: x[0] in ('res', 'mcall', 'obj') and x[2] in ('uuid4', 'uuid1', 'token_hex', 'token_urlsafe'))
                count = deep(v, lambda x: x[0] == 'call' and x[1] == 'len' and x[2] == (SESS,)) or v[0] == 'const'
                c.require(not count, R5, lab, 'two sessions may get the same identifier', r)
                if rnd:
                    c.ok(R5, lab)


def started(r, res):
    """what the path assumes about the run number: True for started, False for not started, None when it may be both"""
    no, yes = possible(r, {res: -1}), [possible(r, {res: n}) for n in (1, 2, 17)]
    if no is False:
        return True
    if no is True:
        return False if not any(y is not False for y in yes) else None
    return False if not any(y is not False for y in yes) else UNSURE


UNSURE = 'unsure'
OSERR = ('OSError', 'IOError', 'EnvironmentError')
MINUS1 = (('const', -1), ('neg', ('const', 1)))


# ------------------------------------------------------------------------------------------------ P27
FIELDS = {'runno': 'runno', 'retcode': 'retcode', 'circuit': 'netlist_file', 'raw': 'raw_file', 'log': 'log_file', 'zipfile': 'callback_return', 'start': 'start_time', 'stop': 'stop_time'}


@prop('P27', 'Finished tasks of the server keep their own data until their files are erased',
      'ServerSimRunner.run() moves each task from the completed tasks of its runner into its own list exactly once and with the data of that task, asking the runner to look for finished ones first, for as long as the server is not stopped; after stop() it ends, having waited for '
      'the simulations and erased the files left behind. erase_files_of_runno() erases the netlist, log, raw and archive file of the task with that run number and of no other, forgets that task, and does '
      'not fail when a file is missing or cannot be erased; cleanup_completed() does this for all tasks. SimServer.get_files() reads the archive before it is erased, and add_simulation() returns the run number of the task, or -1 when it was not started.',
      ['schedules', 'histories', 'fault_sequences'],
      'any number of simulations finishing in any order, any file that cannot be erased',
      'There are no tests of the server; files erased too early or never only show in long sessions.',
      [RUN, SRV],
      [dict(name='task list', where=RUN + ':ServerSimRunner.run'), dict(name='erasing', where=RUN + ':ServerSimRunner._erase_files_and_info')],
      'The paths of the manager loop and of the erasing functions are followed with the tasks as symbolic values; each file erased and each entry removed is traced to the run number.',
      'path-sensitive dataflow and exception-flow analysis',
      'All paths; loops by one iteration from any state, the loop over the kinds of files by all its iterations.', [])
def p27(c: Ctx):
    R1 = c.rule('P27.move', 'each task is moved once and with its own data', 3)
    R2 = c.rule('P27.stop', 'after stop() the manager ends and erases what is left', 3)
    R3 = c.rule('P27.erase', 'exactly the files of the run are erased', 4)
    R4 = c.rule('P27.fault', 'a file that cannot be erased does no harm', 1)
    R5 = c.rule('P27.read', 'an archive is read before it is erased', 1)
    R6 = c.rule('P27.start', 'the run number of the started task is returned', 2)
    k, sv = c.p.cls('ServerSimRunner'), c.p.cls('SimServer')
    CT, RT = A(SELF, 'completed_tasks'), A(SELF, 'runner', 'completed_tasks')
    with c.attempt(lab_(k, 'run')):
        lab = lab_(k, 'run')
        op = {'update_completed', 'wait_completion', 'cleanup_files', '_erase_files_and_info', 'cleanup_completed'}
        flag = stop_flag(c, k)
        c.require(any(r.outcome.kind in ('return', 'raise') for r in paths(c, k, 'run', opaque=op)), R2, lab, 'the manager never ends')
        for r in paths(c, k, 'run', opaque=op):
            if contradictory(r):
                continue
            took = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.recv == RT and e.name in ('pop', 'popleft') and not e.raised]
            puts = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.recv == CT and e.name in ('append', 'insert') and not e.raised]
            each = [e for e in r.events if e.kind == 'iter' and e.value is not None and bare(e.value) == RT]
            tv = [('res', e.n, e.name) for _, e in took] or [('elem', e.value) for e in each]
            if tv:
                c.require(len(puts) == 1, R1, lab, 'a finished task is not recorded exactly once', r)
            for i, e in took:
                if e is took[0][1] and not e.raised and not any(x.kind == 'try' for x in r.events[:i]):
                    c.require(possible(r, {RT: [], ('call', 'len', (RT,)): 0}, i) is not True, R1, lab, 'a task is taken although there is none', r)
                c.require(not e.args or e.args[0][0] != 'const' or e.args[0][1] in (0, -1), R1, lab, f'{e!r} fails with a single task', r)
            turn = [j for j, x in enumerate(r.events) if x.kind == 'iter']
            if turn and not took and not each and r.outcome.kind in ('loopback', 'return') and any(x.kind == 'assume' and contains(x.lit, RT) for x in r.events):
                c.require(possible(r, {RT: ['a', 'b'], ('call', 'len', (RT,)): 2}) is not True, R1, lab, 'finished tasks are not taken over', r)
            if turn and r.outcome.kind in ('loopback', 'return') and (took or each or any(x.kind == 'assume' and contains(x.lit, RT) for x in r.events)):
                first = next(j for j, x in enumerate(r.events) if x.kind == 'assume' and contains(x.lit, RT) or x.kind == 'iter' and contains(x.value or NONE, RT) or x.kind == 'call' and x.recv == RT)
                c.require(any(iscall(x, 'update_completed', 'active_threads') for x in r.events[:first]), R1, lab, 'the runner is not asked to look for finished tasks', r)
            if each and not took:
                cleared = any(e.kind == 'call' and e.recv == RT and e.name in ('clear', 'remove') or e.kind in ('write', 'del') and e.path is not None and contains(e.path, RT) for e in r.events)
                if r.outcome.kind == 'return' and not cleared:
                    c.bad(R1, lab, 'finished tasks are recorded again and again', r)
            if puts and not took and r.outcome.kind != 'raise':
                away = any(e.kind == 'call' and e.recv == RT and e.name in LIST_REMOVE or e.kind in ('write', 'del') and e.path is not None and contains(e.path, RT) for e in r.events)
                c.require(away, R1, lab, 'finished tasks are recorded again and again', r)
            for i, e in puts:
                d = dict_items(e.args[-1])
                if d is None:
                    d = {}
                    v = e.args[-1]
                    for x in r.events:
                        if x.kind == 'setitem' and x.path is not None and x.path[0] == 'sub' and x.path[1] == v and x.path[2][0] == 'const':
                            d[x.path[2][1]] = x.value
                for key, at in FIELDS.items():
                    if key in d and tv:
                        v = d[key]
                        c.require(v == ('attr', tv[-1], at) or v[0] != 'attr' or v[1] != tv[-1] and v[2] == at, R1, lab, f'{show(v)} is recorded as {key}', r)
                        if v[0] == 'attr' and v[2] == at and v[1] not in tv:
                            c.bad(R1, lab, f'the {key} of another task is recorded', r)
                if d:
                    for key in ('runno', 'circuit', 'raw', 'log', 'zipfile'):
                        c.require(key in d, R1, lab, f'{key} is not recorded', r)
            if r.outcome.kind == 'return':
                if flag is not None:
                    asked = [('res', e.n, e.name) for e in r.events if e.kind == 'call' and e.recv == flag]
                    fs = [e for e in r.events if e.kind == 'assume' and (contains(e.lit, flag) or plain(e) in asked)]
                    if not fs and any(e.kind == 'assume' and deep(e.lit, lambda x: x[0] in ('phi', 'global', 'res')) for e in r.events) and not any(iscall(e, 'update_completed') for e in r.events):
                        continue            # the loop runs on a variable
                    c.require(bool(fs) and stopped(fs[-1], flag) is not False, R2, lab, 'the manager ends although it was not stopped', r)
                names = [e.name for e in r.events if e.kind == 'call' and not e.raised]
                c.require('wait_completion' in names, R2, lab, 'running simulations are left alone when the server stops', r)
                c.require('cleanup_files' in names, R2, lab, 'the files of the last simulations are not erased', r)
                own = 'cleanup_completed' in names or '_erase_files_and_info' in names or any(e.kind == 'assume' and contains(e.lit, CT) or e.kind in ('iter', 'loop0') and e.value is not None and contains(e.value, CT) for e in r.events)
                c.require(own, R2, lab, 'the files of tasks that were not fetched are not erased', r)
                if 'wait_completion' in names and 'cleanup_files' in names:
                    c.require(names.index('wait_completion') < names.index('cleanup_files'), R2, lab, 'files are erased while simulations are running', r)
        if flag is not None:
            for r in paths(c, k, 'stop'):
                ws = [e for e in r.events if e.kind == 'write' and e.path == flag]
                sets = [e for e in r.events if e.kind == 'call' and e.name == 'set' and e.recv == flag]
                if r.outcome.kind == 'return':
                    c.require(any(e.value == TRUE for e in ws) or bool(sets), R2, lab_(k, 'stop'), 'stop() does not stop the manager', r)
            for r in paths(c, k, 'running'):
                if r.outcome.kind == 'return':
                    v, neg = r.outcome.value, False
                    while v[0] in ('not', 'truthy'):
                        neg ^= v[0] == 'not'
                        v = v[1]
                    if v == flag:
                        c.require(neg, R2, lab_(k, 'running'), 'running() is the opposite of what it should be', r)
                    elif v[0] == 'cmp' and v[1] in ('is', 'eq') and v[2:4] in ((flag, FALSE), (flag, TRUE)):
                        c.require((v[3] == FALSE) != neg, R2, lab_(k, 'running'), 'running() is the opposite of what it should be', r)
    for m in ('erase_files_of_runno', 'cleanup_completed'):
        with c.attempt(lab_(k, m)):
            erase(c, k, m, CT, R3, R4)
    with c.attempt(lab_(sv, 'get_files')):
        lab = lab_(sv, 'get_files')
        for r in paths(c, sv, 'get_files', opaque={'erase_files_of_runno'}):
            if r.outcome.kind != 'return' or r.outcome.value[0] != 'tuple' or len(r.outcome.value[1]) != 2:
                continue
            z = data_source(r, r.outcome.value[1][1])
            er = [i for i, e in enumerate(r.events) if iscall(e, 'erase_files_of_runno')]
            if z is not None and z[1] is not None:
                c.require(all(z[1] < i for i in er), R5, lab, 'the archive is erased before it is read', r)
                c.require(bool(er), R5, lab, 'the files of a run stay on the server after they were fetched', r)
            elif er and z is None and not any(e.kind == 'call' and e.name in ('read', 'read_bytes') for e in r.events[:er[0]]):
                c.bad(R5, lab, 'files are erased that were not read', r)
    with c.attempt(lab_(k, 'add_simulation')):
        lab = lab_(k, 'add_simulation')
        for r in paths(c, k, 'add_simulation', opaque={'run'}):
            runs = [e for e in r.events if iscall(e, 'run')]
            if r.outcome.kind != 'return' or not runs:
                continue
            for e in runs:
                cb = kw_(e, 'callback')
                c.require(cb is not None and 'zip_files' in show(cb), R6, lab, 'the results are not archived', r)
                c.require(kw_(e, 'callback_on_error') == TRUE, R6, lab, 'the log of a failed simulation is not archived', r)
                c.require(arg(e, 0, 'netlist') == P(c.p.lookup(k, 'add_simulation').arg_names()[1]), R6, lab, 'another netlist is simulated', r)
                c.require(kw_(e, 'wait_resource') not in (FALSE, NONE), R6, lab, 'a simulation is refused while others are running', r)
                t = kw_(e, 'timeout')
                c.require(t is None and 'timeout' not in c.p.lookup(k, 'add_simulation').arg_names() or t == P('timeout') or t is not None and contains(t, P('timeout')), R6, lab, 'the timeout is not passed on', r)
            res = ('res', runs[-1].n, 'run')
            none = None
            for e in r.events:
                if e.kind == 'assume':
                    l = plain(e)
                    if l in (('isnone', res), ('cmp', 'is', res, NONE)):
                        none = e.pol
                    elif l == res:
                        none = not e.pol
            v = r.outcome.value
            if none is True:
                c.require(v in (('const', -1), ('neg', ('const', 1))), R6, lab, f'{show(v)} is returned for a simulation that was not started', r)
            elif none is False:
                c.require(v == ('attr', res, 'runno') or contains(v, res) and v[0] != 'attr', R6, lab, f'{show(v)} is returned instead of the run number', r)


def kw_(e, n):
    return dict(e.kw or ()).get(n)


def stop_flag(c, k):
    """the attribute that stop() changes"""
    found = set()
    for r in paths(c, k, 'stop'):
        for e in r.events:
            if e.kind == 'write' and e.path[0] == 'attr' and e.path[1] == SELF:
                found.add(e.path)
            elif e.kind == 'call' and e.name in ('set', 'clear') and e.recv is not None and e.recv[0] == 'attr' and e.recv[1] == SELF:
                found.add(e.recv)
    if len(found) == 1:
        return found.pop()
    # the flag the loop of run() looks at
    for r in paths(c, k, 'run', opaque={'update_completed', 'wait_completion', 'cleanup_files', '_erase_files_and_info'}):
        for e in r.events:
            if e.kind == 'assume' and plain(e)[0] == 'attr' and plain(e)[1] == SELF and 'stop' in plain(e)[2]:
                return plain(e)
    return None


def stopped(e, flag):
    l = plain(e)
    if l == flag:
        return e.pol
    if l[0] == 'cmp' and l[1] in ('is', 'eq') and flag in l[2:4]:
        if TRUE in l[2:4]:
            return e.pol
        if FALSE in l[2:4]:
            return not e.pol
    if l[0] in ('res', 'mcall') and l[2] in ('is_set', 'wait'):
        return e.pol
    return None


def erase(c, k, m, CT, R3, R4):
    lab = lab_(k, m)
    no = P('runno')
    want = {'circuit', 'log', 'raw', 'zipfile'}
    ps = list(paths(c, k, m, raising={'unlink', 'remove'}))
    os_ = any(e.kind == 'except' and e.name in OSERR for r in ps for e in r.events)
    if m == 'cleanup_completed':
        for r in ps:
            if r.outcome.kind == 'loopback' and not any(e.kind == 'iter' and e.value is not None and contains(e.value, CT) for e in r.events):
                c.require(any(e.kind in ('del', 'call') and (e.path is not None and contains(e.path, CT) or e.recv == CT) for e in r.events), R3, lab, 'the same task is erased again and again', r)
            if r.outcome.kind == 'return' and not any(e.kind == 'iter' for e in r.events) and any(e.kind == 'assume' and contains(e.lit, CT) for e in r.events):
                c.require(possible(r, {CT: ['a', 'b'], ('call', 'len', (CT,)): 2}) is not True, R3, lab, 'the files of tasks are left', r)
    for r in ps:
        gone = [(i, e) for i, e in enumerate(r.events) if e.kind == 'del' and e.path is not None and contains(e.path, CT) or e.kind == 'call' and e.recv == CT and e.name in ('pop', 'remove', 'clear') and not e.raised]
        un = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.name in ('unlink', 'remove') and e.recv != CT]
        fail = any(e.raised for _, e in un)
        if fail and os_ and r.outcome.kind == 'raise':
            continue
        if fail:
            c.require(r.outcome.kind != 'raise', R4, lab, 'the task is kept and its other files are not erased when a file cannot be erased', r)
        eqs = [e.pol for e in r.events if e.kind == 'assume' and plain(e)[0] == 'cmp' and plain(e)[1] == 'eq' and no in plain(e)[2:4]]
        if m == 'erase_files_of_runno':
            for i, e in gone + un:
                nos = {x for y in r.events[:i] if y.kind == 'assume' for x in subvalues(y.lit) if x and x[0] == 'sub' and x[2] == ('const', 'runno')}
                for x in nos:
                    c.require(not any(possible(r, {x: a, no: b}, i) for a, b in ((7, 3), (3, 7), (4, 3), (3, 4))), R3, lab, 'the files of other runs are erased', r)
                t = e.path if e.kind == 'del' else None
                if t is not None and t[0] == 'sub' and t[1] == CT or e.kind == 'call' and e.recv == CT and e.name == 'pop' and e.args:
                    at = t[2] if t is not None else e.args[0]
                    if at[0] == 'const':
                        c.bad(R3, lab, f'entry {at[1]} of the tasks is forgotten instead of the one of the run', r)
                c.require(bool(eqs) and eqs[-1] is True or not eqs and any(x.kind in ('assume', 'iter') and deep(x.lit if x.kind == 'assume' else x.value, lambda y: y == no) for x in r.events[:i]), R3, lab, 'the files of other runs are erased', r)
            if eqs and eqs[-1] is True and r.outcome.kind == 'return':
                c.require(len(gone) == 1, R3, lab, 'the erased task is not forgotten', r)
        for i, e in un:
            v = e.recv if e.recv is not None and e.name == 'unlink' else e.args[0] if e.args else None
            if v is not None and v[0] == 'sub' and v[2][0] == 'const':
                c.require(v[2][1] in want, R3, lab, f'{show(v)} is erased', r)
        # all kinds of files
        if gone and r.outcome.kind == 'return':
            touched = set()
            for e in r.events:
                if e.kind == 'assume':
                    for x in subvalues(e.lit):
                        if x and x[0] == 'sub' and x[2][0] == 'const' and isinstance(x[2][1], str) and deep(x[1], lambda y: y == CT):
                            touched.add(x[2][1])
                        elif x and x[0] == 'cmp' and x[1] == 'in' and x[2][0] == 'const':
                            touched.add(x[2][1])
                        elif x and x[0] == 'mcall' and x[2] == 'get' and x[3] and x[3][0][0] == 'const':
                            touched.add(x[3][0][1])
                elif e.kind == 'call' and e.recv is not None:
                    for x in subvalues(e.recv):
                        if x and x[0] == 'sub' and x[2][0] == 'const' and isinstance(x[2][1], str):
                            touched.add(x[2][1])
            if touched & want and not any(e.kind == 'iter' and e.value is not None and not contains(e.value, CT) and concrete(e.value) is None for e in r.events):
                c.require(want <= touched, R3, lab, f'{sorted(want - touched)} are not erased', r)
            # every file the task has is erased, and nothing is expected of one it does not have
            tasks = {x[1] for e in r.events if e.kind in ('assume', 'call') for v in (([e.lit] if e.kind == 'assume' else [e.recv] if e.recv is not None else []) + list(e.args or ())) for x in subvalues(v)
                     if x and x[0] == 'sub' and x[2][0] == 'const' and x[2][1] in want and deep(x[1], lambda y: y == CT)}
            if len(tasks) == 1:
                t = tasks.pop()
                for key in sorted(want):
                    x = ('sub', t, ('const', key))
                    there = {('res', y.n, y.name): True for y in r.events if y.kind == 'call' and y.recv == x and y.name in ('exists', 'is_file')}
                    env = {('cmp', 'in', ('const', key), t): True, x: 'a file', **there}
                    if not any(y.recv == x or y.args and y.args[0] == x for _, y in un):
                        c.require(possible(r, env) is not True, R3, lab, f'an existing {key} file is not erased', r)
                    env = {('cmp', 'in', ('const', key), t): True, x: None}
                    if any(y.kind == 'call' and y.recv == x for y in r.events) and possible(r, env) is True:
                        c.bad(R4, lab, f'a task without {key} file cannot be erased', r)
            if m == 'cleanup_completed':
                for i, e in gone:
                    at = e.path[2] if e.kind == 'del' and e.path[0] == 'sub' else e.args[0] if e.kind == 'call' and e.name == 'pop' and e.args else None
                    c.require(at is None or at[0] != 'const' or at[1] in (0, -1), R3, lab, f'entry {show(at)} of the tasks is erased, which the last one does not have' if at is not None else '', r)
            # an existing file is erased
            for e in r.events:
                if e.kind == 'assume' and e.pol and plain(e)[0] == 'res' and plain(e)[2] == 'exists':
                    f = next(x.recv for x in r.events if x.n == plain(e)[1])
                    c.require(any(x.recv == f or x.args and x.args[0] == f for _, x in un), R3, lab, f'{show(f)} is not erased', r)


# ------------------------------------------------------------------------------------------------ P28
@prop('P28', 'Threads of runner and server do not corrupt, hide or block each other',
      'SimRunner.update_completed(), which both threads of the server call, changes the lists of tasks and the counters only while it holds one lock of the runner, created when the runner is made, and it neither waits, sleeps nor joins '
      'while holding it. SimServer.stop_server() tells the simulation manager to stop and shuts the RPC server down, but never waits for the shutdown in the thread that serves the requests. The thread classes of the library do '
      'not replace attributes or methods of threading.Thread other than run(), and a RunTask only starts its thread through start().',
      ['schedules'],
      'any interleaving of the threads of a server, its manager and its simulations',
      'Interleavings cannot be forced by tests, and a deadlock or a task moved twice needs a particular one.',
      ['spicelib/sim/sim_runner.py', SRV, RUN, 'spicelib/sim/run_task.py'],
      [dict(name='lock', where='spicelib/sim/sim_runner.py:SimRunner.update_completed'), dict(name='shutdown', where=SRV + ':SimServer.stop_server'), dict(name='thread classes', where=RUN + ':ServerSimRunner; spicelib/sim/run_task.py:RunTask')],
      'Lock-set analysis of the paths of update_completed(); thread-identity guards of the shutdown; attributes written by Thread subclasses compared with those of threading.Thread.',
      'lock-set analysis, effect analysis of thread classes',
      'All paths. Which methods are called from which thread is taken from the registration of the RPC server and the bodies of the thread classes.', [])
def p28(c: Ctx):
    R1 = c.rule('P28.lock', 'tasks are moved while the lock is held', 3)
    R2 = c.rule('P28.wait', 'nothing is waited for while the lock is held', 1)
    R3 = c.rule('P28.stop', 'the server is shut down by another thread than its own', 2)
    R4 = c.rule('P28.thread', 'thread classes leave the attributes of Thread alone', 10)
    k = c.p.cls('SimRunner')
    with c.attempt(lab_(k, 'update_completed')):
        locking(c, k, R1, R2)
    with c.attempt('stop_server'):
        sv = c.p.cls('SimServer')
        lab = lab_(sv, 'stop_server')
        th = server_thread(c, sv)
        for r in paths(c, sv, 'stop_server', opaque={'stop', 'shutdown'}):
            if r.outcome.kind != 'return':
                continue
            c.require(any(iscall(e, 'stop') for e in r.events), R3, lab, 'the simulation manager is not stopped', r)
            sh = [e for e in r.events if iscall(e, 'shutdown')]
            by = [e for e in r.events if e.kind == 'call' and e.name == 'Thread' and deep(arg(e, 1, 'target') or NONE, lambda x: x[0] == 'attr' and x[2] == 'shutdown')]
            wrapped = any(e.kind == 'call' and e.name == 'Thread' for e in r.events)
            c.require(bool(sh) or wrapped, R3, lab, 'the RPC server is not shut down', r)
            for e in sh:
                i = r.events.index(e)
                other = [x for x in r.events[:i] if x.kind == 'assume' and deep(x.lit, lambda y: y == th or y[0] in ('res', 'mcall') and y[2] in ('current_thread', 'get_ident'))]
                c.require(any(not x.pol for x in other), R3, lab, 'a client that stops the server waits for itself', r)
            for e in by:
                n = ('res', e.n, 'Thread'), ('obj', e.n, 'Thread')
                c.require(any(x.kind == 'call' and x.name == 'start' and x.recv in n for x in r.events) or any(x.kind == 'call' and x.name == 'start' for x in r.events), R3, lab, 'the thread that shuts the server down is not started', r)
                for x in r.events:
                    if x.kind == 'call' and x.name == 'join' and x.recv in n:
                        guard = any(y.kind == 'assume' and not y.pol and deep(y.lit, lambda z: z == th) for y in r.events)
                        c.require(guard, R3, lab, 'a client that stops the server waits for itself', r)
    import threading
    own = {n for n in dir(threading.Thread)} | {'_target', '_name', '_args', '_kwargs', '_daemonic', '_ident', '_native_id', '_tstate_lock', '_started', '_is_stopped', '_initialized', '_stderr', '_invoke_excepthook', '_stop', '_handle', '_context', '_os_thread_handle', '_delete', '_bootstrap'}
    free = {'name', 'daemon', '__init__', '__module__', '__doc__', '__dict__', '__class__', '__slots__', 'run', '__repr__', '__str__', '__annotations__', '__eq__', '__hash__', '__lt__', '__ne__', '__le__', '__gt__', '__ge__', '__len__', '__getattr__'}
    for cl in [x for x in c.p.all_classes()] if hasattr(c.p, 'all_classes') else [c.p.cls('RunTask'), c.p.cls('ServerSimRunner')]:
        if not any(b.endswith('Thread') for b in base_names(cl)):
            continue
        for n, f in cl.methods.items():
            c.require(n in free or n not in own, R4, f'{where(cl)}.{n}', f'{n}() replaces a method that threading.Thread needs')
            for x in ast.walk(f.node):
                t = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AnnAssign, ast.AugAssign)) else []
                for y in t:
                    for z in (y.elts if isinstance(y, (ast.Tuple, ast.List)) else [y]):
                        if isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name) and z.value.id == 'self':
                            c.require(z.attr in free or z.attr not in own, R4, f'{where(cl)}.{z.attr}', f'the attribute {z.attr} hides one that threading.Thread needs', node=x)
        for x in cl.node.body:
            t = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) and x.value is not None else []
            for z in t:
                if isinstance(z, ast.Name):
                    c.require(z.id in free or z.id not in own, R4, f'{where(cl)}.{z.id}', f'the attribute {z.id} hides one that threading.Thread needs', node=x)
    with c.attempt('started threads'):
        for f in c.p.all_funcs():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.targets[0], ast.Name) and dotted(x.value.func) in ('RunTask',):
                    v = x.targets[0].id
                    for y in ast.walk(f.node):
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == v and y.func.attr in ('run', 'start'):
                            c.require(y.func.attr == 'start', R4, f, 'the simulation runs in the thread of its caller', node=y)


def base_names(cl):
    return [dotted(b) or '' for b in cl.node.bases]


def server_thread(c, sv):
    """the attribute that holds the thread serving the requests"""
    for r in paths(c, sv, '__init__', opaque={'ServerSimRunner', 'SimpleXMLRPCServer', 'register_introspection_functions', 'register_instance'}):
        for e in r.events:
            if e.kind == 'write' and e.value is not None and e.value[0] in ('res', 'obj') and e.value[2] == 'Thread':
                return e.path
    return A(SELF, 'server_thread')


def locks(c, k):
    out = {}
    for r in c.walk(c.p.lookup(k, '__init__'), k, any_iteration=True, inline_funcs=False):
        for e in r.events:
            if e.kind == 'write' and e.value is not None and e.value[0] in ('res', 'obj', 'call', 'mcall') and deep(e.value, lambda x: x[0] in ('res', 'obj', 'mcall') and x[2] in ('Lock', 'RLock') or x[0] == 'call' and x[1] in ('Lock', 'RLock')):
                out[e.path] = True
    return set(out)


def locking(c, k, R1, R2):
    lab = lab_(k, 'update_completed')
    L = locks(c, k)
    ACT, DONE = A(SELF, 'active_tasks'), A(SELF, 'completed_tasks')
    counters = {prop_path(c, 'SimRunner', 'okSim'), prop_path(c, 'SimRunner', 'failSim')}
    if not L:
        c.bad(R1, lab, 'the runner has no lock for moving its tasks')
        return
    for r in paths(c, k, 'update_completed'):
        held = []
        for e in r.events:
            if e.kind == 'enter' and e.value in L:
                held.append(e.value)
            elif e.kind == 'exit' and e.value in held:
                held.remove(e.value)
            elif e.kind == 'call' and e.name == 'acquire' and e.recv in L:
                held.append(e.recv)
            elif e.kind == 'call' and e.name == 'release' and e.recv in held:
                held.remove(e.recv)
            change = e.kind == 'call' and e.recv in (ACT, DONE) and e.name in LIST_MUT or e.kind in ('write', 'aug') and e.path in counters | {ACT, DONE} or e.kind in ('del', 'setitem') and e.path is not None and (contains(e.path, ACT) or contains(e.path, DONE))
            if change:
                c.require(bool(held), R1, lab, 'a task is moved or counted without the lock', r)
            look = e.kind == 'assume' and contains(e.lit, ACT) and (e.lit[0] == 'cmp' or deep(e.lit, lambda x: x[0] in ('mcall', 'res') and x[2] == 'is_alive'))
            if look and any(x.kind == 'call' and x.recv == ACT and x.name in LIST_REMOVE for x in r.events):
                c.require(bool(held), R1, lab, 'whether a task has ended is looked at without the lock', r)
            if held and e.kind == 'call' and e.name in ('sleep', 'join', 'wait', 'wait_completion', 'wait_results', 'acquire') and not (e.name == 'acquire' and e.recv in L and held.count(e.recv) == 1):
                c.bad(R2, lab, f'{e.name}() is called while the lock is held', r)
        if r.outcome.kind in ('return', 'raise'):
            c.require(not held, R2, lab, 'the lock is not released', r)


# ------------------------------------------------------------------------------------------------ P44
STARTED, STORED = A(SELF, 'started_jobs'), A(SELF, 'stored_jobs')


@prop('P44', 'A client gets each simulation it started exactly once',
      'SimClient.run() contacts the server only for a netlist that exists, returns what the server returned, and records the job with the folder of its netlist iff it was started; iterating over the client gives each started job exactly once, '
      'only after the server has reported it, never one that was given before, and ends exactly when no started job is left, asking the server again in between, after the rest of minimum_time_between_server_calls since the time recorded last; get_runno_data() '
      'raises SimClientInvalidRunId for a job that was not given by the iteration or whose data was already transferred, stores the data in the folder of the netlist and returns that path, and returns None when the server has no data.',
      ['schedules', 'histories'],
      'any order in which simulations end and in which the client fetches them',
      'There are no tests of the client; its job lists only go wrong with several jobs that end or are fetched in an unusual order.',
      [CLI],
      [dict(name='jobs', where=CLI + ':SimClient.run, __next__, get_runno_data')],
      'The paths of the three methods are followed with the replies of the server as unknown values; each change of the job lists is matched with the run number and with what the path knows about it.',
      'path-sensitive typestate analysis of the job lists',
      'All paths; loops by one iteration from any state.', [])
def p44(c: Ctx):
    R1 = c.rule('P44.run', 'started jobs are recorded', 3)
    R2 = c.rule('P44.next', 'each started job is given once, after it was reported', 3)
    R3 = c.rule('P44.end', 'the iteration ends when no job is left', 1)
    R4 = c.rule('P44.data', 'data is transferred once and stored in the folder of the netlist', 3)
    R5 = c.rule('P44.pace', 'the server is asked with a minimum time in between', 1)
    k = c.p.cls('SimClient')
    with c.attempt(lab_(k, 'run')):
        lab = lab_(k, 'run')
        p = P(c.p.lookup(k, 'run').arg_names()[1])
        for r in paths(c, k, 'run'):
            calls = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.recv == SERVER]
            there = None
            for e in r.events:
                if e.kind == 'assume' and plain(e)[0] == 'res' and plain(e)[2] in ('exists', 'is_file'):
                    x = next(x for x in r.events if x.n == plain(e)[1])
                    if contains(x.recv or NONE, p) or x.args and contains(x.args[0], p):
                        there = e.pol
                elif e.kind == 'assume' and plain(e)[0] == 'mcall' and plain(e)[2] in ('exists', 'is_file') and contains(plain(e)[1], p):
                    there = e.pol
            recs = [(i, e) for i, e in enumerate(r.events) if e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] == STARTED]
            if there is False:
                c.require(not calls and not recs, R1, lab, 'a job is started for a netlist that does not exist', r)
                if r.outcome.kind == 'return':
                    c.require(r.outcome.value in (('const', -1), ('neg', ('const', 1))), R1, lab, f'{show(r.outcome.value)} is returned for a netlist that does not exist', r)
                continue
            runs = [e for _, e in calls if e.name == 'run' and not e.raised]
            if r.outcome.kind != 'return' or not runs:
                continue
            res = ('res', runs[-1].n, 'run')
            same = lambda v: v == res or v[0] == 'call' and v[1] == 'int' and v[2] == (res,)
            st = started(r, res)
            c.require(same(r.outcome.value) or st is False and r.outcome.value in MINUS1 or st is UNSURE, R1, lab, f'{show(r.outcome.value)} is returned instead of the run number', r)
            if recs:
                e = recs[-1][1]
                c.require(same(e.path[2]), R1, lab, f'the job is recorded as {show(e.path[2])}', r)
                c.require(st in (True, UNSURE), R1, lab, 'a job that was not started is recorded', r)
                j = next((x for x in r.events if x.kind == 'call' and x.name == 'JobInformation'), None)
                if j is not None:
                    d = arg(j, 1, 'file_dir')
                    c.require(d is not None and contains(d, p) and (deep(d, lambda x: x[0] == 'attr' and x[2] == 'parent') or 'dirname' in show(d)), R1, lab, f'the results would be stored in {show(d)}', r)
                    n = arg(j, 0, 'run_number')
                    c.require(n is None or same(n), R1, lab, f'{show(n)} is kept as the run number', r)
            elif st in (True, None):
                c.bad(R1, lab, 'a started job is not recorded', r)
    with c.attempt(lab_(k, '__next__')):
        lab = lab_(k, '__next__')
        for r in paths(c, k, '__next__'):
            stat = [(i, e) for i, e in enumerate(r.events) if iscall(e, 'status')]
            none = [e.pol for e in r.events if e.kind == 'assume' and (plain(e) == STARTED or deep(plain(e), lambda x: x[0] == 'call' and x[1] == 'len' and x[2] == (STARTED,)))]
            if r.outcome.kind == 'raise' and r.outcome.value == 'StopIteration':
                left = possible(r, {('call', 'len', (STARTED,)): 2, STARTED: ['job', 'job']})
                odd = any(e.kind == 'assume' and contains(e.lit, STARTED) and deep(e.lit, lambda x: x[0] in ('res', 'phi', 'comp', 'elem')) for e in r.events)
                c.require(left is False or left is None and odd, R3, lab, 'the iteration ends although jobs are left', r)
                if not none and not any(e.kind == 'assume' and contains(e.lit, STARTED) for e in r.events):
                    c.bad(R3, lab, 'the iteration ends although jobs are left', r)
                c.require(not any(e.kind == 'call' and e.recv == STARTED and e.name in ('pop', 'clear', 'popitem') for e in r.events), R3, lab, 'a job is dropped', r)
                continue
            if r.outcome.kind != 'return':
                continue
            v = r.outcome.value
            if not stat:
                c.bad(R2, lab, 'a job is given that the server did not report', r)
                continue
            reply = ('res', stat[-1][1].n, 'status')
            if v != NONE:
                c.require(from_reply(r, v, reply) is not False, R2, lab, f'{show(v)} is given, which the server did not report', r)
                moved = [e for e in r.events if e.kind == 'setitem' and e.path == ('sub', STORED, v)]
                taken = [e for e in r.events if e.kind == 'call' and e.recv == STARTED and e.name == 'pop' and e.args and e.args[0] == v or e.kind == 'del' and e.path == ('sub', STARTED, v)]
                c.require(bool(taken), R2, lab, 'a job is given again and again', r)
                c.require(bool(moved) or any(e.kind == 'setitem' and e.path is not None and e.path[1] == STORED for e in r.events), R2, lab, 'the data of a job that was given cannot be fetched', r)
                for e in moved:
                    job = e.value
                    ok = job[0] == 'res' and job[2] == 'pop' and any(x.n == job[1] and x.recv == STARTED and x.args[0] == v for x in r.events) or job == ('sub', STARTED, v)
                    c.require(ok or job[0] not in ('res', 'sub', 'const'), R2, lab, f'{show(job)} is kept for a job', r)
                if v[0] == 'res' and v[2] in ('pop', 'popleft') or v[0] == 'sub':
                    x = next((x for x in r.events if v[0] == 'res' and x.n == v[1]), None)
                    src = v[1] if x is None else x.recv
                    n = r.events.index(x) if x is not None else len(r.events)
                    if src is not None and src[0] != 'attr' and any(e.kind == 'assume' and contains(e.lit, src) for e in r.events):
                        c.require(possible(r, {src: [], ('call', 'len', (src,)): 0}, n) is not True, R2, lab, 'a job is taken from an empty list', r)
                    elif src is not None and src[0] == 'comp':
                        c.bad(R2, lab, 'a job is taken from a list that can be empty', r)
                    at = v[2] if x is None else x.args[0] if x.args else None
                    c.require(at is None or at[0] != 'const' or at[1] in (0, -1), R2, lab, f'job {show(at)} of the list is taken' if at is not None else '', r)
                c.require(new_job(r, v, reply), R2, lab, 'a job whose data was not fetched yet is taken for a new one', r)
            else:
                c.bad(R2, lab, 'None is given instead of a job', r)
        for r in paths(c, k, '__next__'):
            if r.outcome.kind == 'loopback':
                c.require(any(iscall(e, 'status') for e in r.events), R2, lab, 'the server is not asked again', r)
                pace(c, r, R5, lab)
                for x in {y for e in r.events if e.kind == 'assume' for y in subvalues(e.lit) if y and (y[0] == 'comp' or y[0] == 'res') and contains(y, ('res', next((z.n for z in r.events if iscall(z, 'status')), None), 'status'))}:
                    if not any(e.kind == 'iter' and contains(e.value or NONE, x) for e in r.events):
                        c.require(possible(r, {x: ['a', 'b'], ('call', 'len', (x,)): 2}) is not True, R2, lab, 'a job that the server reported is not given', r)
    with c.attempt(lab_(k, 'get_runno_data')):
        lab = lab_(k, 'get_runno_data')
        no = P(c.p.lookup(k, 'get_runno_data').arg_names()[1])
        for r in paths(c, k, 'get_runno_data'):
            known = [e.pol for e in r.events if e.kind == 'assume' and plain(e) == ('cmp', 'in', no, STORED)]
            got = [(i, e) for i, e in enumerate(r.events) if iscall(e, 'get_files')]
            if known and known[0] is False:
                c.require(r.outcome.kind == 'raise' and r.outcome.value == 'SimClientInvalidRunId', R4, lab, 'an unknown job is not refused', r)
                c.require(not got, R4, lab, 'the data of an unknown job is asked for', r)
                continue
            if r.outcome.kind != 'return':
                if r.outcome.kind == 'raise' and known and known[0] and r.outcome.value == 'SimClientInvalidRunId':
                    c.bad(R4, lab, 'a job whose data can be fetched is refused', r)
                continue
            c.require(bool(got), R4, lab, 'the server is not asked for the data', r)
            if not got:
                continue
            res = ('res', got[-1][1].n, 'get_files')
            out = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.recv == STORED and e.name == 'pop' or e.kind == 'del' and e.path is not None and contains(e.path, STORED)]
            c.require(bool(out), R4, lab, 'the data of a job can be fetched twice', r)
            for i, e in out:
                a = e.args[0] if e.kind == 'call' else e.path[2]
                c.require(a == no, R4, lab, f'job {show(a)} is forgotten', r)
                if e.kind == 'call' and not known:
                    c.bad(R4, lab, 'an unknown job is not refused', r) if not e.raised and len(e.args) > 1 else c.ok(R4, lab)
            empty = None
            for nm in (('item', res, 0), ('sub', res, ('const', 0))):
                if any(e.kind == 'assume' and contains(e.lit, nm) for e in r.events):
                    a, b = possible(r, {nm: ''}), possible(r, {nm: 'x_1.zip'})
                    empty = True if b is False else False if a is False else 'both' if a and b else None
            v = r.outcome.value
            if empty == 'both':
                c.bad(R4, lab, 'whether the server has data is not looked at', r)
            if empty is True:
                c.require(v == NONE, R4, lab, f'{show(v)} is returned although the server has no data', r)
            elif empty is False:
                c.require(v != NONE, R4, lab, 'the data is not returned', r)
                if v[0] == 'bin' and v[1] == '/':
                    c.require(v[2][0] == 'attr' and v[2][2] == 'file_dir', R4, lab, f'the data is stored in {show(v[2])}', r)
                    c.require(contains(v[3], res), R4, lab, f'the data is stored as {show(v[3])}', r)
                    j = v[2][1] if v[2][0] == 'attr' else None
                    if j is not None and j[0] == 'sub':
                        c.require(j[1] == STORED and j[2] == no, R4, lab, f'the data is stored in the folder of {show(j)}', r)
                elif v[0] in ('item', 'param', 'attr', 'const') or v[0] == 'call' and v[1] == 'Path' and not contains(v, ('attr',)):
                    c.require(deep(v, lambda x: x[0] == 'attr' and x[2] == 'file_dir'), R4, lab, f'the data is stored as {show(v)}', r)


def pace(c, r, R5, lab):
    """a turn without a new job waits for the rest of the minimum time between calls"""
    gap, last = A(SELF, 'minimum_time_between_server_calls'), A(SELF, '_last_server_call')
    now = [('res', e.n, e.name) if e.kind == 'call' else None for e in r.events if iscall(e, 'time', 'monotonic', 'perf_counter')]
    sl = [(i, e) for i, e in enumerate(r.events) if iscall(e, 'sleep')]
    lits = [e for e in r.events if e.kind == 'assume' and contains(e.lit, gap)]
    for a, b, t in ((5, 1, 2), (5, 1, 20)) if now else ():     # minimum, last call, now
        env = {gap: a, last: b, **{x: t for x in now}}
        if possible(r, env) is not True:
            continue
        try:
            waits = [evaluate(e.args[0], env) for _, e in sl if e.args]
        except Unknown:
            continue
        due = max(a - (t - b), 0)
        c.require(sum(max(x, 0) for x in waits) == due, R5, lab, 'the server is asked again before the minimum time' if due else 'waits although the minimum time is over', r)
    ws = [e for e in r.events if e.kind == 'write' and e.path == last]
    if lits or sl:
        c.require(bool(ws) or not any(contains(e.lit, last) for e in lits), R5, lab, 'the time of the call is not recorded, so that the server is asked without pause', r)
        for e in ws:
            c.require(e.value in now or e.value[0] not in ('const', 'attr'), R5, lab, f'{show(e.value)} is recorded as time of the call', r)
    else:
        c.bad(R5, lab, 'the server is asked again without pause', r)


def from_reply(r, v, reply):
    """v is one of the run numbers the server replied"""
    def src(s):
        s = bare(s)
        if s == reply:
            return True
        if s[0] == 'comp' and len(s[2]) == 1 and s[2][0][0] == 'elem':
            return src(s[3][0][0])
        if s[0] == 'res' or s[0] == 'phi':
            return None
        return False
    if v[0] == 'elem':
        return src(v[1])
    if v[0] == 'sub':
        return src(v[1])
    if v[0] == 'res' and v[2] in ('pop', 'popleft'):
        e = next((x for x in r.events if x.n == v[1]), None)
        return src(e.recv) if e is not None else None
    if v[0] == 'res' and v[2] == 'next' or v[0] == 'call' and v[1] in ('next', 'min', 'max'):
        return None
    return None


def new_job(r, v, reply):
    """the path knows that v is a started job"""
    for e in r.events:
        if e.kind == 'assume' and e.pol and plain(e)[0] == 'cmp' and plain(e)[1] == 'in' and plain(e)[2] == v and bare(plain(e)[3]) == STARTED:
            return True
        if e.kind == 'assume' and not e.pol and plain(e)[0] == 'cmp' and plain(e)[1] == 'in' and plain(e)[2] == v and bare(plain(e)[3]) == STORED:
            return True
        if e.kind == 'assume' and plain(e)[0] != 'cmp' and contains(plain(e), reply) and deep(plain(e), lambda x: x == STARTED):
            return True
    for x in list(subvalues(v)) + ([e.recv for e in r.events if v[0] == 'res' and e.n == v[1] and e.recv is not None] if v[0] == 'res' else []):
        if x and deep(x, lambda y: y[0] == 'comp' and deep(y[3], lambda z: z in (STARTED, STORED))):
            return True
    if v[0] == 'res' and v[2] in ('next', 'pop'):
        e = next((x for x in r.events if x.n == v[1]), None)
        if e is not None and (e.args and deep(e.args, lambda z: z in (STARTED, STORED))):
            return True
    if v[0] == 'call' and deep(v, lambda z: z in (STARTED, STORED)):
        return True
    return False
