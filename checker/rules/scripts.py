"""The command line tools raw_convert and ltsteps (P53)."""
from .util import *
from .server import QUIET

RC = 'spicelib/scripts/raw_convert.py'
LS = 'spicelib/scripts/ltsteps.py'
RC_OP = {'RawRead', 'export', 'to_csv', 'to_excel', 'exit', 'get_trace_names', 'copy', 'print', 'get_raw_property', 'to_dataframe'}
EXITS = ('exit', '_exit', 'abort')
OUT = ('export', 'to_csv', 'to_excel')
ARGV = ('attr', ('global', 'sys'), 'argv')


def until_exit(r):
    """the events of a path until the program ends, and the code it ends with"""
    for i, e in enumerate(r.events):
        if e.kind == 'call' and e.name in EXITS:
            try:
                return r.events[:i], evaluate(e.args[0], {}) if e.args else 0
            except Unknown:
                return r.events[:i], None
    return r.events, 0


def feasible(es, env):
    for e in es:
        if e.kind == 'assume':
            try:
                if bool(evaluate(e.lit, env)) != e.pol:
                    return False
            except Unknown:
                pass
        elif e.kind == 'loop0':
            v = e.value
            while isinstance(v, tuple) and v[0] == 'comp' and len(v[3]) == 1 and not v[3][0][1]:
                v = v[3][0][0]  # as empty as what it runs through
            try:
                if list(evaluate(v, env)):
                    return False
            except (Unknown, TypeError):
                pass
    return True


def found(name, names):
    return next((x for x in (name, f'V({name})', f'I({name})') if x in names), None)


@prop('P53', 'The command line tools convert the file they are given to what was asked for',
      'raw_convert reads the raw file of its first argument and outputs the traces of the other arguments, in their order, each under its own name, else as V(name), else as I(name), and traces of other names never; all traces if none is '
      'given; nothing, with an exit code other than 0, if none of them exists, no file is given or the extension of the output is unknown. Without --output the text has a line with the names and a line for every point, their values '
      'separated with the separator given; with it a .csv (with that separator) or .xlsx file is written. ltsteps writes file.txt reformatted to file.tsv, the steps and measures of file.log to file.tlog and those of file.mout, with the '
      'steps of file.log if there is one, to file.tmout; without argument it takes the newest file with such an extension, and it ends with an exit code other than 0 for other extensions or when there is none.',
      ['inputs', 'configurations'], 'any arguments and files', 'The tests do not run the command line tools.', [RC, LS],
      [dict(name='raw files', where=RC + ':main'), dict(name='logs and exports', where=LS + ':main')],
      'All paths of the two programs until they exit are enumerated with any number of turns of their loops. Which paths can be taken for representative arguments is decided by constant propagation, and what they read and write is compared.',
      'path enumeration with constant propagation', 'The options are those optparse gives; what export() and the log readers give are P41 and P23.', ['exit() ends the program'])
def p53(c: Ctx):
    R1 = c.rule('P53.traces', 'the traces asked for are output', 12)
    R2 = c.rule('P53.output', 'the output has the form and name asked for', 8)
    R3 = c.rule('P53.text', 'every point is a line of the text', 4)
    R4 = c.rule('P53.ltsteps', 'the file is converted to the name of its extension', 12)
    R5 = c.rule('P53.newest', 'the newest file is taken', 5)
    with c.attempt('raw_convert'):
        raw_convert(c, R1, R2, R3)
    with c.attempt('ltsteps'):
        ltsteps(c, R4, R5)


def raw_convert(c, R1, R2, R3):
    f = c.p.function(RC, 'main')
    lab = 'raw_convert'
    ps = [r for r in c.walk(f, None, any_iteration=True, opaque=RC_OP, no_raise=QUIET | RC_OP)]
    for r in ps:
        pa = next((e for e in r.events if e.kind == 'call' and e.name == 'parse_args'), None)
        if pa is None:
            continue
        res = ('res', pa.n, 'parse_args')
        opts, args = ('item', res, 0), ('item', res, 1)
        es, code = until_exit(r)
        reads = [e for e in es if e.kind == 'call' and e.name == 'RawRead']
        outs = [e for e in es if e.kind == 'call' and e.name in OUT and not e.raised]
        names = [e for e in es if e.kind == 'call' and e.name == 'get_trace_names']
        if r.outcome.kind == 'raise':
            continue
        for given in ([], ['f.raw'], ['f.raw', 'out'], ['f.raw', 'a', 'b']):
            for output in (None, 'x.csv', 'y.xlsx', 'z.txt'):
                env = {args: given, A(opts, 'output'): output, A(opts, 'separator'): ';', A(opts, 'dialect'): 'ngspice'}
                if not feasible(es, env):
                    continue
                what = f'{given} and output {output!r}'
                if not given:
                    if r.outcome.kind == 'return':
                        c.require(not reads and not outs and code not in (0, None), R2, lab, 'without arguments the program goes on or ends with code 0', r)
                    continue
                for e in reads:
                    try:
                        c.require(evaluate(e.args[0], env) == given[0], R1, lab, f'{what}: {show(e.args[0])} is read', r)
                        d = dict(e.kw or ()).get('dialect')
                        if d is not None:
                            c.require(evaluate(d, env) == 'ngspice', R1, lab, f'{what}: the dialect is {show(d)}', r)
                        t = e.arg(1, 'traces_to_read')
                        if t is not None:
                            c.require(evaluate(t, env) == '*', R1, lab, f'{what}: only {show(t)} is read from the file', r)
                    except Unknown:
                        pass
                for e in outs:
                    i = 0 if e.name == 'export' else 1
                    cols = e.arg(i, 'columns') or NONE
                    if len(given) == 1:
                        try:
                            c.require(evaluate(cols, env) in (None, '*'), R1, lab, f'{what}: {show(cols)} is output instead of all traces', r)
                        except Unknown:
                            pass
                    else:
                        chosen(c, R1, lab, r, es, cols, env, args, names, what)
                    try:
                        if e.name != 'export':
                            c.require(evaluate(e.arg(0, 'filename'), env) == output, R2, lab, f'{what}: the file is {show(e.arg(0, "filename"))}', r)
                        if e.name == 'to_csv':
                            s = e.arg(3, 'separator')
                            c.require(s is not None and evaluate(s, env) == ';', R2, lab, f'{what}: the separator is {show(s) if s else "not given"}', r)
                            x = dict(e.kw or ()).get('index')
                            c.require(x is not None and evaluate(x, env) is False, R2, lab, f'{what}: a column with the numbers of the points is added', r)
                    except Unknown:
                        pass
                if r.outcome.kind != 'return':
                    continue
                kinds = [e.name for e in outs]
                if output == 'z.txt':
                    c.require(not kinds and code not in (0,), R2, lab, f'{what}: {kinds} is written, exit code {code}', r)
                    continue
                want = {None: 'export', 'x.csv': 'to_csv', 'y.xlsx': 'to_excel'}[output]
                if code in (0, None):
                    c.require(want in kinds and not [k for k in kinds if k not in (want, 'export')], R2, lab, f'{what}: {kinds} is used for the output', r)
                elif len(given) == 1:
                    c.bad(R2, lab, f'{what}: the program ends with code {code}', r)
                if output is None and code in (0, None):
                    clip = A(opts, 'clipboard')
                    for x in (True, False):
                        if feasible(es, {**env, clip: x}):
                            shown = [e for e in es if e.kind == 'call' and (e.name == 'copy' if x else e.name == 'print') and e.args and contains(e.args[0], ('phi', 'text')) or
                                     e.kind == 'call' and (e.name == 'copy' if x else e.name == 'print') and e.args and not any(y[0] in ('const', 'fstr') for y in e.args)]
                            c.require(shown, R2, lab, f'{what}: the text is not ' + ('copied to the clipboard' if x else 'printed'), r)
                    text(c, R3, lab, r, es, env, outs, opts)


def chosen(c, rule, lab, r, es, cols, env, args, names, what):
    """the columns output are those found of the traces asked for"""
    try:
        v = evaluate(cols, env)
        if v is None or v and names:
            c.bad(rule, lab, f'{what}: ' + ('all traces are' if v is None else f'{v!r} is') + ' output', r)
        return
    except Unknown:
        pass
    b = built(r, cols)
    if b is None or not names:
        return
    tests = [e for e in es if e.kind == 'assume' and contains(e.lit, cols)]
    if any(e.added for e in b):
        c.require(tests, rule, lab, f'{what}: the output is written without a test whether any trace was found', r)
    for e in tests:
        try:
            c.require(bool(evaluate(e.lit, {cols: []})) != e.pol, rule, lab, f'{what}: there is an output without any of the traces', r)
        except Unknown:
            pass
    ns = ('res', names[-1].n, 'get_trace_names')
    for e in b:
        if e.src is None:
            continue
        try:
            src = evaluate(whole(e.src), env)
        except Unknown:
            src = None
        if src != env[args][1:]:
            if e.added and src is not None:
                c.bad(rule, lab, f'{what}: the traces looked up are {src!r}', r)
            continue
        el = ('elem', e.src)
        for have in (['out', 'V(out)', 'I(out)'], ['V(out)', 'I(out)'], ['I(out)'], ['a', 'V(outer)', 'OUT']):
            w = {el: 'out', ns: have}
            try:
                if any(bool(evaluate(x, w)) != p for x, p in e.facts if contains(x, el) or contains(x, ns)):
                    continue
                got = evaluate(e.elt, w) if e.added else None
            except Unknown:
                continue
            c.require(got == found('out', have), rule, lab, f'{what}: of {have}, {got!r} is output for out', r)


def text(c, rule, lab, r, es, env, outs, opts):
    """the lines of the text"""
    ex = [e for e in outs if e.name == 'export']
    if not ex:
        return
    d = ('res', ex[-1].n, 'export')
    data = {'a': [10, 20, 10], 'b': [4, 5, 6]}
    w = {**env, d: data}
    for e in es:
        if e.kind == 'call' and e.name == '__iter__' and e.recv == d:
            w[('res', e.n, '__iter__')] = list(data)
        elif e.kind == 'call' and e.name in ('__next__', 'next'):
            w[('res', e.n, e.name)] = 'a'
        elif e.kind == 'iter' and contains(e.value, d):
            w[('elem', e.value)] = w[('idx', e.value)] = 1
        elif e.kind == 'call' and e.name == 'join' and e.n is not None:
            try:
                w[('res', e.n, 'join')] = evaluate(e.recv, w).join(evaluate(e.args[0], w))
            except (Unknown, TypeError):
                pass
    stack = []
    for e in es:
        if e.kind in ('iter', 'loop0'):
            if contains(e.value, d):
                try:
                    src = list(evaluate(e.value, w))
                except (Unknown, TypeError):
                    src = None
                if src is not None:
                    c.require(src in ([0, 1, 2], [(10, 4), (20, 5), (10, 6)]), rule, lab, f'the points written are {src}', r)
            if e.kind == 'iter':
                stack.append(e)
        elif e.kind == 'loopend' and stack:
            b = stack.pop()
            if not contains(b.value, d):
                continue
            for name, first in (b.start or {}).items():
                try:
                    x = evaluate(first, w)
                except Unknown:
                    continue
                if not isinstance(x, str):
                    continue
                c.require(x == 'a;b\n', rule, lab, f'the text begins with {x!r} instead of {"a;b" + chr(10)!r}', r)
                last = r.st.env.get(name)
                if last is None:
                    continue
                try:
                    got = evaluate(last, {**w, ('phi', name): 'T'})
                except Unknown:
                    continue
                c.require(got == 'T20;5\n', rule, lab, f'the line of a point is {got!r}', r)


def ltsteps(c, R4, R5):
    f = c.p.function(LS, 'main')
    lab = 'ltsteps'
    op = {'LTSpiceLogReader', 'reformat_LTSpice_export', 'export_data', 'split_complex_values_on_datasets', 'exit', 'getmtime', 'listdir', 'print', 'exists'}
    ps = [r for r in c.walk(f, None, any_iteration=True, opaque=op, no_raise=QUIET | op)]
    for name, want in (('dir/x.txt', 'dir/x.tsv'), ('x.log', 'x.tlog'), ('x.mout', 'x.tmout'), ('my.log.txt', 'my.log.tsv'), ('logs/log.log', 'logs/log.tlog'), ('run.1.mout', 'run.1.tmout'), ('x.raw', None), ('txt', None)):
        for r in ps:
            if r.outcome.kind != 'return':
                continue
            es, code = until_exit(r)
            env = {ARGV: ['ltsteps', name]}
            if not feasible(es, env):
                continue
            runs = [e for e in es if e.kind == 'call' and e.name in ('reformat_LTSpice_export', 'LTSpiceLogReader', 'export_data', 'split_complex_values_on_datasets') and not e.raised]
            if want is None:
                c.require(not runs and code not in (0,), R4, lab, f'{name}: the program goes on or ends with code 0', r)
                continue
            c.require(code in (0, None), R4, lab, f'{name}: the program ends with code {code}', r)
            if code not in (0, None):
                continue
            try:
                steps(c, R4, lab, r, es, env, name, want, runs)
            except Unknown:
                pass
    newest(c, R5, lab, ps)


def steps(c, R4, lab, r, es, env, name, want, runs):
    fmt = [e for e in runs if e.name == 'reformat_LTSpice_export']
    rd = [e for e in runs if e.name == 'LTSpiceLogReader']
    exp = [e for e in runs if e.name == 'export_data']
    if name.endswith('.txt'):
        c.require(len(fmt) >= 1 and not rd and all([evaluate(a, env) for a in e.args] == [name, want] for e in fmt), R4, lab, f'{name}: the file is not reformatted to {want}', r)
        return
    log = name[:-4] + 'log'
    there = None
    for e in es:
        if e.kind == 'call' and e.name == 'exists':
            there = next((x.pol for x in es if x.kind == 'assume' and contains(x.lit, ('res', e.n, 'exists'))), None)
        elif e.kind == 'assume' and e.lit[0] == 'truthy' and e.lit[1][0] == 'mcall' and e.lit[1][2] in ('exists', 'isfile'):
            there = e.pol
    files = [evaluate(e.args[0], env) for e in rd]
    c.require(name in files and all(x in (name, log) for x in files), R4, lab, f'{name}: {files} is read', r)
    main = [e for e, x in zip(rd, files) if x == name][-1:]
    for e in exp:
        c.require(evaluate(e.args[0], env) == want, R4, lab, f'{name}: the data is written to {evaluate(e.args[0], env)!r} instead of {want!r}', r)
        c.require(not main or e.recv == ('obj', main[0].n, 'LTSpiceLogReader'), R4, lab, f'{name}: the data written is not that of the file', r)
    c.require(exp, R4, lab, f'{name}: nothing is written', r)
    split = [e for e in runs if e.name == 'split_complex_values_on_datasets']
    c.require(split and exp and es.index(split[0]) < es.index(exp[0]) and split[0].recv == exp[0].recv, R4, lab, f'{name}: complex values are not split before they are written', r)
    if name.endswith('.mout') and there and main:
        st = [e for e, x in zip(rd, files) if x == log]
        c.require(len(st) == 1, R4, lab, f'{name}: the steps of the log are not read', r)
        if st:
            ss = A(('obj', st[0].n, 'LTSpiceLogReader'), 'stepset')
            given = main[0].arg(2, 'step_set')
            c.require(given == ss, R4, lab, f'{name}: the steps given to the reader are {show(given) if given else "none"}', r)
    if name.endswith('.mout') and there is False:
        c.require(log not in files, R4, lab, f'{name}: the log, which is not there, is read', r)


def newest(c, R5, lab, ps):
    """the turns of the search for the newest file"""
    for r in ps:
        es, code = until_exit(r)
        if not feasible(es, {ARGV: ['ltsteps']}):
            continue
        ld = next((e for e in es if e.kind == 'call' and e.name == 'listdir'), None)
        if ld is None:
            continue
        src = ('res', ld.n, 'listdir')
        lo = next((i for i, e in enumerate(es) if e.kind == 'iter' and contains(e.value, src)), None)
        if lo is None:
            if r.outcome.kind == 'return' and any(e.kind == 'loop0' and e.value == src for e in es):
                if not any(e.kind == 'call' and e.name in ('reformat_LTSpice_export', 'LTSpiceLogReader') for e in es) and not any(x[0] == 'phi' for e in es if e.kind == 'assume' for x in subvalues(e.lit)):
                    c.require(code != 0, R5, lab, 'without any file the program ends with code 0', r)
            continue
        el = ('elem', es[lo].value)
        start = es[lo].start or {}
        end = next((i for i, e in enumerate(es) if i > lo and e.kind == 'loopend'), None)
        if end is None and r.outcome.kind != 'loopback':
            continue
        turn = es[lo + 1:end]
        times = [('res', e.n, e.name) for e in turn if e.kind == 'call' and e.name in ('getmtime', 'stat')]
        dates = [n for n, v in start.items() if v[0] == 'const' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool)]
        files = [n for n, v in start.items() if v == NONE]
        if not dates and times and any(e.kind == 'assume' and contains(e.lit, times[0]) and not any(x[0] == 'phi' for x in subvalues(e.lit)) for e in turn):
            c.bad(R5, lab, 'the dates of the files are not compared with each other', r)
        if len(dates) != 1 or len(files) != 1 or len(times) != 1:
            continue
        after = r.st.env
        c.require(start[dates[0]][1] <= 0, R5, lab, f'files older than {start[dates[0]][1]} are not found', r)
        for name, ok in (('x.txt', True), ('x.log', True), ('x.mout', True), ('x.raw', False)):
            for t, old in ((5, 3), (3, 5)):
                env = {el: name, times[0]: t, ('phi', dates[0]): old, ('phi', files[0]): 'old.log'}
                if not feasible(turn, env):
                    continue
                take = ok and t > old
                try:
                    got = evaluate(after[files[0]], env), evaluate(after[dates[0]], env)
                except (Unknown, KeyError):
                    continue
                c.require(got == ((name, t) if take else ('old.log', old)), R5, lab, f'{name} of {t} after old.log of {old} leaves {got}', r)
