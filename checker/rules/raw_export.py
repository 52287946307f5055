"""RAW files: export of traces and steps (P41)."""
from .util import *
from .raw_data import Nums, iscall, arg, truth
from .raw_steps import lab_, PD
from .raw_write import loops, contradictory
from ..paths import show

RR = 'spicelib/raw/raw_read.py'
FIRST = A(('sub', A(SELF, '_trace_info'), ('const', 0)), 'name')


@prop('P41', 'Exporting gives every sample of the columns and steps asked for once',
      'PlotData.export() gives for each column asked for (all traces without a choice; the axis is added when it is missing) the samples of each step asked for (all steps matching the keyword arguments for step=-1), '
      'step after step in that order, each sample once; the lists given as arguments are not changed. to_dataframe(), to_csv() and to_excel() export the columns and steps they are asked for.',
      ['inputs'],
      'any choice of columns and steps, any file',
      'Tests export whole files; a choice of steps, a file without axis or reused argument lists take other paths.',
      [PD],
      [dict(name='export', where=PD + ':PlotData.export'), dict(name='to_csv and others', where=PD + ':PlotData.to_csv, to_dataframe, to_excel')],
      'On each path through export() what is stored under a column is traced to the get_wave() call it comes from, its arguments to the loops over columns and steps, and these to the arguments.',
      'path-sensitive dataflow',
      'All paths; loops by one iteration from any state.', [])
def p41(c: Ctx):
    R1 = c.rule('P41.samples', 'what is stored for a column are its samples of the step', 4)
    R2 = c.rule('P41.steps', 'the steps are those asked for', 3)
    R3 = c.rule('P41.columns', 'the columns are those asked for, and the axis', 3)
    R4 = c.rule('P41.arguments', 'the arguments are not changed', 1)
    R5 = c.rule('P41.files', 'files and data frames have the columns and steps asked for', 3)
    k = c.p.cls('PlotData')
    with c.attempt(lab_(k, 'export')):
        export(c, k, R1, R2, R3, R4)
    for m in ('to_dataframe', 'to_csv', 'to_excel'):
        with c.attempt(lab_(k, m)):
            via(c, k, m, R5)


MUTATES = {'append', 'insert', 'extend', 'remove', 'pop', 'clear', 'sort', 'reverse'}
CALLS = {'get_wave', 'get_steps', 'read_trace_data', 'get_trace_names', 'concatenate', 'append', 'hstack'}


def export(c, k, R1, R2, R3, R4):
    f = c.p.lookup(k, 'export')
    lab = lab_(k, 'export')
    cols, stp = P('columns'), P('step')
    for r in c.walk(f, k, any_iteration=True, opaque=CALLS - {'append'}, no_raise=CALLS | MUTATES):
        if impossible(r) or contradictory(r):
            continue
        n = Nums(r)
        for e in r.events:
            if e.kind == 'call' and e.name in MUTATES and e.recv in (cols, stp) or e.kind in ('setitem', 'delitem') and e.recv in (cols, stp):
                c.bad(R4, lab, f'the list {show(e.recv)} of the caller is changed', r)
        c.ok(R4, lab)
        given = islist = every = None
        for e in r.events:
            if e.kind == 'assume':
                l = e.lit[1] if e.lit[0] == 'truthy' else e.lit
                if l == ('isnone', cols) or l[0] == 'cmp' and l[1] == 'is' and cols in l[2:4] and NONE in l[2:4]:
                    given = not e.pol
                elif l == cols:
                    given = e.pol
                elif l[0] == 'call' and l[1] == 'isinstance' and l[2][0] == stp:
                    islist = e.pol if 'list' in show(l[2][1]) or 'tuple' in show(l[2][1]) else not e.pol if 'int' in show(l[2][1]) else None
                elif l[0] == 'cmp' and l[1] == 'eq' and stp in l[2:4] and ('const', -1) in l[2:4]:
                    every = e.pol
        steps = [e for e in r.events if iscall(e, 'get_steps')]
        for e in steps:
            kw = dict((a, b) for a, b in e.kw or ())
            c.require(kw.get('**') is not None or f.node.args.kwarg is None, R2, lab, 'steps are not chosen by the keyword arguments', r)
        waves = [(i, e) for i, e in enumerate(r.events) if iscall(e, 'get_wave')]
        for i, e in waves:
            ls = loops(r, i)
            col, st = arg(e, 0, 'trace_ref'), arg(e, 1, 'step')
            if st is None:
                c.bad(R2, lab, 'samples of the first step are given for every step', r)
                continue
            if islist is True:
                c.require(st == ('elem', stp), R2, lab, f'step {show(st)} is exported for a list of steps', r)
            elif every is True:
                c.require(any(st == ('elem', ('res', s.n, 'get_steps')) for s in steps) or st[0] == 'elem' and any(contains(st[1], ('res', s.n, 'get_steps')) for s in steps), R2, lab, f'step {show(st)} is exported for all steps', r)
            elif every is False and islist is False:
                c.require(st == stp or st == ('elem', ('list', (stp,))), R2, lab, f'step {show(st)} is exported for a single step', r)
            if every is None and islist is not True and any(contains(st, ('res', s.n, 'get_steps')) for s in steps):
                c.require(any(y.kind == 'assume' and y.lit == ('cmp', 'lt', stp, ('const', 0)) and y.pol for y in r.events), R2, lab, 'all steps are exported although one is asked for', r)
            # the column
            if given is False:
                names = [('res', s.n, 'get_trace_names') for s in r.events if iscall(s, 'get_trace_names')]
                c.require(not names or any(contains(col, x) for x in names), R3, lab, f'{show(col)} is exported instead of all traces', r)
            elif given is True:
                c.require(contains(col, cols) or col == FIRST or contains(col, FIRST), R3, lab, f'{show(col)} is exported instead of the columns asked for', r)
            if any(x[0] == 'sub' and x[2][0] == 'slice' for x in subvalues(col)):
                c.bad(R3, lab, 'columns are left out', r)
            # where it goes
            w = ('res', e.n, 'get_wave')
            nxt = next((j for j, _ in waves if j > i), len(r.events))
            put = [y for y in r.events[i:nxt] if y.kind == 'setitem' and y.value is not None and (contains(y.value, w) or (z := n.call_of(y.value)) is not None and any(contains(a, w) for a in z.args))]
            if r.outcome.kind in ('return', 'loopback') and not put:
                known = any(y.kind == 'call' and any(contains(a, w) for a in y.args or ()) and y.name not in ('len',) for y in r.events[i + 1:nxt])
                if not known:
                    c.bad(R1, lab, 'samples are not stored', r)
                continue
            noaxis = truth(r, A(SELF, '_has_axis')) is False
            stepped = None
            for y in r.events:
                if y.kind == 'assume' and y.lit[0] == 'cmp' and y.lit[1] == 'is' and A(SELF, '_steps') in y.lit[2:4]:
                    stepped = not y.pol
                elif y.kind == 'assume' and y.lit == ('isnone', A(SELF, '_steps')):
                    stepped = not y.pol
            for y in put:
                key = y.path[2] if y.path is not None and y.path[0] == 'sub' else None
                c.require(key == col, R1, lab, f'the samples of {show(col)} are stored for {show(key) if key else ""}', r)
                v = y.value
                z = n.call_of(v)
                old = ('sub', y.recv, col)
                joined = None
                if z is not None and z.name in ('concatenate', 'append', 'hstack'):
                    parts = z.args[0][1] if z.args[0][0] in ('tuple', 'list') else z.args[:2]
                    joined = True
                    if len(parts) == 2:
                        c.require(contains(parts[1], w) and not contains(parts[0], w), R1, lab, 'later steps come before earlier ones', r)
                        v = parts[1]
                has = [a.pol for a in r.events if a.kind == 'assume' and a.lit[0] == 'cmp' and a.lit[1] == 'in' and a.lit[2] == col and a.lit[3] == y.recv]
                if has:
                    c.require(bool(joined) == has[-1], R1, lab, 'the samples of the steps before are lost' if has[-1] else 'samples are joined to nothing', r)
                elif joined is None and not any(a.kind == 'assume' and contains(a.lit, col) for a in r.events[i:]):
                    c.bad(R1, lab, 'the samples of the steps before are lost', r)
                cut = v[2] if v[0] == 'sub' and v[1] == w and v[2][0] == 'slice' else None
                if v != w and cut is None:
                    continue
                if noaxis and stepped:
                    c.require(cut is not None and n(cut[1]) == n(st) and n(cut[2]) == n(st) + 1, R1, lab, 'every point of a file without axis is given for each step', r)
                elif truth(r, A(SELF, '_has_axis')) is True or stepped is False:
                    c.require(cut is None, R1, lab, 'samples are left out', r)
        # the axis is added
        if given is True and truth(r, A(SELF, '_has_axis')) is True:
            there = [e.pol for e in r.events if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'in' and e.lit[2] == FIRST]
            lst = [q for i, e in waves for _, q in loops(r, i) if q is not None and contains(q, cols)]
            if there and there[0] is False and lst:
                c.require(all(contains(q, FIRST) for q in lst), R3, lab, 'the axis is missing', r)
            elif lst and not there and not any(contains(q, FIRST) for q in lst):
                c.bad(R3, lab, 'the axis is missing', r)


def via(c, k, m, R5):
    f = c.p.lookup(k, m)
    lab = lab_(k, m)
    for r in c.walk(f, k, any_iteration=True, opaque={'export', 'to_dataframe'} - {m}, no_raise={'export', 'to_dataframe', 'open', 'write'}):
        if r.outcome.kind != 'return':
            continue
        calls = [e for e in r.events if iscall(e, 'export', 'to_dataframe') and e.recv == SELF]
        if not calls:
            c.bad(R5, lab, 'nothing is exported', r)
        for e in calls:
            for i, a in enumerate(('columns', 'step')):
                c.require(arg(e, i, a) == P(a), R5, lab, f'the argument {a} is not passed on', r)
