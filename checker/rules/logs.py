"""LTspice and QSPICE log files: queries (P23), reading (P24), export (P42)."""
from .util import *
from .raw_data import Nums, iscall, arg, truth
from .raw_steps import lab_
from .raw_write import contradictory

LD = 'spicelib/log/logfile_data.py'
LT = 'spicelib/log/ltsteps.py'
STEPS, DATA = A(SELF, 'stepset'), A(SELF, 'dataset')


def plain(e):
    """the condition of an assume event without the conversion to a truth value"""
    return e.lit[1] if e.lit[0] == 'truthy' else e.lit


def low(v):
    return ('mcall', v, 'lower', ())


def folded(v, p):
    """v is the parameter p in lower case (or case-folded)"""
    return v[0] == 'mcall' and v[2] in ('lower', 'casefold') and not v[3] and v[1] in (p, ('phi', p[1]))


def matched(r, key, p):
    """the path compared the key of a container with the parameter in lower case"""
    for e in r.events:
        if e.kind == 'assume' and e.pol:
            l = e.lit[1] if e.lit[0] == 'truthy' else e.lit
            if l[0] == 'cmp' and l[1] == 'eq':
                for a, b in ((l[2], l[3]), (l[3], l[2])):
                    if folded(a, p) and (b == key or b[0] == 'mcall' and b[1] == key and b[2] == a[2]):
                        return True
    return False


@prop('P23', 'Log data is found by name, step number and step conditions',
      'Measurements and step variables read from a log are found whatever the case of the name given to [], steps_with_parameter_equal_to(), get_measure_value() and get_measure_values_at_steps(). '
      'steps_with_parameter_equal_to() gives exactly the positions at which the variable has the value, steps_with_conditions() the positions that satisfy every condition given; '
      'get_measure_value() gives the value at the step asked for, or at the only step that satisfies the conditions, or the only value there is, and raises IndexError when no or several steps are left; '
      'get_measure_values_at_steps() gives the values of the steps in the order asked for, max/min/avg_measure_value() the extreme and mean of those.',
      ['inputs'],
      'any log data, name, step list and set of conditions',
      'Tests query a few measurements by step number; conditions, other cases and ambiguous choices are not exercised.',
      [LD],
      [dict(name='look-ups', where=LD + ':LogfileData.__getitem__, get_measure_value'), dict(name='conditions', where=LD + ':LogfileData.steps_with_conditions')],
      'Each path through the look-ups: what is returned is traced to container, key and position, and these to the arguments and to the tests made on that path.',
      'path-sensitive dataflow',
      'All paths; loops by one iteration from any state.', [])
def p23(c: Ctx):
    R1 = c.rule('P23.name', 'names are found in any case', 6)
    R2 = c.rule('P23.equal', 'the steps are exactly those with the value', 2)
    R3 = c.rule('P23.every', 'all conditions must hold', 2)
    R4 = c.rule('P23.value', 'the value is that of the step asked for', 4)
    R5 = c.rule('P23.list', 'the values are those of the steps asked for, in order', 2)
    R6 = c.rule('P23.summary', 'maximum, minimum and mean are those of the steps asked for', 3)
    k = c.p.cls('LogfileData')
    for m, fn in (('__getitem__', getitem), ('steps_with_parameter_equal_to', equal_to), ('steps_with_conditions', conditions),
                  ('get_measure_value', value), ('get_measure_values_at_steps', values_at)):
        with c.attempt(lab_(k, m)):
            fn(c, k, m, R1, R2 if fn is equal_to else R3 if fn is conditions else R4 if fn in (value, getitem) else R5)
    for m in ('max_measure_value', 'min_measure_value', 'avg_measure_value'):
        with c.attempt(lab_(k, m)):
            summary(c, k, m, R6)


INNER = {'steps_with_parameter_equal_to', 'steps_with_conditions', 'get_measure_values_at_steps', 'try_convert_value', 'get_measure_value'}


def paths(c, k, m, more=()):
    f = c.p.lookup(k, m)
    s = (INNER | set(more)) - {m}
    for r in c.walk(f, k, any_iteration=True, opaque=s, no_raise=s):
        if not impossible(r) and not contradictory(r):
            yield r


def table(v):
    """(container, key) of what is looked up"""
    if v[0] == 'sub' and v[1] in (STEPS, DATA):
        return v[1], v[2]
    if v[0] == 'mcall' and v[1] in (STEPS, DATA) and v[2] == 'get' and v[3]:
        return v[1], v[3][0]
    return None, None


def named(c, r, R1, lab, v, p):
    t, key = table(v)
    if t is None:
        return None
    if key == p:
        c.bad(R1, lab, 'a name is only found in the case it was read', r)
    elif key[0] == 'mcall' and key[1] in (p, ('phi', p[1])) and key[2] in ('upper', 'title', 'capitalize', 'swapcase'):
        c.bad(R1, lab, 'names are kept in lower case', r)
    elif folded(key, p):
        c.ok(R1, lab)
        if key[2] == 'lower':
            for e in r.events:
                if e.kind == 'assume' and e.lit == ('cmp', 'in', key, t):
                    c.require(e.pol, R1, lab, 'a name that is not there is looked up', r)
    elif key in (('key', t), ('elem', t)):
        c.require(matched(r, key, p), R1, lab, 'something is found without its whole name having been compared', r)
    return t


def getitem(c, k, m, R1, R4):
    lab = lab_(k, m)
    p = P(c.p.lookup(k, m).arg_names()[1])
    for r in paths(c, k, m):
        if r.outcome.kind == 'return':
            v = r.outcome.value
            if named(c, r, R1, lab, v, p) is None and v[0] in ('const', 'list'):
                c.bad(R4, lab, f'{show(v)} is given for a name', r)
        elif r.outcome.kind == 'raise':
            there = any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'in' and e.lit[3] in (STEPS, DATA) and folded(e.lit[2], p) for e in r.events)
            c.require(not there, R1, lab, 'a name that is there is not found', r)
        else:
            continue
        # both tables are searched
        if r.outcome.kind == 'raise' and r.outcome.value in ('IndexError', 'KeyError'):
            for t in (STEPS, DATA):
                c.require(any(contains(e.lit, t) for e in r.events if e.kind == 'assume') or any(e.value is not None and contains(e.value, t) for e in r.events if e.kind in ('loop0', 'iter')), R1, lab, f'{show(t)} is not searched', r)


def equal_to(c, k, m, R1, R2):
    lab = lab_(k, m)
    names = c.p.lookup(k, m).arg_names()[1:]
    p, val = P(names[0]), P(names[1])
    for r in paths(c, k, m):
        if r.outcome.kind != 'return':
            if r.outcome.kind == 'raise':
                there = any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'in' and e.lit[3] in (STEPS, DATA) and folded(e.lit[2], p) for e in r.events)
                c.require(not there, R1, lab, 'a name that is there is not found', r)
            continue
        es = built(r, r.outcome.value)
        if es is None:
            continue
        conv = [('res', e.n, 'try_convert_value') for e in r.events if iscall(e, 'try_convert_value') and e.args[0] == val]
        for e in es:
            src = e.src
            if src[0] == 'call' and src[1] == 'enumerate':
                c.require(len(src[2]) == 1 or src[2][1] == ('const', 0), R2, lab, 'positions are counted from another number', r)
                src = src[2][0]
            src = whole(src)
            if src[0] == 'sub' and src[2][0] == 'slice':
                c.bad(R2, lab, 'not all steps are searched', r)
                continue
            named(c, r, R1, lab, src, p)
            eq = [('cmp', 'eq', ('elem', src), x) for x in conv]
            facts = [e.fact(x) for x in eq]
            known = [f for f in facts if f is not None]
            if not known:
                raw = e.fact(('cmp', 'eq', ('elem', src), val))
                if raw is not None and not any(a.kind == 'assume' and contains(a.lit, val) and a.lit[0] == 'call' for a in r.events):
                    c.bad(R2, lab, 'the value is compared as it was written', r)
                elif e.added and not e.facts:
                    c.bad(R2, lab, 'steps with other values are given', r)
                continue
            c.require(known[0] == e.added, R2, lab, 'a step with the value is left out' if known[0] else 'a step with another value is given', r)
            if e.added:
                c.require(e.elt == ('idx', src), R2, lab, f'{show(e.elt)} is given instead of the position', r)
                other = [x for x, q in e.facts if x not in eq and not (x[0] == 'truthy' and x[1] in eq)]
                c.require(not other or r.outcome.value[0] != 'comp', R2, lab, 'steps with the value are left out', r)


def conditions(c, k, m, R1, R3):
    lab = lab_(k, m)
    f = c.p.lookup(k, m)
    kw = P('**' + f.node.args.kwarg.arg) if f.node.args.kwarg else None
    for r in paths(c, k, m):
        if r.outcome.kind not in ('return', 'loopback'):
            continue
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        calls = [e for e in r.events if iscall(e, 'steps_with_parameter_equal_to')]
        if not its or not calls:
            continue
        for e in calls:
            K, V = e.arg(0, 'param'), e.arg(1, 'value')
            if K is not None and K[0] == 'key':
                c.require(V == ('sub', K[1], K) or V == ('elem', ('mcall', K[1], 'values', ())), R3, lab, f'the variable is compared with {show(V)}', r)
        res = ('res', calls[0].n, 'steps_with_parameter_equal_to')
        v = r.outcome.value
        if r.outcome.kind != 'return' or v is None:
            continue
        end = [e for e in r.events if e.kind == 'loopend']
        if end and end[-1].name == 'break':
            c.bad(R3, lab, 'not all conditions are looked at', r)
        first = [e for e in r.events if e.kind == 'assume' and (e.lit[0] == 'isnone' or e.lit[0] == 'cmp' and e.lit[1] == 'is' and NONE in e.lit[2:4])]
        if v == res:
            if first:
                c.require(first[0].pol, R3, lab, 'the other conditions are forgotten', r)
            else:
                c.bad(R3, lab, 'the other conditions are forgotten', r)
            continue
        es = built(r, v)
        if es is None:
            if v[0] == 'bin' and v[1] in ('+', '|') and res in v[2:4]:
                c.bad(R3, lab, 'steps are given that satisfy only some conditions', r)
            continue
        for e in es:
            if e.src == res:
                c.require(e.fact(('cmp', 'in', ('elem', res), res)) is None, R3, lab, 'the other conditions are forgotten', r)
                inn = [(l, q) for l, q in e.facts if (l[1] if l[0] == 'truthy' else l)[:3] == ('cmp', 'in', ('elem', res))]
                el = ('elem', res)
            else:
                el = ('elem', e.src)
                inn = [(l, q) for l, q in e.facts if (l[1] if l[0] == 'truthy' else l) == ('cmp', 'in', el, res)]
            if e.src[0] not in ('phi', 'local', 'res'):
                continue
            if not inn:
                if e.added and not e.facts:
                    c.bad(R3, lab, 'steps are given that satisfy only some conditions', r)
                continue
            c.require(inn[0][1] == e.added, R3, lab, 'steps that satisfy all conditions are left out' if inn[0][1] else 'steps are given that satisfy only some conditions', r)
            if e.added:
                c.require(e.elt == el, R3, lab, f'{show(e.elt)} is given', r)


def value(c, k, m, R1, R4):
    lab = lab_(k, m)
    f = c.p.lookup(k, m)
    names = f.arg_names()[1:]
    p, st = P(names[0]), P(names[1])
    for r in paths(c, k, m):
        steps = given = None
        for e in r.events:
            if e.kind == 'assume':
                l = e.lit[1] if e.lit[0] == 'truthy' else e.lit
                if l == ('isnone', st) or l[0] == 'cmp' and l[1] == 'is' and l[2:4] == (st, NONE):
                    steps = not e.pol
                elif l[0] == 'param' and l[1].startswith('**'):
                    given = e.pol
        conds = [e for e in r.events if iscall(e, 'steps_with_conditions')]
        n = Nums(r)
        res = ('res', conds[-1].n, 'steps_with_conditions') if conds else None
        for e in conds:
            c.require(any(a == '**' or a == '*' for a, b in e.kw or ()) or bool(e.args) or not e.kw, R4, lab, 'the conditions are not passed on', r)
        if r.outcome.kind == 'raise':
            if steps is None and not conds:
                ms = [e for e in r.events if e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and any(folded(x, p) for x in e.lit[2:4])]
                c.require(not ms, R1, lab, 'a name that is there is not found', r)
            continue
        if r.outcome.kind != 'return':
            continue
        v = r.outcome.value
        if v == NONE:
            if any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and e.lit[2][0] == 'call' and e.lit[2][1] == 'len' for e in r.events):
                c.bad(R4, lab, 'no value is given for a step that is there', r)
            continue
        if v[0] != 'sub':
            continue
        base, idx = v[1], v[2]
        named(c, r, R1, lab, base, p)
        if steps is True:
            c.require(idx == st, R4, lab, f'the value of step {show(idx)} is given', r)
        elif steps is False and given is True:
            if res is None:
                c.bad(R4, lab, 'the conditions are not looked at', r)
                continue
            c.require(one(r, res), R4, lab, 'a value is given although no or several steps satisfy the conditions', r)
            c.require(idx in (('sub', res, ('const', 0)), ('sub', res, ('const', -1))) or idx == ('elem', res), R4, lab, f'the value of step {show(idx)} is given', r)
        elif steps is False and given is False:
            c.require(one(r, base), R4, lab, 'a value is given although there are several', r)
            c.require(idx in (('const', 0), ('const', -1)), R4, lab, f'the value of step {show(idx)} is given', r)


def one(r, x):
    """the path established that x has one single element"""
    lx = ('call', 'len', (x,))
    for e in r.events:
        if e.kind == 'assume':
            l = e.lit[1] if e.lit[0] == 'truthy' else e.lit
            if e.pol and l[0] == 'cmp' and l[1] == 'eq' and ('const', 1) in l[2:4] and any(contains(y, x) for y in l[2:4]):
                return True
    lo = hi = False
    for e in r.events:
        if e.kind == 'assume':
            l = e.lit[1] if e.lit[0] == 'truthy' else e.lit
            if l in (x, lx) and e.pol or l == ('cmp', 'lt', lx, ('const', 1)) and not e.pol or l == ('cmp', 'eq', lx, ('const', 0)) and not e.pol:
                lo = True
            if l == ('cmp', 'lt', ('const', 1), lx) and not e.pol:
                hi = True
    return lo and hi


def values_at(c, k, m, R1, R5):
    lab = lab_(k, m)
    names = c.p.lookup(k, m).arg_names()[1:]
    p, st = P(names[0]), P(names[1])
    for r in paths(c, k, m):
        if r.outcome.kind != 'return':
            continue
        v = r.outcome.value
        nil = isint = None
        for e in r.events:
            if e.kind == 'assume':
                l = e.lit[1] if e.lit[0] == 'truthy' else e.lit
                if l == ('isnone', st) or l[0] == 'cmp' and l[1] == 'is' and l[2:4] == (st, NONE):
                    nil = e.pol
                elif l[0] == 'call' and l[1] == 'isinstance' and l[2][0] == st:
                    isint = e.pol if l[2][1] == ('global', 'int') or show(l[2][1]) == 'int' else None
        if nil is True:
            named(c, r, R1, lab, whole(v), p)
            c.require(table(whole(v))[0] == DATA, R5, lab, f'{show(v)} is given for all steps', r)
        elif isint is True:
            if v[0] == 'sub':
                named(c, r, R1, lab, v[1], p)
                c.require(v[2] == st, R5, lab, f'the value of step {show(v[2])} is given', r)
        else:
            es = built(r, v)
            for e in es or ():
                if whole(e.src) != st:
                    if contains(e.src, st) and e.src[0] == 'call' and e.src[1] in ('sorted', 'reversed', 'set', 'frozenset'):
                        c.bad(R5, lab, 'the steps are not taken in the order asked for', r)
                    elif table(whole(e.src))[0] is not None:
                        c.bad(R5, lab, 'the steps are not taken in the order asked for', r)
                    continue
                if not e.added:
                    c.bad(R5, lab, 'steps are left out', r)
                    continue
                if e.elt[0] == 'sub':
                    named(c, r, R1, lab, e.elt[1], p)
                    c.require(e.elt[2] == ('elem', e.src), R5, lab, f'the value of step {show(e.elt[2])} is given', r)


def summary(c, k, m, R6):
    lab = lab_(k, m)
    names = c.p.lookup(k, m).arg_names()[1:]
    p, st = P(names[0]), P(names[1])
    what = m.split('_')[0]
    for r in paths(c, k, m):
        if r.outcome.kind != 'return':
            continue
        v = r.outcome.value
        calls = [e for e in r.events if iscall(e, 'get_measure_values_at_steps')]
        if not calls:
            continue
        isint = [e.pol for e in r.events for l in (e.lit,) if e.kind == 'assume' for l in ((l[1] if l[0] == 'truthy' else l),) if l[0] == 'call' and l[1] == 'isinstance' and l[2][0] == st and 'int' in show(l[2][1])]
        isnil = any(e.kind == 'assume' and e.pol and e.lit in (('isnone', st), ('cmp', 'is', st, NONE)) for e in r.events)
        for e in calls:
            c.require(arg(e, 0, 'measure') in (p, low(p)), R6, lab, 'another measurement is taken', r)
            s = arg(e, 1, 'steps')
            if s is None:
                c.bad(R6, lab, 'the steps asked for are not looked at', r)
            elif isint and isint[0] is True and s[0] in ('list', 'tuple'):
                c.require(s[1] == (st,), R6, lab, 'another step is taken', r)
            elif s == NONE and any(e.kind == 'assume' and e.pol and e.lit in (('isnone', st), ('cmp', 'is', st, NONE)) for e in r.events):
                c.ok(R6, lab)
            elif s != st and s[0] in ('list', 'tuple', 'const', 'param'):
                c.bad(R6, lab, f'the steps {show(s)} are taken', r)
            elif s != st and s[0] == 'or' and s[1][0] == st:
                c.bad(R6, lab, 'step 0 or an empty list of steps is taken for all steps', r)
            else:
                c.ok(R6, lab)
        w = ('res', calls[-1].n, 'get_measure_values_at_steps')
        if (not isint or isint[0] is True) and not isnil and arg(calls[-1], 1, 'steps') == st and v[0] == 'call' and v[1] in ('max', 'min', 'sum') and v[2] == (w,):
            c.bad(R6, lab, 'a single step number ends in an error', r)
        if v[0] == 'call' and v[1] in ('max', 'min') and v[2] == (w,):
            c.require(v[1] == what, R6, lab, f'the {v[1]}imum is given', r)
        elif v[0] == 'bin' and v[1] == '/':
            c.require(what == 'avg' and v[2] == ('call', 'sum', (w,)) and v[3] == ('call', 'len', (w,)), R6, lab, f'{show(v)} is given', r)
        elif v == w and what == 'avg' or v[0] in ('const',):
            c.bad(R6, lab, f'{show(v)} is given', r)


# ------------------------------------------------------------------------------------------------ reading
@prop('P24', 'Log files are read into the right steps, measurements and Fourier tables',
      'Reading an LTspice or QSPICE log appends each assignment name=value of a step line to the step variable of that name in lower case, converted with try_convert_value() and without losing the values '
      'of earlier steps; step_count grows by exactly one for each LTspice step line with an assignment and for each QSPICE step line. Each column of a measurement table is stored under its own header in lower case and with the values '
      'of that column, one per row, also for the last table of the file, and the rows of one table never show up in the next one. In an LTspice log without steps the FROM, TO and at values of a measurement are '
      'stored under its name with _FROM, _TO and _at. An LTspice Fourier table is kept with its signal, number of periods, DC component, PHD, THD and the index of the step it belongs to, and the '
      'numbers of a harmonic are in the order in which they are printed. try_convert_value() gives an int where possible, else a float, else a complex number, else the stripped text; texts like (a,b) '
      'and (a dB, b°) become the complex number they denote.',
      ['inputs'], 'for all log files', 'Log results are matched to steps only by their position in these lists; a value under a wrong name or at a wrong position is silently a wrong result.',
      [LT, LD, 'spicelib/log/qspice_log_reader.py'], [dict(name='reading loops', where=LT + ':LTSpiceLogReader.__init__'), dict(name='conversion', where=LD + ':try_convert_value')],
      'Every path of one turn of the reading loops is enumerated from any loop state; where a step value, a column or a harmonic is stored, both the key and the value must come from the same token, column or field.',
      'path-sensitive provenance analysis',
      'All paths of one turn of each loop from any state of the loop variables. The regular expressions and the split of a line into tokens are not judged.', [])
def p24(c: Ctx):
    R1 = c.rule('P24.step', 'step values go to their own variable', 4)
    R2 = c.rule('P24.count', 'each step line counts once', 2)
    R3 = c.rule('P24.column', 'columns are stored under their own header', 4)
    R4 = c.rule('P24.table', 'no table is lost or mixed with another', 3)
    R5 = c.rule('P24.fourier', 'Fourier tables keep what was read', 7)
    R6 = c.rule('P24.convert', 'texts are converted to the number they denote', 6)
    lt, qs = c.p.cls('LTSpiceLogReader'), c.p.cls('QspiceLogReader')
    ops = {'try_convert_value', 'from_line', 'detect_encoding', 'split_line_into_values', 'obtain_measures', 'parse_meas_file', '__init__'}
    for k in (lt, qs):
        with c.attempt(lab_(k, '__init__')):
            f = c.p.lookup(k, '__init__')
            ps = [r for r in c.walk(f, k, any_iteration=True, opaque=ops | {'int'}, no_raise=ops | {'open', 'readline', 'append', 'close'}) if not impossible(r)]
            steps(c, k, ps, R1, R2)
            if k is lt:
                columns(c, k, '__init__', ps, R3)
                tables(c, k, ps, R3, R4)
                fourier(c, k, ps, R5)
    with c.attempt(lab_(qs, 'parse_meas_file')):
        f = c.p.lookup(qs, 'parse_meas_file')
        ps = [r for r in c.walk(f, qs, any_iteration=True, opaque=ops - {'parse_meas_file'}, no_raise=ops | {'open', 'readline', 'append'}) if not impossible(r)]
        meas_file(c, qs, ps, R3, R4)
    with c.attempt('HarmonicData.from_line'):
        harmonic(c, R5)
    with c.attempt('try_convert_value'):
        convert(c, R6)
    with c.attempt('LTComplex'):
        ltcomplex(c, R6)


def side(v):
    """(token, 'name' or 'value', functions applied) for one side of name=value"""
    fn = []
    while v[0] == 'mcall' and v[2] in ('lower', 'casefold', 'strip', 'upper') or v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
        if v[0] == 'call':
            v = v[2][0]
        else:
            fn.append(v[2])
            v = v[1]
    if v[0] == 'item' or v[0] == 'sub' and v[2][0] == 'const':
        s, i = v[1], v[2] if v[0] == 'item' else v[2][1]
        i = i[1] if isinstance(i, tuple) else i
        if s[0] == 'mcall' and s[2] in ('split', 'partition') and s[3] and s[3][0] == ('const', '='):
            n = 3 if s[2] == 'partition' else 2
            if i in (0, -n):
                return s[1], 'name', fn
            if i in (n - 1, -1):
                return s[1], 'value', fn
    return None


def converted(r, v):
    """what try_convert_value() was given to make v"""
    if v[0] == 'res' and v[2] == 'try_convert_value':
        for e in r.events:
            if e.n == v[1] and iscall(e, 'try_convert_value'):
                return arg(e, 0, 'value')
    return None


def alternative(v):
    """both values of a conditional expression"""
    return [v[2], v[3]] if v[0] == 'ifexp' else [v]


def inside(r):
    """for each event the number of loops it is in"""
    d, out = 0, []
    for e in r.events:
        if e.kind == 'loopend':
            d -= 1
        out.append(d)
        if e.kind == 'iter' and not (e.n is not None and any(x.kind == 'iter' and x.value == e.value and x is not e and x.value is not None for x in r.events[:r.events.index(e)]) and d > 0 and False):
            d += 1
    return out


def steps(c, k, ps, R1, R2):
    lab = lab_(k, '__init__')
    sc = A(SELF, 'step_count')
    for r in ps:
        stored = []
        for i, e in enumerate(r.events):
            key = val = None
            if e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] == STEPS:
                key, val, how = e.path[2], e.value, 'new'
                if val[0] in ('list', 'tuple') and len(val[1]) == 1:
                    val = val[1][0]
                elif val[0] == 'bin' and val[1] == '+' and val[3][0] == 'list' and len(val[3][1]) == 1 and contains(val[2], STEPS):
                    val, how = val[3][1][0], 'more'
                else:
                    continue
            elif e.kind == 'call' and e.name == 'append' and not e.raised and len(e.args) == 1 and e.recv is not None:
                t = e.recv
                if t[0] == 'sub' and t[1] == STEPS:
                    key = t[2]
                elif t[0] == 'mcall' and t[1] == STEPS and t[2] in ('get', 'setdefault'):
                    key = t[3][0]
                elif t[0] == 'res' and t[2] in ('get', 'setdefault'):
                    ev = [x for x in r.events if x.n == t[1]]
                    if ev and ev[0].recv == STEPS:
                        key = ev[0].args[0]
                if key is None:
                    continue
                val, how = e.args[0], 'more'
            else:
                continue
            stored.append(i)
            s = side(key)
            if s is None:
                continue
            c.require(s[1] == 'name', R1, lab, 'the value of a step is taken for its name', r)
            c.require('lower' in s[2] or 'casefold' in s[2], R1, lab, 'a step variable is not kept in lower case', r)
            v = converted(r, val)
            if v is None:
                if side(val) is not None:
                    c.bad(R1, lab, 'the value of a step is not converted', r)
            else:
                t = side(v)
                if t is not None:
                    c.require(t[1] == 'value', R1, lab, 'the name of a step variable is taken for its value', r)
                    c.require(t[0] == s[0], R1, lab, 'a step variable gets the value of another one', r)
            if how == 'new':
                known = None
                for x in r.events[:i]:
                    if x.kind == 'assume':
                        l = x.lit[1] if x.lit[0] == 'truthy' else x.lit
                        if l[0] == 'cmp' and l[1] == 'in' and l[3] == STEPS and side(l[2]) and side(l[2])[:2] == s[:2]:
                            known = x.pol
                            c.require(l[2] == key, R1, lab, 'the variable is looked up under another name than it is stored', r)
                        elif l[0] == 'mcall' and l[1] == STEPS and l[2] == 'get':
                            known = x.pol
                            c.require(l[3][0] == key, R1, lab, 'the variable is looked up under another name than it is stored', r)
                        elif l[0] == 'isnone' and contains(l[1], STEPS) or l[0] == 'cmp' and l[1] == 'is' and contains(l[2], STEPS):
                            known = not x.pol
                        elif contains(l, STEPS):
                            known = 0
                if known is None or known is True:
                    c.bad(R1, lab, 'the values of earlier steps are lost', r)
        # step_count
        inc = [(i, increments(e, sc)) for i, e in enumerate(r.events) if increments(e, sc) is not None]
        if k.name == 'LTSpiceLogReader':
            isstep = [e.pol for e in r.events if e.kind == 'assume' and plain(e)[0] == 'mcall' and plain(e)[2] == 'startswith' and plain(e)[3] and plain(e)[3][0] == ('const', '.step')]
            if stored and not inc:
                main = next((i for i, e in enumerate(r.events) if e.kind == 'iter'), 0)
                last = next((i for i, e in enumerate(r.events) if i > stored[-1] and e.kind == 'loopend'), len(r.events))
                between = [e for i, e in enumerate(r.events) if e.kind == 'assume' and i > main]
                if r.outcome.kind == 'return' and not any(unknown(e.lit) for e in between):
                    c.bad(R2, lab, 'a step line is not counted', r)
            elif stored:
                c.require(len(inc) == 1 and inc[0][1] == 1, R2, lab, 'a step line is counted several times', r)
            elif inc and isstep and isstep[-1] is True and any(e.kind == 'loop0' and e.value is not None and any(x[0] == 'mcall' and x[2] == 'split' and not any(y.kind == 'assume' and contains(y.lit, x) for y in r.events) for x in subvalues(e.value)) for e in r.events[:inc[0][0]]):
                c.bad(R2, lab, 'a step line without values is counted', r)
            elif inc and isstep and isstep[-1] is False:
                c.bad(R2, lab, 'another line is counted as a step', r)
        else:
            if stored:
                c.require(len(inc) == 1 and inc[0][1] == 1, R2, lab, 'a step line is not counted once', r)


def unknown(l):
    """the condition is none of those that every reader of a log file looks at"""
    if l[0] in ('truthy', 'not'):
        return unknown(l[1])
    if l[0] == 'cmp' and l[1] in ('eq', 'lt') and any(x[0] == 'const' for x in l[2:4]):
        return not any(x[0] in ('mcall', 'attr', 'param', 'phi', 'res') or x[0] == 'call' and x[1] == 'len' for x in l[2:4])
    if l[0] == 'cmp' and l[1] == 'in' and l[2] == ('const', '='):
        return l[3][0] != 'elem'
    if l[0] == 'mcall' and l[2] in ('startswith', 'strip', 'get', 'group', 'rstrip'):
        return False
    if l[0] in ('res', 'isnone', 'param', 'attr'):
        return False
    if l[0] == 'cmp' and l[1] == 'in' and l[3] == STEPS:
        return False
    if l[0] == 'phi':
        return l[1] not in ('line', 'dataname', 'measurements', 'headers')
    return l[0] != 'sub'


def columns(c, k, m, ps, R3):
    lab = lab_(k, m)
    for r in ps:
        for i, e in enumerate(r.events):
            if e.kind != 'setitem' or e.path is None or e.path[0] != 'sub' or e.path[1] != DATA:
                continue
            key, val = e.path[2], e.value
            if key[0] == 'mcall' and key[2] in ('lower', 'casefold'):
                key = key[1]
            elif key[0] in ('elem', 'sub', 'bin', 'mcall', 'phi'):
                c.bad(R3, lab, 'a measurement is not kept in lower case', r)
                continue
            else:
                continue
            # a table
            es = built(r, val) if val[0] == 'comp' else None
            if es:
                H = key[1] if key[0] in ('elem', 'sub') else None
                for x in es:
                    if not x.added:
                        c.bad(R3, lab, 'rows are left out', r)
                        continue
                    src = x.src
                    if src[0] == 'sub' and src[2][0] == 'slice':
                        c.bad(R3, lab, 'rows are left out', r)
                    elif src == ('list', ()):
                        c.bad(R3, lab, 'the rows are forgotten before they are stored', r)
                    if x.elt[0] == 'sub' and x.elt[1] == ('elem', src):
                        I = x.elt[2]
                        if key[0] == 'elem':
                            c.require(I == ('idx', H), R3, lab, f'column {show(I)} is stored under another header', r)
                        elif key[0] == 'sub':
                            c.require(I == key[2], R3, lab, f'column {show(I)} is stored under another header', r)
                continue
            # a single value
            if val[0] == 'list' and len(val[1]) == 1:
                v = converted(r, val[1][0])
                if v is None:
                    if val[1][0][0] == 'mcall' and val[1][0][2] == 'group':
                        c.bad(R3, lab, 'a measurement is not converted', r)
                    continue
                g = group(v)
                name, suf = (key[2], key[3]) if key[0] == 'bin' and key[1] == '+' else (key, ('const', ''))
                if g is None or group(name) is None or suf[0] != 'const':
                    continue
                want = {'': 'value', '_from': 'from', '_to': 'to', '_at': 'at'}.get(str(suf[1]).lower())
                c.require(group(name) == 'name' and g == want, R3, lab, f'{g} is stored under {group(name)}{suf[1]}', r)


def group(v):
    if v[0] == 'mcall' and v[2] == 'group' and len(v[3]) == 1 and v[3][0][0] == 'const':
        return v[3][0][1]
    if v[0] == 'sub' and v[1][0] == 'res' and v[2][0] == 'const':
        return v[2][1]
    return None


def changed(ps, test):
    """name -> value of the loop variables that a turn of the loop changes on the paths on which the test holds"""
    out = {}
    for r in ps:
        if not test(r):
            continue
        for e in r.events:
            if e.kind == 'loopend' and isinstance(e.start, dict):
                for n, v in e.start.items():
                    if v != ('phi', n):
                        out.setdefault(n, set()).add(v)
    return out


def starts(r, *texts, last=True):
    """what the path assumes about the line starting with one of the texts"""
    for e in (reversed(r.events) if last else r.events):
        if e.kind == 'assume' and plain(e)[0] == 'mcall' and plain(e)[2] == 'startswith' and plain(e)[3] and plain(e)[3][0][0] == 'const' and plain(e)[3][0][1] in texts:
            return e.pol
    return None


def offset(v):
    """(n, start): a list of n own items followed by the items from start of a split line"""
    if v[0] == 'bin' and v[1] == '+' and v[2][0] == 'list':
        o = offset(v[3])
        return None if o is None else (len(v[2][1]) + o[0], o[1])
    if v[0] == 'list' and v[1] and v[1][-1][0] == 'star':
        o = offset(v[1][-1][1])
        return None if o is None else (len(v[1]) - 1 + o[0], o[1])
    if v[0] == 'sub' and v[2][0] == 'slice' and all(x in (None, NONE) for x in v[2][2:]):
        s = v[2][1]
        if s in (None, NONE):
            return 0, 0
        if s[0] == 'const' and isinstance(s[1], int) and s[1] >= 0:
            return 0, s[1]
        return None
    if v[0] == 'mcall' and v[2] == 'split':
        return 0, 0
    return None


def tables(c, k, ps, R3, R4):
    lab = lab_(k, '__init__')
    rows, heads = set(), set()
    for r in ps:
        for e in r.events:
            if e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] == DATA and e.value[0] == 'comp':
                s = e.value[3][0][0]
                if s[0] == 'phi':
                    rows.add(s[1])
                q = e.path[2]
                q = q[1] if q[0] == 'mcall' else q
                if q[0] == 'elem' and q[1][0] == 'phi':
                    heads.add(q[1][1])
    if len(rows) != 1 or len(heads) != 1:
        return
    M, H = rows.pop(), heads.pop()
    # a new table starts without rows
    new = changed(ps, lambda r: starts(r, 'Measurement: ') is True and any(e.kind == 'iter' and isinstance(e.start, dict) and M in e.start for e in r.events))
    hdr = {}
    for r in ps:
        ends = [e for e in r.events if e.kind == 'loopend' and isinstance(e.start, dict) and H in e.start]
        if ends and offset(ends[-1].start[H]) is not None:
            hdr.setdefault(ends[-1].start[M], []).append((r, ends[-1].start[H]))
    if ('list', ()) not in new.get(M, ()) and hdr and ('list', ()) not in hdr:
        c.bad(R4, lab, 'the rows of a table show up in the next one', hdr[next(iter(hdr))][0][0])
    else:
        c.ok(R4, lab)
    # headers and rows are aligned
    ho = {offset(h) for v in hdr.values() for _, h in v}
    for r in ps:
        for e in r.events:
            if e.kind == 'call' and e.name == 'append' and e.recv == ('phi', M) and not e.raised:
                v = converted(r, e.args[0])
                if v is None:
                    if offset(e.args[0]) is not None:
                        c.bad(R3, lab, 'the values are not converted', r)
                    continue
                o = offset(v)
                if o is not None and ho:
                    for n, b in ho:
                        c.require(b - n == o[1] - o[0], R3, lab, 'the headers are shifted against the columns', r)
    # the last table is stored
    for r in ps:
        if r.outcome.kind != 'return':
            continue
        second = [i for i, e in enumerate(r.events) if e.kind in ('loopend', 'loop0') and isinstance(e.start, dict) and M in e.start] or \
                 [i for i, e in enumerate(r.events) if e.kind == 'loop0' and e.name == 'while']
        if not second:
            continue
        tail = r.events[second[-1] + 1:]
        start = r.events[second[-1]].start
        gone = isinstance(start, dict) and start.get(M) == ('list', ())
        empty = any(e.kind == 'assume' and not e.pol for e in tail)
        seen = any(e.kind in ('iter', 'loop0') and e.value is not None and (contains(e.value, ('phi', H)) or any(x[0] == 'phi' for x in subvalues(e.value)) or isinstance(start, dict) and start.get(H) is not None and contains(e.value, start[H])) for e in tail)
        if gone or empty:
            continue
        c.require(seen, R4, lab, 'the last table of the file is lost', r)


def fourier(c, k, ps, R5):
    lab = lab_(k, '__init__')
    F = A(SELF, 'fourier')
    fields = [n.target.id for n in c.p.cls('FourierData').node.body if isinstance(n, ast.AnnAssign)]
    sc = A(SELF, 'step_count')
    src = {}
    for fld, texts in (('n_periods', ('N-Period',)), ('signal', ('Fourier components of',)), ('dc_component', ('DC component:',)), ('thd', ('Total Harmonic',)), ('phd', ('Partial Harmonic',))):
        for r in ps:
            i = next((i for i, e in enumerate(r.events) if e.kind == 'assume' and e.pol and plain(e)[0] == 'mcall' and plain(e)[2] == 'startswith' and plain(e)[3] and plain(e)[3][0][0] == 'const' and plain(e)[3][0][1] in texts), None)
            if i is None:
                continue
            end = next((e for e in r.events[i:] if e.kind == 'loopend' and isinstance(e.start, dict)), None)
            env = end.start if end is not None else r.st.env if r.outcome.kind == 'loopback' else {}
            for n, v in env.items():
                if v[0] == 'call' and v[1] == 'float' or v == ('const', -1) and fld == 'n_periods' or fld == 'signal' and v[0] == 'mcall' and v[2] in ('strip', 'rstrip') and v[1][0] == 'sub':
                    src.setdefault(fld, set()).add(n)
    for r in ps:
        for i, e in enumerate(r.events):
            if e.kind == 'call' and e.name == 'FourierData':
                a = kwmap(e, fields)
                s = a.get('step')
                if s is not None and contains(s, sc):
                    c.require(s == ('bin', '-', sc, ('const', 1)), R5, lab, f'a Fourier table is kept for step {show(s)}', r)
                for fld in ('n_periods', 'signal', 'dc_component', 'thd', 'phd'):
                    v = a.get(fld)
                    if v is not None and v[0] == 'phi' and src.get(fld):
                        others = {n for f2, ns in src.items() if f2 != fld for n in ns}
                        if v[1] in others and v[1] not in src[fld]:
                            c.bad(R5, lab, f'{fld} is taken from another line', r)
                        else:
                            c.ok(R5, lab)
                obj = ('obj', e.n, 'FourierData')
                kept = False
                for j, x in enumerate(r.events):
                    if x.kind == 'setitem' and x.path is not None and x.path[0] == 'sub' and x.path[1] == F and contains(x.value, obj):
                        kept = True
                        c.require(x.path[2] == a.get('signal'), R5, lab, 'a Fourier table is kept under another name', r)
                        if x.value[0] == 'list' and len(x.value[1]) == 1:
                            there = [y.pol for y in r.events[:j] if y.kind == 'assume' and y.lit[0] == 'cmp' and y.lit[1] == 'in' and y.lit[3] == F]
                            unk = [y for y in r.events[:j] if y.kind == 'assume' and contains(y.lit, F)]
                            if there and there[-1] or not unk:
                                c.bad(R5, lab, 'the Fourier tables of earlier steps are lost', r)
                    elif x.kind == 'call' and x.name == 'append' and not x.raised and x.args and x.args[0] == obj:
                        kept = True
                        if x.recv[0] == 'sub' and x.recv[1] == F:
                            c.require(x.recv[2] == a.get('signal'), R5, lab, 'a Fourier table is kept under another name', r)
                c.require(kept, R5, lab, 'a Fourier table is not kept', r)


def harmonic(c, R5):
    k = c.p.cls('HarmonicData')
    fields = [n.target.id for n in k.node.body if isinstance(n, ast.AnnAssign)]
    f = c.p.lookup(k, 'from_line')
    ln = f.arg_names()[-1]
    for r in c.walk(f, k):
        if r.outcome.kind != 'return':
            continue
        for e in r.events:
            if e.kind == 'call' and len(e.args or ()) + len(e.kw or ()) == len(fields):
                a = kwmap(e, fields)
                for i, n in enumerate(['harmonic_number', 'frequency', 'fourier_component', 'normalized_component', 'phase', 'normalized_phase']):
                    v = a.get(n)
                    if v is None:
                        continue
                    fn = None
                    while v[0] == 'call' and v[1] in ('int', 'float') and len(v[2]) == 1 or v[0] == 'mcall' and v[2] in ('rstrip', 'strip', 'replace'):
                        if v[0] == 'call':
                            fn = v[1]
                            v = v[2][0]
                        else:
                            v = v[1]
                    j = None
                    if v[0] == 'sub' and v[2][0] == 'const':
                        j = v[2][1]
                    elif v[0] == 'item':
                        j = v[2]
                        j = j[1] if isinstance(j, tuple) else j
                    if isinstance(j, int):
                        c.require(j in (i, i - 6), R5, lab_(k, 'from_line'), f'{n} is taken from column {j}', r)
                        if fn:
                            c.require((fn == 'int') == (i == 0), R5, lab_(k, 'from_line'), f'{n} is read as {fn}', r)


def meas_file(c, k, ps, R3, R4):
    lab = lab_(k, 'parse_meas_file')
    heads, names = set(), set()
    for r in ps:
        for i, e in enumerate(r.events):
            if e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] == DATA or \
                    e.kind == 'call' and e.name == 'append' and not e.raised and e.recv is not None and table(e.recv)[0] == DATA:
                key = e.path[2] if e.kind == 'setitem' else table(e.recv)[1]
                if key[0] == 'mcall' and key[2] in ('lower', 'casefold'):
                    key = key[1]
                elif key[0] in ('elem', 'sub', 'bin', 'mcall', 'phi'):
                    c.bad(R3, lab, 'a measurement is not kept in lower case', r)
                    continue
                H = key[1] if key[0] in ('elem', 'sub') else None
                if H is not None and H[0] == 'phi':
                    heads.add(H[1])
                if e.kind == 'call':
                    v = e.args[0]
                    if v[0] == 'sub' and v[1][0] == 'res' and v[1][2] == 'split_line_into_values':
                        if key[0] == 'elem':
                            c.require(v[2] == ('idx', H), R3, lab, f'column {show(v[2])} is stored under another header', r)
                        elif key[0] == 'sub':
                            c.require(v[2] == key[2], R3, lab, f'column {show(v[2])} is stored under another header', r)
                    elif v[0] == 'elem' and v[1][0] == 'res' and key[0] == 'elem':
                        c.ok(R3, lab)
                elif e.value != ('list', ()) and e.value[0] == 'list' and len(e.value[1]) == 1:
                    c.bad(R3, lab, 'the values of earlier steps are lost', r)
                elif e.value == ('list', ()):
                    # a column is emptied only when its headers are new
                    fresh = any(x.kind == 'assume' and x.pol and (x.lit[0] == 'isnone' or x.lit[0] == 'cmp' and x.lit[1] == 'is') or x.kind == 'assume' and not x.pol and x.lit[0] in ('phi', 'truthy') or x.kind == 'assume' and contains(x.lit, DATA) for x in r.events[:i])
                    c.require(fresh, R3, lab, 'the values of earlier steps are lost', r)
    # a new measurement gets new headers
    if len(heads) == 1:
        H = heads.pop()
        for r in ps:
            ends = [e for e in r.events if e.kind == 'loopend' and isinstance(e.start, dict) and H in e.start]
            hit = [e.pol for e in r.events if e.kind == 'assume' and (e.lit[0] == 'res' and e.lit[2] == 'match' or e.lit[0] == 'truthy' and e.lit[1][0] == 'res' and e.lit[1][2] == 'match')]
            if ends and hit and hit[0] is True:
                c.require(ends[-1].start[H] in (NONE, ('list', ()), ('const', ())), R4, lab, 'the values of a measurement are stored under the headers of the one before', r)
                for n, v in ends[-1].start.items():
                    if group(v) in (1, 2) and any(n == x for x in used_in_headers(ps)):
                        typ = [e for e in r.events if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'in' and group(e.lit[2]) == 1 and e.lit[3][0] in ('tuple', 'list', 'set')]
                        if typ:
                            c.require((group(v) == 2) == typ[-1].pol, R4, lab, 'the type of the simulation is taken for the name of a measurement', r)


def used_in_headers(ps):
    """loop variables that occur in the headers"""
    out = set()
    for r in ps:
        for e in r.events:
            if e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] != DATA and e.value is not None and e.value[0] == 'phi':
                out.add(e.value[1])
            elif e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] == DATA:
                out |= {x[1] for x in subvalues(e.path[2]) if x[0] == 'phi'}
    return out


def convert(c, R6):
    f = c.p.function(LD, 'try_convert_value')
    v0 = P(f.arg_names()[0])
    lab = 'try_convert_value'
    for r in c.walk(f, None, opaque={'int', 'float', 'LTComplex', 'try_convert_value'}, no_raise={'try_convert_value', 'decode'}):
        if r.outcome.kind != 'return' or impossible(r):
            continue
        tries = [(e.name, e.raised) for e in r.events if e.kind == 'call' and e.name in ('int', 'float', 'LTComplex')]
        if not tries:
            v = r.outcome.value
            num = any(e.kind == 'assume' and e.pol and plain(e)[0] == 'call' and plain(e)[1] == 'isinstance' and "'int'" in repr(e.lit) for e in r.events)
            if num:
                c.require(v == v0, R6, lab, f'the number becomes {show(v)}', r)
            continue
        order = [n for n, _ in tries]
        c.require(order == ['int', 'float', 'LTComplex'][:len(order)], R6, lab, f'the types are tried in the order {", ".join(order)}', r)
        v = r.outcome.value
        ok = [n for n, x in tries if not x]
        if ok:
            c.require(v[0] in ('res', 'obj', 'call') and v[2 if v[0] != 'call' else 1] == ok[0], R6, lab, f'{show(v)} is given for what is {ok[0]}', r)
        elif len(order) == 3:
            c.require(v[0] == 'mcall' and v[2] == 'strip' and not v[3], R6, lab, f'{show(v)} is given for a text', r)
        else:
            c.bad(R6, lab, f'not all types are tried, only {", ".join(order)}', r)


def ltcomplex(c, R6):
    k = c.p.cls('LTComplex')
    f = c.p.lookup(k, '__new__')
    lab = 'LTComplex.__new__'
    for r in c.walk(f, k, opaque={'cos', 'sin', 'radians', 'rect'}, no_raise={'cos', 'sin', 'radians', 'rect', 'match', '__new__', 'fullmatch'}):
        calls = [e for e in r.events if e.kind == 'call' and e.name == '__new__']
        if not calls or r.outcome.kind != 'return':
            continue
        deg = dB = None
        for e in r.events:
            if e.kind == 'assume':
                l, pol = e.lit[1] if e.lit[0] == 'truthy' else e.lit, e.pol
                if l[0] == 'isnone':
                    l, pol = l[1], not pol
                elif l[0] == 'cmp' and l[1] == 'is' and l[3] == NONE:
                    l, pol = l[2], not pol
                if group(l) == 'degrees':
                    deg = pol
                elif group(l) == 'dB':
                    dB = pol
        a = [x for x in calls[-1].args if x != SELF and not (x[0] == 'param')]
        if len(a) != 2:
            continue

        def factors(x):
            """(factors above the bar, factors below it)"""
            if x[0] == 'bin' and x[1] == '*':
                (a1, b1), (a2, b2) = factors(x[2]), factors(x[3])
                return sorted(a1 + a2, key=repr), sorted(b1 + b2, key=repr)
            if x[0] == 'bin' and x[1] == '/':
                (a1, b1), (a2, b2) = factors(x[2]), factors(x[3])
                return sorted(a1 + b2, key=repr), sorted(b1 + a2, key=repr)
            if x[0] == 'call' and x[1] == 'float':
                g = group(x[2][0])
                return [g or x], []
            if x[0] == 'attr' and x[2] == 'pi':
                return ['pi'], []
            if x[0] == 'const':
                return [float(x[1])] if isinstance(x[1], (int, float)) else [x], []
            if x[0] == 'bin' and x[1] == '**' and x[2] in (('const', 10), ('const', 10.0)):
                e = factors(x[3])
                return ['10**mag/20' if e in ((['mag'], [20.0]), (['mag', 0.05], []), ([0.05, 'mag'], [])) else 'other power'], []
            if x[0] == 'res':
                e = next((e for e in r.events if e.n == x[1]), None)
                if e is not None and e.name in ('cos', 'sin') and len(e.args) == 1:
                    q = factors(e.args[0])
                    if q == (['ph', 'pi'], [180.0]) or q == (['radians'], []):
                        return [e.name], []
                    return [e.name + ' of ' + show(e.args[0])] if not any(isinstance(z, tuple) for z in q[0] + q[1]) else [x], []
                if e is not None and e.name == 'radians' and len(e.args) == 1 and factors(e.args[0]) == (['ph'], []):
                    return ['radians'], []
            return [x], []
        got = factors(a[0]), factors(a[1])
        if any(isinstance(z, tuple) for p in got for q in p for z in q):
            continue
        if deg is False:
            want = (['mag'], []), (['ph'], [])
        elif deg is True and dB is not None:
            m = '10**mag/20' if dB else 'mag'
            want = (sorted([m, 'cos'], key=repr), []), (sorted([m, 'sin'], key=repr), [])
        else:
            if deg is None and not any(e.kind == 'assume' and any(group(x) == 'degrees' for x in subvalues(e.lit)) for e in r.events):
                c.bad(R6, lab, 'cartesian and polar numbers are not told apart', r)
            continue
        c.require(got == want, R6, lab, 'the complex number is not the one that is written', r)


# ------------------------------------------------------------------------------------------------ exporting
@prop('P42', 'Exported log data and exported waveforms keep each value with its step',
      'LogfileData.export_data() writes, for each step, the step number counted from 1, then the value of each step variable and of each measurement at that step, in the same order as the headers, '
      'with the value separator and line terminator that were asked for; it appends to the file only when a line prefix is given. The Fourier export writes the values in the order of its headers, each table once with the step values of its own step, '
      'and step headers only when there are steps. LTSpiceExport and reformat_LTSpice_export() attach to each row the run number and parameter values of the step line before it, whatever these values look like, store or write every value under '
      'its own header, and also work for files without steps. Log data made from given steps and measurements has its own lists, and as many steps as the step variables have values.',
      ['inputs'], 'for all logs and exported files', 'Exported tables are what users analyse; a shifted column or a step label from another row is a wrong result that nothing reports.',
      [LD, LT], [dict(name='tables', where=LD + ':LogfileData.export_data'), dict(name='waveform export', where=LT + ':LTSpiceExport, reformat_LTSpice_export')],
      'Every write and every stored value is traced to the table, index or column it comes from; loops are followed once from any state.',
      'path-sensitive provenance analysis of what is written',
      'All paths; each loop body once from any state of its variables. What the regular expression of step lines accepts is tested on its structure only (no restriction to word characters).', [])
def p42(c: Ctx):
    R1 = c.rule('P42.row', 'each row has the values of its own step', 4)
    R2 = c.rule('P42.options', 'separator, terminator and append are as asked for', 4)
    R3 = c.rule('P42.fourier', 'Fourier values are under their headers and with their step', 4)
    R4 = c.rule('P42.export', 'rows of exported waveforms are labelled with their step', 5)
    R5 = c.rule('P42.own', 'log data has its own lists and step count', 3)
    k = c.p.cls('LogfileData')
    with c.attempt(lab_(k, 'export_data')):
        table_export(c, k, R1, R2)
    with c.attempt(lab_(k, '__init__')):
        own_lists(c, k, R5)
    k = c.p.cls('LTSpiceLogReader')
    with c.attempt(lab_(k, 'export_data')):
        fourier_export(c, k, R3)
    with c.attempt('LTSpiceExport.__init__'):
        waveform_read(c, c.p.cls('LTSpiceExport'), R4)
    with c.attempt('reformat_LTSpice_export'):
        reformat(c, R4)


def loop_paths(c, f, k, more=()):
    op = {'try_convert_value', 'detect_encoding'} | set(more)
    ps, ls = c.walk_loops(f, k, opaque=op, no_raise=op | {'open', 'readline', 'append', 'write', 'close'}, any_iteration=True)
    return [r for r in ps + ls if not impossible(r) and not contradictory(r)]


def surface(v):
    """the values that v is made of, without what the elements of a sequence are taken from"""
    yield v
    if isinstance(v, tuple) and v and v[0] not in ('elem', 'idx', 'key', 'const'):
        for x in v[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    yield from surface(x)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y:
                            yield from surface(y)


def last_iter(r):
    return max([i for i, e in enumerate(r.events) if e.kind == 'iter'], default=-1)


def written(r, i0=0):
    """(event index, pieces) of what is written"""
    from .raw_write import pieces
    return [(i, pieces(e.args[0])) for i, e in enumerate(r.events) if i >= i0 and e.kind == 'call' and e.name == 'write' and not e.raised and len(e.args) == 1]


def position(x, el):
    """d if x is the position in the sequence of numbers el is taken from (counted from 0) plus d"""
    if x == el:
        a = el[1][2]
        if len(a) == 1:
            return 0
        return a[0][1] if a[0][0] == 'const' and isinstance(a[0][1], int) and len(a) == 2 else None
    if x[0] == 'bin' and x[1] in ('+', '-'):
        for p, q in ((x[2], x[3]), (x[3], x[2])):
            if q[0] == 'const' and isinstance(q[1], int) and (x[1] == '+' or p == x[2]):
                d = position(p, el)
                return None if d is None else d + q[1] if x[1] == '+' else d - q[1]
    return None


def table_export(c, k, R1, R2):
    lab = lab_(k, 'export_data')
    f = c.p.lookup(k, 'export_data')
    order = {}
    wrote = set()
    ways = {}
    for r in loop_paths(c, f, k):
        li = last_iter(r)
        mode = None
        for e in r.events:
            if e.kind == 'assume' and e.lit in (('isnone', P('append_with_line_prefix')), ('cmp', 'is', P('append_with_line_prefix'), NONE)):
                mode = e.pol
            elif e.kind == 'assume' and plain(e) == P('append_with_line_prefix'):
                mode = not e.pol
            elif e.kind == 'call' and e.name == 'open' and not e.raised:
                m = arg(e, 1, 'mode')
                if m is not None and m[0] == 'const' and mode is not None:
                    c.require(('a' in m[1]) == (not mode), R2, lab, 'the file is appended to without a prefix' if mode else 'what was exported before is lost', r)
        for i, e in enumerate(r.events):
            if e.kind != 'call' or e.name != 'write' or e.raised or not e.args:
                continue
            v = e.args[0]
            inrow = [x for x in r.events[:i] if x.kind == 'iter' and x.value is not None and x.value[0] == 'call' and x.value[1] == 'range' and not deep(x.value, lambda y: y[0] == 'key')]
            for x in surface(v):
                if x[0] == 'const' and isinstance(x[1], str) and ('\t' in x[1] or '\n' in x[1]):
                    c.bad(R2, lab, f'{x[1]!r} is written instead of what was asked for', r)
                if x in (P('value_separator'), P('line_terminator')):
                    c.ok(R2, lab)
                if x[0] == 'sub' and x[1][0] == 'sub' and x[1][1] in (STEPS, DATA) and x[2][0] != 'slice':
                    wrote.add(('v', x[1][1]))
                    if inrow:
                        row = [position(x[2], ('elem', y.value)) for y in inrow]
                        c.require(0 in row or None in row and x[2][0] != 'const' and not any(isinstance(z, int) for z in row), R1, lab, f'the value at {show(x[2])} is written in the row of another step', r)
                    c.require(x[1][2] == ('key', x[1][1]) or x[1][2][0] != 'key', R1, lab, 'a value of another table is written', r)
                if x in (('key', STEPS), ('key', DATA)) and not any(y[0] == 'sub' and y[2] == x for y in surface(v)):
                    wrote.add(('k', x[1]))
            # which way the columns are gone through
            ys = list(surface(v))
            for x in ys:
                for T in (STEPS, DATA):
                    if x[0] == 'sub' and x[1] == ('sub', T, ('key', T)) and x[2][0] != 'slice':
                        ways.setdefault(('v', T), {}).setdefault(way(r, i, T), r)
                    elif x == ('key', T) and not inrow and not any(y[0] == 'sub' and contains(y[2], x) for y in ys):
                        ways.setdefault(('k', T), {}).setdefault(way(r, i, T), r)
            # the number of the step
            if v[0] == 'bin' and v[1] == '%' or v[0] in ('call', 'fstr', 'fmt'):
                for y in inrow[:1]:
                    el = ('elem', y.value)
                    n = [position(x, el) for x in surface(v)]
                    n = [x for x in n if x is not None]
                    if n and not deep(v, lambda y: y in (STEPS, DATA)):
                        c.require(n[0] == 1, R1, lab, 'steps are not counted from 1', r)
        # order of the two tables
        if li >= 0:
            for e in r.events:
                if e.kind == 'iter' and e.value is not None and e.value[0] == 'bin' and e.value[1] == '+':
                    a, b = e.value[2:4]
                    for first, second, w in ((STEPS, DATA, True), (DATA, STEPS, False)):
                        if contains(a, first) and contains(b, second) and not contains(a, second) and not contains(b, first):
                            order.setdefault('v' if deep(e.value, lambda y: y[0] == 'sub' and y[1][0] == 'sub') else 'k', []).append((w, r))
            for what, T in (('k', DATA), ('v', DATA)):
                for i, e in enumerate(r.events):
                    if i > li and e.kind == 'call' and e.name == 'write' and e.args:
                        xs = list(surface(e.args[0]))
                        hit = ('key', DATA) in xs and not any(x[0] == 'sub' and x[2] == ('key', DATA) for x in xs) if what == 'k' else any(x[0] == 'sub' and x[1] == ('sub', DATA, ('key', DATA)) for x in xs)
                        if hit:
                            rows = [j for j, x in enumerate(r.events) if x.kind == 'iter' and x.value is not None and x.value[0] == 'call' and x.value[1] == 'range' and not deep(x.value, lambda y: y[0] == 'key')]
                            j0 = rows[0] if what == 'v' and rows else 0
                            before = any(x.kind in ('loop0', 'iter') and x.value is not None and contains(x.value, STEPS) for x in r.events[j0:i])
                            isnt = what == 'v' and any(x.kind == 'assume' and contains(x.lit, A(SELF, 'step_count')) and (x.lit == ('cmp', 'eq', A(SELF, 'step_count'), ('const', 0))) == x.pol for x in r.events[:i])
                            if not isnt:
                                order.setdefault(what, []).append((before, r))
    if 'k' in order and 'v' in order:
        ks, vs = {b for b, _ in order['k']}, {b for b, _ in order['v']}
        if len(ks) == 1 and len(vs) == 1:
            c.require(ks == vs, R1, lab, 'headers and values are not in the same order', order['v'][0][1])
    for T in (STEPS, DATA):
        a, b = ways.get(('k', T), {}), ways.get(('v', T), {})
        if len(a) == 1 and len(b) == 1:
            c.require(list(a) == list(b), R1, lab, 'the columns of the rows are not in the order of the headers', list(b.values())[0])
    if ('v', DATA) in wrote and ('v', STEPS) not in wrote and ('k', STEPS) in wrote:
        c.bad(R1, lab, 'the values of the step variables are not written', None)
    else:
        c.ok(R1, lab)


def way(r, i, T):
    """the way in which the names of a table are gone through at event i"""
    for e in reversed(r.events[:i]):
        if e.kind == 'iter' and e.value is not None and contains(e.value, T):
            for x in subvalues(e.value):
                if x and x[0] == 'call' and x[1] in ('sorted', 'reversed') and x[2]:
                    y = x[2][0]
                    while y != T and (y[0] == 'mcall' and y[2] in ('keys', 'items', 'copy') or y[0] == 'call' and y[1] in ('list', 'tuple') and y[2]):
                        y = y[1] if y[0] == 'mcall' else y[2][0]
                    if y == T:
                        return x[1]
            return 'plain'
    return 'plain'


def own_lists(c, k, R5):
    lab = lab_(k, '__init__')
    f = c.p.lookup(k, '__init__')
    ps = [P(n) for n in f.arg_names()[1:]]
    for r in c.walk(f, k):
        if r.outcome.kind not in ('return', 'end'):
            continue
        vals = {}
        for e in r.events:
            if e.kind == 'write' and e.path in (STEPS, DATA):
                v = e.value
                vals[e.path] = v
                for p in ps:
                    shared = v == p or v[0] == 'mcall' and v[1] == p and v[2] == 'copy' or v[0] in ('call', 'obj', 'res') and contains(v, p) and v[0] == 'call' and v[1] in ('dict', 'OrderedDict', 'copy') and v[2] == (p,)
                    if v[0] in ('res', 'obj'):
                        ev = [x for x in r.events if x.n == v[1]]
                        shared = bool(ev) and (list(ev[0].args) == [p] and ev[0].name in ('dict', 'OrderedDict', 'copy') or ev[0].name == 'copy' and ev[0].recv == p)
                        if ev and ev[0].args and ev[0].args[0][0] == 'comp':
                            v = ev[0].args[0]
                    if v[0] == 'comp' and any(contains(s, p) for s, _ in v[3]):
                        el = v[2][-1]
                        if el[0] == 'tuple' and len(el[1]) == 2:
                            el = el[1][1]
                        shared = el == ('sub', p, ('key', p)) or el[0] == 'item' and el[2] in (1, ('const', 1))
                    if shared:
                        c.bad(R5, lab, 'lists are shared with the ones the data is made from', r)
                    else:
                        c.ok(R5, lab)
            elif e.kind == 'write' and e.path == A(SELF, 'step_count'):
                v = e.value
                if v[0] == 'call' and v[1] == 'len' and (v[2][0] in ps or v[2][0] == STEPS or v[2][0] == vals.get(STEPS)):
                    c.bad(R5, lab, 'step variables are counted instead of steps', r)
                elif v == ('const', 0) and ps and not any(x.kind in ('iter', 'loop0') and x.value is not None and (contains(x.value, STEPS) or contains(x.value, ps[0]) or vals.get(STEPS) is not None and contains(x.value, vals[STEPS])) for x in r.events[r.events.index(e):]) and any(x.kind == 'assume' and x.lit in (('isnone', ps[0]), ('cmp', 'is', ps[0], NONE)) and not x.pol for x in r.events) and not any(contains(x.lit, STEPS) for x in r.events if x.kind == 'assume'):
                    c.bad(R5, lab, 'the steps given are not counted', r)
                else:
                    c.ok(R5, lab)


def fourier_export(c, k, R3):
    lab = lab_(k, 'export_data')
    f = c.p.lookup(k, 'export_data')
    sc = A(SELF, 'step_count')
    first = ['n_periods', 'dc_component', 'fundamental', 'phd', 'thd']
    second = ['harmonic_number', 'frequency', 'fourier_component', 'normalized_component', 'phase', 'normalized_phase']
    for r in loop_paths(c, f, k, ('export_data',)):
        li = last_iter(r)
        got = []
        for i, e in enumerate(r.events):
            if i < li or e.kind != 'call' or e.name != 'write' or e.raised or not e.args:
                continue
            for _, ps in [(i, pieces_of(e.args[0]))]:
                for p in ps:
                    if not isinstance(p, str) and p[0] == 'attr':
                        got.append(p[2])
            # step values
            for x in subvalues(e.args[0]):
                if x[0] == 'sub' and x[1][0] == 'sub' and x[1][1] == STEPS and x[2][0] != 'slice':
                    own = x[2][0] == 'attr' and x[2][2] == 'step' or any(y.kind == 'assume' and y.pol and y.lit[0] == 'cmp' and y.lit[1] == 'eq' and x[2] in y.lit[2:4] and any(z[0] == 'attr' and z[2] == 'step' for z in y.lit[2:4]) for y in r.events[:i])
                    c.require(own, R3, lab, 'a table is written with the values of another step', r)
            # step headers
            v = e.args[0]
            if any(x[0] == 'mcall' and x[2] == 'join' and x[3] and (x[3][0] in (STEPS, ('mcall', STEPS, 'keys', ()))) for x in subvalues(v)):
                c.require(stepped(r, i), R3, lab, 'step headers are written for a log without steps', r)
        for names in (first, second):
            mine = [n for n in got if n in names]
            if len(mine) > 1:
                c.require(mine == sorted(mine, key=names.index), R3, lab, 'values are written under the header of another one', r)


def stepped(r, i):
    """the path knows that the log has steps"""
    sc = A(SELF, 'step_count')
    for e in r.events[:i]:
        if e.kind == 'assume':
            l = plain(e)
            if l in (sc, STEPS, ('cmp', 'lt', ('const', 0), sc)) and e.pol or l in (('cmp', 'eq', sc, ('const', 0)), ('cmp', 'lt', sc, ('const', 1))) and not e.pol:
                return True
            if contains(l, sc) or contains(l, STEPS):
                if l not in (sc, STEPS, ('cmp', 'lt', ('const', 0), sc), ('cmp', 'eq', sc, ('const', 0)), ('cmp', 'lt', sc, ('const', 1))):
                    return True
    return False


def pieces_of(v):
    from .raw_write import pieces
    return pieces(v)


def free_values(c, f, R4, lab):
    """the pattern for step lines does not restrict the values of parameters to word characters"""
    import re
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('compile', 'match', 'search') and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and 'Step Information' in n.args[0].value:
            pat = n.args[0].value
            m = re.search(r'Step Information:\s*(?:\\s[*+]|\s)*\((?!\?:)(.*?)\)', pat) or re.search(r'\((?:\?P<\w+>)?([^()]*)\)', pat)
            if m is None:
                continue
            body = re.sub(r'^\?P<\w+>', '', m.group(1))
            cls = ''.join(re.findall(r'\[([^]]*)\]', body))
            if body in ('.+', '.*', '.+?', '.*?'):
                c.ok(R4, lab)
            elif '\\w' in body and '.' not in re.sub(r'\\.|\[[^]]*\]', '', body) and '\\S' not in body and not cls.startswith('^'):
                c.bad(R4, lab, 'parameter values with other characters than letters and digits are not recognised', None)


def waveform_read(c, k, R4):
    lab = lab_(k, '__init__')
    f = c.p.lookup(k, '__init__')
    free_values(c, f, R4, lab)
    H = A(SELF, 'headers')
    made = [r for r in loop_paths(c, f, k)]
    for r in made:
        for i, e in enumerate(r.events):
            if e.kind == 'call' and e.name == 'append' and not e.raised and e.recv is not None and e.recv[0] == 'sub' and e.recv[1] == DATA:
                key, val = e.recv[2], e.args[0]
                if key[0] != 'mcall' or key[2] not in ('lower', 'casefold'):
                    c.bad(R4, lab, 'a column is not found in lower case', r)
                    continue
                key = key[1]
                v = converted(r, val)
                if key[0] == 'sub' and key[1] == H:
                    if v is None:
                        c.require(not (val[0] == 'sub' and val[2] == key[2]), R4, lab, 'values are not converted', r)
                    elif v[0] == 'sub':
                        c.require(v[2] == key[2], R4, lab, f'column {show(v[2])} is stored under another header', r)
                    elif v[0] == 'elem':
                        c.require(key[2] == ('idx', v[1]) or key[2][0] != 'idx', R4, lab, 'a value is stored under another header', r)
                elif key[0] == 'elem' and key[1] == H and v is not None:
                    if v[0] == 'sub':
                        c.require(v[2] == ('idx', H), R4, lab, f'column {show(v[2])} is stored under another header', r)
                elif key[0] in ('elem', 'key') and val[0] == 'sub':
                    c.require(val[1] == key[1] and val[2] == key, R4, lab, 'a row gets the parameter values of another one', r)
            elif e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] != DATA:
                s = side(e.path[2])
                v = converted(r, e.value)
                if s is not None and v is not None and side(v) is not None:
                    c.require(s[1] == 'name' and side(v)[1] == 'value' and s[0] == side(v)[0], R4, lab, 'a parameter gets the value of another one', r)
                elif e.path[2] == ('const', 'runno'):
                    w = e.value
                    w = w[2][0] if w[0] == 'call' and w[1] == 'int' else w
                    j = w[2] if w[0] in ('item', 'sub') else None
                    j = j[1] if isinstance(j, tuple) and j[0] == 'const' else j
                    if isinstance(j, int):
                        c.require(j in (1, -1), R4, lab, 'the parameters are taken for the run number', r)
            elif e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and e.path[1] == DATA and e.value == ('list', ()) and last_iter(r) >= 0:
                # a column of a parameter is emptied only for the first step line
                lines_ = [x for x in r.events[:i] if x.kind == 'iter']
                if len(lines_) > 1:
                    c.require(any(x.kind == 'assume' and (plain(x)[0] == 'phi' and x.pol or plain(x)[0] == 'phi' or contains(x.lit, DATA)) for x in r.events[:i]), R4, lab, 'the values of earlier rows are lost', r)
        for e in r.events:
            if e.kind == 'write' and e.path == H:
                v = e.value
                c.require(any(x[0] == 'mcall' and x[2] in ('strip', 'rstrip', 'splitlines', 'split') and (x[2] != 'split' or not x[3]) or x[0] == 'sub' and x[2][0] == 'slice' for x in subvalues(v)), R4, lab, 'the line end is part of the last header', r)
    # columns exist also in files without steps
    for r in made:
        if r.outcome.kind in ('return', 'end'):
            d = [e for e in r.events if e.kind == 'write' and e.path == DATA]
            if d and d[0].value == ('dict', ()):
                it = [i for i, e in enumerate(r.events) if e.kind == 'loop0' and e.value is not None and contains(e.value, H)]
                if not it and not any(e.kind == 'setitem' and e.path[0] == 'sub' and e.path[1] == DATA for e in r.events):
                    c.bad(R4, lab, 'files without steps have no columns', r)
            elif d:
                c.ok(R4, lab)


def reformat(c, R4):
    f = c.p.function(LT, 'reformat_LTSpice_export')
    lab = 'reformat_LTSpice_export'
    free_values(c, f, R4, lab)
    ps = loop_paths(c, f, None)
    rows = None
    hdr_row = set()
    for r in ps:
        ws = written(r)
        step = starts(r, 'Step Information:')
        for n, (i, pc) in enumerate(ws):
            if step is False and any(not isinstance(p, str) and p[0] == 'elem' for p in pc):
                vs = [p for p in pc if not isinstance(p, str)]
                rows = (r, vs)
                seps = [p for p in pc if isinstance(p, str)]
                if len(vs) == 3:
                    c.require(vs[0][0] != 'const' and vs[1][0] != 'const', R4, lab, 'rows are written with a constant instead of their step', r)
                    c.require(seps[:2] == ['\t', '\t'], R4, lab, 'the columns of a row are not separated', r)
                    hdr = any(e.kind == 'assume' and plain(e)[0] == 'phi' and e.pol for e in r.events[:i])
                    hdr_row.add((hdr, n > 0))
                else:
                    c.bad(R4, lab, 'a row is not written with run number and parameter values', r)
    if rows and len(rows[1]) == 3 and rows[1][0][0] == 'phi' and rows[1][1][0] == 'phi':
        run, par = rows[1][0][1], rows[1][1][1]
        for r in ps:
            if starts(r, 'Step Information:') is True and r.outcome.kind == 'loopbody':
                depth = len([e for e in r.events if e.kind == 'iter'])
                if depth != 1:
                    for e in r.events:
                        if e.kind == 'call' and e.name == 'append' and e.args and side(e.args[0]) and e.recv[0] in ('phi', 'list', 'local', 'grown'):
                            pass
                    continue
                hit = any(e.kind == 'assume' and e.pol and plain(e)[0] == 'res' and plain(e)[2] in ('match', 'search', 'fullmatch') for e in r.events) or any(e.kind == 'assume' and not e.pol and e.lit[0] in ('isnone',) for e in r.events)
                if not hit:
                    continue
                v = r.st.env.get(run)
                if v is not None:
                    c.require(v != ('phi', run), R4, lab, 'rows are written with the run number of another step', r)
                    j = v[2] if v[0] == 'item' else None
                    if isinstance(j, int) or v[0] == 'mcall' and v[2] == 'join':
                        c.require(j == 1, R4, lab, 'the parameters are taken for the run number', r)
                v = r.st.env.get(par)
                if v is not None:
                    c.require(v != ('phi', par), R4, lab, 'rows are written with the parameters of another step', r)
    # what the names and values are collected from
    for r in ps:
        for i, e in enumerate(r.events):
            if e.kind == 'call' and e.name == 'append' and len(e.args or ()) == 1:
                s = side(e.args[0])
                if s is not None and e.recv[0] == 'phi':
                    hdr = any(x.kind == 'assume' and plain(x)[0] == 'phi' and x.pol for x in r.events[:i])
                    if not hdr:
                        c.require(s[1] == 'value', R4, lab, 'names are written instead of values', r)
    # files without steps get a header too
    for r in ps:
        if starts(r, 'Step Information:') is False:
            ws = written(r)
            firsts = [e for e in r.events if e.kind == 'assume' and plain(e)[0] == 'phi']
            if firsts and firsts[0].pol is True and len(ws) < 2:
                c.bad(R4, lab, 'files without steps get no header', r)
            elif not firsts and ws and len(ws) == 1:
                head_elsewhere = any(starts(q, 'Step Information:') is None and q.outcome.kind != 'loopbody' and written(q) for q in ps)
                if not head_elsewhere:
                    c.bad(R4, lab, 'files without steps get no header', r)


@prop('P43', 'Operating points of semiconductors are stored with their own device',
      'opLogReader() stores every value of a parameter line under the device whose name is in the same column of the last Name: line and under the name of the parameter without the colon, as a number where it is one, '
      'in the section with the last title read, in lower case; lines with another number of columns than there are devices are not stored, and the line named Gmb (without colon) is read like the others.',
      ['inputs'], 'for all operating point logs', 'A value stored with the device of the next column is a wrong result that looks plausible.',
      ['spicelib/log/semi_dev_op_reader.py'], [dict(name='columns', where='spicelib/log/semi_dev_op_reader.py:opLogReader')],
      'Every store into the result is traced back to the column of the value and the column of the device name; both offsets must agree.',
      'path-sensitive provenance analysis',
      'All paths; each loop body once from any state of its variables.', [])
def p43(c: Ctx):
    R1 = c.rule('P43.column', 'values go to the device of their column', 3)
    R2 = c.rule('P43.section', 'devices go to their section', 2)
    R3 = c.rule('P43.lines', 'exactly the parameter lines are read', 3)
    lab = 'opLogReader'
    f = c.p.function('spicelib/log/semi_dev_op_reader.py', lab)
    with c.attempt(lab):
        ps = []
        op = {'float', 'detect_encoding'}
        a, b = c.walk_loops(f, None, opaque=op, no_raise={'detect_encoding', 'open', 'close', 'search', 'match', 'split'}, any_iteration=True)
        ps = [r for r in a + b if not impossible(r) and not contradictory(r)]
        starts_ = set()         # column of the first device
        mixed = set()
        secs = set()
        for r in ps:
            for n, v in r.st.env.items():
                if v[0] == 'sub' and v[2][0] == 'slice' and columns_of(v[1]) and any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and ('const', 'Name:') in e.lit[2:4] for e in r.events):
                    starts_.add((n, v[2][1][1] if v[2][1][0] == 'const' else None))
                elif columns_of(v) and any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and ('const', 'Name:') in e.lit[2:4] for e in r.events):
                    starts_.add((n, 0))
                elif v[0] == 'call' and v[1] in ('sorted', 'reversed', 'set', 'frozenset') and len(v[2]) >= 1 and columns_in(v) and any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and ('const', 'Name:') in e.lit[2:4] for e in r.events):
                    mixed.add(n)
        stored = gmb = False
        for r in ps:
            for i, e in enumerate(r.events):
                if e.kind != 'setitem' or e.path is None or e.path[0] != 'sub':
                    continue
                chain, x = [], e.path
                while x[0] == 'sub':
                    chain.insert(0, x[2])
                    x = x[1]
                if len(chain) == 1 and e.value[0] in ('dict',):
                    continue
                sec = chain[0]
                if sec[0] == 'mcall' and sec[2] == 'lower':
                    c.ok(R2, lab)
                elif sec[0] in ('phi', 'mcall'):
                    c.bad(R2, lab, 'a section is not kept in lower case', r)
                if sec[0] == 'mcall' and sec[1][0] == 'phi':
                    secs.add(sec[1][1])
                if len(chain) != 3:
                    continue
                stored = True
                dev, par, val = chain[1], chain[2], e.value
                caught = any(x.kind == 'except' for x in r.events[:i])
                if val[0] == 'res' and val[2] == 'float':
                    val = next(x for x in r.events if x.n == val[1]).args[0]
                elif val[0] in ('elem', 'sub'):
                    c.require(caught, R1, lab, 'a number is stored as text', r)
                if dev[0] == 'sub' and dev[1][0] in ('phi', 'global') and dev[1][1] in mixed:
                    c.bad(R1, lab, 'the devices are not in the order of their columns', r)
                dcol = vcol = None
                if dev[0] == 'sub' and dev[1][0] in ('phi', 'global') and dev[2][0] != 'const':
                    st = [s for n, s in starts_ if n == dev[1][1]]
                    dcol = (dev[2], st[0]) if len(st) == 1 and st[0] is not None else None
                elif dev[0] == 'sub' and dev[1][0] in ('phi', 'global'):
                    c.bad(R1, lab, 'all values go to the same device', r)
                if val[0] == 'elem' and val[1][0] == 'sub' and val[1][2][0] == 'slice' and columns_of(val[1][1]):
                    s = val[1][2][1]
                    vcol = (('idx', val[1]), s[1]) if s[0] == 'const' and isinstance(s[1], int) else None
                elif val[0] == 'sub' and columns_of(val[1]):
                    vcol = (val[2], 0)
                elif val[0] == 'sub' and val[1][0] == 'sub' and val[1][2][0] == 'slice' and columns_of(val[1][1]) and val[1][2][1][0] == 'const':
                    vcol = (val[2], val[1][2][1][1])
                if dcol and vcol and all(isinstance(x[1], int) for x in (dcol, vcol)):
                    d, v = shifted(dcol), shifted(vcol)
                    if d[0] == v[0]:
                        c.require(d[1] == v[1], R1, lab, 'a value is stored with the device of another column', r)
                    elif d[0][0] in ('idx', 'elem') and v[0][0] in ('idx', 'elem') and d[0] != v[0]:
                        pass
                    elif v[0][0] == 'const' or d[0][0] == 'const':
                        c.bad(R1, lab, 'a value is stored with the device of another column', r)
                # parameter name
                base = par
                while base[0] == 'mcall':
                    base = base[1]
                if base[0] in ('sub', 'item') and columns_of(base[1]):
                    j = base[2][1] if base[0] == 'sub' and base[2][0] == 'const' else base[2]
                    c.require(j in (0, ('const', 0)), R1, lab, 'a value is taken for the name of a parameter', r)
                    strip = par[0] == 'mcall' or par[0] == 'sub' and par[2][0] == 'slice'
                    isg = any(x.kind == 'assume' and x.pol and x.lit[0] == 'cmp' and x.lit[1] == 'eq' and ('const', 'Gmb') in x.lit[2:4] for x in r.events[:i])
                    gmb |= isg
                    c.require(strip or isg, R1, lab, 'the colon is kept in the name of a parameter', r)
                # the number of columns was compared
                lens = [x for x in r.events[:i] if x.kind == 'assume' and x.lit[0] == 'cmp' and deep(x.lit, lambda y: y[0] == 'call' and y[1] == 'len' and columns_of(y[2][0])) and x.lit != ('cmp', 'lt', ('const', 1), ('call', 'len', (columns_in(x.lit),)))]
                c.require(any(x.lit[1] == 'eq' and x.pol for x in lens) or not all(x.lit[1] in ('eq', 'lt') for x in lens) and bool(lens), R3, lab, 'lines with another number of columns are stored', r)
        if stored:
            for r in ps:
                for e in r.events:
                    if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] in ('eq', 'in') and deep(e.lit, lambda y: y == ('const', 'Gmb')) or e.kind == 'assume' and "'Gmb'" in repr(e.lit):
                        gmb = True
            cond = any(e.kind == 'assume' and plain(e)[0] == 'mcall' and plain(e)[2] == 'endswith' for r in ps for e in r.events)
            c.require(gmb or not cond, R3, lab, 'the line named Gmb is not read', None)
        # a title starts a new section
        for s in secs:
            for r in ps:
                hit = [e.pol for e in r.events if e.kind == 'assume' and (e.lit[0] in ('isnone', 'cmp') or plain(e)[0] == 'res') and deep(e.lit, lambda y: y[0] == 'res' and y[2] in ('search', 'match'))]
                if hit and any(e.kind == 'setitem' and e.value == ('dict', ()) and e.path[0] == 'sub' and e.path[1][0] != 'sub' for e in r.events):
                    v = r.st.env.get(s)
                    c.require(v is None or v != ('phi', s), R2, lab, 'devices are stored in the section before', r)


def columns_of(v):
    """v is a line split into columns"""
    return v[0] == 'res' and v[2] == 'split' or v[0] == 'mcall' and v[2] == 'split'


def columns_in(v):
    return next((x for x in subvalues(v) if x and columns_of(x)), None)


def shifted(p):
    """(index, offset) without constants in the index"""
    v, o = p
    while v[0] == 'bin' and v[1] in ('+', '-') and v[3][0] == 'const' and isinstance(v[3][1], int):
        o = o + v[3][1] if v[1] == '+' else o - v[3][1]
        v = v[2]
    return v, o
