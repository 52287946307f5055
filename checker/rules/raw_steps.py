"""RAW files: the samples of each step (P21)."""
from .util import *
from ..algebra import Num

RC = 'spicelib/raw/raw_classes.py'
PD = 'spicelib/raw/plot_data.py'
RAWNR = {'step_offset', 'abs', 'absolute', 'get_position', 'seek', 'read', 'tell', 'frombuffer', 'dtype', 'set_steps', 'debug', 'info', 'warning', 'strip', 'split', 'index',
         'lstrip', 'partition', 'decode', 'encode', 'append', 'Axis', 'TraceRead', 'lower', 'get', 'items', 'keys', 'zeros', 'write', 'tobytes', 'astype'}
DATA = A(SELF, 'data')
OFFS = A(SELF, 'step_offsets')
INFO = A(SELF, 'step_info')


def lab_(k, m):
    return f'{k.module.rel}:{k.name}.{m}'


def null_fact(r, v):
    """True/False: the path assumes v is (not) None; None: nothing is assumed"""
    for e in r.events:
        if e.kind == 'assume':
            l = e.lit
            if l[0] == 'cmp' and l[1] == 'is' and v in l[2:4] and NONE in l[2:4] or l == ('isnone', v):
                return e.pol
            if l == v or l == ('truthy', v):
                if e.pol:
                    return False
                return True
    return None


def inconsistent(r):
    """the path assumes both that something is None and that it is not (it forgot in between)"""
    seen = {}
    for e in r.events:
        if e.kind == 'assume' and (e.lit[0] == 'isnone' or e.lit[0] == 'cmp' and e.lit[1] == 'is' and NONE in e.lit[2:4]):
            if seen.setdefault(e.lit, e.pol) != e.pol and not any(x.kind == 'write' for x in r.events):
                return True
    return False


def positive(r, v):
    for e in r.events:
        if e.kind != 'assume':
            continue
        l, p = e.lit, e.pol
        if l == v or l == ('truthy', v):
            return p
        if l[0] == 'cmp' and v in l[2:4]:
            o = l[3] if l[2] == v else l[2]
            if o[0] != 'const' or not isinstance(o[1], int):
                continue
            k = o[1]
            if l[1] == 'eq' and p:
                return k > 0
            if l[1] == 'eq' and not p and k == 0:
                return True
            if l[1] == 'lt' and l[3] == v:     # k < v
                if p and k >= 0:
                    return True
                if not p and k <= 0:
                    return False
            if l[1] == 'lt' and l[2] == v:     # v < k
                if p and k <= 1:
                    return False
                if not p and k >= 1:
                    return True
    return None


def below(r, num, a, b):
    """the path assumes a < b (True) or a >= b (False), compared as numbers"""
    x, y = num(a) if isinstance(a, tuple) else a, num(b) if isinstance(b, tuple) else b
    for e in r.events:
        if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'lt':
            l, q = num(e.lit[2]), num(e.lit[3])
            if l - q == x - y:
                return e.pol
            if e.pol and q - l == x - y + 1 or not e.pol and q - l == x - y + 1:
                return not e.pol
    return None


def whole_number(v):
    return v[0] == 'const' and isinstance(v[1], int)


@prop('P21', 'Each step of a stepped waveform gives exactly its own samples',
      'The samples of step n of a trace or axis are those from the n-th position where the first axis value occurs again up to the next such position (or the end of the data). get_wave(n) gives all of them and no others, '
      'get_len(n) is their number, get_point(i, n) is the i-th of them, and get_position() and get_point_at() look only at them and interpolate linearly. A trace uses the steps of its axis. '
      'get_steps() gives the numbers of exactly the steps in which every given parameter has the given value. An axis with another number of steps than expected is refused.',
      ['inputs'],
      'any waveform data, number of steps, step and position',
      'Tests read a few stepped files at their first steps; off-by-one errors at step borders show only on particular data.',
      [RC, PD],
      [dict(name='step borders', where=RC + ':Axis.set_steps, Axis.step_offset'), dict(name='samples of a step', where=RC + ':Axis, TraceRead'), dict(name='steps by parameters', where=PD + ':PlotData.get_steps')],
      'The indices, slice bounds and lengths returned on every path are compared, as rational functions of the step borders, with what the property says; the loop that finds the borders is followed from an arbitrary state for one iteration.',
      'path-sensitive dataflow with algebraic normalisation',
      'All paths; loops by one iteration from any state. Values returned in a form the analysis does not know are not judged.', [])
def p21(c: Ctx):
    R1 = c.rule('P21.offset', 'the border before a step is what was found in the data', 3)
    R2 = c.rule('P21.find', 'a step begins wherever the first axis value occurs again', 3)
    R3 = c.rule('P21.wave', 'get_wave gives the samples of its step', 6)
    R4 = c.rule('P21.len', 'get_len counts the samples of its step', 2)
    R5 = c.rule('P21.point', 'get_point gives a sample of its step', 2)
    R6 = c.rule('P21.position', 'positions are found and interpolated within the step', 4)
    R7 = c.rule('P21.query', 'get_steps gives the steps that match all parameters', 4)
    R8 = c.rule('P21.count', 'another number of steps than expected is refused', 2)
    ax, tr = c.p.cls('Axis'), c.p.cls('TraceRead')
    with c.attempt(lab_(ax, 'step_offset')):
        step_offset(c, ax, R1)
    with c.attempt(lab_(ax, 'set_steps')):
        set_steps(c, ax, R2, R8)
    for k in (ax, tr):
        base = SELF if k is ax else A(SELF, 'axis')
        with c.attempt(lab_(k, 'get_wave')):
            f = c.p.lookup(k, 'get_wave')
            step = P(f.arg_names()[1])
            for r in c.walk(f, k, opaque={'step_offset'}, no_raise=RAWNR):
                wave(c, R3, lab_(k, 'get_wave'), r, base, step, k is tr)
        for m in ('get_len', '__len__'):
            f = c.p.lookup(k, m)
            if f is None or f.cls is None or f.cls.name not in ('Axis', 'TraceRead'):
                continue
            lab = lab_(k, m)
            with c.attempt(lab):
                step = P(f.arg_names()[1]) if len(f.arg_names()) > 1 else ('const', 0)
                for r in c.walk(f, k, opaque={'step_offset'}, no_raise=RAWNR):
                    if r.outcome.kind != 'return':
                        continue
                    n = Num(r, zero_calls={'step_offset'})
                    whole = n(('call', 'len', (DATA,)))
                    v = n(r.outcome.value)
                    if v == whole:
                        stepped = null_fact(r, INFO) if k is ax else null_fact(r, A(SELF, 'axis'))
                        if m == '__len__':
                            stepped = stepped if k is ax else None
                        c.require(stepped is not False, R4, lab, 'a step is as long as all the data', r)
                    else:
                        c.require(v == off(n, r, base, step, 1) - off(n, r, base, step), R4, lab, f'the length of a step is {show(r.outcome.value)}', r)
        with c.attempt(lab_(k, 'get_point')):
            f = c.p.lookup(k, 'get_point')
            i, step = P(f.arg_names()[1]), P(f.arg_names()[2])
            for r in c.walk(f, k, opaque={'step_offset'}, no_raise=RAWNR):
                if r.outcome.kind != 'return':
                    continue
                point(c, R5, lab_(k, 'get_point'), r, base, i, step, k is tr)
    with c.attempt(lab_(ax, 'get_position')):
        get_position(c, ax, R6)
    with c.attempt(lab_(tr, 'get_point_at')):
        get_point_at(c, tr, R6, R5)
    k = c.p.cls('PlotData')
    with c.attempt(lab_(k, 'get_steps')):
        get_steps(c, k, R7)


def off(n, r, base, step, plus=0):
    s = n(step) + plus
    if s == 0:
        return n(('const', 0))
    return n.atom(('call', 'step_offset', n.key(base), (('#', s),), ()))


def step_offset(c, k, R1):
    f = c.p.lookup(k, 'step_offset')
    step = P(f.arg_names()[1])
    lab = lab_(k, 'step_offset')
    for r in c.walk(f, k, no_raise=RAWNR):
        if r.outcome.kind != 'return':
            continue
        n = Num(r)
        v = n(r.outcome.value)
        whole = n(('call', 'len', (DATA,)))
        at = n(('sub', OFFS, step))
        single, pos = null_fact(r, INFO), positive(r, step)
        if single is None:
            single = null_fact(r, OFFS)
        inside = below(r, n, step, ('call', 'len', (OFFS,)))
        if v == at and at not in (whole, 0):
            c.require(single is not True and inside is not False, R1, lab, 'a step border is taken where there is none', r)
        elif v == whole:
            caught = any(e.raised for e in r.events)
            c.require(single is True and pos is True or single is False and inside is False or caught or single is None and inside is not True and pos is not False, R1, lab, 'the border before a step is the end of the data', r)
        elif v == 0:
            c.require(single is not False and pos is not True and not (single is True and pos is None) or pos is False, R1, lab, 'the border before a later step is the beginning of the data', r)
        else:
            c.bad(R1, lab, f'the border before a step is {show(r.outcome.value)}', r)


def set_steps(c, k, R2, R8):
    f = c.p.lookup(k, 'set_steps')
    info = P(f.arg_names()[1])
    lab = lab_(k, 'set_steps')
    res = c.walk(f, k, no_raise=RAWNR, any_iteration=True)
    marks = 0
    for r in res:
        n = Num(r)
        it = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        sets = [(i, e) for i, e in enumerate(r.events) if e.kind == 'setitem' and e.recv == OFFS]
        apps = [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and e.recv == OFFS and e.name in LIST_ADD]
        w = [e for e in r.events if e.kind == 'write' and e.path == INFO]
        if r.outcome.kind != 'raise':
            c.require(len(w) == 1 and w[0].value == info, R2, lab, 'the steps are not kept', r)
        if apps or not sets:
            continue
        first = [e for i, e in sets if not it or i < it[0]]
        if first:
            c.require(n(first[0].path[2]) == 0 and n(first[0].value) == 0, R2, lab, 'the first step does not begin at the first sample', r)
        if it:
            e0 = r.events[it[0]]
            start = {('phi', a): v for a, v in (e0.start or {}).items()}
            # the position of the loop: the index compared with the first value
            eqs = [e for e in r.events[it[0]:] if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and n(('sub', DATA, ('const', 0))) in (n(e.lit[2]), n(e.lit[3]))
                   and contains(e.lit, DATA)]
            if not eqs and sets and any(e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'lt' and n(('sub', DATA, ('const', 0))) in (n(e.lit[2]), n(e.lit[3])) and contains(e.lit, DATA) for e in r.events[it[0]:]):
                c.bad(R2, lab, 'steps are not found by the first value occurring again', r)
            if len(eqs) != 1:
                continue
            el = eqs[0].lit[2] if n(eqs[0].lit[3]) == n(('sub', DATA, ('const', 0))) else eqs[0].lit[3]
            later = [e for i, e in sets if i > it[0]]
            if el[0] == 'sub' and el[1] == DATA:
                i = el[2]
            elif el[0] == 'elem':
                i = None
            else:
                continue
            if i is not None and i in start and start[i][0] == 'const':
                c.require(start[i] == ('const', 1) or start[i] == ('const', 0) and not first, R2, lab, f'the search for steps begins at sample {show(start[i])}', r)
            if r.outcome.kind == 'loopback' and i is not None and i[0] == 'phi':
                c.require(n(r.st.env[i[1]]) == n(i) + 1, R2, lab, 'samples are skipped in the search for steps', r)
            if eqs[0].pol:
                marks += 1
                for e in later:
                    c.require(i is None or n(e.value) == n(i), R2, lab, f'a step that begins at {show(i) if i else ""} is recorded at {show(e.value)}', r)
                    kk = e.path[2]
                    if kk[0] == 'phi':
                        c.require(any(y.kind == 'assume' and y.lit[0] == 'cmp' and kk in y.lit[2:4] for y in r.events), R8, lab, 'more steps than expected are an IndexError', r)
                    if kk in start:
                        c.require(start[kk] == ('const', 1), R2, lab, f'the second step is recorded as step {show(start[kk])}', r)
                    if r.outcome.kind == 'loopback' and kk[0] == 'phi':
                        c.require(n(r.st.env[kk[1]]) == n(kk) + 1, R2, lab, 'the steps are not numbered one after the other', r)
                if not later and r.outcome.kind == 'loopback':
                    # allowed only when there is no room: then the count must still go on
                    c.require(any(e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'lt' and (contains(e.lit, OFFS) or contains(e.lit, INFO) or contains(e.lit, info)) for e in r.events[it[0]:])
                              and any(v == ('phi', a) and n(r.st.env[a]) == n(v) + 1 for a, v in ((a, ('phi', a)) for a in (e0.start or {})) if ('phi', a) != i), R2, lab, 'a step is not recorded', r)
            else:
                c.require(not later, R2, lab, 'a step is recorded where none begins', r)
                if r.outcome.kind == 'loopback':
                    for a in (e0.start or {}):
                        if ('phi', a) != i and any(('phi', a) == e.path[2] for rr in res for e in rr.events if e.kind == 'setitem' and e.recv == OFFS):
                            c.require(r.st.env[a] == ('phi', a), R2, lab, 'steps are counted where none begins', r)
        if r.outcome.kind == 'return':
            okc = any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and (contains(e.lit, INFO) or contains(e.lit, info) or contains(e.lit, OFFS)) for e in r.events)
            c.require(okc, R8, lab, 'a wrong number of steps is accepted', r)
        elif r.outcome.kind == 'raise':
            c.ok(R8, lab)


def wave(c, R, lab, r, base, step, trace):
    if r.outcome.kind != 'return':
        return
    v = r.outcome.value
    n = Num(r, zero_calls={'step_offset'})
    b, s, t = n.span(v)
    if inconsistent(r):
        return
    if b != DATA:
        c.undecided.append(f'{lab}: returns {show(v)}')
        return
    ab = any(n.call_of(x) is not None and n.call_of(x).name in ('abs', 'absolute', 'fabs') for x in subvalues(v)) or any(x[0] == 'call' and x[1] == 'abs' for x in subvalues(v) if isinstance(x, tuple) and x)
    if ab:
        c.require(any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] in ('eq', 'in') and "'time'" in repr(e.lit) for e in r.events), R, lab, 'the sign of samples that are no times is lost', r)
    if trace and null_fact(r, A(SELF, 'axis')) is True:
        c.require(s == 0 and t == n(('call', 'len', (DATA,))), R, lab, f'without an axis the data is {show(v)}', r)
        return
    if not trace and null_fact(r, INFO) is True and s == 0 and t == n(('call', 'len', (DATA,))):
        return
    c.require(s == off(n, r, base, step), R, lab, f'the samples of a step begin at {show(v)}', r)
    c.require(t == off(n, r, base, step, 1), R, lab, f'the samples of a step end at {show(v)}', r)


def point(c, R, lab, r, base, i, step, trace):
    v = r.outcome.value
    n = Num(r, zero_calls={'step_offset'})
    if trace and null_fact(r, A(SELF, 'axis')) is True:
        c.require(n(v) in (n(('sub', DATA, i)), n(('sub', DATA, step))), R, lab, f'without an axis a point is {show(v)}', r)
        if n(v) == n(('sub', DATA, step)) and n(i) != 0 and n(v) != n(('sub', DATA, i)):
            c.bad(R, lab, f'without an axis a point is {show(v)}', r)
        return
    want = n.atom(('at', n.key(DATA), off(n, r, base, step) + n(i)))
    c.require(n(v) == want, R, lab, f'the point of a step is {show(v)}', r)


def get_position(c, k, R6):
    f = c.p.lookup(k, 'get_position')
    t, step = P(f.arg_names()[1]), P(f.arg_names()[2])
    lab = lab_(k, 'get_position')
    for r in c.walk(f, k, opaque={'step_offset'}, no_raise=RAWNR, any_iteration=True):
        if r.outcome.kind != 'return' or not any(e.kind == 'iter' for e in r.events):
            continue
        it = [e.value for e in r.events if e.kind == 'iter' and e.value is not None]
        if not it:
            continue
        seq = it[0]
        while seq[0] == 'call' and seq[1] == 'enumerate' and seq[2]:
            seq = seq[2][0]
        n = Num(r, zero_calls={'step_offset'})
        b, s, e_ = n.span(seq)
        if b == DATA:
            c.require(s == off(n, r, SELF, step) and e_ == off(n, r, SELF, step, 1), R6, lab, f'a position is searched in {show(seq)}', r)
        v = r.outcome.value
        if v == NONE:
            continue
        i = n(('idx', seq))
        x = lambda j: n.atom(('at', n.key(b), s + j))
        cur = ('elem', seq)
        exact = any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and {n(e.lit[2]), n(e.lit[3])} == {n(t), n(cur)} for e in r.events)
        if exact:
            c.require(n(v) == i, R6, lab, f'the position of a point of the axis is {show(v)}', r)
        else:
            want = i - 1 + (n(t) - x(i - 1)) / (x(i) - x(i - 1))
            c.require(n(v) == want, R6, lab, f'a position between two points is {show(v)}', r)
            c.require(below(r, n, t, cur) is True, R6, lab, 'a position is interpolated before the first larger point', r)


def get_point_at(c, k, R6, R5):
    f = c.p.lookup(k, 'get_point_at')
    t, step = P(f.arg_names()[1]), P(f.arg_names()[2])
    base = A(SELF, 'axis')
    lab = lab_(k, 'get_point_at')
    for r in c.walk(f, k, opaque={'step_offset', 'get_position'}, no_raise=RAWNR):
        if r.outcome.kind != 'return' or null_fact(r, base) is True:
            continue
        pc = [e for e in r.events if e.kind == 'call' and e.name == 'get_position']
        if not pc:
            continue
        c.require(pc[0].recv == base and pc[0].arg(0) == t and pc[0].arg(1, f.arg_names()[2]) == step, R6, lab, 'the position is searched in another step', r)
        pos = ('res', pc[0].n, 'get_position')
        n = Num(r, zero_calls={'step_offset'})
        v = r.outcome.value
        o = off(n, r, base, step)
        x = lambda j: n.atom(('at', n.key(DATA), o + j))
        ip = next((n(y) for y in [('call', 'int', (pos,))]), None)
        lin = x(ip) + (n(pos) - ip) * (x(ip + 1) - x(ip))
        V = n(v)
        if V == lin:
            # within the step: the next point belongs to it too
            last = below(r, n, ip + 1, off(n, r, base, step, 1) - o)
            c.require(last is True, R6, lab, 'a value is interpolated with a point of the next step', r)
        elif V in (x(ip), x(n(pos))):
            c.ok(R5, lab)
            if V == x(ip) and any(e.kind == 'assume' and e.pol and 'float' in repr(e.lit) for e in r.events):
                c.require(any(e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and (n(e.lit[2]) == n(pos) or n(e.lit[3]) == n(pos)) for e in r.events), R6, lab, 'a value between two points is not interpolated', r)
        else:
            c.bad(R6, lab, f'the value at a position is {show(v)}', r)


def get_steps(c, k, R7):
    f = c.p.lookup(k, 'get_steps')
    lab = lab_(k, 'get_steps')
    kw = ('param', '**' + f.node.args.kwarg.arg) if f.node.args.kwarg else None
    S = A(SELF, '_steps')
    res = c.walk(f, k, no_raise=RAWNR, any_iteration=True, unroll=1)
    for r in res:
        none = null_fact(r, S)
        n = Num(r)
        v = r.outcome.value
        if r.outcome.kind == 'return' and none is True:
            c.require(v in (('list', (('const', 0),)), ('tuple', (('const', 0),))) or v == ('call', 'range', (('const', 1),)), R7, lab, f'without steps the steps are {show(v)}', r)
            continue
        if r.outcome.kind == 'return' and any(e.kind == 'assume' and not e.pol and e.lit in (kw, ('truthy', kw)) for e in r.events) and not any(e.kind == 'iter' for e in r.events):
            if v[0] == 'call' and v[1] == 'range':
                c.require(len(v[2]) == 1 and n(v[2][0]) == n(('call', 'len', (S,))) or len(v[2]) == 2 and n(v[2][0]) == 0 and n(v[2][1]) == n(('call', 'len', (S,))), R7, lab, f'all steps are {show(v)}', r)
        its = [(i, e) for i, e in enumerate(r.events) if e.kind == 'iter']
        if not its or not any(contains(e.value, S) for _, e in its if e.value is not None):
            continue
        elem = ('elem', S)
        adds = [e for e in r.events if e.kind == 'call' and e.name == 'append' and not e.raised]
        neq = [e for e in r.events if e.kind == 'assume' and contains(e.lit, elem) and kw is not None and contains(e.lit, kw) and e.lit[0] == 'cmp' and e.lit[1] == 'eq']
        unknown = [e for e in r.events if e.kind == 'assume' and contains(e.lit, elem) and (e.lit[0] == 'isnone' or e.lit[0] == 'cmp' and e.lit[1] == 'is')]
        miss = any(not e.pol for e in neq) or any(e.pol for e in unknown) or any(e.kind == 'assume' and not e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'in' and e.lit[3] == elem for e in r.events)
        inner = [e for _, e in its if e.value is not None and kw is not None and contains(e.value, kw)]
        if not inner and not any(e.kind == 'loop0' and e.value is not None and kw is not None and contains(e.value, kw) for e in r.events):
            continue
        if miss:
            c.require(not adds, R7, lab, 'a step is given in which a parameter differs', r)
        elif inner and neq:
            c.require(len(adds) == 1, R7, lab, 'a step that matches is not given', r)
        outer = next(e for _, e in its if e.value is not None and contains(e.value, S))
        for e in adds:
            i = e.args[0]
            if i[0] == 'phi':
                c.require((outer.start or {}).get(i[1], ('const', 0)) == ('const', 0), R7, lab, 'steps are not numbered from 0', r)
            elif i != ('idx', S):
                c.bad(R7, lab, f'a step is given as {show(i)}', r)
    # the number of the step goes on with every step
    for r in res:
        for e in r.events:
            if e.kind == 'iter' and e.value == S:
                for a, s in (e.start or {}).items():
                    if s == ('const', 0) and any(x.kind == 'call' and x.name == 'append' and x.args and x.args[0] == ('phi', a) for rr in res for x in rr.events) and a in r.st.env and any(
                            x.kind == 'loopend' and x.value == S and x.name == 'done' for x in r.events):
                        n = Num(r)
                        c.require(n(r.st.env[a]) == n(('phi', a)) + 1, R7, lab, 'a step is not counted', r)
    # every step is looked at
    for r in res:
        if any(e.kind == 'loopend' and e.name == 'break' and e.value == S for e in r.events):
            c.bad(R7, lab, 'the search ends before the last step', r)
        for e in r.events:
            if e.kind == 'iter' and e.value is not None and kw is not None and contains(e.value, S) and e.value not in (S, ('call', 'enumerate', (S,))):
                c.bad(R7, lab, f'only the steps in {show(e.value)} are looked at', r)
