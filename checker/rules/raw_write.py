"""RAW files: what is written is what the header announces (P19)."""
from .util import *
from .raw_data import Nums, iscall, arg, plain
from .raw_steps import lab_, RC
from ..paths import show

RW = 'spicelib/raw/raw_write.py'
TR = A(SELF, '_traces')
QUIET = {'_consolidate', 'open', 'write', 'close', 'astype', 'tobytes', 'encode', 'strftime', 'append', 'flush', 'writelines', 'join', 'getvalue'}
WIDTH = {'float64': 'd', 'double': 'd', 'float32': 'f', 'single': 'f', 'complex128': 'D', 'cdouble': 'D', 'complex64': 'F', '<f8': 'd', '<f4': 'f', '<c16': 'D', 'f8': 'd', 'f4': 'f', 'c16': 'D', 'float': 'd', 'complex': 'D', 'd': 'd', 'f': 'f', 'float16': 'e'}


@prop('P19', 'A written RAW file contains what its header announces',
      'RawWrite.save() writes a header with the number of traces, the number of points and one line (index, name, type) per trace in their order, and then the data of these traces in the same order, all of one trace after the other if '
      'the flags say fastaccess and all of one point after the other if not. Each value is written in the type the flags announce: double complex with "complex", else double for the first trace or with "double", else float. '
      'Data imported with another axis is merged before; imported traces are those of the step asked for. add_trace() refuses a trace with another number of points.',
      ['inputs', 'histories'],
      'any set of traces and any flags',
      'Tests write a few files of one kind; each combination of types, layout and imported data has a path of its own.',
      [RW, RC],
      [dict(name='RawWrite.save', where=RW + ':RawWrite.save'), dict(name='RawWrite.add_trace', where=RW + ':RawWrite.add_trace')],
      'The sequence of writes on every path of save() (helpers included) is compared with the header written on the same path: counts, order, layout against the fastaccess flag and sample type against the type flags.',
      'path-sensitive dataflow over the sequence of writes',
      'All paths; loops by one iteration from any state.', [])
def p19(c: Ctx):
    R1 = c.rule('P19.counts', 'the header has the numbers of traces and points', 2)
    R2 = c.rule('P19.names', 'one line with index, name and type per trace, in their order', 1)
    R3 = c.rule('P19.layout', 'the data is laid out as the fastaccess flag says', 2)
    R4 = c.rule('P19.type', 'values are written in the type that the flags announce', 2)
    R5 = c.rule('P19.order', 'header, then the data of all traces in the order of the header', 2)
    R6 = c.rule('P19.merge', 'imported data is merged before anything is written', 1)
    R7 = c.rule('P19.length', 'a trace of another length is refused', 1)
    k = c.p.cls('RawWrite')
    with c.attempt(lab_(k, 'save')):
        save(c, k, R1, R2, R3, R4, R5, R6)
    with c.attempt(lab_(k, 'add_trace')):
        add(c, k, R7)
    R8 = c.rule('P19.import', 'traces of another file come from the step asked for, and that file is left alone', 4)
    with c.attempt(lab_(k, 'add_traces_from_raw')):
        imports(c, k, R8)
    with c.attempt(lab_(k, '_consolidate')):
        merge(c, k, R8)


def pieces(v):
    """texts and values that a text is put together from"""
    if v[0] == 'const':
        return [v[1]] if isinstance(v[1], str) else [v]
    if v[0] == 'fstr':
        return [y for x in v[1] for y in pieces(x)]
    if v[0] == 'fmt':
        return [v[1]]
    if v[0] == 'bin' and v[1] == '+':
        return pieces(v[2]) + pieces(v[3])
    if v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
        return [v[2][0]]
    if v[0] == 'mcall' and v[2] == 'join' and v[1][0] == 'const' and v[3] and v[3][0][0] in ('list', 'tuple', 'grown'):
        out = []
        items = v[3][0][2] if v[3][0][0] == 'grown' else v[3][0][1]
        for i, x in enumerate(items):
            if i:
                out.append(v[1][1])
            out += pieces(x)
        return out
    return [v]


def lines(ps):
    """lists of pieces, one per complete line"""
    out, cur = [], []
    for p in ps:
        if isinstance(p, str):
            while '\n' in p:
                a, p = p.split('\n', 1)
                out.append(cur + ([a] if a else []))
                cur = []
            if p:
                cur.append(p)
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    return out


def loops(r, i):
    """the loops that the event is in, outermost first: (node, sequence)"""
    stack = []
    for e in r.events[:i]:
        if e.kind == 'iter':
            stack = [x for x in stack if x[0] is not e.node] + [(e.node, e.value)]
        elif e.kind in ('loopend', 'loopback'):
            stack = [x for x in stack if x[0] is not e.node]
    return stack


def datum(n, v):
    """(DataSet element, type or None, index or None) of the bytes of data"""
    e = n.call_of(v)
    if e is None or e.name != 'tobytes' or e.recv is None:
        return None
    b, typ, at = e.recv, None, None
    for _ in range(6):
        y = n.call_of(b)
        if y is not None and y.name == 'astype' and y.recv is not None and typ is None:
            typ = arg(y, 0, 'dtype')
            b = y.recv
        elif b[0] == 'sub' and at is None and b[2][0] != 'slice':
            at = b[2]
            b = b[1]
        elif b[0] == 'attr' and b[2] == 'data':
            return b[1], typ, at
        elif y is not None and y.name in ('get_wave',) and not y.args and y.recv is not None:
            return y.recv, typ, at
        else:
            return None
    return None


def width(t):
    if t is None:
        return None
    if t[0] in ('global', 'const'):
        return WIDTH.get(str(t[1]).split('.')[-1])
    if t[0] == 'attr':
        return WIDTH.get(t[2])
    if t[0] == 'call' and t[1] in ('dtype',) or t[0] == 'mcall' and t[2] == 'dtype':
        return width((t[2] if t[0] == 'call' else t[3])[0])
    return None


def bare(l):
    """the parts of a condition outside of comprehensions"""
    if isinstance(l, tuple):
        if l and l[0] == 'comp':
            return
        if l and isinstance(l[0], str):
            yield l
        for x in l:
            yield from bare(x)


def contradictory(r):
    """the same question is answered in two ways although nothing of the object changed in between"""
    seen = {}
    for e in r.events:
        if e.kind == 'assume' and not any(x[0] in ('idx', 'elem') for x in bare(e.lit)):
            if seen.setdefault(e.lit, e.pol) != e.pol:
                return True
        elif e.kind == 'write':
            seen.clear()
    return False


def save(c, k, R1, R2, R3, R4, R5, R6):
    f = c.p.lookup(k, 'save')
    lab = lab_(k, 'save')
    for r in c.walk(f, k, any_iteration=True, opaque={'_consolidate'}, no_raise=QUIET):
        if r.outcome.kind != 'return' or contradictory(r) or impossible(r):
            continue
        n = Nums(r)
        fact = {}
        for e in r.events:
            if e.kind == 'assume':
                fact.setdefault(e.lit[1] if e.lit[0] == 'truthy' else e.lit, e.pol)
        opened = [e for e in r.events if e.kind == 'call' and e.name == 'open']
        files = {('res', e.n, 'open') for e in opened} | {P('filename')}
        merged = [i for i, e in enumerate(r.events) if iscall(e, '_consolidate')]
        pending = fact.get(A(SELF, '_imported_data'))
        out = []   # (index, 'text', line) or (index, 'data', datum)
        known = True
        for i, e in enumerate(r.events):
            if e.kind != 'call' or e.name not in ('write', 'writelines') or not e.args or e.recv is None or strip_old(e.recv) not in files and not any(contains(e.recv, x) for x in files):
                continue
            v = e.args[0]
            y = n.call_of(v)
            if e.name == 'write' and y is not None and y.name == 'encode' and y.recv is not None:
                enc = arg(y, 0, 'encoding')
                c.require(enc == A(SELF, 'encoding'), R5, lab, 'text is written in another encoding', r)
                for ln in lines(pieces(y.recv)):
                    out.append((i, 'text', ln))
            elif e.name == 'write' and v[0] == 'mcall' and v[2] == 'encode':
                for ln in lines(pieces(v[1])):
                    out.append((i, 'text', ln))
            elif datum(n, v) is not None:
                out.append((i, 'data', datum(n, v)))
            else:
                known = False
        if not out:
            continue
        if pending is not False:
            late = [m for m in merged if m > out[0][0]]
            c.require(merged and not late, R6, lab, 'the header is written before imported data is merged', r)
        if not known:
            continue
        starts = {str(ln[0]).split(':')[0]: ln for _, kind, ln in out if kind == 'text' and ln and isinstance(ln[0], str)}
        for key, good in (('No. Variables', [n(('call', 'len', (TR,)))]), ('No. Points', [n(('call', 'len', (('sub', TR, ('const', 0)),))), n(('call', 'len', (A(('sub', TR, ('const', 0)), 'data'),)))])):
            ln = starts.get(key)
            if ln is None:
                c.bad(R1, lab, f'no line "{key}" is written', r)
                continue
            vals = [x for x in ln if not isinstance(x, str)]
            if len(vals) == 1:
                c.require(any(n(vals[0]) == g for g in good), R1, lab, f'{show(vals[0])} is written as {key}', r)
        for key in ('Title', 'Plotname', 'Flags', 'Command', 'Variables', 'Binary'):
            c.require(key in starts, R1, lab, f'no line "{key}" is written', r)
        plotname = [x for x in starts.get('Plotname', ()) if not isinstance(x, str)]
        if plotname:
            c.require(plotname == [A(SELF, 'plot_name')], R1, lab, 'another plot name is written', r)
        binary = [j for j, (_, kind, ln) in enumerate(out) if kind == 'text' and ln == ['Binary:']]
        if not binary:
            continue
        c.require(all(kind == 'text' for _, kind, _ in out[:binary[0]]) and all(kind == 'data' for _, kind, _ in out[binary[0] + 1:]), R5, lab, 'data and header are mixed', r)
        data = [(i, d) for i, kind, d in out[binary[0] + 1:] if kind == 'data']
        # the lines of the variables
        var = [j for j, (_, kind, ln) in enumerate(out) if kind == 'text' and ln == ['Variables:']]
        named = []
        for i, kind, ln in out[var[0] + 1:binary[0]] if var else ():
            text = [p for x in ln for p in ([y for z in x.split('\t') for y in (z, '\t')][:-1] if isinstance(x, str) else [x])]
            cells, cur = [], []
            for p in text:
                if p == '\t':
                    cells.append(cur)
                    cur = []
                elif p != '':
                    cur.append(p)
            cells.append(cur)
            while cells and not cells[0]:
                cells.pop(0)
            if any(not isinstance(p, str) and (p[0] in ('phi', 'mcall', 'call', 'res', 'comp') or any(z[0] == 'comp' for z in subvalues(p))) for p in ln):
                continue
            if len(cells) < 3 or any(len(x) != 1 for x in cells[:3]):
                c.bad(R2, lab, f'a variable is announced with {len(cells)} columns', r)
                continue
            x = cells[1][0]
            o = x[1] if x[0] == 'attr' and x[2] == 'name' else None
            c.require(o is not None, R2, lab, f'{show(x) if not isinstance(x, str) else x} is written for the name', r)
            c.require(cells[2][0] == A(o, 'whattype') if o is not None else True, R2, lab, 'another type is written', r)
            if o is not None and o[0] == 'elem':
                named.append(o)
                b, s = n.seq(o[1])
                if b == TR or contains(b, TR):
                    c.require(b == TR and s == 0, R2, lab, f'the traces are announced in the order of {show(o[1])}', r)
                    at = cells[0][0]
                    c.require(at == ('idx', o[1]) or at[0] not in ('idx', 'const', 'bin'), R2, lab, f'{show(at) if not isinstance(at, str) else at} is written for the index', r)
        # type flags on this path
        flags = [x for x in starts.get('Flags', ()) if not (isinstance(x, str) and x.startswith('Flags'))]
        words = set()
        opaque = False
        for x in flags:
            if isinstance(x, str):
                words |= set(x.split())
            elif x != A(SELF, 'flag_numtype'):
                opaque = True
        if isinstance(starts.get('Flags', [''])[0], str):
            words |= set(starts['Flags'][0].partition(':')[2].split()) if 'Flags' in starts else set()
        if not opaque:
            c.require(any(x == A(SELF, 'flag_numtype') for x in flags) or words & {'real', 'complex', 'double'}, R4, lab, 'no flag announces the type of the values', r)
        numtype = {}
        for l, p in fact.items():
            if l[0] == 'cmp' and l[1] == 'eq' and A(SELF, 'flag_numtype') in l[2:4]:
                w = l[3] if l[2] == A(SELF, 'flag_numtype') else l[2]
                if w[0] == 'const':
                    numtype[w[1]] = p
        if sum(1 for p in numtype.values() if p) > 1:
            continue   # cannot be two things
        is_complex = numtype.get('complex', False if any(numtype.values()) else None)
        is_double = 'double' in words or numtype.get('double') is True
        for i, (x, typ, at) in data:
            ls = loops(r, i)
            if x[0] != 'elem':
                continue
            b, s = n.seq(x[1])
            if b != TR:
                continue
            outer = [j for j, (_, q) in enumerate(ls) if q is not None and (n.seq(plain(q))[0] == TR or plain(q)[0] == 'comp' and contains(plain(q), TR))]
            if not outer:
                continue
            c.require(s == 0, R5, lab, 'data of the first traces is not written', r)
            if named:
                c.require(all(n.seq(o[1]) == (b, s) for o in named), R5, lab, 'data is written in another order than announced', r)
            point = [j for j, (_, q) in enumerate(ls) if q is not None and at is not None and at in (('elem', q), ('idx', plain(q)))]
            if at is None:
                layout = 'fast'
                inner = [j for j, (_, q) in enumerate(ls) if j != outer[-1]]
                if inner and not opaque:
                    c.bad(R3, lab, 'all of a trace is written more than once', r)
                    continue
            elif point:
                layout = 'normal' if point[-1] < outer[-1] else 'fast'
                q = ls[point[-1]][1]
                if q[0] == 'call' and q[1] == 'range':
                    good = len(q[2]) == 1 and any(n(q[2][0]) == n(('call', 'len', (z,))) for z in (('sub', TR, ('const', 0)), A(('sub', TR, ('const', 0)), 'data'), x, A(x, 'data')))
                    if len(q[2]) > 1 and not (len(q[2]) == 2 and q[2][0] == ('const', 0)) or len(q[2]) == 1 and not any(z[0] == 'phi' for z in subvalues(q)):
                        c.require(good, R5, lab, f'the points of {show(q)} are written', r)
            else:
                continue
            if not opaque:
                c.require(('fastaccess' in words) == (layout == 'fast'), R3, lab,
                          f'data is written {"trace by trace" if layout == "fast" else "point by point"}, the flags {"have" if "fastaccess" in words else "do not have"} fastaccess', r)
            # type
            w = width(typ)
            if typ is None:
                c.bad(R4, lab, 'values are written in whatever type the trace has', r)
                continue
            if w is None or opaque:
                continue
            firstv = None
            for e in r.events[:i]:
                if e.kind == 'assume':
                    l = e.lit[1] if e.lit[0] == 'truthy' else e.lit
                    if l == ('idx', x[1]):
                        firstv = not e.pol
                    elif l[0] == 'cmp' and l[1] in ('eq', 'is'):
                        if set(l[2:4]) == {('idx', x[1]), ('const', 0)} or set(l[2:4]) == {x, ('sub', TR, ('const', 0))}:
                            firstv = e.pol
                    elif l[0] == 'cmp' and l[1] == 'lt' and l[2] == ('const', 0) and l[3] == ('idx', x[1]):
                        firstv = not e.pol
            if is_complex is True:
                c.require(w == 'D', R4, lab, 'values of a complex file are written in another type', r)
            elif is_complex is False or w == 'D' and numtype:
                if is_complex is None and w == 'D':
                    continue
                want = 'd' if firstv or is_double else 'f' if firstv is False else None
                if want is None:
                    c.bad(R4, lab, f'the first value of each point is written like the others', r) if not is_double else None
                    continue
                c.require(w == want, R4, lab, f'{"the first value" if firstv else "a value"} is written as {show(typ)}, the flags {"have" if is_double else "do not have"} double', r)
        # a trace that is left out
        if data:
            continue
        for i, e in enumerate(r.events):
            if e.kind == 'iter' and i > out[binary[0]][0] and e.value is not None and n.seq(plain(e.value))[0] == TR:
                c.bad(R5, lab, 'the data of a trace is not written', r)


def add(c, k, R7):
    f = c.p.lookup(k, 'add_trace')
    lab = lab_(k, 'add_trace')
    t = P(f.arg_names()[1])
    for r in c.walk(f, k, any_iteration=True):
        if impossible(r):
            continue
        n = Nums(r)
        added = [e for e in r.events if iscall(e, 'append', 'extend', 'insert') and strip_old(e.recv) == TR]
        empty = same = None
        for e in r.events:
            if e.kind != 'assume':
                continue
            l, p = (e.lit[1] if e.lit[0] == 'truthy' else e.lit), e.pol
            if l in (TR, ('call', 'len', (TR,))):
                empty = not p
            elif l[0] == 'cmp' and l[1] == 'eq' and ('const', 0) in l[2:4] and ('call', 'len', (TR,)) in l[2:4]:
                empty = p
            elif l[0] == 'cmp' and l[1] in ('lt',) and l[2] == ('const', 0) and l[3] == ('call', 'len', (TR,)):
                empty = not p
            elif l[0] == 'cmp' and l[1] == 'eq' and all(x[0] == 'call' and x[1] == 'len' for x in l[2:4]):
                got = {x[2][0][1] if x[2][0][0] == 'attr' and x[2][0][2] == 'data' else x[2][0] for x in l[2:4]}
                if t in got and any(contains(x, TR) for x in got):
                    same = p
            elif contains(l, t) and l[0] == 'cmp' and any(x[0] == 'call' and x[1] == 'len' for x in l[2:4]):
                same = same if same is not None else '?' if l[1] != 'lt' else None
        if added:
            c.require(empty is True or same in (True, '?'), R7, lab, 'a trace is added whose length is not that of the first one', r)
            c.require(all(contains(e.args[-1], t) for e in added), R7, lab, 'something else is added', r)
        elif r.outcome.kind == 'return':
            c.bad(R7, lab, 'a trace is not added', r)
        elif r.outcome.kind == 'raise' and 'IndexError' in show(r.outcome.value or ()):
            c.require(same is not True and empty is not True, R7, lab, 'a trace of the right length is refused', r)
        for i, e in enumerate(r.events):
            if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'in' and strip_old(e.lit[3]) == A(SELF, 'plot_name'):
                c.require(any(y.kind == 'assume' and (y.lit[1] if y.lit[0] == 'truthy' else y.lit) == A(SELF, 'plot_name') and y.pol or y.kind == 'assume' and NONE in y.lit[1:] and contains(y.lit, A(SELF, 'plot_name')) and not y.pol
                              for y in r.events[:i]), R7, lab, 'a trace is refused when there is no plot name', r)


def imports(c, k, R8):
    f = c.p.lookup(k, 'add_traces_from_raw')
    lab = lab_(k, 'add_traces_from_raw')
    other = P(f.arg_names()[1])
    for r in c.walk(f, k, any_iteration=True, opaque={'get_trace', 'get_axis', 'get_wave', 'get_raw_property', '_rename_netlabel', 'Trace'}, no_raise={'get_trace', 'get_axis', 'get_wave', 'get_raw_property', '_rename_netlabel', 'Trace', 'append', 'format'},
                    inline_typed=False):
        n = Nums(r)
        traces = {('res', e.n, 'get_trace') for e in r.events if iscall(e, 'get_trace') and e.recv == other}
        step = None
        for e in r.events:
            for x in [e.value, e.recv] + list(e.args or ()) + [v for _, v in e.kw or ()]:
                for z in subvalues(x) if x is not None else ():
                    if z[0] == 'mcall' and z[2] == 'get' and z[3] and z[3][0] == ('const', 'step'):
                        step = z
                        c.require(len(z[3]) == 2 and z[3][1] == ('const', 0), R8, lab, 'the step by default is not the first one', r)
        for e in r.events:
            if e.kind == 'write' and e.path is not None and any(contains(e.path, t) for t in traces | {other}):
                c.bad(R8, lab, 'a trace of the other file is changed', r)
            if iscall(e, 'get_wave', 'get_axis') and (e.recv in traces or e.recv == other):
                a = arg(e, 0 if e.recv in traces or e.name == 'get_axis' else 1, 'step')
                if a is None or step is not None and a != step and a[0] != 'res':
                    c.bad(R8, lab, 'the data of another step is imported', r)
                elif step is not None:
                    c.ok(R8, lab)
            if iscall(e, 'append') and strip_old(e.recv) == A(SELF, '_imported_data') and e.args:
                if step is not None and e.args[0][0] in ('tuple', 'list', 'dict'):
                    c.require(contains(e.args[0], step), R8, lab, 'the step is not kept for the import', r)
                elif e.args[0] in traces:
                    c.bad(R8, lab, 'the step is not kept for the import', r)


def merge(c, k, R8):
    f = c.p.lookup(k, '_consolidate')
    lab = lab_(k, '_consolidate')
    D = A(SELF, '_imported_data')
    for r in c.walk(f, k, any_iteration=True, opaque={'get_wave', '_interpolate', 'Trace'}, no_raise={'get_wave', '_interpolate', 'Trace', 'append', 'clear'}, inline_typed=False):
        steps = []
        for e in r.events:
            if e.kind == 'write' and e.path is not None and contains(e.path, ('elem', D)):
                c.bad(R8, lab, 'a trace of the other file is changed', r)
            if iscall(e, 'get_wave') and e.recv is not None and contains(e.recv, ('elem', D)):
                a = arg(e, 0, 'step')
                c.require(a is not None and contains(a, ('elem', D)), R8, lab, 'the data of the first step is imported', r)
                steps.append(a)
        if steps and None not in steps:
            c.require(len(set(steps)) == 1, R8, lab, 'axis and data of an import are those of different steps', r)
