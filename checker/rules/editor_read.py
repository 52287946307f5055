"""Reading netlists: what the reader makes of the text (P17)."""
import ast
from .editor import *
from .editor_sub import is_fact, CIR, NONE_

NL = A(SELF, 'netlist')


def read_call(v):
    return isinstance(v, tuple) and v and v[0] == 'res' and v[2] in ('read', 'readline')


def has_const(l, *cs):
    return any(x == ('const', k) for x in subvalues(l) for k in cs)


@prop('P17', 'Reading a netlist keeps every line once, in order, as what it is',
      'Reading a netlist file puts every line up to .END, and the comments after it, into the circuit exactly once, in the order of the file: no character is lost except the line breaks (and plus signs) of continued lines. '
      'A line ends at a line break, unless it is continued with + or has an open brace or quote. A line is read as what its first word says, in upper or lower case: .SUBCKT to .ENDS as a sub-circuit, .CONTROL to .ENDC as a control '
      'section, .INC... as an include, a component letter as a component, X as a sub-circuit instance, * ; # as a comment. Only .END or .ENDS (not e.g. .ENDL) end a circuit.',
      ['inputs'],
      'any text of a netlist',
      'Tests read a few well-formed netlists; continuation lines, comments with odd characters, nested definitions and unusual commands are where lines get lost.',
      [CIR, ED + 'spice_file.py'],
      [dict(name='lines of the text', where=CIR + ':separate_lines'), dict(name='items of the circuit', where=CIR + ':SpiceCircuit._add_lines')],
      'The splitting loop is followed from an arbitrary state for one iteration: every character read has to be in what is yielded or in what is kept for the next iteration. Every path of the sorting loop has to put the line into the circuit once, as an object of the right class.',
      'path-sensitive dataflow (conservation of values in a loop from an arbitrary state)',
      'All paths of one iteration from any state. The text of the object classes is kept as given (checked with P12, P13).', [])
def p17(c: Ctx):
    R1 = c.rule('P17.chars', 'no character is lost between the file and the lines', 10)
    R2 = c.rule('P17.ends', 'a line ends at a line break that is not continued or enclosed', 4)
    R3 = c.rule('P17.once', 'every line is put into the circuit once', 8)
    R4 = c.rule('P17.kind', 'a line is read as what its first word says', 6)
    R5 = c.rule('P17.stop', 'only .END and .ENDS end a circuit', 2)
    R6 = c.rule('P17.case', 'commands are recognised in upper and lower case', 2)
    R7 = c.rule('P17.after', 'comments after .END are kept', 1)
    f = c.p.function(CIR, 'separate_lines')
    if f is not None:
        with c.attempt(f):
            split(c, f, R1, R2)
    k = c.p.cls('SpiceCircuit')
    with c.attempt('SpiceCircuit._add_lines'):
        sort_lines(c, k, R3, R4, R5)
    k = c.p.cls('ControlEditor')
    f = c.p.lookup(k, '_add_lines')
    lab = label(k, '_add_lines')
    with c.attempt(lab):
        it = P(f.arg_names()[1])
        paths, loops = c.walk_loops(f, k, opaque=OPQ, no_raise=NR)
        for r in [*paths, *loops]:
            if not any(e.kind == 'iter' for e in r.events):
                c.require(r.outcome.kind != 'return' or r.outcome.value == FALSE, R5, lab, 'a control section without .ENDC counts as complete', r)
                continue
            n = [e for e in r.events if e.kind in ('aug', 'write') and e.path is not None and contains(e.path, SELF) and contains(e.value, ('elem', it))]
            c.require(len(n) == 1 and (n[0].kind == 'aug' and n[0].op == '+' or contains(n[0].value, n[0].path) or contains(n[0].value, ('old', n[0].path))) or len(n) == 1 and n[0].kind == 'write' and any(isinstance(y, tuple) and y and y[0] == 'old' for y in subvalues(n[0].value)),
                      R3, lab, f'a line of a control section is kept {len(n)} times', r)
            if r.outcome.kind == 'return':
                c.require(is_fact(r, lambda l: has_const(l, '.ENDC') and uppers(l), True), R5, lab, 'a control section ends before .ENDC', r)
            else:
                c.require(not is_fact(r, lambda l: has_const(l, '.ENDC'), True), R5, lab, 'a control section goes on after .ENDC', r)
    g = c.p.function(CIR, 'get_line_command')
    if g is not None:
        with c.attempt(g):
            line = P(g.arg_names()[0])
            for r in c.walk(g, None, no_raise=NR, any_iteration=True):
                if r.outcome.kind != 'return' or not is_fact(r, lambda l: "'str'" in repr(l) or "str" in repr(l) and 'isinstance' in repr(l), True):
                    continue
                v = r.outcome.value
                if v[0] == 'const':
                    if v[1] == '*':
                        ok = [e for e in r.events if e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] in ('eq', 'in')]
                        c.require(any(e.lit[3][0] == 'const' and isinstance(e.lit[3][1], str) and set(e.lit[3][1]) <= set('#;*\n\r') or e.lit[3][0] in ('tuple', 'list', 'set') and all(x[0] == 'const' and set(str(x[1])) <= set('#;*\n\r') for x in e.lit[3][1])
                                      for e in ok), R4, g, 'a line that is no comment is read as one', r)
                elif derives(r, v, lambda y: y == line):
                    c.require(uppers(v), R6, g, f'a command is recognised in one letter case only: {show(v)}', r)
    for cn in ('SpiceFile',):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'reset_netlist')
        lab = label(k, 'reset_netlist')
        with c.attempt(lab):
            paths, loops = c.walk_loops(f, k, opaque=OPQ | {'_add_lines', 'get_line_command', 'separate_lines'}, no_raise=NR | {'_add_lines', 'get_line_command', 'separate_lines'})
            seen = 0
            for r in loops:
                its = [e for e in r.events if e.kind == 'iter']
                add = [e for e in r.events if e.kind == 'call' and e.name == '_add_lines']
                if not its or not add or not add[-1].args or add[-1].args[0] != its[-1].value:
                    continue
                el = ('elem', its[-1].value)
                kept = [e for e in r.events if e.kind == 'call' and e.recv == NL and e.name == 'append' and contains(e.args[0], el)]
                star = is_fact(r, lambda l: has_const(l, '*'), True)
                seen += star
                c.require(len(kept) == (1 if star else 0) or not star and len(kept) <= 1 and not is_fact(r, lambda l: has_const(l, '*'), False), R7, lab, 'a comment after the end of the netlist is not kept once' if star else 'a line after the end of the netlist gets in', r)
            # the text is read before it counts as read: _add_lines gets the separated lines of the file
            for r in paths:
                for e in r.events:
                    if e.kind == 'call' and e.name == '_add_lines' and is_fact(r, lambda l: 'exists' in repr(l), True):
                        a = e.args[0]
                        c.require(derives(r, a, lambda y: y[0] == 'res' and y[2] == 'separate_lines') and not any(isinstance(x, tuple) and x and x[0] == 'slice' for x in subvalues(a)), R3, lab, f'the circuit is read from {show(a)}', r)


def uppers(v):
    return any(isinstance(x, tuple) and x and x[0] == 'mcall' and x[2] in ('upper', 'casefold', 'lower') for x in subvalues(v))


def split(c, f, R1, R2):
    res = c.walk(f, None, no_raise=NR | {'read', 'readline'}, any_iteration=True)
    res = [r for r in res if any(e.kind == 'iter' for e in r.events)]
    ys = lambda r: [e.value for e in r.events if e.kind == 'yield']
    carried = {x for r in res for v in ys(r) for x in subvalues(v) if isinstance(x, tuple) and x and x[0] == 'phi'}
    # names whose value is, on some path, text read from the file
    carried |= {('phi', n) for r in res if r.outcome.kind == 'loopback' for n, v in r.st.env.items() if any(read_call(x) for x in subvalues(v)) and not (isinstance(v, tuple) and v[0] == 'grown')
                and any(contains(w, ('phi', n)) for rr in res for w in [*ys(rr), *[vv for nn, vv in rr.st.env.items() if ('phi', nn) in carried]])}
    if not c.require(bool(carried) or any(ys(r) for r in res), R1, f, 'no lines are made of the text'):
        return
    joined = []
    # open braces and quotes: other names the loop changes by the text
    states = {('phi', n) for r in res if r.outcome.kind == 'loopback' for n, v in r.st.env.items() if ('phi', n) not in carried and v != ('phi', n)
              and any(contains(e.lit, ('phi', n)) for rr in res for e in rr.events if e.kind == 'assume')}
    states |= {e.recv for r in res for e in r.events if e.kind == 'call' and e.name in LIST_MUT and e.recv is not None and e.recv[0] == 'phi'} - carried
    for r in res:
        if r.outcome.kind not in ('loopback', 'return'):
            continue
        reads = []
        for e in r.events:
            if e.kind == 'call' and e.name in ('read', 'readline'):
                reads.append(('res', e.n, e.name))
        out = ys(r)
        back = r.outcome.kind == 'loopback'
        # what the next iteration starts with: values of the names carried round the loop
        kept = out + ([v for n, v in r.st.env.items() if ('phi', n) in carried] if back else [])
        def known(v, val, pol=True):
            return any(e.kind == 'assume' and e.pol is pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and (e.lit[2] == v and e.lit[3] == ('const', val) or e.lit[3] == v and e.lit[2] == ('const', val)) for e in r.events) or \
                any(e.kind == 'assume' and e.pol is pol and e.lit[0] == 'cmp' and e.lit[1] == 'in' and e.lit[2] == v and has_const(e.lit[3], val) and pol and len(e.lit[3]) > 1 and (e.lit[3] == ('const', val) or e.lit[3][0] in ('tuple', 'list') and all(x[0] == 'const' for x in e.lit[3][1])) for e in r.events)
        def empty(v):
            return any(e.kind == 'assume' and (e.lit == v and not e.pol or not e.pol and e.lit[0] == 'truthy' and e.lit[1][0] == 'bin' and e.lit[1][1] == '+' and contains(e.lit, v) or e.lit == ('isnone', v) and e.pol or e.lit[0] == 'cmp' and e.lit[1] == 'eq' and e.pol and v in e.lit[2:4] and (('const', '') in e.lit[2:4] or NONE_ in e.lit[2:4])
                                                or e.lit == ('truthy', v) and not e.pol or e.lit[0] == 'cmp' and e.lit[1] == 'is' and e.pol and v in e.lit[2:4] and NONE_ in e.lit[2:4]) for e in r.events)
        sources = reads + sorted(carried & {x for e in r.events for q in (e.lit, e.value, *(e.args or ())) if q for x in subvalues(q) if isinstance(x, tuple)} | carried, key=repr)
        plus = any(known(v, '+') for v in sources)
        nl = [v for v in sources if known(v, '\n') or known(v, '\r')]
        for v in sources:
            if any(contains(x, v) for x in kept) or empty(v) or known(v, '+') and nl or plus and v in nl:
                c.ok(R1, f)
                continue
            if v[0] == 'phi' and v in kept:
                continue
            c.bad(R1, f, f'{show(v)} is lost', r)
        # no text twice
        for x in kept:
            for v in reads:
                c.require(sum(contains(y, v) for y in kept) <= 1, R1, f, f'{show(v)} is in two lines', r)
        star = [v for v in sources if known(v, '*')]
        if star and back and not any(v[2] == 'readline' for v in reads):
            c.require(any(e.kind == 'assume' and ('strip' in repr(e.lit) or 'isspace' in repr(e.lit)) and any(contains(e.lit, v) for v in carried) for e in r.events)
                      or any(e.kind == 'assume' and e.pol and any(contains(e.lit, v) for v in states) for e in r.events), R2, f, 'an indented comment is not read as a comment', r)
        if plus and back and len(nl) == 1:
            joined.append(any(n for n, v in r.st.env.items() if ('phi', n) in carried and v[0] == 'bin' and v[1] == '+' and v[2] == ('phi', n) and v[3][0] == 'const' and str(v[3][1]).isspace()))
        # where a line ends
        state = [e for e in r.events if e.kind == 'assume' and e.pol and (lambda l: l[0] == 'phi' and l not in carried or l[0] == 'truthy' and l[1][0] == 'phi' and l[1] not in carried)(e.lit)]
        if nl and back:
            first = min(nl, key=lambda v: next((i for i, e in enumerate(r.events) if e.kind == 'assume' and contains(e.lit, v)), 0))
            if state:
                c.require(not out, R2, f, 'a line is ended inside a brace or quote', r)
            elif plus:
                c.require(not out, R2, f, 'a continued line is ended', r)
            elif len(nl) >= 2:
                pass
            else:
                c.require(len(out) >= 1, R2, f, 'a line break does not end the line', r)
            if out:
                for v in states:
                    c.require(any(e.kind == 'assume' and contains(e.lit, v) for e in r.events), R2, f, 'a line is ended inside a brace or quote', r)
        elif back and out and not nl:
            com = any(known(v, k) for v in sources for k in '*;')
            c.require(com and any(v[2] == 'readline' for v in reads), R2, f, 'a line is ended where there is no line break', r)
            if any(known(v, '*') for v in sources):
                c.require(any(e.kind == 'assume' and any(contains(e.lit, v) for v in carried - set(nl)) and not any(known(v, '*') for v in carried if contains(e.lit, v)) for e in r.events), R2, f, 'a line is ended at a * that does not begin it', r)
    c.require(not joined or any(joined), R2, f, 'a continuation without a space is glued to the word before')


CLASSES = ('SpiceCircuit', 'ControlEditor', 'IncludeFile', 'SpiceCircuitInstance', 'SpiceComponent', 'Primitive')


def sort_lines(c, k, R3, R4, R5):
    f = c.p.lookup(k, '_add_lines')
    lab = label(k, '_add_lines')
    it = P(f.arg_names()[1])
    line = ('elem', it)
    nr = NR | {'_add_lines', 'get_line_command'}
    paths, loops = c.walk_loops(f, k, opaque=OPQ | {'_add_lines', 'get_line_command'}, no_raise=nr)
    kinds = set()
    for r in [*paths, *loops]:
        if not any(e.kind == 'iter' for e in r.events):
            if r.outcome.kind == 'return':
                c.require(r.outcome.value == FALSE, R5, lab, 'a circuit without .END or .ENDS counts as complete', r)
            continue
        if r.outcome.kind == 'raise':
            c.require(is_fact(r, lambda l: has_const(l, '+'), True), R3, lab, f'a line is refused: {r.outcome!r}', r)
            continue
        adds = [e for e in r.events if e.kind == 'call' and e.recv == NL and e.name in LIST_ADD and not e.raised]
        augs = [e for e in r.events if e.kind == 'aug' and e.path is not None and contains(e.path, NL) or e.kind in ('setitem', 'write') and e.path is not None and e.path[0] == 'sub' and e.path[1] == NL
                or e.kind == 'call' and e.recv is not None and e.recv[0] == 'sub' and e.recv[1] == NL and e.name == '__iadd__']
        def fact(*cs):
            return is_fact(r, lambda l: has_const(l, *cs) and derives(r, l, lambda y: y[0] == 'res' and y[2] == 'get_line_command' or y == line), True)
        inner = [e for e in r.events if e.kind == 'call' and e.name == '_add_lines']
        done = r.outcome.kind == 'loopbody' or r.outcome.value == TRUE
        if fact('+'):
            kinds.add('+')
            c.require(len(augs) == 1 and not adds and any(x == ('const', -1) or x == ('neg', ('const', 1)) for x in subvalues(augs[0].path or augs[0].recv)), R3, lab, 'a continuation line is not added to the line before it', r)
            continue
        if not done:
            c.require(bool(inner), R3, lab, 'a line ends the reading', r)
            continue
        if not c.require(len(adds) == 1 and not augs, R3, lab, f'a line is put into the circuit {len(adds) + len(augs)} times', r):
            continue
        e = adds[0]
        c.require(e.name == 'append', R3, lab, f'lines are put in with {e.name}', r, e.node)
        v = e.args[-1]
        ev = None
        if v == line:
            cls = 'comment'
        elif v[0] in ('res', 'obj'):
            ev = next((x for x in r.events if x.kind == 'call' and x.n == v[1]), None)
            cls = ev.name if ev is not None else None
        else:
            cls = None
        if cls not in CLASSES and cls != 'comment':
            c.note(f'{lab}: {show(v)} is not followed')
            continue
        want = 'SpiceCircuit' if fact('.SUBCKT') else 'ControlEditor' if fact('.CONTROL') else 'IncludeFile' if fact('.INC', '.INCLUDE') else None
        if want is None and is_fact(r, lambda l: 'VALID_PREFIXES' in repr(l), True):
            want = 'SpiceCircuitInstance' if fact('X') else 'SpiceComponent'
        kinds.add(cls)
        if want is not None:
            c.require(cls == want, R4, lab, f'a line that should be read as {want} is read as {cls}', r, e.node)
        elif cls in ('SpiceCircuit', 'ControlEditor', 'IncludeFile'):
            c.bad(R4, lab, f'another line is read as {cls}', r, e.node)
        else:
            c.ok(R4, lab)
        if cls == 'SpiceCircuit':
            put = [x for x in r.events if x.kind == 'call' and x.name == 'append' and x.recv is not None and contains(x.recv, v)]
            first = put and derives(r, put[0].args[0], lambda y: y == line)
            c.require(len(put) == 1 and first and inner and inner[0].recv == v and inner[0].args[:1] == (it,) and r.events.index(put[0]) < r.events.index(inner[0]), R3, lab, 'the lines of a sub-circuit do not go into it', r, e.node)
            if ev is not None:
                c.require(SELF in (ev.args or ()) or any(x == SELF for _, x in ev.kw or ()), R4, lab, 'a sub-circuit does not know its circuit', r, e.node)
        elif ev is not None:
            c.require(any(x == line for _, x in ev.kw or ()) or line in (ev.args or ()), R3, lab, 'an item does not have the text of its line', r, e.node)
            c.require(any(x == SELF for _, x in ev.kw or ()) or SELF in (ev.args or ()), R4, lab, 'an item does not know its circuit', r, e.node)
            if cls == 'ControlEditor':
                c.require(len(inner) == 1 and inner[0].recv == v and inner[0].args[:1] == (it,), R3, lab, 'the lines of a control section do not go into it', r, e.node)
        # the end
        ends = [x for x in r.events if x.kind == 'assume' and has_const(x.lit, '.END', '.ENDS') and x.pol]
        if r.outcome.kind == 'return':
            c.require(bool(ends) and all(x.lit[1] in ('eq', 'in') if x.lit[0] == 'cmp' else False for x in ends) and all(y in (('const', '.END'), ('const', '.ENDS')) for x in ends if x.lit[0] == 'cmp' and x.lit[3][0] in ('tuple', 'list', 'set') for y in x.lit[3][1]), R5, lab,
                      'a line other than .END or .ENDS ends the circuit', r)
        else:
            c.require(not ends, R5, lab, '.END or .ENDS does not end the circuit', r)
            if cls == 'Primitive':
                no = [x.lit for x in r.events if x.kind == 'assume' and not x.pol]
                c.require(all(any(has_const(l, w) for l in no) for w in ('.END', '.ENDS')), R5, lab, '.END or .ENDS does not end the circuit', r)
    for x in ('SpiceCircuit', 'ControlEditor', 'IncludeFile', 'SpiceCircuitInstance', 'SpiceComponent'):
        if x not in kinds:
            c.note(f'{lab}: no path for {x}')
