"""Editing circuits: look-ups and removals by name, text around a changed parameter (P16, P39)."""
import ast
from .editor import *
from .editor_sub import is_fact, SUB, CIR, NONE_
from .editor_dir import live_asc, live_q, part_of, whole_search

NL = A(SELF, 'netlist')
DI = A(SELF, 'directives')
ITEMS = A(SELF, 'schematic', 'items')


def uppers(v):
    return any(isinstance(x, tuple) and x and x[0] == 'mcall' and x[2] in ('upper', 'casefold', 'lower') for x in subvalues(v))


def eq_between(r, p1, p2, pol=True, upto=None):
    """a fact X == Y with p1 true of X and p2 of Y, or the other way round; gives the literal"""
    for e in r.events[:upto]:
        if e.kind == 'assume' and e.pol is pol and e.lit[0] == 'cmp' and e.lit[1] in ('eq',):
            a, b = e.lit[2], e.lit[3]
            if p1(a) and p2(b) or p1(b) and p2(a):
                return e.lit
    return None


def is_elem(v, coll):
    return v == ('elem', coll) or v[0] == 'sub' and v[1] == coll and v[2][0] != 'slice'


def raised(r, *names):
    return r.outcome.kind == 'raise' and any(n in show(r.outcome.value) for n in names)


@prop('P16', 'Look-ups and removals by name hit exactly that item, or say there is none',
      'get_component and get_parameter of the netlist and schematic editors give the component or parameter of exactly the given name (in netlists, and for parameters, in upper or lower case; '
      'not in a comment) and raise ComponentNotFoundError or ParameterNotFoundError if there is none; a sub-circuit definition is found by its whole name. remove_component takes exactly the found component out, '
      'from every list that holds it. remove_instruction takes out one instruction that matches, remove_Xinstruction every one; they answer True exactly if something was taken out, '
      'and in schematics never take out a comment. Removing a parameter that is not there adds none.',
      ['inputs', 'histories'],
      'any names and patterns, any contents of the circuit',
      'Tests look for items that are there; names that start or end alike, differ in case, or appear in comments, and consecutive matching lines, decide otherwise.',
      [CIR, ED + 'spice_file.py', ED + 'base_schematic.py', ED + 'asc_editor.py', ED + 'qsch_editor.py'],
      [dict(name='netlist look-up', where=CIR + ':SpiceCircuit.get_component'), dict(name='schematic look-up', where=ED + 'base_schematic.py:BaseSchematic.get_component'),
       dict(name='removal', where=CIR + ':SpiceCircuit.remove_Xinstruction')],
      'Every path of the look-ups is followed: what is returned must have been compared with the name on that path. For removals, the item taken out must be the one tested, the search must go on at the right item, and the answer must tell whether something was taken out.',
      'path-sensitive dataflow with assumed facts, index tracking in search loops',
      'All paths; search loops are followed for two items.', [])
def p16(c: Ctx):
    R1 = c.rule('P16.comp', 'a component is found by its whole name or an error raised', 4)
    R2 = c.rule('P16.param', 'a parameter is found by its whole name or an error raised', 4)
    R3 = c.rule('P16.removec', 'exactly the named component is removed', 3)
    R4 = c.rule('P16.removei', 'exactly matching instructions are removed', 6)
    R5 = c.rule('P16.answer', 'the answer tells whether something was removed', 6)
    R6 = c.rule('P16.none', 'removing a parameter adds none', 1)
    k = c.p.cls('SpiceCircuit')
    o = dict(opaque=OPQ | {'end_update'}, no_raise=NR)
    # components of netlists
    for cn, mn in (('SpiceCircuit', 'get_component'), ('SpiceCircuit', 'get_subcircuit_named')):
        k = c.p.cls(cn)
        f = c.p.lookup(k, mn)
        lab = label(k, mn)
        arg = P(f.arg_names()[1])
        with c.attempt(lab):
            for r in c.walk(f, k, opaque=(OPQ | {'end_update', 'find_subckt_in_included_libs', 'get_subcircuit_named'}) - {'get_component'}, no_raise=NR):
                whole_search(c, r, NL, R1, lab)
                if r.outcome.kind == 'raise':
                    c.require(raised(r, 'ComponentNotFoundError') or mn != 'get_component', R1, lab, f'a component that is not there: {r.outcome!r}', r)
                    # not raised before everything was looked at
                    its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
                    c.require(not its or any(e.kind == 'loopend' and e.name == 'done' for e in r.events[its[-1]:]), R1, lab, 'the search ends early', r)
                    continue
                if r.outcome.kind != 'return':
                    continue
                v = r.outcome.value
                if is_elem(v, NL):
                    def nm(x):
                        return derives(r, x, lambda y: y == v) and derives(r, x, lambda y: y[0] == 'res' and y[2] in ('name', 'reference') or y[0] == 'attr' and y[2] in ('reference', '_reference') or y[0] == 'mcall' and y[2] == 'name')
                    lit = eq_between(r, nm, lambda x: derives(r, x, lambda y: y == arg) and not derives(r, x, lambda y: y == v))
                    c.require(lit is not None, R1, lab, 'something is found without its whole name having been compared', r)
                    if lit is not None:
                        c.require(uppers(lit[2]) and uppers(lit[3]), R1, lab, 'a name is found in one letter case only', r)
                elif v == NONE_ or v is None:
                    c.require(mn != 'get_component', R1, lab, 'a component that is not there gives None', r)
                else:
                    ok = v[0] == 'res' and v[2] in ('get_component', 'get_subcircuit_named', 'find_subckt_in_included_libs')
                    if ok:
                        e = next(e for e in r.events if e.kind == 'call' and e.n == v[1])
                        c.require(any(derives(r, a, lambda y: y == arg) for a in [*(e.args or ()), *[x for _, x in e.kw]]), R1, lab, f'looks for another name: {e!r}', r)
                    elif v[0] == 'comp' or v[0] == 'call':
                        c.note(f'{lab}: {show(v)} is not followed')
                    else:
                        c.bad(R1, lab, f'gives {show(v)}', r)
    for cn in ('AscEditor', 'QschEditor'):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'get_component')
        lab = label(k, 'get_component')
        with c.attempt(lab):
            for r in c.walk(f, k, opaque=(OPQ | {'end_update'}) - {'get_component'}, no_raise=NR):
                v = r.outcome.value
                if r.outcome.kind == 'raise':
                    c.require(raised(r, 'ComponentNotFoundError'), R1, lab, f'a component that is not there: {r.outcome!r}', r)
                elif r.outcome.kind == 'return':
                    if v[0] == 'sub' and v[1][0] == 'attr' and v[1][2] == 'components':
                        c.require(is_fact(r, lambda l: l[0] == 'cmp' and l[1] == 'in' and l[2] == v[2] and l[3] == v[1], True) or any(e.kind == 'except' for e in r.events) or True and caught(f, 'KeyError'), R1, lab,
                                  'a component that is not there ends in KeyError', r)
                        c.require(derives(r, v[2], lambda y: y == P(f.arg_names()[1])), R1, lab, f'another component is given: {show(v)}', r)
                    elif v[0] == 'res' and v[2] in ('get_component', '__getitem__'):
                        c.ok(R1, lab)
                    else:
                        c.require(v[0] not in ('const',), R1, lab, f'gives {show(v)}', r)
    # parameters
    for cn, mn in (('SpiceCircuit', '_get_parameter_named'), ('AscEditor', '_get_param_named'), ('QschEditor', '_get_param_named')):
        k = c.p.cls(cn)
        g = c.p.lookup(k, 'get_parameter')
        lab = label(k, 'get_parameter')
        with c.attempt(lab):
            for r in c.walk(g, k, **o):
                v = r.outcome.value
                look = [e for e in r.events if e.kind == 'call' and e.name == mn]
                if r.outcome.kind == 'return':
                    found = any(e.kind == 'assume' and derives(r, e.lit, lambda y: look and y == ('res', look[0].n, mn)) and (e.pol if e.lit[0] != 'isnone' else not e.pol) for e in r.events)
                    c.require(not look or found, R2, lab, 'a parameter that is not there gives something', r)
                    c.require(v is not None and v != NONE_ and (not look or derives(r, v, lambda y: y[0] == 'mcall' and y[2] == 'group' and y[3] == (('const', 'value'),) or y[0] == 'res' and y[2] == 'group' or y == ('sub', y[1], ('const', 'value')) if len(y) > 2 and isinstance(y[1], tuple) else
                                                                                                 y[0] == 'res' and y[2] == 'group')), R2, lab, f'gives {show(v)}', r)
                elif r.outcome.kind == 'raise':
                    c.require(raised(r, 'ParameterNotFoundError'), R2, lab, f'a parameter that is not there: {r.outcome!r}', r)
        f = c.p.lookup(k, mn)
        if f is None:
            continue
        lab = label(k, mn)
        arg = P(f.arg_names()[1])
        with c.attempt(lab):
            for r in c.walk(f, k, opaque=OPQ | {'end_update'}, no_raise=NR):
                whole_search(c, r, NL if cn == 'SpiceCircuit' else DI if cn == 'AscEditor' else ITEMS, R2, lab)
                v = r.outcome.value
                if r.outcome.kind != 'return':
                    c.require(r.outcome.kind != 'raise', R2, lab, f'a look-up ends in {r.outcome!r}', r)
                    continue
                ms = [x for x in v[1] if x[0] == 'elem' and x[1][0] == 'res' and x[1][2] == 'finditer'] if v[0] == 'tuple' else []
                if ms:
                    m = ms[0]
                    lit = eq_between(r, lambda x: contains(x, m) and "'name'" in repr(x), lambda x: derives(r, x, lambda y: y == arg))
                    c.require(lit is not None, R2, lab, 'a parameter is found without its whole name having been compared', r)
                    if lit is not None:
                        c.require(uppers(lit[2]) and uppers(lit[3]), R2, lab, 'a parameter is found in one letter case only', r)
                    fi = next(e for e in r.events if e.kind == 'call' and e.n == m[1][1])
                    txt = fi.args[0] if fi.args else None
                    c.require(is_fact(r, lambda l: "'.PARAM'" in repr(l) and derives(r, l, lambda y: base_item(y) and derives(r, txt, lambda z: z == y)), True), R2, lab, 'a parameter is found in a line that is no .PARAM line', r)
                    if cn == 'AscEditor':
                        c.require(live_asc(r), R2, lab, 'a parameter is found in a comment', r)
                    if cn == 'QschEditor':
                        c.require(live_q(r), R2, lab, 'a parameter is found in a comment', r)
                    if cn != 'SpiceCircuit':
                        c.require(any(x != m and derives(r, txt, lambda z: z == x) for x in v[1]), R2, lab, f'gives {show(v)}, where the match is in {show(txt)}', r)
                    else:
                        c.require(len(v[1]) == 3 and line_of(r, v[1][0], txt) and v[1][2] == NL, R2, lab, f'gives {show(v)}, where the match is in {show(txt)}', r)
                elif v[0] == 'tuple' and any(x == NONE_ for x in v[1]):
                    its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
                    c.require(all(x == NONE_ or x[0] == 'const' or x == ('neg', ('const', 1)) for x in v[1]), R2, lab, f'gives {show(v)} for a parameter that is not there', r)
                    c.require(not its or any(e.kind == 'loopend' and e.name in ('done', None) for e in r.events[its[-1]:]), R2, lab, 'the search ends early', r)
    removals(c, R3, R4, R5)
    # set_parameter(None) on netlists
    for cn in ('SpiceCircuit', 'SpiceFile'):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'set_parameter')
        lab = label(k, 'set_parameter')
        for r in c.walk(f, k, **o):
            if any(e.kind == 'call' and e.recv == NL and e.name in LIST_ADD and not e.raised for e in r.events):
                c.require(is_fact(r, lambda l: l == ('isnone', P('value')) or l == ('isnone', ('param', f.arg_names()[2])), False) or is_fact(r, lambda l: 'isinstance' in repr(l) and contains(l, P(f.arg_names()[2])), True), R6, lab,
                          'removing a parameter that is not there adds it', r)


def caught(f, name):
    return any(isinstance(n, ast.ExceptHandler) and n.type is not None and name in ast.dump(n.type) for n in ast.walk(f.node))


def base_item(y):
    return y[0] == 'elem' or y[0] == 'sub' and y[1] == NL


def line_of(r, idx, txt):
    """txt is (the text of) the netlist line number idx"""
    for x in subvalues(txt):
        if isinstance(x, tuple) and x and x[0] == 'sub' and x[1] == NL:
            return x[2] == idx or x[2][0] in ('local', 'phi', 'havoc') and idx[0] in ('local', 'phi', 'havoc') and x[2][1] == idx[1]
        if x == ('elem', NL):
            return idx == ('idx', NL) or idx[0] in ('local', 'phi', 'havoc')
    return False


def tested(r, i, coll):
    """the items the path has tested before event i: (item, event)"""
    out = []
    for e in r.events[:i]:
        if e.kind == 'assume':
            for x in subvalues(e.lit):
                if isinstance(x, tuple) and x and is_elem(x, coll) or isinstance(x, tuple) and x and x[0] == 'elem' and x[1][0] == 'res' and x[1][2] == 'get_items':
                    out.append((x, e))
                elif isinstance(x, tuple) and x and x[0] == 'res':
                    for y in subvalues(x):
                        pass
    return out


def counter(idx):
    """(start, how far it was counted) of an index"""
    n = 0
    while isinstance(idx, tuple) and idx and idx[0] == 'bin' and idx[1] in '+-':
        if idx[3][0] == 'const' and isinstance(idx[3][1], int):
            n += idx[3][1] if idx[1] == '+' else -idx[3][1]
            idx = idx[2]
        elif idx[1] == '+' and idx[2][0] == 'const' and isinstance(idx[2][1], int):
            n += idx[2][1]
            idx = idx[3]
        else:
            break
    return idx, n


def removals(c, R3, R4, R5):
    o = dict(opaque=OPQ | {'end_update'}, no_raise=NR)
    for cn in ('SpiceCircuit', 'AscEditor', 'QschEditor'):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'remove_component')
        lab = label(k, 'remove_component')
        arg = P(f.arg_names()[1])
        with c.attempt(lab):
            done = 0
            for r in c.walk(f, k, **o):
                dels = [e for e in r.events if mutation(e) is not None and not e.raised and (e.kind in ('del', 'call') or e.kind in ('write', 'setitem'))]
                dels = [e for e in dels if e.kind == 'del' or e.name in LIST_REMOVE or e.kind in ('write', 'setitem')]
                deleg = [e for e in r.events if e.kind == 'call' and e.name == 'remove_component' and not e.raised]
                if r.outcome.kind == 'raise':
                    c.require(not dels or r.outcome.value is None, R3, lab, 'a refused removal takes something out', r)
                    continue
                if r.outcome.kind != 'return':
                    continue
                if deleg:
                    c.require(not dels, R3, lab, 'removing in a sub-circuit takes something else out as well', r)
                    continue
                done += 1
                hit = [e for e in dels if derives(r, e.path if e.kind == 'del' and e.path is not None else (e.args[0] if e.args else e.recv), lambda y: y == arg)]
                colls = {attr_name(e) for e in hit}
                want = {'netlist'} if cn == 'SpiceCircuit' else {'components'} if cn == 'AscEditor' else {'components', 'items'}
                c.require(len(hit) == len(dels), R3, lab, f'something else is taken out too', r)
                c.require(want <= colls, R3, lab, f'the component stays in {", ".join(sorted(want - colls))}', r)
                c.require(len(hit) == len(colls), R3, lab, 'a component is taken out twice', r)
                if cn == 'SpiceCircuit':
                    for e in hit:
                        p = e.path if e.kind == 'del' else e.args[0]
                        c.require(derives(r, p, lambda y: y[0] == 'res' and y[2] == 'get_component'), R3, lab, f'{show(p)} is taken out', r, e.node)
                        ix = e.path[2] if e.kind == 'del' and e.path is not None and e.path[0] == 'sub' else None
                        c.require(ix is None or ix[0] == 'res' and ix[2] == 'index' or ix[0] == 'mcall' and ix[2] == 'index', R3, lab, f'line {show(ix) if ix else ""} is taken out, which is not that of the component', r, e.node)
            c.require(done > 0, R3, lab, 'no component is ever taken out')
    for cn, colls in (('SpiceCircuit', (NL,)), ('SpiceFile', (NL,)), ('AscEditor', (DI,)), ('QschEditor', (ITEMS,))):
        k = c.p.cls(cn)
        for mn in ('remove_instruction', 'remove_Xinstruction'):
            f = c.p.lookup(k, mn)
            if f is None or cn == 'SpiceFile' and f.cls is not k:
                continue
            lab = label(k, mn)
            arg = P(f.arg_names()[1])
            with c.attempt(lab):
                for r in c.walk(f, k, opaque=OPQ | {'end_update'}, no_raise=NR, unroll=2):
                    whole_search(c, r, colls[0], R4, lab)
                    one_removal(c, R4, R5, r, lab, mn, cn, colls[0], arg)


def attr_name(e):
    p = e.path if e.kind == 'del' and e.path is not None else e.recv if e.recv is not None else e.path
    while isinstance(p, tuple) and p and p[0] in ('sub', 'item', 'elem'):
        p = p[1]
    return p[2] if p[0] == 'attr' else ''


def one_removal(c, R4, R5, r, lab, mn, cn, coll, arg):
    dels = []
    for i, e in enumerate(r.events):
        if e.raised:
            continue
        if e.kind == 'del' and e.path is not None and contains(e.path, coll):
            dels.append((i, e, e.path))
        elif e.kind == 'call' and e.recv == coll and e.name in LIST_REMOVE:
            dels.append((i, e, ('sub', coll, e.args[0]) if e.name == 'pop' and e.args else e.args[0] if e.args else coll))
    if r.outcome.kind == 'return':
        v = r.outcome.value
        rebuilt = any(e.kind in ('write', 'setitem') and e.path is not None and contains(e.path, coll) for e in r.events)
        if not rebuilt:
            c.require(v == ('const', bool(dels)) or v is not None and v[0] not in ('const',), R5, lab, f'answers {show(v) if v else None} after taking out {len(dels)} instructions', r)
    elif r.outcome.kind == 'raise':
        c.require(not dels or mn == 'remove_Xinstruction', R5, lab, 'a refused removal takes something out', r)
    if mn == 'remove_instruction':
        c.require(len(dels) <= 1, R4, lab, 'more than one instruction is taken out', r)
    iters = [i for i, e in enumerate(r.events) if e.kind == 'iter']
    for i, e, item in dels:
        last = max([j for j in iters if j < i], default=None)
        if last is None:
            c.note(f'{lab}: removal outside a loop is not followed')
            continue
        # which item was tested in this iteration
        facts = [x for x in r.events[last:i] if x.kind == 'assume']
        def about(l):
            return derives(r, l, lambda y: is_elem(y, coll) or y[0] == 'elem' and (y[1][0] == 'res' and y[1][2] == 'get_items' or y[1][0] == 'call' and contains(y[1], coll)) or y[0] == 'sub' and y[1] == coll)
        if mn == 'remove_instruction':
            hit = [x for x in facts if x.pol and x.lit[0] == 'cmp' and x.lit[1] in ('eq', 'in') and derives(r, x.lit, lambda y: y == arg) and about(x.lit)]
        else:
            hit = [x for x in facts if (x.pol if x.lit[0] != 'isnone' else not x.pol) and derives(r, x.lit, lambda y: y[0] in ('res', 'mcall') and y[2] in ('match', 'search', 'fullmatch')) and about(x.lit)]
        if not c.require(bool(hit), R4, lab, 'an instruction is taken out that was not found to match', r, e.node):
            continue
        l = hit[-1].lit
        if cn == 'AscEditor':
            c.require(any('TextTypeEnum' in repr(x.lit) for x in facts) and live_asc(r), R4, lab, 'a comment is taken out', r)
        elif cn == 'QschEditor':
            c.require(live_q(r), R4, lab, 'a comment is taken out', r)
        # the item taken out is the tested one
        if item[0] == 'sub' and item[1] == coll:
            ix = item[2]
            same = derives(r, l, lambda y: y == item)
            if not same and derives(r, l, lambda y: y == ('elem', coll)):
                if ix == ('idx', coll):
                    same = True
                else:
                    base, n = counter(ix)
                    loopno = [j for j in iters if j < i]
                    same = base[0] in ('local', 'phi', 'havoc', 'const') and n + (base[1] if base[0] == 'const' and isinstance(base[1], int) else 0) == len(loopno) - 1
            c.require(same, R4, lab, f'line {show(ix)} is taken out, which is not the one that matches', r, e.node)
        else:
            c.require(derives(r, l, lambda y: y == item), R4, lab, f'{show(item)} is taken out, which is not the one that matches', r, e.node)
        # going on after a removal
        nxt = next((x for x in r.events[i + 1:] if x.kind == 'iter'), None)
        goes_on = nxt is not None or r.outcome.kind == 'loopback' or any(x.kind == 'loopend' and x.name == 'done' for x in r.events[i + 1:])
        direct = r.events[last].name != 'while' and r.events[last].value is not None and r.events[last].value in (coll, ('call', 'enumerate', (coll,)))
        c.require(not (direct and goes_on), R4, lab, 'the line after a removed one is skipped', r, e.node)
        if r.events[last].name == 'while' and item[0] == 'sub':
            cond = next((x for x in r.events[i + 1:] if x.kind == 'assume' and x.lit[0] == 'cmp' and x.lit[1] in ('lt', 'le', 'gt', 'ge') and 'len' in repr(x.lit)), None)
            if cond is not None and goes_on:
                c.require(contains(cond.lit, item[2]) and counter_in(cond.lit, item[2]), R4, lab, 'the line after a removed one is skipped', r, e.node)
    # without a removal the search goes to the next item
    if iters and r.events[iters[0]].name == 'while':
        first = iters[0]
        pre = next((x for x in reversed(r.events[:first]) if x.kind == 'assume' and 'len' in repr(x.lit)), None)
        nxt = next((x for x in r.events[first + 1:] if x.kind == 'assume' and x.lit[0] == 'cmp' and x.lit[1] in ('lt', 'gt', 'le', 'ge') and "'len'" in repr(x.lit)), None)
        if pre is not None and nxt is not None:
            stop = r.events.index(nxt)
            if not any(first < i < stop for i, _, _ in dels):
                a = next((x for x in (pre.lit[2], pre.lit[3]) if 'len' not in repr(x)), None)
                b = next((x for x in (nxt.lit[2], nxt.lit[3]) if 'len' not in repr(x)), None)
                if a is not None and b is not None:
                    c.require(counter(b)[0] == counter(a)[0] and counter(b)[1] == counter(a)[1] + 1, R4, lab, f'after {show(a)} the search goes on at {show(b)}', r)
    if dels and mn == 'remove_Xinstruction':
        i = dels[-1][0]
        c.require(r.outcome.kind != 'return' or any(x.kind in ('loopend',) and x.name != 'break' for x in r.events[i:]) or not iters, R4, lab, 'only the first matching instruction is taken out', r)


def counter_in(lit, ix):
    b = next((x for x in (lit[2], lit[3]) if "'len'" not in repr(x)), None)
    return b is None or b == ix


# ---------------------------------------------------------------- text around a parameter
def pieces(r, v):
    """(source text, start, [inserted], end) of a text with a part replaced; None if it is something else"""
    if v[0] == 'res' and v[2] == '_insert_section':
        e = next(e for e in r.events if e.kind == 'call' and e.n == v[1])
        a = kwmap(e, ('line', 'start', 'end', 'section'))
        return (a.get('line'), a.get('start'), [a.get('section')], a.get('end')) if len(a) == 4 else None
    parts = []

    def fl(x):
        if x[0] == 'bin' and x[1] == '+':
            fl(x[2])
            fl(x[3])
        elif x[0] == 'fstr':
            for y in x[1]:
                fl(y)
        elif x[0] == 'mcall' and x[2] == 'join' and x[1] == ('const', '') and x[3] and x[3][0][0] in ('tuple', 'list'):
            for y in x[3][0][1]:
                fl(y)
        else:
            parts.append(x)
    fl(v)
    pp = [x for x in parts if x[0] == 'res' and x[2] == '_insert_section']
    if pp:
        return pieces(r, pp[0])
    def sl(x):
        return x[0] == 'sub' and x[2][0] == 'slice' and x[2][3] == NONE_
    heads = [x for x in parts if sl(x) and x[2][1] in (NONE_, ('const', 0)) and x[2][2] != NONE_]
    tails = [x for x in parts if sl(x) and x[2][1] != NONE_ and x[2][2] == NONE_]
    if not heads and not tails:
        return None
    if len(heads) != 1 or len(tails) != 1 or parts.index(heads[0]) > parts.index(tails[0]):
        return (None, heads[0][2][2] if heads else None, parts, tails[0][2][1] if tails else None)
    h, t = heads[0], tails[0]
    mid = parts[parts.index(h) + 1:parts.index(t)]
    return (h[1] if h[1] == t[1] else None, h[2][2], mid, t[2][1])


def bound(r, v):
    """(match, group, which end, offset) of an expression for a position in a match"""
    off = ()
    while v[0] == 'bin' and v[1] == '+':
        pa, pb = pos_of(r, v[2]), pos_of(r, v[3])
        if pa is not None and pb is None:
            off += (v[3],)
            v = v[2]
        elif pb is not None and pa is None:
            off += (v[2],)
            v = v[3]
        elif v[2][0] == 'bin':
            off += (v[3],)
            v = v[2]
        else:
            break
    p = pos_of(r, v)
    return None if p is None else (*p, tuple(sorted(off, key=repr)))


def pos_of(r, v):
    """(match, group, 0 or 1)"""
    if v[0] == 'item' and v[2] in (0, 1) or v[0] == 'sub' and v[2] in (('const', 0), ('const', 1)):
        w = v[2] if v[0] == 'item' else v[2][1]
        b = v[1]
        if b[0] == 'mcall' and b[2] == 'span':
            return (b[1], b[3][0] if b[3] else NONE_, w)
        if b[0] == 'res' and b[2] == 'span':
            e = next(e for e in r.events if e.kind == 'call' and e.n == b[1])
            return (e.recv, e.args[0] if e.args else NONE_, w)
    if v[0] == 'mcall' and v[2] in ('start', 'end'):
        return (v[1], v[3][0] if v[3] else NONE_, 0 if v[2] == 'start' else 1)
    if v[0] == 'res' and v[2] in ('start', 'end'):
        e = next(e for e in r.events if e.kind == 'call' and e.n == v[1])
        return (e.recv, e.args[0] if e.args else NONE_, 0 if v[2] == 'start' else 1)
    return None


@prop('P39', 'Changing or removing one parameter leaves the text around it as it was',
      'Setting or removing a parameter in a .PARAM line of a netlist or schematic, or a parameter of a QSPICE component, replaces exactly the text of the value found (or takes out exactly the text of the parameter): '
      'the text before and after it, other parameters included, is kept, in the line it was found in.',
      ['inputs'],
      'any parameter line with any number of parameters',
      'Tests change lines with one parameter or look at the changed parameter only.',
      [CIR, ED + 'asc_editor.py', ED + 'qsch_editor.py', ED + 'spice_components.py'],
      [dict(name='netlists', where=CIR + ':SpiceCircuit.set_parameter'), dict(name='schematics', where=ED + 'asc_editor.py:AscEditor.set_parameter')],
      'Every text written by the parameter operations is taken apart: it must consist of the old text up to the start of the match, the new value, and the old text from the end of the same match on.',
      'symbolic decomposition of the written text, path-sensitive',
      'All paths; loops are followed once.', [])
def p39(c: Ctx):
    R1 = c.rule('P39.splice', 'exactly the found text is replaced', 5)
    R2 = c.rule('P39.section', 'replacing a section keeps what is around', 1)
    for cn, mn in (('SpiceCircuit', 'set_parameter'), ('AscEditor', 'set_parameter'), ('QschEditor', 'set_parameter'), ('QschComponent', 'set_parameters')):
        k = c.p.cls(cn)
        f = c.p.lookup(k, mn)
        lab = label(k, mn)
        with c.attempt(lab):
            n = 0
            for r in c.walk(f, k, opaque=OPQ | {'end_update'}, no_raise=NR):
                for e in r.events:
                    if mutation(e) is None or e.raised:
                        continue
                    if e.kind == 'call' and e.name == 'set_attr':
                        v, tgt = e.args[-1], e.recv
                    elif e.kind in ('write', 'setitem'):
                        v, tgt = e.value, e.path
                    else:
                        continue
                    found = any(y[0] in ('item', 'elem', 'res') and ('_get_param' in repr(y) or 'finditer' in repr(y) or "'search'" in repr(y) or "'match'" in repr(y)) for y in subvalues(tgt) if isinstance(y, tuple) and y)
                    p = pieces(r, v)
                    if p is None:
                        whole = v[0] == 'const' and is_fact(r, lambda l: 'findall' in repr(l) or 'search' in repr(l) or 'finditer' in repr(l), None) or v[0] == 'const' and any(
                            x.kind == 'assume' and 'findall' in repr(x.lit) for x in r.events)
                        if found and not whole:
                            c.bad(R1, lab, f'the line found becomes {show(v)}', r, e.node)
                        continue
                    n += 1
                    src, a, mid, b = p
                    if not c.require(src is not None and a is not None and b is not None, R1, lab, f'the text before or after the parameter is lost: {show(v)}', r, e.node):
                        continue
                    pa, pb = bound(r, a), bound(r, b)
                    if not c.require(pa is not None and pb is not None, R1, lab, f'the text is cut at {show(a)} and {show(b)}', r, e.node):
                        continue
                    c.require(pa[0] == pb[0] and pa[1] == pb[1] and pa[3] == pb[3] and (pa[2], pb[2]) == (0, 1), R1, lab, f'the text is cut from {show(a)} to {show(b)}, which is not the text found', r, e.node)
                    mid = [x for x in mid if x is not None and x != ('const', '')]
                    if mid:
                        c.require(pa[1] == ('const', 'value') and all(x[0] == 'const' or derives(r, x, lambda y: y in (P('value'), P('**kwargs'))) for x in mid), R1, lab, f'{show(mid[0])} is put in place of {show(pa[1])}', r, e.node)
                    else:
                        c.require(pa[1] in (NONE_, ('const', 0)), R1, lab, f'only {show(pa[1])} of the parameter is taken out', r, e.node)
                    # the text cut is the text of what is written
                    same = src == tgt or e.kind == 'write' and src[0] == 'attr' and src[1] == tgt[1] or src[0] == 'res' and any(
                        x.kind == 'call' and x.n == src[1] and x.recv == tgt and x.args == e.args[:1] for x in r.events)
                    c.require(same or derives(r, src, lambda y: y == (tgt[1] if e.kind == 'write' else tgt)), R1, lab, f'the text of {show(src)} is written to {show(tgt)}', r, e.node)
            c.require(n > 0, R1, lab, 'the text around a parameter is not kept')
    f = c.p.function('spicelib/editor/spice_components.py', '_insert_section')
    if f is not None:
        line, start, end, sec = (P(x) for x in f.arg_names()[:4])
        for r in c.walk(f, None, no_raise=NR):
            if r.outcome.kind != 'return':
                continue
            v = r.outcome.value
            if v == ('const', '') or v == line:
                c.require(is_fact(r, lambda l: l in (('truthy', line), line, ('truthy', sec), sec), False), R2, f, 'a section is dropped', r)
                continue
            while v[0] == 'mcall' and v[2] in ('strip', 'rstrip') and not v[3]:
                v = v[1]
            p = pieces(r, v)
            c.require(p is not None and p[0] == line and p[1] == start and p[3] == end and any(contains(x, sec) for x in p[2]) and all(contains(x, sec) or x[0] == 'const' and str(x[1]).strip() == '' for x in p[2]), R2, f,
                      f'the line becomes {show(v)}', r)
