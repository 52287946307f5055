"""Editing circuits: analysis directives, place of additions (P15, P38)."""
import ast
from .editor import *
from .editor_sub import is_fact, SUB, CIR, NONE_

ANALYSES = ('.AC', '.DC', '.TRAN', '.NOISE', '.TF')
INSTR = P('instruction')


def unique_test(lit):
    """X of the condition `X is one of the analysis directives`"""
    if lit[0] != 'cmp' or lit[1] != 'in':
        return None
    s = repr(lit[3])
    if 'UNIQUE_SIMULATION' in s or all(repr(a) in s for a in ANALYSES):
        return lit[2]
    return None


def upper_in(r, v):
    """the value is compared in upper case"""
    return derives(r, v, lambda x: x[0] == 'mcall' and x[2] in ('upper', 'casefold') or x[0] == 'res' and x[2] in ('get_line_command', 'upper'))


def part_of(r, v, owners):
    """the value was read from an item of one of the collections"""
    def pred(x):
        return x[0] in ('elem', 'sub') and (x[1] in owners or x[1][0] == 'res' and x[1][2] == 'get_items' or x[1][0] == 'call' and x[1][1] in ('list', 'tuple', 'enumerate') and any(
            y in owners for y in x[1][2])) or x[0] == 'mcall' and x[2] == 'get_items' or x[0] == 'item' and part_of(r, x[1], owners)
    return derives(r, v, pred)


DIRS = (('SpiceFile', ('netlist',)), ('AscEditor', ('directives',)), ('QschEditor', ('directives',)), ('SpiceCircuit', ('netlist',)))


@prop('P15', 'Adding an analysis directive replaces the analysis that is there',
      'Adding an instruction that selects an analysis (.AC, .DC, .TRAN, .NOISE, .TF, upper or lower case) to a netlist or schematic that already holds one of them, other than in a comment, '
      'overwrites that one directive and adds none; if there is none, the instruction is added once. Any other instruction never overwrites an analysis directive and is added at most once. '
      'Parameters (.PARAM) and, in sub-circuits, analysis directives are refused with RuntimeError before anything is changed.',
      ['inputs', 'histories'],
      'any instruction text and any contents of the circuit',
      'Tests add one or two directives to one example; a second analysis, a commented one, or lower case decide otherwise, and a simulator then runs the wrong analysis or refuses the netlist.',
      [ED + 'spice_file.py', CIR, ED + 'asc_editor.py', ED + 'qsch_editor.py', ED + 'spice_utils.py'],
      [dict(name='adding to netlists', where=ED + 'spice_file.py:SpiceFile.add_instruction'), dict(name='adding to schematics', where=ED + 'asc_editor.py:AscEditor.add_instruction')],
      'Every path of the four add_instruction operations is classified by what it established about the new instruction and about the items found; the insertions and overwrites on it must be those the class asks for.',
      'path-sensitive dataflow: classification of paths by assumed facts, counting of insertions and overwrites',
      'All paths; search loops are followed for one item.', [])
def p15(c: Ctx):
    R1 = c.rule('P15.set', 'the analysis directives are .AC .DC .TRAN .NOISE .TF', 1)
    R2 = c.rule('P15.replace', 'a found analysis directive is overwritten and nothing added', 3)
    R3 = c.rule('P15.add', 'without one the instruction is added once', 3)
    R4 = c.rule('P15.other', 'other instructions overwrite nothing', 3)
    R5 = c.rule('P15.refuse', '.PARAM, and analyses in sub-circuits, are refused first', 4)
    for m in c.p.modules.values():
        if 'UNIQUE_SIMULATION_DOT_INSTRUCTIONS' in m.consts:
            v = c.p.const_eval(m, m.consts['UNIQUE_SIMULATION_DOT_INSTRUCTIONS'])
            c.require(set(v) == set(ANALYSES) and not isinstance(v, str), R1, m.rel + ':UNIQUE_SIMULATION_DOT_INSTRUCTIONS', f'the analysis directives are {v}')
    o = dict(opaque=(OPQ - {'_is_unique_instruction'}) | {'end_update'}, no_raise=NR)
    for cn, coll in DIRS:
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'add_instruction')
        if f is None or f.cls is None or cn == 'SpiceFile' and f.cls.name != cn:
            c.bad(R2, k, 'analysis directives are not handled by an own add_instruction')
            continue
        lab = label(k, 'add_instruction')
        owners = {A(SELF, x) for x in coll} | {A(SELF, 'schematic', 'items')}
        with c.attempt(lab):
            n = dict(u=0, f=0, o=0, p=0)
            for r in c.walk(f, k, **o):
                for x in owners:
                    whole_search(c, r, x, R2, lab)
                uniq = found = None
                tested = None
                where_f = -1
                uni_i = -1
                for i, e in enumerate(r.events):
                    if e.kind != 'assume':
                        continue
                    x = unique_test(e.lit)
                    if x is None:
                        continue
                    own = part_of(r, x, owners)
                    if own:
                        if e.pol:
                            found, tested, where_f = True, x, i
                    elif derives(r, x, lambda y: y == INSTR):
                        uniq = e.pol
                        uni_i = i
                    c.require(not (own or derives(r, x, lambda y: y == INSTR)) or upper_in(r, x), R2 if own else R3, lab, 'the directive is recognised in one letter case only', r, e.node)
                muts = [(i, e) for i, e in enumerate(r.events) if mutation(e) is not None and root(mutation(e))[0] != 'const' and 'canvas_updated' not in show(mutation(e))]
                muts = [(i, e) for i, e in muts if not attrs_in(mutation(e)) & {'updates'}]
                adds = [(i, e) for i, e in muts if e.kind == 'call' and e.name in LIST_ADD and mutation(e) in owners or e.kind == 'aug']
                sets = [(i, e) for i, e in muts if (i, e) not in adds]
                par = is_fact(r, lambda l: "'.PARAM'" in repr(l) and derives(r, l, lambda y: y == INSTR), True)
                if par:
                    n['p'] += 1
                    c.require(r.outcome.kind == 'raise' and 'RuntimeError' in show(r.outcome.value) and not muts, R5, lab, 'a .PARAM instruction is accepted', r)
                    continue
                if r.outcome.kind not in ('return', 'raise'):
                    c.require(not muts, R3, lab, 'the circuit is changed while it is still searched', r)
                    continue
                if cn == 'SpiceCircuit':
                    if uniq:
                        n['u'] += 1
                        c.require(r.outcome.kind == 'raise' and 'RuntimeError' in show(r.outcome.value) and not muts, R5, lab, 'an analysis directive is accepted in a sub-circuit', r)
                    else:
                        c.require(not sets, R4, lab, 'adding an instruction overwrites another', r)
                        c.require(len(adds) <= 1, R4, lab, 'an instruction is added more than once', r)
                        c.require(uniq is False or not adds, R5, lab, 'an instruction is added to a sub-circuit without knowing that it is no analysis', r)
                    continue
                if r.outcome.kind == 'raise':
                    c.require(not muts, R3, lab, 'a refused instruction changes the circuit', r)
                    continue
                if uniq and found:
                    n['f'] += 1
                    if not c.require(not adds, R2, lab, 'a second analysis directive is added', r):
                        continue
                    if not c.require(len(sets) == 1, R2, lab, f'the analysis directive found is overwritten {len(sets)} times', r):
                        continue
                    e = sets[0][1]
                    tgt = e.recv if e.kind == 'call' else e.path
                    val = e.value if e.kind in ('write', 'setitem') else e.args[-1]
                    c.require(derives(r, val, lambda y: y == INSTR), R2, lab, f'the analysis directive becomes {show(val)}', r, e.node)
                    c.require(same_item(r, tgt, tested, owners), R2, lab, f'{show(tgt)} is overwritten, which is not the analysis directive found', r, e.node)
                    if cn == 'AscEditor':
                        c.require(live_asc(r), R2, lab, 'a comment counts as an analysis directive', r)
                    elif cn == 'QschEditor':
                        c.require(live_q(r), R2, lab, 'a comment counts as an analysis directive', r)
                        c.require(e.kind == 'call' and e.name == 'set_attr' and e.args[0] in (('const', 8), ('global', 'QSCH_TEXT_STR_ATTR')), R2, lab, f'{e!r} does not change the text', r, e.node)
                elif uniq:
                    n['u'] += 1
                    dup = is_fact(r, lambda l: l[0] == 'cmp' and l[1] == 'eq' and derives(r, l, lambda y: y == INSTR) and part_of(r, l, owners), True)
                    c.require(not sets, R3, lab, 'something that is not an analysis directive is overwritten', r)
                    c.require(len(adds) == (0 if dup else 1), R3, lab, f'an analysis directive is added {len(adds)} times', r)
                    if adds:
                        v = added_value(adds[0][1])
                        c.require(derives(r, v, lambda y: y == INSTR), R3, lab, f'{show(v)} is added', r)
                        c.require(any(e.kind in ('loop0', 'loopend') for e in r.events[:adds[0][0]]), R3, lab, 'it is added before everything was searched', r)
                        iters = [i for i, e in enumerate(r.events[:adds[0][0]]) if e.kind == 'iter']
                        ends = [i for i, e in enumerate(r.events[:adds[0][0]]) if e.kind in ('loop0', 'loopend')]
                        c.require(not iters or ends and ends[-1] > iters[-1], R3, lab, 'the search for an analysis directive stops early', r)
                else:
                    n['o'] += 1
                    c.require(uniq is False or not muts, R4, lab, 'whether the instruction is an analysis is not looked at', r)
                    c.require(not sets, R4, lab, 'an instruction that is no analysis overwrites another', r)
                    dup = is_fact(r, lambda l: l[0] == 'cmp' and l[1] in ('eq', 'in') and derives(r, l, lambda y: y == INSTR) and part_of(r, l, owners), True)
                    c.require(len(adds) == 1 or len(adds) == 0 and dup, R4, lab, f'an instruction is added {len(adds)} times', r)
            c.require(n['p'] > 0, R5, lab, '.PARAM instructions are accepted')
            if cn == 'SpiceCircuit':
                c.require(n['u'] > 0, R5, lab, 'analysis directives are accepted in sub-circuits')
            else:
                c.require(n['f'] > 0, R2, lab, 'an analysis directive that is there is not looked for')


def whole_search(c, r, coll, rule, lab):
    """searches through coll look at all of its items"""
    ln = ('call', 'len', (coll,))
    for e in r.events:
        if e.kind in ('iter', 'loop0') and e.value is not None:
            for x in subvalues(e.value):
                if isinstance(x, tuple) and x and x[0] == 'sub' and x[1] == coll and x[2][0] == 'slice':
                    c.require(all(b in (('const', None), ('const', 0), ln) for b in x[2][1:3]), rule, lab, f'only {show(x)} is searched', r, e.node)
                if isinstance(x, tuple) and x and x[0] == 'call' and x[1] == 'range' and contains(x, ln):
                    c.require(x[2] in ((ln,), (('const', 0), ln)) or len(x[2]) == 3, rule, lab, f'only {show(x)} is searched', r, e.node)
        elif e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] in ('lt', 'le', 'gt', 'ge', 'ne') and contains(e.lit, ln):
            a, b = e.lit[2], e.lit[3]
            if contains(a, ln):
                a, b = b, a
            if b[0] != 'bin' and a[0] != 'bin' and b != ln:
                continue
            c.require(b == ln, rule, lab, f'the search ends at {show(b)}', r, e.node)
            if a[0] == 'phi':
                for (n, name), vals in c.last.phi_inits.items():
                    if name == a[1] and getattr(n, 'test', None) is e.node:
                        c.require(vals == {('const', 0)}, rule, lab, 'the search does not begin at the first item', r, e.node)


def live_asc(r):
    for e in r.events:
        if e.kind == 'assume' and 'TextTypeEnum' in repr(e.lit):
            s = repr(e.lit)
            if "'COMMENT'" in s and not e.pol and e.lit[1] == 'eq' or "'DIRECTIVE'" in s and e.pol and e.lit[1] == 'eq':
                return True
    return False


def live_q(r):
    for e in r.events:
        if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and ('const', 1) in (e.lit[2], e.lit[3]) and not e.pol:
            v = e.lit[2] if e.lit[3] == ('const', 1) else e.lit[3]
            if v[0] == 'res' and any(x.kind == 'call' and x.n == v[1] and x.name in ('get_attr', 'get_text_attr') and x.args[0] in (('const', 4), ('global', 'QSCH_TEXT_COMMENT')) for x in r.events):
                return True
    return False


def same_item(r, tgt, tested, owners):
    """the overwritten place is the item the tested text was read from"""
    cands = []
    v = tgt
    while isinstance(v, tuple) and v and v[0] in ('attr', 'sub', 'item', 'elem'):
        cands.append(v)
        v = v[1]
    for x in cands:
        if x[0] in ('sub', 'elem', 'item') and (x[1] in owners or part_of(r, x, owners)):
            if derives(r, tested, lambda y: y == x):
                return True
            if x[0] == 'sub' and x[2][0] in ('idx', 'item') and derives(r, tested, lambda y: y[0] in ('elem', 'item') and contains(y, x[1])):
                return True
    return False


@prop('P38', 'What is added to a netlist comes before its end',
      'Components, parameters and instructions added to a Spice netlist or to the copy of a sub-circuit are put before the .BACKANNO, .END or .ENDS line that ends it, or, when a neighbour '
      'was named with insert_before or insert_after, directly next to that component; nothing of what was there is removed or overwritten.',
      ['inputs'],
      'any netlist, with or without .BACKANNO, .END, .ENDS',
      'What comes after the end is ignored by simulators; examples all end in .backanno/.end, so a netlist with only one of them decides.',
      [CIR, ED + 'spice_file.py'],
      [dict(name='place of additions', where=CIR + ':SpiceCircuit.add_component')],
      'The index of every insertion into the netlist is followed back to where it was computed: the position of the named neighbour, the position of an end line, or the length of the netlist when no end line was seen.',
      'interprocedural dataflow from insertion indices to their origin, path-sensitive',
      'All paths; search loops are followed for one item.', [])
def p38(c: Ctx):
    R1 = c.rule('P38.index', 'additions go to a computed position before the end', 4)
    R2 = c.rule('P38.neighbour', 'a named neighbour decides the position', 2)
    R3 = c.rule('P38.keep', 'an addition leaves the other lines alone', 3)
    nl = A(SELF, 'netlist')
    sites = 0
    for cn in ('SpiceCircuit', 'SpiceFile'):
        k = c.p.cls(cn)
        for mn in ('add_component', 'set_parameter', 'add_instruction'):
            f = c.p.lookup(k, mn)
            if f is None or cn == 'SpiceFile' and f.cls is not k:
                continue
            lab = label(k, mn)
            with c.attempt(lab):
                for r in c.walk(f, k, opaque=(OPQ - {'_insertion_line'}) | {'end_update'}, no_raise=NR):
                    for i, e in enumerate(r.events):
                        m = mutation(e)
                        if m is None or root(m) != SELF or nl not in (m, m[1] if len(m) > 1 else None):
                            continue
                        if e.kind == 'call' and e.recv == nl and e.name in LIST_ADD:
                            sites += 1
                            ins = e.name == 'insert'
                            idx = e.args[0] if ins else ('call', 'len', (nl,))
                            place(c, R1, R2, r, i, e, idx, lab, nl)
                        elif e.kind == 'call' and e.recv == nl or e.kind == 'del':
                            c.bad(R3, lab, f'{e!r} changes other lines', r, e.node)
                        elif mn == 'add_component':
                            c.bad(R3, lab, 'a line is overwritten by the new component', r, e.node)
                    if mn == 'add_component':
                        ws = [e for e in r.events if mutation(e) is not None and root(mutation(e)) == SELF and contains(mutation(e), nl)]
                        done = r.outcome.kind == 'return'
                        c.require(len(ws) == (1 if done else 0), R3, lab, f'the netlist is changed {len(ws)} times for one component', r)
    c.require(sites > 0, R1, 'spicelib/editor', 'nothing is ever added')


ENDS = ('.BACKANNO', '.END', '.ENDS')


def end_fact(r, upto, el):
    """(end line seen, its loop item) on the path: positive comparison of the line command with an end directive"""
    out = []
    for i, e in enumerate(r.events[:upto]):
        if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] in ('eq', 'in') and any(f"'{x}'" in repr(e.lit) for x in ENDS):
            out.append((i, e))
    return out


def place(c, R1, R2, r, i, ev, idx, lab, nl):
    def args_of(name):
        return [e for e in r.events[:i] if e.kind == 'call' and e.name == name and not e.raised]
    before = is_fact(r, lambda l: "'insert_before'" in repr(l), True, i)
    after = is_fact(r, lambda l: "'insert_after'" in repr(l), True, i)
    base, off = idx, 0
    if idx[0] == 'bin' and idx[1] in '+-' and idx[3][0] == 'const':
        base, off = idx[2], idx[3][1] if idx[1] == '+' else -idx[3][1]
    elif idx[0] == 'bin' and idx[1] == '+' and idx[2][0] == 'const':
        base, off = idx[3], idx[2][1]
    def same_component():
        if base[0] == 'res' and base[2] == 'index':
            e = next((x for x in args_of('index') if x.n == base[1]), None)
            if e is None or e.recv != nl:
                return False
            key = 'insert_before' if before else 'insert_after'
            return derives(r, e.args[0], lambda y: repr(('const', key)) in repr(y) and y[0] in ('sub', 'mcall', 'item'))
        if base[0] == 'mcall' and base[2] == 'index':
            key = 'insert_before' if before else 'insert_after'
            return base[1] == nl and derives(r, base[3][0], lambda y: repr(('const', key)) in repr(y) and y[0] in ('sub', 'mcall', 'item'))
        return False
    if before:
        c.require(same_component() and off == 0, R2, lab, f'a component is put at {show(idx)} instead of right before its neighbour', r, ev.node)
        return
    if after:
        c.require(same_component() and off == 1, R2, lab, f'a component is put at {show(idx)} instead of right after its neighbour', r, ev.node)
        return
    seen = end_fact(r, i, nl)
    pos = [(j, e) for j, e in seen if e.pol]
    if base == ('call', 'len', (nl,)):
        c.require(off == 0 and not pos, R1, lab, 'an addition is put after the end of the netlist', r, ev.node)
        if not c.require(any(e.kind in ('loop0', 'loopend') for e in r.events[:i]), R1, lab, 'an addition is put last without looking for the end of the netlist', r, ev.node):
            return
        its = [j for j, e in enumerate(r.events[:i]) if e.kind == 'iter']
        if seen and its and seen[-1][0] > its[-1]:
            txt = ''.join(repr(e.lit) for j, e in seen if j > its[-1])
            c.require(all(f"'{x}'" in txt for x in ENDS), R1, lab, 'an end line (one of .BACKANNO, .END, .ENDS) is not recognised', r, ev.node)
        return
    txt = repr(base)
    if any(x[0] in ('comp', 'call') and x[0] == 'comp' or x[0] == 'call' and x[1] in ('next', 'min') for x in subvalues(base) if isinstance(x, tuple) and x) and all(f"'{x}'" in txt for x in ENDS):
        c.ok(R1, lab)
        return
    isidx = base == ('idx', nl) or base[0] in ('local', 'havoc', 'loopvar') or base[0] == 'item' and contains(base, nl)
    if not c.require(isidx and off <= 0 and bool(pos), R1, lab, f'an addition is put at {show(idx)}, which is not known to be before the end', r, ev.node):
        return
    back = [j for j, e in pos if "'.BACKANNO'" in repr(e.lit)]
    if back and "'.END'" not in repr(r.events[back[-1]].lit):
        c.require(not any(e.kind == 'loopend' for e in r.events[back[-1]:i]), R1, lab, 'the .END line decides although .BACKANNO comes before it', r, ev.node)
