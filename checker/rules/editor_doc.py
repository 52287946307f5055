"""What circuits are read from and written to: P12 (reset), P13 (saving)."""
import re
from .util import *
from .editor import ED, EDITORS, OPQ, NR, label, derives, mutation, attrs_in, perm_filter, ORDER, PERM

FILES = {'open', 'getLogger'}
PARSERS = {'SpiceFile': {'_add_lines', 'separate_lines'},
           'AscEditor': {'_get_symbol', '_get_subcircuit', 'asc_text_align_set'},
           'QschEditor': {'QschEditor', '_find_pin_position', '_find_net_at_position', 'parse', 'get_items', 'get_attr', 'get_text', '_qsch_file_find'}}


def containers(c: Ctx, k: Cls):
    """attributes the constructors of the class give a fresh container"""
    out = {}
    for b in c.p.mro(k):
        f = b.methods.get('__init__')
        if f is None:
            continue
        for n in ast.walk(f.node):
            t = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) and n.value is not None else None
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                v = n.value
                if isinstance(v, (ast.List, ast.Dict)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in (
                        'list', 'dict', 'set', 'OrderedDict', 'Updates', 'defaultdict') and not v.args:
                    out[t.attr] = b.name
    return out


def clears(e: Ev, p):
    if e.raised:
        return False
    if e.kind == 'call' and e.name == 'clear' and e.recv == p:
        return True
    if e.kind == 'write' and e.path == p:
        v = e.value
        return v[0] in ('list', 'dict', 'set') and (len(v) < 2 or not v[1]) or v[0] in ('obj', 'call')
    return e.kind == 'del' and e.recv == p


def grows(e: Ev, p):
    if e.raised:
        return False
    if e.kind == 'call' and e.recv == p and e.name in LIST_ADD | {'add_update', 'update', 'setdefault'}:
        return True
    if e.kind in ('setitem', 'write') and e.path is not None and e.path[0] in ('sub', 'item') and e.path[1] == p:
        return True
    return e.kind == 'setitem' and e.recv == p or e.kind == 'aug' and e.path == p


@prop('P12', 'Resetting an editor forgets everything that was read or edited before',
      'reset_netlist() of the netlist and schematic editors leaves nothing of the previous contents: the lines, components, wires, labels, directives, ports, lines, shapes, '
      'the list of updates and the drawing-changed mark are emptied before the file is read again; after a successful reset edits are allowed and reported '
      '(permission Inform), nothing is entered in the list of updates, and a blank QSPICE schematic keeps no previous drawing.',
      ['inputs', 'histories'],
      'any history of edits before the reset, any file contents',
      'Simulation batches reset the same editor between runs; a container that survives makes a later run simulate leftovers. The tests reset once with a few edits.',
      [ED + 'base_editor.py', ED + 'base_schematic.py', ED + 'spice_file.py', ED + 'spice_subcircuit.py', ED + 'asc_editor.py', ED + 'qsch_editor.py'],
      [dict(name='reset', where=ED + 'spice_file.py:SpiceFile.reset_netlist'), dict(name='reset of schematics', where=ED + 'base_schematic.py:BaseSchematic.reset_netlist')],
      'The containers are derived from the constructors of each editor; on every path of reset_netlist (super calls and helpers inlined) each is emptied before the first '
      'thing is added or the parser runs; the permission and update-list state is tracked to the end of each path.',
      'path-sensitive typestate analysis (cleared-before-grown) over the reset entry points',
      'All paths; parsing loops followed once each.', [])
def p12(c: Ctx):
    R1 = c.rule('P12.cleared', 'every container is emptied before anything is added to it', 15)
    R2 = c.rule('P12.permission', 'a successful reset ends with edits allowed and reported', 3)
    R3 = c.rule('P12.updates', 'nothing is recorded during a reset', 3)
    R4 = c.rule('P12.blank', 'the previous drawing is replaced on every path', 2)
    for cn in ('SpiceFile', 'SpiceEditor', 'AscEditor', 'QschEditor'):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'reset_netlist')
        lab = label(k, 'reset_netlist')
        conts = containers(c, k)
        parsers = PARSERS['SpiceFile' if cn == 'SpiceEditor' else cn]
        with c.attempt(lab):
            paths, loops = c.walk_loops(f, k, opaque=FILES | parsers, no_raise=NR | {'get', 'exists', 'open', 'read', 'startswith'})
            done = [r for r in paths if r.outcome.kind == 'return']
            if not done:
                c.bad(R2, lab, 'no path of reset_netlist completes')
            for r in paths + loops:
                for a in conts:
                    p = A(SELF, a)
                    cleared = False
                    for e in r.events:
                        if clears(e, p):
                            cleared = True
                        elif not cleared and (grows(e, p) or e.kind == 'call' and not e.raised and e.recv == SELF and e.name in ('_add_lines', '_parse_qsch_stream')):
                            c.bad(R1, f'{lab}.{a}', f'self.{a} still holds its previous contents when {e!r} happens', r, e.node)
                            break
                    else:
                        if r.outcome.kind == 'return':
                            c.require(cleared, R1, f'{lab}.{a}', f'self.{a} is not emptied', r)
            for r in done:
                w = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, 'update_permission')]
                c.require(w and w[-1].value == PERM('Inform'), R2, lab, 'reset ends with permission ' + (show(w[-1].value) if w else 'unchanged'), r)
                cu = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, 'canvas_updated')]
                if 'wires' in conts:
                    c.require(cu and cu[-1].value == FALSE, R1, f'{lab}.canvas_updated', 'the drawing stays marked as changed', r)
                if c.p.lookup(k, '_parse_qsch_stream'):
                    c.require(any(e.kind == 'write' and e.path == A(SELF, 'schematic') for e in r.events), R4, lab, 'the previous drawing is kept', r)
            for r in paths + loops:
                rec = [e for e in r.events if e.kind == 'call' and e.name in ('end_update', 'add_update')]
                c.require(not rec, R3, lab, 'records an update while reading the file', r)


# ------------------------------------------------------------------------------------------------ P13
def flat(v):
    """template as a list of strings and values"""
    if v[0] == 'fstr':
        out = []
        for x in v[1]:
            out += flat(x)
        return out
    if v[0] == 'const' and isinstance(v[1], str):
        return [v[1]]
    if v[0] == 'bin' and v[1] == '+':
        return flat(v[2]) + flat(v[3])
    if v[0] == 'global' and 'TERM' in str(v[1]):
        return ['\n']
    if v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
        return flat(v[2][0])
    if v[0] == 'mcall' and v[2] == 'join' and v[1][0] == 'const' and len(v) > 3 and v[3] and v[3][0][0] in ('list', 'tuple'):
        out = []
        for i, x in enumerate(v[3][0][1]):
            out += ([v[1][1]] if i else []) + flat(x)
        return out
    return [v]


def tokens(v):
    """whitespace separated tokens of a template; each is a list of parts"""
    out, cur, open_ = [], [], False
    for x in flat(v):
        if isinstance(x, str):
            parts = re.split(r'(\s+)', x)
            for q in parts:
                if not q:
                    continue
                if q.isspace():
                    if cur:
                        out.append(cur)
                    cur = []
                else:
                    cur.append(q)
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def field(v, roots):
    """attribute path of a value below one of the roots, e.g. ('V1','X')"""
    out = []
    while isinstance(v, tuple) and v[0] == 'attr' and v not in roots:
        out.append(v[2])
        v = v[1]
    return tuple(reversed(out)) if v in roots else None


SPEC = {   # keyword -> (container, fields of the tokens after the keyword; strings starting with = are literal)
    'WIRE': ('wires', ['V1.X', 'V1.Y', 'V2.X', 'V2.Y']),
    'FLAG': ('labels', ['coord.X', 'coord.Y', 'text']),
    'SYMBOL': ('components', ['symbol', 'position.X', 'position.Y', 'rotation']),
    'TEXT': ('directives', ['coord.X', 'coord.Y', 'align', 'size', 'text']),
    'LINE': ('lines', ['=Normal', 'V1.X', 'V1.Y', 'V2.X', 'V2.Y', '?style.pattern']),
    'SHAPE': ('shapes', ['=Normal', 'points', '?line_style.pattern']),
}


def token_field(tok, roots):
    names = []
    for x in tok:
        if isinstance(x, str):
            names.append('=' + x)
            continue
        f = None
        for y in [x] + list(subvalues(x)):
            if isinstance(y, tuple):
                f = field(y, roots)
                if f:
                    break
        names.append('.'.join(f) if f else show(x))
    return names


def over(e: Ev, p):
    v = e.value
    if v is None:
        return False
    while v[0] in ('call', 'mcall') and v != p:
        if v[0] == 'call' and v[2]:
            v = v[2][0]
        elif v[0] == 'mcall' and v[2] in ('values', 'items', 'copy', 'keys'):
            v = v[1]
        else:
            break
    return v == p


def elems(p):
    return {('elem', p), ('sub', p, ('key', p)), ('item', p, ('key', p)), ('elem', ('mcall', p, 'values', (), ())), ('elem', ('call', 'list', (p,)))}


def writes_of(r: PathResult, frm=0):
    return [(i, e) for i, e in enumerate(r.events) if i >= frm and e.kind == 'call' and not e.raised and e.name in ('write', 'writelines') and e.args]


def line_key(e: Ev):
    t = tokens(e.args[0])
    if not t:
        return None
    return t


@prop('P13', 'Saving a circuit writes everything it holds, in the form it is read back',
      'Saving a netlist or schematic writes every line or drawing element it holds, once and unconditionally. LTspice schematics: each wire, label, I/O pin, component '
      '(with its windows and attributes), text, line and shape is written with the keyword and field order of the format, the same from which the reader takes them, with rotation and '
      'mirroring, text alignment, size, comment or directive marker and line pattern preserved. QSPICE schematics: header and the complete tag tree. Netlists: every line in order, '
      'with the changed sub-circuits before the end. Files are written to the requested path with the encoding they are read with.',
      ['inputs'],
      'any netlist or schematic contents',
      'A dropped or permuted field only shows on schematics that contain that element; the tests compare a few files.',
      [ED + 'asc_editor.py', ED + 'qsch_editor.py', ED + 'spice_file.py', ED + 'spice_subcircuit.py', ED + 'ltspice_utils.py'],
      [dict(name='LTspice reader', where=ED + 'asc_editor.py:AscEditor.reset_netlist'), dict(name='LTspice writer', where=ED + 'asc_editor.py:AscEditor.save_netlist'),
       dict(name='QSPICE writer', where=ED + 'qsch_editor.py:QschEditor.save_as'), dict(name='netlist writer', where=ED + 'spice_subcircuit.py:SpiceCircuit.write_lines')],
      'The writer\'s line templates are reconstructed symbolically (format strings over element fields) and the reader\'s assignments symbolically (field from token number); both '
      'are compared with the LTspice line format, for every loop path; rotation and alignment tables are checked to be mutually inverse by evaluating the conversion branches over their finite domain.',
      'symbolic template extraction from writer and reader, compared against the file format (round-trip by construction)',
      'Every branch of reader and writer; arbitrary text contents (spaces inside names) not modelled.', [])
def p13(c: Ctx):
    R1 = c.rule('P13.complete', 'every element of every kind is written', 10)
    R2 = c.rule('P13.format', 'the fields are written in the order of the format', 10)
    R3 = c.rule('P13.read', 'the reader takes each field from its position and stores the element', 12)
    R4 = c.rule('P13.tables', 'rotation and alignment survive writing and reading', 16)
    R5 = c.rule('P13.file', 'the requested file is written with the encoding it is read with', 4)
    R6 = c.rule('P13.netlist', 'every netlist line is written', 4)
    R7 = c.rule('P13.qsch', 'the whole QSPICE tag tree is written', 3)
    asc_write(c, R1, R2, R5)
    asc_read(c, R3)
    asc_tables(c, R4)
    qsch_write(c, R5, R7)
    spice_write(c, R5, R6)


def asc_write(c, R1, R2, R5):
    k = c.p.cls('AscEditor')
    f = c.p.lookup(k, 'save_netlist')
    lab = label(k, 'save_netlist')
    o = dict(opaque={'save_as', 'updated', 'open', 'getLogger', 'asc_text_align_get'}, no_raise=NR | {'write', 'save_as', 'updated', 'asc_text_align_get', 'open'})
    paths, loops = c.walk_loops(f, k, **o)
    comp = A(SELF, 'components')
    attrs = [A(('sub', comp, ('key', comp)), 'attributes'), A(('elem', comp), 'attributes')]
    for kw, (cont, spec) in SPEC.items():
        p = A(SELF, cont)
        roots = elems(p)
        its = [r for r in loops if [e for e in r.events if e.kind == 'iter'] and over([e for e in r.events if e.kind == 'iter'][-1], p)]
        if not its:
            c.bad(R1, f'{lab}.{cont}', f'self.{cont} is not written')
            continue
        for r in its:
            start = max(i for i, e in enumerate(r.events) if e.kind == 'iter')
            c.require(r.outcome.value != ('const', 'break') or cont == 'ports', R1, f'{lab}.{cont}', f'the loop over self.{cont} is left before its end', r)
            ws = [(e, tokens(e.args[0])) for _, e in writes_of(r, start)]
            mine = [(e, t) for e, t in ws if t and (t[0] == [kw] or kw == 'SHAPE' and len(t[0]) == 1 and field(t[0][0], roots) == ('name',))]
            if not c.require(len(mine) == 1, R1, f'{lab}.{cont}', f'an element of self.{cont} is written {len(mine)} times on a path', r):
                continue
            e, t = mine[0]
            got = [token_field(x, roots) for x in t[1:]]
            want = [s for s in spec if not s.startswith('?')]
            opt = [s[1:] for s in spec if s.startswith('?')]
            flatgot = []
            for g in got:
                if kw == 'TEXT' and len(g) == 2 and g[0] in ('=!', '=;'):
                    direct = None
                    for x in r.events[start:]:
                        if x.kind == 'assume' and 'DIRECTIVE' in show(x.lit) and x.lit[0] == 'cmp':
                            direct = x.pol if x.lit[1] in ('eq', 'is') else not x.pol
                        elif x.kind == 'assume' and 'COMMENT' in show(x.lit) and x.lit[0] == 'cmp':
                            direct = not x.pol if x.lit[1] in ('eq', 'is') else x.pol
                    c.require(direct is not None and (g[0] == '=!') == direct, R2, f'{lab}.{cont}', f'a {"directive" if direct else "comment"} is written with marker {g[0][1:]}', r, e.node)
                    flatgot.append(g[1])
                elif kw == 'SHAPE' and len(g) == 2 and g[0].startswith('points') and g[1] == 'line_style.pattern':
                    flatgot += g
                else:
                    flatgot.append(g[0] if len(g) == 1 else '+'.join(g))
            norm = []
            for g, tk in zip(flatgot, (t[1:] if len(flatgot) == len(t) - 1 else [None] * len(flatgot))):
                if g and 'asc_text_align_get' in g:
                    g = 'align'
                if g.startswith('points'):
                    g = 'points'
                norm.append(g)
            styled = [x for x in r.events[start:] if x.kind == 'assume' and opt and opt[0] in show(x.lit)]
            empty = any(_means_empty(x) for x in styled)
            okk = norm == want + opt or norm == want and (empty or not opt)
            c.require(okk, R2, f'{lab}.{cont}', f'{kw} is written with {norm}, the format is {want + opt}', r, e.node)
            if kw == 'SYMBOL':
                tv = [x for x in subvalues(t[-1][0] if len(t[-1]) == 1 else t[-1][-1]) if x == ('global', 'ASC_INV_ROTATION_DICT')]
                c.require(bool(tv), R2, f'{lab}.{cont}', 'the rotation is not written with its LTspice name', r, e.node)
                names = [(x, y) for x, y in ws if y and y[0] == ['SYMATTR'] and len(y) == 3 and y[1] == ['InstName']]
                c.require(len(names) == 1 and token_field(names[0][1][2], roots) in (['reference'], ['_reference']), R2, f'{lab}.{cont}', 'the instance name is not written', r, e.node)
                sub = any(x.kind == 'call' and x.name == 'save_as' for x in r.events[start:])
                facts = [(show(x.lit), x.pol) for x in r.events[start:] if x.kind == 'assume']
                upd = any('updated' in a and pol for a, pol in facts)
                c.require(sub == upd or sub, R1, f'{lab}.subcircuits', 'a changed sub-circuit schematic is not saved', r)
    # I/O pins, windows, attributes
    for kw, want in (('IOPIN', ['coord.X', 'coord.Y', 'direction']), ('WINDOW', 5), ('SYMATTR', 3)):
        found = False
        for r in loops:
            its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
            for _, e in writes_of(r, its[-1] if its else 0):
                t = tokens(e.args[0])
                if not t or t[0] != [kw] or kw == 'SYMATTR' and t[1] == ['InstName']:
                    continue
                found = True
                if kw == 'IOPIN':
                    got = ['.'.join(token_field(x, elems(A(SELF, 'labels')) | elems(A(SELF, 'ports')) | {A(y, 'text') for y in elems(A(SELF, 'ports'))})) for x in t[1:]]
                    c.require(got == want, R2, f'{lab}.ports', f'IOPIN is written with {got}', r, e.node)
                    continue
                it = r.events[its[-1]].value
                base = next((a for a in attrs if contains(it, a)), None)
                if base is None:
                    c.bad(R1, f'{lab}.{kw}', f'{kw} is not written for the attributes of each component', r, e.node)
                    continue
                kv = [('key', base), ('item', ('elem', ('mcall', base, 'items', (), ())), 0)]
                vv = [('sub', base, ('key', base)), ('item', base, ('key', base))]
                if kw == 'SYMATTR':
                    c.require(len(t) == 3 and t[1][0] in kv and t[2][0] in vv, R2, f'{lab}.attributes', f'attributes are written as {e!r}', r, e.node)
                    conds = [x for x in r.events[its[-1]:] if x.kind == 'assume']
                    bad = [x for x in conds if not any(y == ('const', '_') for y in subvalues(x.lit))]
                    c.require(not bad, R1, f'{lab}.attributes', 'an attribute is only written under ' + repr(bad[:1]), r, e.node)
                else:
                    g = ['.'.join(token_field(x, set(vv))) for x in t[1:]]
                    g = ['align' if 'asc_text_align_get' in x else x for x in g]
                    c.require(len(g) == 5 and g[1:] == ['coord.X', 'coord.Y', 'align', 'size'] and any(y in kv for y in subvalues(t[1][0])), R2, f'{lab}.windows',
                              f'WINDOW is written with {g}', r, e.node)
        c.require(found, R1, f'{lab}.{kw}', f'{kw} lines are not written')
    # attributes that are not written must be internal ones
    for r in loops:
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        it = r.events[its[-1]]
        if not any(contains(it.value, a) for a in attrs) or any(True for _ in writes_of(r, its[-1])):
            continue
        facts = [(x.lit, x.pol) for x in r.events[its[-1]:] if x.kind == 'assume']
        internal = any(pol and any(isinstance(y, tuple) and y[0] == 'const' and isinstance(y[1], str) and y[1].startswith('_') for y in subvalues(l)) for l, pol in facts)
        nowin = any(not pol and any(isinstance(y, tuple) and y[0] == 'const' and isinstance(y[1], str) and y[1].startswith('_WINDOW') or y == ('global', 'Text') for y in subvalues(l)) for l, pol in facts) \
            or any(not pol and 'isinstance' in show(l) for l, pol in facts)
        c.require(internal or nowin, R1, f'{lab}.attributes', 'an attribute of a component is not written', r)
    # file
    head = False
    for r in paths:
        if r.outcome.kind != 'return':
            continue
        ts = [tokens(e.args[0]) for _, e in writes_of(r)]
        v = [t for t in ts if t and t[0] == ['Version'] and t[1] == [A(SELF, 'version')]]
        s = [t for t in ts if t and t[0] == ['SHEET'] and t[1] == [A(SELF, 'sheet')]]
        c.require(len(v) == 1 and len(s) == 1 and ts[0] == v[0], R1, f'{lab}.header', 'version and sheet are not written first', r)
        for e in r.events:
            if e.kind == 'call' and e.name == 'open' and not e.raised:
                kw = dict(e.kw)
                c.require(kw.get('encoding') == A(SELF, 'encoding') and derives(r, e.args[0], lambda x: x == P('run_netlist_file')), R5, lab, f'writes with {e!r}', r, e.node)
    f = c.p.lookup(k, 'save_as')
    for r in c.walk(f, k, opaque={'save_netlist'}, no_raise=NR):
        if r.outcome.kind != 'return':
            continue
        w = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, '_circuit_filepath')]
        s = [e for e in r.events if e.kind == 'call' and e.name == 'save_netlist']
        c.require(len(s) == 1 and w and s[0].args and s[0].args[0] == w[-1].value and deep(s[0].args[0], lambda x: x == P(f.arg_names()[1])), R5, label(k, 'save_as'),
                  'the schematic is not saved under the new name', r)


def _means_empty(x):
    """the assumption says that the pattern is empty"""
    s = show(x.lit)
    l, pol = x.lit, x.pol
    if l[0] == 'not':
        l, pol = l[1], not pol
    if l[0] == 'cmp' and l[1] in ('eq', 'is') and "''" in s:
        return pol
    if l[0] == 'cmp' and l[1] in ('ne', 'isnot') and "''" in s:
        return not pol
    if l[0] == 'truthy' or l[0] == 'attr':
        return not pol
    return False


def asc_read(c, R3):
    k = c.p.cls('AscEditor')
    f = c.p.lookup(k, 'reset_netlist')
    lab = label(k, 'reset_netlist')
    paths, loops = c.walk_loops(f, k, opaque={'save_as', 'updated', 'open', 'getLogger', '_get_symbol', '_get_subcircuit', 'asc_text_align_set'}, no_raise=NR | {'open', 'startswith', 'asc_text_align_set'})
    seen = set()
    for r in loops:
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        its = [i for i in its if r.events[i].value is not None and r.events[i].value[0] not in ('tuple', 'list')]
        if not its:
            continue
        start = its[0]
        line = ('elem', r.events[start].value)
        kws = {}
        cmpkw = None
        for e in r.events[start:]:
            if e.kind == 'assume':
                l = e.lit
                m = [y for y in subvalues(l) if isinstance(y, tuple) and y[0] == 'mcall' and y[2] == 'startswith' and y[1] == line]
                if m and m[0][3] and m[0][3][0][0] == 'const':
                    kws[m[0][3][0][1].strip()] = e.pol
        pos = [x for x, p in kws.items() if p]
        tag = pos[-1] if pos else None
        if tag is None:
            continue
        adds = [(i, e) for i, e in enumerate(r.events) if i > start and e.kind == 'call' and not e.raised and e.name in ('append', 'insert', 'add') and e.recv is not None
                and e.recv[0] == 'attr' and e.recv[1] == SELF]
        cont = {'WIRE': 'wires', 'FLAG': 'labels', 'IOPIN': 'ports', 'LINE': 'lines', 'RECTANGLE': 'shapes', 'CIRCLE': 'shapes', 'ARC': 'shapes', 'TEXT': 'directives'}.get(tag)
        facts = [(show(e.lit), e.pol) for e in r.events[start:] if e.kind == 'assume']
        if cont:
            # the tests of the first word repeat the keyword: skip paths that contradict it
            first = [(l, pol) for l, pol in ((e.lit, e.pol) for e in r.events[start:] if e.kind == 'assume') if _first_word(l, line)]
            if tag == 'LINE' and any(pol for l, pol in first if 'LINE' not in show(l)) or tag in ('RECTANGLE', 'CIRCLE', 'ARC') and any(
                    not pol for l, pol in first if tag in show(l)):
                continue
            mine = [e for _, e in adds if e.recv[2] == cont]
            if tag == 'TEXT' and not mine and any('match' in s and not pol or 'match' in s and 'is None' in s and pol for s, pol in facts):
                continue        # a TEXT line of another form
            seen.add(tag)
            if not c.require(len(mine) == 1, R3, f'{lab}.{tag}', f'a {tag} line adds {len(mine)} elements to self.{cont}', r):
                continue
            obj = mine[0].args[-1]
            fields = fields_of(c, r, obj)
            spec = {'IOPIN': ['', '', 'direction']}.get(tag) or (SPEC.get(tag) or SPEC['SHAPE'])[1]
            for i, s in enumerate(spec, 1):
                s0 = s.lstrip('?')
                if s0.startswith('=') or not s0:
                    continue
                if tag == 'TEXT' and s0 == 'align':
                    al = [e for e in r.events[start:] if e.kind == 'call' and e.name == 'asc_text_align_set']
                    c.require(al and any(_token(a, line) == i for a in al[-1].args), R3, f'{lab}.{tag}', 'the alignment is not taken from its position', r)
                    continue
                if s0 == 'points':
                    check_points(c, R3, r, lab, tag, fields.get('points'), line)
                    continue
                if s.startswith('?') and cont in ('lines', 'shapes'):
                    idx = {'LINE': 6, 'RECTANGLE': 6, 'CIRCLE': 6, 'ARC': 10}[tag]
                    given = any(('len(' in a and f'eq {idx + 1}' in a and pol) for a, pol in facts)
                    v = fields.get(s0)
                    if given or v is not None and _token(v, line) is not None:
                        c.require(v is not None and _token(v, line) == idx, R3, f'{lab}.{tag}', f'the line pattern is taken from {show(v) if v else "nowhere"}', r)
                    continue
                v = fields.get(s0)
                at = _token(v, line) if v is not None else None
                if tag == 'TEXT' and s0 == 'text':
                    at = at - 1 if at == 6 else at
                c.require(at == i, R3, f'{lab}.{tag}', f'{s0} of a {tag} is taken from {show(v) if v is not None else "nowhere"}, not from position {i}', r)
            if tag == 'TEXT':
                t = fields.get('type')
                mark = [pol for s, pol in facts if "eq '!'" in s] + [not pol for s, pol in facts if "eq ';'" in s or "ne '!'" in s]
                if t is not None and mark:
                    c.require(show(t).endswith('DIRECTIVE') == mark[-1], R3, f'{lab}.TEXT', f'the marker {"!" if mark[-1] else ";"} is read as {show(t)}', r)
            if tag in ('RECTANGLE', 'CIRCLE', 'ARC'):
                nm = fields.get('name')
                c.require(nm == ('const', tag) or nm is not None and _token(nm, line) == 0, R3, f'{lab}.{tag}', f'the shape is called {show(nm) if nm else "?"}', r)
            if tag == 'IOPIN':
                c.require(fields.get('text') is not None and 'labels' in show(fields['text']), R3, f'{lab}.IOPIN', 'the pin is not attached to its label', r)
        elif tag == 'SYMBOL':
            seen.add(tag)
            ws = {}
            new = [e for e in r.events[start:] if e.kind == 'call' and e.name == 'AscComponent']
            for e in r.events[start:]:
                if e.kind == 'write' and e.path[0] == 'attr':
                    for n in (('symbol',), ('position', 'X'), ('position', 'Y'), ('rotation',)):
                        if field_tail(e.path) == n:
                            ws[n] = e.value
            for n, i in ((('symbol',), 1), (('position', 'X'), 2), (('position', 'Y'), 3), (('rotation',), 4)):
                v = ws.get(n)
                at = _token(v, line) if v is not None else None
                c.require(len(new) == 1 and at in (i, i - 5), R3, f'{lab}.SYMBOL', f'{".".join(n)} is taken from {show(v) if v is not None else "nowhere"}', r)
            had = any('component is None' in s and not pol or s == 'component' and pol for s, pol in facts)
            st = [e for e in r.events[start:] if e.kind in ('setitem', 'write') and e.path is not None and e.path[0] in ('sub', 'item') and e.path[1] == A(SELF, 'components')
                  or e.kind == 'setitem' and e.recv == A(SELF, 'components')]
            if had:
                c.require(len(st) == 1, R3, f'{lab}.SYMBOL', 'the previous component is not stored when the next one begins', r)
        elif tag == 'SYMATTR':
            seen.add(tag)
            at = [e for e in r.events[start:] if e.kind in ('setitem', 'write') and e.path is not None and e.path[0] in ('sub', 'item') and 'attributes' in show(e.path) and '_SUBCKT' not in show(e.path)]
            rf = [e for e in r.events[start:] if e.kind == 'write' and e.path[0] == 'attr' and e.path[2] in ('reference', '_reference')]
            inst = [pol for s, pol in facts if 'InstName' in s]
            if inst and inst[-1]:
                c.require(rf and _token(rf[-1].value, line) == 2, R3, f'{lab}.SYMATTR', 'the instance name is not taken over', r)
            else:
                c.require(len(at) == 1 and _token(at[0].path[2], line) == 1 and _token(at[0].value, line) == 2, R3, f'{lab}.SYMATTR', 'an attribute is not taken over', r)
        elif tag == 'WINDOW':
            seen.add(tag)
            at = [e for e in r.events[start:] if e.kind in ('setitem', 'write') and e.path is not None and e.path[0] in ('sub', 'item') and 'attributes' in show(e.path)]
            if c.require(len(at) == 1 and 'WINDOW' in show(at[0].path) and _token(at[0].path[2], line) == 1, R3, f'{lab}.WINDOW', 'a text window is not taken over', r):
                fl = fields_of(c, r, at[0].value)
                al = [e for e in r.events[start:] if e.kind == 'call' and e.name == 'asc_text_align_set']
                got = [_token(fl[x], line) if x in fl else None for x in ('coord.X', 'coord.Y', 'size')] + [next((_token(a, line) for a in al[-1].args if _token(a, line) is not None), None) if al else None]
                c.require(got == [2, 3, 5, 4], R3, f'{lab}.WINDOW', f'x, y, size, alignment are taken from positions {got}', r)
        elif tag in ('Version', 'SHEET'):
            seen.add(tag)
            w = [e for e in r.events[start:] if e.kind == 'write' and e.path == A(SELF, tag.lower())]
            c.require(len(w) == 1 and deep(w[0].value, lambda x: x == line), R3, f'{lab}.{tag}', f'{tag} is not taken over', r)
    for t in ('WIRE', 'FLAG', 'IOPIN', 'LINE', 'RECTANGLE', 'CIRCLE', 'ARC', 'TEXT', 'SYMBOL', 'SYMATTR', 'WINDOW', 'Version', 'SHEET'):
        c.require(t in seen, R3, f'{lab}.{t}', f'{t} lines are not read')
    for r in paths:
        if r.outcome.kind == 'return' and any(e.kind == 'assume' and e.pol is False and 'component is None' in show(e.lit) for e in r.events):
            st = [e for e in r.events if e.kind in ('setitem', 'write') and e.path is not None and e.path[0] in ('sub', 'item') and e.path[1] == A(SELF, 'components')]
            c.require(st, R3, f'{lab}.SYMBOL', 'the last component of the file is not stored', r)


def field_tail(p):
    out = []
    while isinstance(p, tuple) and p[0] == 'attr':
        out.append(p[2])
        p = p[1]
    return tuple(reversed(out))


def _first_word(l, line):
    s = show(l)
    return 'split()' in s and ('item' in s and ', 0)' in s or '[0]' in s)


def _token(v, line):
    """number of the word (or group) of the line a value is taken from"""
    if v is None:
        return None
    for x in subvalues(v):
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'item' and isinstance(x[2], int) and contains(x[1], line):
            return x[2]
        if x[0] == 'rest' and contains(x[1], line):
            return x[2]
        if x[0] == 'sub' and x[2][0] == 'const' and isinstance(x[2][1], int) and contains(x[1], line) and x[1][0] == 'mcall' and x[1][2] == 'split':
            return x[2][1]
        if x[0] == 'mcall' and x[2] == 'group' and x[3] and x[3][0][0] == 'const':
            g = x[3][0][1]
            return g if isinstance(g, int) else {'text': 6, 'type': 5}.get(g)
    return None


def fields_of(c: Ctx, r: PathResult, obj):
    """field path -> value of an object built on the path (constructor arguments and later writes)"""
    out = {}
    if obj[0] == 'res' and obj[2] == 'asc_text_align_set':
        ev = next((e for e in r.events if e.kind == 'call' and e.n == obj[1]), None)
        if ev is not None and ev.args:
            obj = ev.args[0]
    if obj[0] != 'obj':
        return out
    ev = next((e for e in r.events if e.kind == 'call' and e.n == obj[1]), None)
    k = c.p.cls(obj[2])
    init = c.p.lookup(k, '__init__')
    if init is not None:
        names = init.arg_names()[1:]
        amap = {}
        for n in ast.walk(init.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in names:
                    amap.setdefault(n.value.id, t.attr)
    else:
        names = [s.target.id for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        amap = {n: n for n in names}
    vals = {}
    if ev is not None:
        for n, v in zip(names, ev.args or ()):
            vals[amap.get(n, n)] = v
        for n, v in ev.kw or ():
            vals[amap.get(n, n)] = v
    for e in r.events:
        if e.kind == 'write' and e.path[0] == 'attr':
            t, p = [], e.path
            while p[0] == 'attr':
                t.append(p[2])
                p = p[1]
            if p == obj:
                vals['.'.join(reversed(t))] = e.value
    for n, v in vals.items():
        out[n] = v
        if isinstance(v, tuple) and v and v[0] == 'obj':
            for a, b in fields_of(c, r, v).items():
                out.setdefault(f'{n}.{a}', b)
    return out


def check_points(c, R, r, lab, tag, v, line):
    n = 4 if tag == 'ARC' else 2
    if v is None:
        c.bad(R, f'{lab}.{tag}', 'the shape has no points', r)
        return
    if v[0] == 'list':
        got = []
        for x in v[1]:
            fl = fields_of(c, r, x)
            got += [_token(fl.get('X'), line), _token(fl.get('Y'), line)]
        c.require(got == list(range(2, 2 + 2 * n)), R, f'{lab}.{tag}', f'points are taken from positions {got}', r)
        return
    rng = [x for x in subvalues(v) if isinstance(x, tuple) and x[:2] == ('call', 'range')]
    if rng and all(a[0] == 'const' for a in rng[0][2]):
        vals = list(range(*[a[1] for a in rng[0][2]]))
        pts = [x for x in subvalues(v) if isinstance(x, tuple) and x[0] == 'obj']
        fl = fields_of(c, r, pts[0]) if pts else {}
        X, Y = fl.get('X'), fl.get('Y')
        i = ('elem', rng[0])
        okx = X is not None and any(isinstance(x, tuple) and x[0] == 'sub' and x[2] == i for x in subvalues(X))
        oky = Y is not None and any(isinstance(x, tuple) and x[0] == 'sub' and x[2] in (('bin', '+', i, ('const', 1)), ('bin', '+', ('const', 1), i)) for x in subvalues(Y))
        c.require(vals == list(range(2, 2 + 2 * n, 2)) and okx and oky, R, f'{lab}.{tag}', f'points are taken from positions {vals}: {show(X) if X else None}, {show(Y) if Y else None}', r)
    else:
        c.note(f'points of {tag} are built in a way the analysis does not follow')


def asc_tables(c, R4):
    m = c.p.func(ED + 'ltspice_utils.py', 'asc_text_align_set') if hasattr(c.p, 'func') else None
    sset = next(f for f in c.p.all_funcs() if f.name == 'asc_text_align_set')
    sget = next(f for f in c.p.all_funcs() if f.name == 'asc_text_align_get')
    mod = sset.module
    # rotation names
    try:
        node = next(n.value for n in mod.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and ast.unparse(n.targets[0] if isinstance(n, ast.Assign) else n.target) == 'ASC_ROTATION_DICT')
        if isinstance(node, ast.Dict):
            for kk, vv in zip(node.keys, node.values):
                nm = kk.value if isinstance(kk, ast.Constant) else None
                c.require(isinstance(vv, ast.Attribute) and vv.attr == nm, R4, f'{mod.rel}:ASC_ROTATION_DICT', f'{nm} is read as {ast.unparse(vv)}', node=vv)
            names = {kk.value for kk in node.keys}
            c.require(names == {'R0', 'R90', 'R180', 'R270', 'M0', 'M90', 'M180', 'M270'}, R4, f'{mod.rel}:ASC_ROTATION_DICT', f'rotations {sorted(names)} only')
        inv = next(n.value for n in mod.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and ast.unparse(n.targets[0] if isinstance(n, ast.Assign) else n.target) == 'ASC_INV_ROTATION_DICT')
        if isinstance(inv, ast.DictComp):
            g = inv.generators[0]
            okk = len(inv.generators) == 1 and not g.ifs and ast.unparse(g.iter) == 'ASC_ROTATION_DICT.items()' and isinstance(g.target, ast.Tuple) and \
                ast.unparse(inv.key) == ast.unparse(g.target.elts[1]) and ast.unparse(inv.value) == ast.unparse(g.target.elts[0])
            c.require(okk, R4, f'{mod.rel}:ASC_INV_ROTATION_DICT', 'is not the inverse of ASC_ROTATION_DICT', node=inv)
        elif isinstance(inv, ast.Dict) and isinstance(node, ast.Dict):
            a = {(ast.unparse(x), ast.unparse(y)) for x, y in zip(node.keys, node.values)}
            b = {(ast.unparse(y), ast.unparse(x)) for x, y in zip(inv.keys, inv.values)}
            c.require(a == b, R4, f'{mod.rel}:ASC_INV_ROTATION_DICT', 'is not the inverse of ASC_ROTATION_DICT', node=inv)
    except StopIteration:
        c.note('rotation tables not found as module-level assignments')
    # alignment: reading each name, then writing it, gives the name back
    T, AL = ('param', sset.arg_names()[0]), ('param', sset.arg_names()[1])
    defaults = {'textAlignment': 'LEFT', 'verticalAlignment': 'CENTER', 'angle': 'R0', 'visible': True}
    setp = [r for r in c.walk(sset, None, no_raise=NR | {'lower', 'startswith'}) if r.outcome.kind == 'return']
    getp = [r for r in c.walk(sget, None, no_raise=NR) if r.outcome.kind == 'return']
    T2 = ('param', sget.arg_names()[0])

    def enumname(v):
        return v[2] if v[0] == 'attr' else v[1] if v[0] == 'const' else None

    for base in ('Left', 'Right', 'Center', 'Top', 'Bottom', 'Invisible'):
        for nm in (base, 'V' + base):
            outs = []
            for r in setp:
                st = dict(defaults)
                feasible = True
                for e in r.events:
                    if e.kind == 'assume':
                        b = ev_align(e.lit, AL, nm)
                        if b is not None and b != e.pol:
                            feasible = False
                            break
                    elif e.kind == 'write' and e.path[0] == 'attr' and e.path[1] == T:
                        st[e.path[2]] = enumname(e.value)
                if feasible:
                    outs.append((r, st))
            if not outs:
                c.bad(R4, sset, f'alignment {nm} is not read')
                continue
            for r0, st in outs:
                res = set()
                for r in getp:
                    feasible = True
                    for e in r.events:
                        if e.kind == 'assume':
                            b = ev_state(e.lit, T2, st)
                            if b is not None and b != e.pol:
                                feasible = False
                                break
                    if feasible:
                        v = ''.join(x if isinstance(x, str) else '?' for x in flat(r.outcome.value))
                        res.add(v)
                if base == 'Invisible':
                    good = res <= {nm, 'Invisible', 'VInvisible'} and nm in res
                else:
                    good = res == {nm}
                if '?' in ''.join(res):
                    c.note('alignment name not constant on a path')
                    continue
                c.require(good, R4, f'{mod.rel}:alignment {nm}', f'alignment {nm} is read as {st} and written as {sorted(res)}', r0)


def ev_align(l, AL, nm):
    """value of a condition on the alignment name"""
    if l[0] == 'not':
        b = ev_align(l[1], AL, nm)
        return None if b is None else not b
    if l[0] in ('or', 'and'):
        bs = [ev_align(x, AL, nm) for x in l[1]]
        if None in bs:
            return None
        return any(bs) if l[0] == 'or' else all(bs)

    def val(v):
        if v == AL:
            return nm
        if v[0] == 'const':
            return v[1]
        if v[0] in ('tuple', 'list', 'set'):
            xs = [val(x) for x in v[1]]
            return None if None in xs else xs
        if v[0] == 'mcall' and v[2] in ('lower', 'upper', 'strip', 'removeprefix', 'lstrip', 'casefold', 'capitalize') and isinstance(val(v[1]), str):
            a = [val(x) for x in v[3]]
            return getattr(val(v[1]), v[2])(*a) if None not in a else None
        if v[0] == 'sub' and isinstance(val(v[1]), str):
            if v[2][0] == 'slice':
                ps = [x[1] if x[0] == 'const' else 'bad' for x in v[2][1:]]
                return val(v[1])[slice(*ps)] if 'bad' not in ps else None
            if v[2][0] == 'const':
                return val(v[1])[v[2][1]]
        return None
    if l[0] == 'cmp':
        a, b = val(l[2]), val(l[3])
        if a is None or b is None:
            return None
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'in': lambda: a in b, 'notin': lambda: a not in b, 'is': lambda: a == b, 'isnot': lambda: a != b}.get(l[1], lambda: None)()
    if l[0] == 'truthy':
        return ev_align(l[1], AL, nm)
    if l[0] == 'mcall' and l[2] in ('startswith', 'endswith') and isinstance(val(l[1]), str) and l[3]:
        a = val(l[3][0])
        return None if a is None else getattr(val(l[1]), l[2])(tuple(a) if isinstance(a, list) else a)
    return None


def ev_state(l, T, st):
    if l[0] == 'not':
        b = ev_state(l[1], T, st)
        return None if b is None else not b
    if l[0] in ('or', 'and'):
        bs = [ev_state(x, T, st) for x in l[1]]
        if None in bs:
            return None
        return any(bs) if l[0] == 'or' else all(bs)
    if l[0] == 'truthy':
        return ev_state(l[1], T, st)
    if l[0] == 'attr' and l[1] == T and l[2] in st and isinstance(st[l[2]], bool):
        return st[l[2]]
    if l[0] == 'cmp':
        def val(v):
            if v[0] == 'attr' and v[1] == T:
                return st.get(v[2])
            if v[0] == 'attr' and v[1][0] == 'global':
                return v[2]
            if v[0] == 'const':
                return v[1]
            if v[0] in ('tuple', 'list', 'set'):
                return [val(x) for x in v[1]]
        a, b = val(l[2]), val(l[3])
        if a is None or b is None:
            return None
        return {'eq': lambda: a == b, 'is': lambda: a == b, 'ne': lambda: a != b, 'isnot': lambda: a != b, 'in': lambda: a in b, 'notin': lambda: a not in b}.get(l[1], lambda: None)()
    return None


def qsch_write(c, R5, R7):
    k = c.p.cls('QschEditor')
    f = c.p.lookup(k, 'save_as')
    lab = label(k, 'save_as')
    paths, loops = c.walk_loops(f, k, opaque={'save_as', 'updated', 'open', 'getLogger', 'out'} - {'save_as'} | {'out'}, no_raise=NR | {'write', 'open', 'updated', 'out', 'chr'}, max_depth=1)
    newp = P(f.arg_names()[1])
    wrote = False
    for r in paths:
        if r.outcome.kind != 'return':
            continue
        o = [e for e in r.events if e.kind == 'call' and e.name == 'open' and not e.raised]
        facts = [(show(e.lit), e.pol) for e in r.events if e.kind == 'assume']
        ws = [e for _, e in writes_of(r)]
        if o:
            wrote = True
            t = [e for e in ws if deep(e.args[0], lambda x: x[0] == 'res' and x[2] == 'out' or x[0] == 'mcall' and x[2] == 'out')]
            outs = [e for e in r.events if e.kind == 'call' and e.name == 'out']
            c.require(len(t) == 1 and len(outs) == 1 and outs[0].recv == A(SELF, 'schematic'), R7, lab, 'the drawing is not written', r)
            target = o[0].recv if o[0].recv is not None else o[0].args[0]
            enc = dict(o[0].kw).get('encoding')
            mode = [a for a in o[0].args if a[0] == 'const'] + [v for n, v in o[0].kw if n == 'mode']
            c.require(deep(target, lambda x: x == newp) and enc == ('const', 'cp1252') and mode == [('const', 'w')], R5, lab, f'written with {o[0]!r}', r, o[0].node)
        else:
            skip = any('schematic' in s for s, pol in facts) and any('schematic' in s and not pol for s, pol in facts)
            same = any('updated' in s and not pol for s, pol in facts) or any('canvas_updated' in s and not pol for s, pol in facts)
            samepath = any('_circuit_filepath' in s and (pol and ' eq ' in s or not pol and ' ne ' in s) for s, pol in facts)
            c.require(skip or same and samepath, R7, lab, 'nothing is written although the schematic changed or the path is another', r)
    c.require(wrote, R7, lab, 'no path writes the schematic')
    cut = any(isinstance(v, tuple) and v and v[0] == 'sub' and 'QSCH_HEADER' in repr(v[1]) for r in paths + loops for e in r.events if e.kind in ('iter', 'call') for x in (e.value, *(e.args or ()))
              if x is not None for v in subvalues(x))
    hdr = [r for r in loops if any(e.kind == 'iter' and 'QSCH_HEADER' in show(e.value) for e in r.events)] if not cut else []
    flatw = [e for r in paths for _, e in writes_of(r) if 'QSCH_HEADER' in repr(e)] if not cut else []
    c.require(bool(hdr) and all(writes_of(r, max(i for i, e in enumerate(r.events) if e.kind == 'iter')) for r in hdr) or flatw, R7, lab, 'the file header is not written')
    subs = [r for r in loops if any(e.kind == 'iter' and 'components' in show(e.value) for e in r.events)]
    for r in subs:
        facts = [(show(e.lit), e.pol) for e in r.events if e.kind == 'assume']
        skip = any('_SUBCKT' in s and (not pol and ' in ' in s or pol and 'is None' in s) for s, pol in facts) or any('updated' in s and 'res' not in s and not pol for s, pol in facts) or any(
            '_SUBCKT' in s and not pol and 'is None' not in s for s, pol in facts)
        saved = any(e.kind == 'call' and e.name == 'save_as' and e.recv is not None and '_SUBCKT' in show(e.recv) for e in r.events)
        c.require(saved or skip or any('updated' in s and not pol for s, pol in facts), R7, lab, 'a changed sub-circuit schematic is not saved', r)
    # the reader uses the same encoding
    f2 = c.p.lookup(k, 'reset_netlist')
    for r in c.walk(f2, k, opaque={'_parse_qsch_stream', 'open'}, no_raise=NR | {'open', 'read'}):
        for e in r.events:
            if e.kind == 'call' and e.name == 'open' and not e.raised:
                c.require(dict(e.kw).get('encoding') == ('const', 'cp1252') and (e.args and e.args[0] == A(SELF, '_circuit_filepath') or e.recv == A(SELF, '_circuit_filepath')),
                          R5, label(k, 'reset_netlist'), f'reads with {e!r}', r, e.node)
    # tag tree
    t = c.p.cls('QschTag')
    g = c.p.lookup(t, 'out')
    toks, items = A(SELF, 'tokens'), A(SELF, 'items')
    for r in c.walk(g, t, opaque={'out'}, no_raise=NR | {'out'}):
        if r.outcome.kind != 'return':
            continue
        v = r.outcome.value
        leaf = any(e.kind == 'assume' and contains(e.lit, items) and not e.pol for e in r.events)
        tk = derives(r, v, lambda x: x == toks) or any(e.kind == 'call' and any(deep(a, lambda x: x == toks) for a in e.args or ()) for e in r.events)
        it = any(e.kind == 'call' and e.name == 'out' and e.recv == ('elem', items) for e in r.events) or deep(v, lambda x: x == ('elem', items))
        loop0 = any(e.kind == 'loop0' and over(e, items) for e in r.events)
        st = show(v)
        part = any(isinstance(y, tuple) and len(y) == 3 and y[0] == 'sub' and y[1] in (toks, items) for e in r.events for x in (e.value, *(e.args or ())) if x is not None for y in subvalues(x)) or any(
            isinstance(y, tuple) and len(y) == 3 and y[0] == 'sub' and y[1] in (toks, items) for y in subvalues(v))
        c.require(not part, R7, label(t, 'out'), 'only a part of the tokens or children of a tag is written', r)
        c.require(tk and (it or leaf or loop0), R7, label(t, 'out'), 'tokens or children of a tag are not written', r)
        c.require('«' in st and '»' in st or '«' in repr(r), R7, label(t, 'out'), 'a tag is written without its brackets', r)


def spice_write(c, R5, R6):
    k = c.p.cls('SpiceFile')
    f = c.p.lookup(k, 'save_netlist')
    lab = label(k, 'save_netlist')
    arg = P(f.arg_names()[1])
    for r in c.walk(f, k, opaque={'write_lines', 'open'}, no_raise=NR | {'open', 'write_lines'}):
        if r.outcome.kind != 'return':
            continue
        w = [e for e in r.events if e.kind == 'call' and e.name == 'write_lines' and e.recv == SELF]
        if not c.require(len(w) == 1, R6, lab, f'the lines are written {len(w)} times', r):
            continue
        for e in r.events:
            if e.kind == 'call' and e.name == 'open' and not e.raised:
                c.require(dict(e.kw).get('encoding') == A(SELF, 'encoding') and (deep(e.args[0], lambda x: x == arg) if e.args else False) and ('const', 'w') in list(e.args) + [v for _, v in e.kw], R5, lab,
                          f'written with {e!r}', r, e.node)
                c.require(w[0].args[0] == ('res', e.n, 'open'), R6, lab, 'the lines do not go to the opened file', r)
    f = c.p.lookup(k, 'reset_netlist')
    for r in c.walk(f, k, opaque={'open', '_add_lines', 'separate_lines'}, no_raise=NR | {'open'}):
        for e in r.events:
            if e.kind == 'call' and e.name == 'open' and not e.raised:
                c.require(dict(e.kw).get('encoding') == A(SELF, 'encoding'), R5, label(k, 'reset_netlist'), f'read with {e!r}', r, e.node)
    f = c.p.lookup(k, 'save_as')
    for r in c.walk(f, k, opaque={'save_netlist'}, no_raise=NR):
        if r.outcome.kind != 'return':
            continue
        w = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, '_circuit_filepath')]
        s = [e for e in r.events if e.kind == 'call' and e.name == 'save_netlist']
        c.require(len(s) == 1 and w and s[0].args and s[0].args[0] in (w[-1].value, P(f.arg_names()[1]), A(SELF, '_circuit_filepath')) and deep(w[-1].value, lambda x: x == P(f.arg_names()[1])), R5, label(k, 'save_as'),
                  'the netlist is not saved under the new name', r)
    k = c.p.cls('SpiceCircuit')
    f = c.p.lookup(k, 'write_lines')
    lab = label(k, 'write_lines')
    stream = P(f.arg_names()[1])
    nl = A(SELF, 'netlist')
    paths, loops = c.walk_loops(f, k, opaque={'write_lines', 'get_line_command', 'modified_subcircuits'}, no_raise=NR | {'write', 'write_lines', 'get_line_command', 'modified_subcircuits'})
    for r in loops:
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        if not over(r.events[its[-1]], nl):
            continue
        el = ('elem', nl)
        outp = [e for i, e in enumerate(r.events) if i > its[-1] and e.kind == 'call' and not e.raised and (
            e.name == 'write' and e.recv == stream and e.args and deep(e.args[0], lambda x: x == el) or
            e.name == 'write_lines' and e.args and e.args[0] == stream and e.recv is not None and deep(e.recv, lambda x: x == el))]
        c.require(len(outp) == 1, R6, lab, f'a line is written {len(outp)} times', r)
        end = [e.pol for i, e in enumerate(r.events) if i > its[-1] and e.kind == 'assume' and '.ENDS' in show(e.lit) and 'get_line_command' in show(e.lit)]
        subs = [(i, e) for i, e in enumerate(r.events) if i > its[-1] and e.kind == 'call' and e.name == 'modified_subcircuits']
        if end and end[-1]:
            first = next(i for i, e in enumerate(r.events) if outp and e is outp[0]) if outp else 0
            c.require(subs and subs[0][0] < first, R6, lab, 'changed sub-circuits are not written before the end of the circuit', r)
    ends = {v for r in loops if any(e.kind == 'call' and e.name == 'modified_subcircuits' for e in r.events) for e in r.events if e.kind == 'assume' and e.pol and 'get_line_command' in show(e.lit)
            for v in subvalues(e.lit) if isinstance(v, tuple) and len(v) == 2 and v[0] == 'const' and isinstance(v[1], str)}
    c.require({('const', '.END'), ('const', '.ENDS')} <= ends, R6, lab, f'changed sub-circuits are only written before {sorted(x[1] for x in ends)}')
    c.require(not any(r.outcome.value == ('const', 'break') for r in loops), R6, lab, 'a loop is left before its end')
    subit = [r for r in loops if any(e.kind == 'iter' and 'modified_subcircuits' in show(e.value) for e in r.events)]
    c.require(subit and all(any(e.kind == 'call' and e.name == 'write_lines' and e.recv is not None and 'modified_subcircuits' in show(e.recv) for e in r.events) for r in subit), R6, lab,
              'changed sub-circuits are not written')
