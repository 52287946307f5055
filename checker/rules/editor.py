"""Editing circuits: permission, update records (P10, P11)."""
import re
from .util import *

ED = 'spicelib/editor/'
EDITORS = ('SpiceEditor', 'SpiceFile', 'SpiceCircuit', 'SpiceCircuitInstance', 'AscEditor', 'QschEditor')
COMPONENTS = ('SpiceComponent', 'SpiceCircuitInstance', 'AscComponent', 'QschComponent')
MUT_RE = re.compile(r'(set_|add_|remove_|clear_)[A-Za-z]|__setitem__$|__delitem__$')
# helpers kept as calls: they read or format only, their results are described by the call
OPQ = {'_get_text_space', 'parse', 'format_eng', 'class_for_instruction', 'get_line_command', '_is_unique_instruction', 'get_component',
       '_get_parent', '_get_param_named', '_get_parameter_named', 'begin_update', 'is_read_only', 'get_xy_for_new_text', 'get_items', 'get_attr',
       'get_text_attr', 'get_text', 'undress_designator', 'update_completed', 'name', 'end_update', 'subcircuit', 'get_parameters',
       '_insert_section', 'get_subcircuit', 'try_convert_value', 'find_library', 'was_modified', 'reset_attributes', 'to_float', 'try_value',
       '_insertion_line'}
NR = {'info', 'warning', 'error', 'debug', 'strip', 'upper', 'lower', 'span', 'group', 'end_update', 'format_eng', '_get_text_space', 'index',
      'begin_update', 'splitlines', 'split', 'join', 'rstrip', 'finditer', 'match', 'findall', 'sub', 'compile', 'pop', 'append', 'insert',
      'remove', 'set_attr', 'get_attr', 'get_items', 'get_line_command', 'parse', '_insertion_line', 'is_read_only', 'name'}
BOOK = {'custom_lib_paths', 'canvas_updated', 'netlist_updates', '_modified', 'symbol_cache', '_subcircuit', 'shadow_subcircuit'}
GEOM = {'position', 'rotation'}
RECORD = {'end_update', 'add_update'}


def PERM(name):
    return ('attr', ('global', 'UpdatePermission'), name)


def mutators(c: Ctx):
    """(class, method name, implementation) of every public editing operation of the editor and component classes"""
    out = []
    for cn in dict.fromkeys(EDITORS + COMPONENTS):
        k = c.p.cls(cn)
        names = {}
        for b in c.p.mro(k):
            for n, f in b.methods.items():
                if MUT_RE.match(n) and n not in names:
                    names[n] = f
        for n in sorted(names):
            f = names[n]
            if not f.is_abstract and not f.is_classmethod and not f.is_static:
                out.append((k, n, f))
    return out


def mutator_names(c: Ctx):
    if not hasattr(c.p, '_mutnames'):
        c.p._mutnames = {n for _, n, _ in mutators(c)} | {'set_model', 'set_position', 'update_model'}
    return c.p._mutnames


def root(v):
    while isinstance(v, tuple) and v and v[0] in ('attr', 'sub', 'item', 'old', 'elem', 'slice') and isinstance(v[1], tuple):
        v = v[1]
    return v


def fresh(v):
    r = root(v)
    if not isinstance(r, tuple) or not r:
        return False
    if r[0] in ('obj', 'list', 'dict', 'set', 'grown', 'const', 'comp', 'listcomp', 'fstr'):
        return True
    if r[0] == 'call' and r[1] in ('OrderedDict', 'dict', 'list', 'set', 'sorted', 'tuple'):
        return True
    if r[0] == 'res' and r[2] in ('parse', 'clone', 'deepcopy', 'copy', 'Primitive', 'Text', 'open') or v == r and r[0] == 'res' and r[2] == 'get_items' or r[0] == 'mcall' and r[2] in ('copy',):
        return True
    if r[0] == 'local' or r[0] == 'global' and str(r[1]).startswith('_logger'):
        return True
    return False


def attrs_in(v):
    out = set()
    while isinstance(v, tuple) and v and v[0] in ('attr', 'sub', 'item', 'old', 'elem') and isinstance(v[1], tuple):
        if v[0] == 'attr':
            out.add(v[2])
        v = v[1]
    return out


def mutation(e: Ev):
    """what the event changes in the document (not bookkeeping), or None"""
    if e.raised:
        return None
    if e.kind in ('write', 'setitem', 'del', 'aug'):
        p = e.path if e.path is not None else e.recv
    elif e.kind == 'call' and e.recv is not None and (e.name in LIST_MUT or e.name == 'set_attr'):
        p = e.recv
    elif e.kind == 'call' and e.recv is None and e.name in ('setattr', 'delattr') and e.args:
        p = e.args[0]
    else:
        return None
    if p is None or fresh(p):
        return None
    if p[0] in ('local', 'global', 'param', 'const') and e.kind == 'call':
        return None
    if attrs_in(p) & BOOK:
        return None
    return p


def delegation(e: Ev, names):
    return e.kind == 'call' and not e.raised and e.name in names and e.recv is not None


def permlike(v):
    return any(x[0] == 'res' and x[2] == 'begin_update' or x[0] == 'attr' and x[2] == 'update_permission'
               or x[0] == 'mcall' and x[2] == 'begin_update' for x in subvalues(v) if isinstance(x, tuple) and x)


ORDER = ['Deny', 'Initializing', 'Inform']


def perm_filter(poss, lit, pol):
    """narrow the possible permissions by one assumed literal"""
    def names_in(v):
        return [x[2] for x in subvalues(v) if isinstance(x, tuple) and x[:2] == ('attr', ('global', 'UpdatePermission'))]
    if lit[0] == 'not':
        return perm_filter(poss, lit[1], not pol)
    if lit[0] == 'truthy' and isinstance(lit[1], tuple):
        lit = lit[1]
    if lit[0] in ('res', 'mcall') and lit[2] == 'is_read_only':
        return poss & {'Deny'} if pol else poss - {'Deny'}
    if lit[0] == 'cmp':
        op, a, b = lit[1], lit[2], lit[3]
        for x, y, flip in ((a, b, False), (b, a, True)):
            if permlike(x):
                ns = [n for n in names_in(y) if n in ORDER]
                if not ns:
                    continue
                if op in ('eq', 'is', 'in'):
                    sel = set(ns)
                elif op in ('ne', 'isnot', 'notin'):
                    sel = set(ORDER) - set(ns)
                elif op in ('lt', 'le', 'gt', 'ge') and len(ns) == 1:
                    i = ORDER.index(ns[0])
                    o = op if not flip else {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[op]
                    sel = {m for j, m in enumerate(ORDER) if (j < i if o == 'lt' else j <= i if o == 'le' else j > i if o == 'gt' else j >= i)}
                else:
                    continue
                return poss & sel if pol else poss - sel
    if lit[0] == 'or' or lit[0] == 'and':
        parts = [perm_filter(poss, x, pol) for x in lit[1]]
        conj = (lit[0] == 'and') == pol
        out = set(poss) if conj else set()
        for q in parts:
            out = out & q if conj else out | q
        return out
    return poss


def edit_walk(c: Ctx, k: Cls, f: Func, **kw):
    o = dict(opaque=OPQ - {f.name}, no_raise=NR, nonnull={'format_eng'})
    o.update(kw)
    key = (k.name, f.qual, tuple(sorted((a, str(b)) for a, b in kw.items())))
    cache = c.p.__dict__.setdefault('_edit_walks', {})
    if key not in cache:
        cache[key] = c.walk(f, k, **o)
    return cache[key]


def label(k, n):
    return f"{k.module.rel}:{k.name}.{n}"


def record_calls(r, upto=None):
    return [(i, e) for i, e in enumerate(r.events) if e.kind == 'call' and not e.raised and e.name in RECORD]


def derives(r: PathResult, v, pred, depth=8):
    """pred holds for something the value was computed from (following call results back to their arguments)"""
    if v is None or depth < 0:
        return False
    for x in subvalues(v):
        if not isinstance(x, tuple) or not x:
            continue
        if pred(x):
            return True
        if x[0] in ('res', 'obj'):
            for e in r.events:
                if e.kind == 'call' and e.n == x[1]:
                    for a in list(e.args or ()) + [b for _, b in e.kw or ()] + ([e.recv] if e.recv else []):
                        if isinstance(a, tuple) and a != v and derives(r, a, pred, depth - 1):
                            return True
    return False


@prop('P10', 'A circuit marked read-only is never changed by editing operations',
      'While an editor\'s update permission is Deny, every editing operation of the netlist and schematic editors, their sub-circuits and their components '
      '(the set_*, add_*, remove_* and clear_* methods and item assignment) is refused with PermissionError or ValueError, or reports that nothing was done, '
      'and leaves the circuit and its list of updates as they were; no editing operation changes the permission itself, and '
      'components and sub-circuits obey the permission of the circuit they belong to.',
      ['inputs', 'histories'],
      'any editing operation with any arguments on any circuit object whose editor denies updates',
      'Read-only is only ever sampled on a couple of operations in the tests; one forgotten check among some eighty editing entry points silently alters a protected circuit.',
      [ED + 'base_editor.py', ED + 'base_subcircuit.py', ED + 'base_schematic.py', ED + 'spice_subcircuit.py', ED + 'spice_file.py',
       ED + 'spice_subcircuit_instance.py', ED + 'spice_components.py', ED + 'asc_editor.py', ED + 'qsch_editor.py'],
      [dict(name='permission query', where=ED + 'base_subcircuit.py:BaseSubCircuit.begin_update'), dict(name='permission query of schematics', where=ED + 'base_schematic.py:BaseSchematic.begin_update'),
       dict(name='editing operations', where='set_*/add_*/remove_*/clear_*/__setitem__ of the editor and component classes')],
      'The editing operations are derived from the class hierarchy (not listed); all paths of each are enumerated with project calls inlined, and on every path each '
      'change of the document must be preceded by a condition that rules out Deny; paths on which only Deny remains must refuse and must change or record nothing.',
      'path-sensitive typestate analysis (permission state) over all editing entry points',
      'Covers every editing entry point and path; assumes loops need not be distinguished beyond one iteration.',
      ['changes made directly to public attributes (not through operations) are outside'])
def p10(c: Ctx):
    R1 = c.rule('P10.guard', 'every change of the circuit happens where Deny has been ruled out', 150)
    R2 = c.rule('P10.refuse', 'under Deny the operation refuses and neither changes nor records anything', 40)
    R3 = c.rule('P10.permission', 'editing operations never write the update permission', 60)
    R4 = c.rule('P10.owner', 'components and sub-circuits report the permission of the circuit they belong to', 6)
    names = mutator_names(c)
    for k, n, f in mutators(c):
        lab = label(k, n)
        with c.attempt(lab):
            paths = edit_walk(c, k, f)
            touches = any(mutation(e) is not None for r in paths for e in r.events)
            for r in paths:
                poss = set(ORDER)
                for i, e in enumerate(r.events):
                    if e.kind == 'assume':
                        poss = perm_filter(poss, e.lit, e.pol)
                        continue
                    m = mutation(e)
                    if m is not None:
                        if 'update_permission' in attrs_in(m):
                            c.bad(R3, lab, f'changes the update permission ({e!r})', r, e.node)
                        elif 'Deny' in poss:
                            c.bad(R1, lab, f'{e!r} happens although the permission may be Deny', r, e.node)
                        else:
                            c.ok(R1, lab)
                if touches and poss == {'Deny'}:
                    o = r.outcome
                    okout = o.kind == 'raise' and any(x in repr(o) for x in ('PermissionError', 'ValueError')) or o.kind == 'return' and o.value == FALSE
                    if not okout:
                        c.bad(R2, lab, f'under Deny ends with {o!r} instead of refusing', r)
                    elif record_calls(r):
                        c.bad(R2, lab, 'records an update although the change was denied', r)
                    else:
                        c.ok(R2, lab)
            c.ok(R3, lab)
    # where the permission comes from
    def upd(v):
        return v[0] == 'attr' and v[2] == 'update_permission' and v[1] == SELF
    for cn, up in (('SpiceCircuit', 'parent'), ('SpiceFile', None), ('AscEditor', None), ('QschEditor', None), ('SpiceComponent', '_netlist'), ('SpiceCircuitInstance', '_netlist')):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'begin_update')
        for r in c.walk(f, k, opaque=OPQ - {'begin_update'} | {'begin_update'}, no_raise=NR):
            if r.outcome.kind == 'raise':
                continue
            v = r.outcome.value
            if up is None:
                good = upd(v)
            else:
                src = [e for e in r.events if e.kind == 'call' and e.n == v[1] and e.name == 'begin_update'] if v[0] == 'res' else []
                if src:
                    good = src[0].recv is not None and src[0].recv[0] == 'attr' and src[0].recv[1] == SELF and src[0].recv[2] in ('parent', '_netlist', 'editor')
                elif v == PERM('Deny'):
                    good = True
                elif upd(v):
                    good = True
                else:
                    # an unattached component has no permission to obey
                    nonet = any(e.kind == 'assume' and contains(e.lit, A(SELF, up)) for e in r.events)
                    good = v == PERM('Initializing') and nonet
            c.require(good, R4, label(k, 'begin_update'), f'returns {show(v)}, which is not the permission of the circuit it belongs to', r)
    for cn in ('SpiceCircuit', 'SpiceFile', 'SpiceCircuitInstance', 'AscEditor', 'QschEditor'):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'is_read_only')
        for r in c.walk(f, k, opaque=set(), no_raise=NR):
            if r.outcome.kind != 'return':
                continue
            v = r.outcome.value
            poss = set(ORDER)
            noed = False
            for e in r.events:
                if e.kind == 'assume':
                    poss = perm_filter(poss, e.lit, e.pol)
                    noed |= e.pol and e.lit[0] in ('isnone', 'cmp') and 'None' in show(e.lit) or e.lit[0] == 'isnone' and e.pol
            if v == TRUE:
                c.require(poss <= {'Deny'} or noed or poss == set(ORDER), R4, label(k, 'is_read_only'), 'reports read-only although editing is allowed', r)
            elif v == FALSE:
                c.require('Deny' not in poss, R4, label(k, 'is_read_only'), 'reports not read-only under Deny', r)
            else:
                if v[0] == 'or':
                    v = next((x for x in v[1] if permlike(x)), v)
                q = perm_filter(set(ORDER), v, True), perm_filter(set(ORDER), v, False)
                c.require(q == ({'Deny'}, set(ORDER) - {'Deny'}) or not permlike(v), R4, label(k, 'is_read_only'), f'{show(v)} does not mean Deny', r)


# ------------------------------------------------------------------------------------------------ P11
UT = ('attr', ('global', 'UpdateType'))


def record_parts(e: Ev):
    """(name, value, UpdateType member) of an update record"""
    args = list(e.args or ())
    kw = dict(e.kw or ())
    if e.recv is not None and e.recv[0] in ('global', 'class', 'super') and args and (len(args) + len(kw) > 3):
        args = args[1:]
    def get(i, *ns):
        for n in ns:
            if n in kw:
                return kw[n]
        return args[i] if i < len(args) else None
    t = get(2, 'updates', 'update_type')
    return get(0, 'name', 'reference'), get(1, 'value'), t


def utypes(t):
    """members an update-type value may denote"""
    if t is None:
        return None
    if t[:2] == UT[:2] and t[0] == 'attr':
        return {t[2]}
    if t[0] in ('ifexp', 'phi', 'cond'):
        out = set()
        for x in t[1:]:
            if isinstance(x, tuple):
                s = utypes(x)
                if s:
                    out |= s
        return out or None
    return None


CPAR = {'UpdateComponentParameter', 'AddComponentParameter', 'DeleteComponentParameter'}
PAR = {'UpdateParameter', 'AddParameter', 'DeleteParameter'}
VAL = {'UpdateComponentValue'}
INS_ADD = {'AddInstruction', 'UpdateInstruction', 'DeleteInstruction'}
INS_DEL = {'DeleteInstruction'}
CLONE = {'CloneSubcircuit'}


def expected(c, k, n):
    if n.startswith('clear_') or n in ('set_param', 'set_params'):
        return None     # spelled in terms of set_parameter(s)
    comp = k.name in COMPONENTS and k.name != 'SpiceCircuitInstance'
    if k.name == 'SpiceCircuitInstance' and n in ('set_value', 'set_param', 'set_params'):
        comp = True
    if n in ('set_value', 'set_model', 'set_component_value', 'set_component_values', 'set_element_model'):
        return VAL
    if n in ('set_component_parameters', 'set_component_attribute'):
        return CPAR
    if n in ('set_parameter', 'set_parameters', 'set_param', 'set_params', 'clear_parameter', 'clear_parameters', 'clear_param'):
        return CPAR if comp or k.name == 'SpiceCircuitInstance' else PAR
    if n == '__setitem__':
        return VAL | CPAR | PAR
    if n == 'add_component':
        return {'AddComponent'}
    if n == 'remove_component':
        return {'DeleteComponent'}
    if n in ('add_instruction', 'add_instructions', 'add_control_section'):
        return INS_ADD
    if n in ('remove_instruction', 'remove_Xinstruction', 'remove_control_section'):
        return INS_DEL
    return None


def none_fact(r, upto, names=('value',)):
    """True / False / None: was the new value None on this path; values looked up by the parameter it came from"""
    out = None
    for e in r.events[:upto]:
        if e.kind == 'assume' and e.lit[0] == 'isnone':
            v = strip_old(e.lit[1])
            if v[0] == 'param' and v[1] in names or v[0] in ('item', 'elem', 'sub') and 'kwargs' in show(v) or 'params' in show(v) and v[0] in ('item', 'elem'):
                out = e.pol
        if e.kind == 'assume' and e.lit[0] == 'truthy' and e.pol and e.lit[1][0] == 'call' and e.lit[1][1] == 'isinstance' \
                and e.lit[1][2][0][0] == 'param' and e.lit[1][2][0][1] in names:
            out = False
    return out


REFNAMES = {'reference', '_reference', 'designator', 'device', 'element', 'ref'}


def is_ref(x):
    return x[0] == 'attr' and x[2] in ('reference', '_reference') or x[0] == 'param' and x[1] in REFNAMES


@prop('P11', 'Every successful edit is entered in the list of updates, as what it was',
      'When updates are to be reported, an editing operation (set_*, add_*, remove_*, clear_*, item assignment) of an editor, sub-circuit or component '
      'that changes parameters, component values, component parameters, components or instructions enters an update naming what was edited, with the new '
      'value and the matching kind (added, updated, deleted); removing several instructions enters each; moving a component marks the drawing as changed. An '
      'operation that changes nothing enters nothing. Edits in a sub-circuit are passed up to the editor, prefixed with the '
      'instance, and mark the sub-circuit as modified.',
      ['inputs', 'histories'],
      'any sequence of editing operations on any netlist or schematic',
      'SimRunner and the tool-kit rely on the list to tell runs apart; the tests check the list of a handful of edits, not that every branch of every operation records what it did.',
      [ED + 'updates.py', ED + 'base_subcircuit.py', ED + 'base_schematic.py', ED + 'spice_subcircuit.py', ED + 'spice_file.py',
       ED + 'spice_subcircuit_instance.py', ED + 'spice_components.py', ED + 'asc_editor.py', ED + 'qsch_editor.py'],
      [dict(name='update list', where=ED + 'updates.py:Updates.add_update'), dict(name='recording chain', where=ED + 'base_subcircuit.py:BaseSubCircuit.end_update')],
      'On every path of every editing operation (derived from the class hierarchy) the changes of the document are matched with the update records: presence, absence, '
      'count, kind, name and value provenance; the forwarding methods are checked separately.',
      'path-sensitive effect analysis pairing document changes with update records, with value provenance',
      'All paths, loops up to two iterations for the counting rule.', [])
def p11(c: Ctx):
    R1 = c.rule('P11.recorded', 'a path that changes the circuit while updates are reported enters an update', 60)
    R2 = c.rule('P11.phantom', 'no update is entered when nothing is changed', 60)
    R3 = c.rule('P11.kind', 'the update has the kind of the operation', 60)
    R4 = c.rule('P11.name', 'the update names what was edited', 60)
    R5 = c.rule('P11.value', 'the update carries the new value', 30)
    R6 = c.rule('P11.each', 'every removed instruction is entered', 3)
    R7 = c.rule('P11.moved', 'moving a component marks the drawing as changed', 3)
    R8 = c.rule('P11.chain', 'records of sub-circuits and components reach the editor', 5)
    names = mutator_names(c)
    for k, n, f in mutators(c):
        lab = label(k, n)
        exp = expected(c, k, n)
        with c.attempt(lab):
            for r in edit_walk(c, k, f):
                poss = set(ORDER)
                for e in r.events:
                    if e.kind == 'assume':
                        poss = perm_filter(poss, e.lit, e.pol)
                muts = [(i, e) for i, e in enumerate(r.events) if mutation(e) is not None]
                # the first two attributes of a component's own tag are its position and rotation
                geom = [(i, e) for i, e in muts if attrs_in(mutation(e)) & GEOM or e.kind == 'call' and e.name == 'set_attr' and e.args
                        and e.args[0] in (('const', 1), ('const', 2)) and e.recv[0] == 'attr' and e.recv[2] == '_obj']
                real = [m for m in muts if m not in geom]
                deleg = any(delegation(e, names) for e in r.events)
                recs = record_calls(r)
                if r.outcome.kind == 'return':
                    if geom and not real:
                        c.require(any(e.kind == 'write' and e.path[0] == 'attr' and e.path[2] == 'canvas_updated' and e.value == TRUE for e in r.events),
                                  R7, lab, 'a component is moved without the drawing being marked as changed', r)
                    elif real and 'Inform' in poss:
                        c.require(recs or deleg, R1, lab, f'{real[0][1]!r} is not entered in the list of updates', r, real[0][1].node)
                # the line holding a .PARAM is always a Primitive (strings are comments)
                if any(e.kind == 'assume' and not e.pol and 'isinstance' in show(e.lit) and 'Primitive' in show(e.lit) and '_get_parameter_named' in show(e.lit)
                       for e in r.events):
                    continue
                if recs and not muts and not deleg:
                    c.bad(R2, lab, f'{recs[0][1]!r} although nothing was changed', r, recs[0][1].node)
                else:
                    c.ok(R2, lab)
                if exp is None:
                    continue
                own = []
                for i, e in recs:
                    nm, val, t = record_parts(e)
                    ts = utypes(t)
                    if ts is None or ts <= CLONE:
                        continue
                    own.append((i, e, nm, val, ts))
                for j, (i, e, nm, val, ts) in enumerate(own):
                    if not ts <= exp and not (k.name == 'SpiceCircuitInstance' and ts <= VAL):
                        c.bad(R3, lab, f'recorded as {sorted(ts)}, expected one of {sorted(exp)}', r, e.node)
                        continue
                    c.ok(R3, lab)
                    if ts <= PAR | CPAR:
                        intkey = any(x.kind == 'assume' and x.pol and 'isinstance' in show(x.lit) and 'int' in show(x.lit) and 'key' in show(x.lit) for x in r.events[:i])
                        isn = none_fact(r, i) if not intkey else None    # keyword arguments are never integers
                        dele = all(x.startswith('Delete') for x in ts)
                        if isn is True and not dele:
                            c.bad(R3, lab, f'a removal is recorded as {sorted(ts)}', r, e.node)
                        elif isn is False and dele:
                            c.bad(R3, lab, f'a new value is recorded as {sorted(ts)}', r, e.node)
                    if ts <= PAR:
                        ins = any(m.kind == 'call' and m.name in ('insert', 'append') for q, m in muts if q < i)
                        if ins != (ts == {'AddParameter'}):
                            c.bad(R3, lab, f'{"adding" if ins else "changing"} a parameter is recorded as {sorted(ts)}', r, e.node)
                    if ts <= CPAR and isn is not True and not intkey:
                        ins = any(m.kind == 'call' and m.name in ('insert', 'append') and m.recv is not None and m.recv[0] == 'attr' and m.recv[2] == 'items' for q, m in muts if q < i)
                        if ins and ts != {'AddComponentParameter'} or not ins and ts == {'AddComponentParameter'} and any(m.kind == 'call' and m.name == 'set_attr' for q, m in muts if q < i):
                            c.bad(R3, lab, f'{"adding" if ins else "changing"} a parameter is recorded as {sorted(ts)}', r, e.node)
                    # name
                    if ts <= INS_ADD:
                        c.require(nm == ('const', 'INSTRUCTION'), R4, lab, f'instruction recorded under {show(nm)}', r, e.node)
                    elif ts <= CPAR:
                        intkey = any(x.kind == 'assume' and x.pol and 'isinstance' in show(x.lit) and 'int' in show(x.lit) for x in r.events[:i])
                        c.require(derives(r, nm, is_ref) and (intkey or deep(nm, lambda x: x[0] == 'const' and isinstance(x[1], str) and ':' in x[1])), R4, lab,
                                  f'component parameter recorded under {show(nm)} instead of reference:parameter', r, e.node)
                    elif ts <= PAR:
                        c.require(derives(r, nm, lambda x: x[0] == 'param' and x[1] in ('param', 'key', 'name') or x[0] in ('elem', 'key')), R4, lab,
                                  f'parameter recorded under {show(nm)}', r, e.node)
                    else:
                        c.require(derives(r, nm, is_ref) or deep(nm, lambda x: x[0] in ('elem', 'item', 'key')), R4, lab, f'component recorded under {show(nm)}', r, e.node)
                    # value
                    if ts <= VAL or ts <= (PAR | CPAR) and not any(x.startswith('Delete') for x in ts):
                        c.require(derives(r, val, lambda x: x[0] == 'param' and x[1] not in REFNAMES | {'param', 'key', 'attribute'} or x[0] in ('elem',)), R5, lab,
                                  f'the recorded value {show(val)} is not the new value', r, e.node)
                    if ts == {'AddInstruction'} or ts == {'UpdateInstruction'}:
                        c.require(derives(r, val, lambda x: x[0] == 'param'), R5, lab, f'the recorded instruction {show(val)} is not the new one', r, e.node)
                if exp is INS_ADD and own and real:
                    kinds = set().union(*[x[4] for x in own])
                    new = any(m.kind == 'call' and m.name in ('insert', 'append') for q, m in real)
                    repl = any(m.kind == 'call' and m.name == 'set_attr' or m.kind in ('setitem', 'write', 'aug') for q, m in real)
                    if new and not repl:
                        c.require(kinds == {'AddInstruction'}, R3, lab, f'a new instruction is recorded as {sorted(kinds)}', r, own[-1][1].node)
                    elif repl and not new:
                        c.require(kinds in ({'UpdateInstruction'}, {'DeleteInstruction', 'AddInstruction'}), R3, lab, f'a replaced instruction is recorded as {sorted(kinds)}', r, own[-1][1].node)
                if exp is INS_ADD and own:
                    c.require(not own[-1][4] <= INS_DEL, R3, lab, 'adding an instruction leaves only a deletion recorded', r, own[-1][1].node)
    # every removed one is entered
    for cn in ('SpiceFile', 'SpiceCircuit', 'AscEditor', 'QschEditor'):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'remove_Xinstruction')
        lab = label(k, 'remove_Xinstruction')
        with c.attempt(lab):
            for r in edit_walk(c, k, f, unroll=2):
                poss = set(ORDER)
                for e in r.events:
                    if e.kind == 'assume':
                        poss = perm_filter(poss, e.lit, e.pol)
                if 'Inform' not in poss or r.outcome.kind == 'raise':
                    continue
                rem = [e for e in r.events if mutation(e) is not None and (e.kind == 'del' or e.kind == 'call' and e.name in LIST_REMOVE)]
                c.require(len(rem) == len(record_calls(r)), R6, lab, f'{len(rem)} instructions removed, {len(record_calls(r))} entered', r)
    # forwarding
    for cn in ('SpiceCircuit', 'SpiceCircuitInstance', 'SpiceFile', 'AscEditor', 'QschEditor', 'SpiceComponent'):
        k = c.p.cls(cn)
        f = c.p.lookup(k, 'end_update')
        lab = label(k, 'end_update')
        ps = [P(x) for x in f.arg_names()[1:4]]
        for r in c.walk(f, k, opaque={'end_update', 'add_update', 'begin_update'} - set(), no_raise=NR):
            if r.outcome.kind == 'raise':
                continue
            fw = [e for e in r.events if e.kind == 'call' and e.name in RECORD]
            poss = set(ORDER)
            hasno = False
            for e in r.events:
                if e.kind == 'assume':
                    poss = perm_filter(poss, e.lit, e.pol)
                    if any(contains(e.lit, A(SELF, x)) for x in ('parent', '_netlist')) and (e.lit[0] == 'isnone') == e.pol:
                        hasno = True
            if not fw:
                c.require(hasno or 'Inform' not in poss, R8, lab, 'the update is not passed on', r)
                continue
            e = fw[0]
            args = list(e.args or ()) + [v for _, v in e.kw or ()]
            okk = len(fw) == 1 and len(args) == 3 and args[1:] == ps[1:]
            if cn == 'SpiceCircuitInstance':
                okk &= deep(args[0], lambda x: x == ps[0]) and deep(args[0], lambda x: x[0] == 'attr' and x[2] == 'reference') and \
                    deep(args[0], lambda x: x == ('const', ':'))
                okk &= any(x.kind == 'write' and x.path[0] == 'attr' and x.path[2] == '_modified' and x.value == TRUE for x in r.events)
            else:
                okk &= args[0] == ps[0]
                if cn in ('SpiceCircuit', 'SpiceFile'):
                    okk &= any(x.kind == 'write' and x.path == A(SELF, '_modified') and x.value == TRUE for x in r.events)
            up = e.recv is not None and e.recv[0] == 'attr' and e.recv[2] in ('netlist_updates', 'parent', '_netlist')
            c.require(okk and up, R8, lab, f'the update is passed on as {e!r}', r, e.node)
