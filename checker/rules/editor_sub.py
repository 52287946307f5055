"""Editing circuits: sub-circuits, analysis directives, missing items, records of updates (P14, P15, P16, P17)."""
import ast
from .editor import *
from .editor_doc import over

SUB = ED + 'spice_subcircuit_instance.py'
CIR = ED + 'spice_subcircuit.py'


def trail(r, kinds=('call', 'write', 'setitem', 'del')):
    return [e for e in r.events if e.kind in kinds and not e.raised]


def is_fact(r, pred, pol, upto=None):
    for i, e in enumerate(r.events):
        if upto is not None and i >= upto:
            break
        if e.kind == 'assume' and pred(e.lit) and e.pol is pol:
            return True
    return False


def inst(lit, v, cls):
    """the fact isinstance(v, ... cls ...)"""
    return lit[0] in ('call', 'truthy') and 'isinstance' in repr(lit) and contains(lit, v) and f"'{cls}'" in repr(lit)


@prop('P14', 'Editing inside a sub-circuit instance touches neither the definition nor others',
      'In Spice netlists, everything read or edited inside a sub-circuit instance (X component) is done on a private copy of the definition, made for that instance with the '
      'instance as its parent and named after definition and instance; the definition and the copies of other instances stay as they are. The copy holds every element of the '
      'definition, none of them shared with it, as the same kind of element. When the instance is first edited it is pointed to its copy and the copy is entered in the updates; '
      'the copies of exactly the changed instances are written. Giving the instance another definition drops the copy.',
      ['inputs', 'histories'],
      'any nesting of instances and definitions, any sequence of reads and edits',
      'A shared element shows only when two instances of one definition exist and one is edited, possibly at depth two.',
      [SUB, CIR, ED + 'primitives.py', ED + 'base_subcircuit.py'],
      [dict(name='private copy', where=SUB + ':SpiceCircuitInstance.subcircuit'), dict(name='copying', where=CIR + ':SpiceCircuit.clone')],
      'Every path of the accessor, of the copying operations and of the first-edit hook is followed; what is appended to the copy must be a new object or immutable text; '
      'reads of the shared definition are only allowed in the accessor.',
      'path-sensitive escape analysis of the shared definition and of the elements appended to its copies',
      'All paths; element loops once.', [])
def p14(c: Ctx):
    R1 = c.rule('P14.copy', 'an instance is only worked on through its own copy', 4)
    R2 = c.rule('P14.deep', 'a copy shares no element with the definition', 6)
    R3 = c.rule('P14.point', 'the first edit points the instance to its copy', 3)
    R4 = c.rule('P14.write', 'the copies of exactly the changed instances are written', 2)
    R5 = c.rule('P14.forget', 'another definition drops the copy', 2)
    k = c.p.cls('SpiceCircuitInstance')
    shadow, defn = A(SELF, 'shadow_subcircuit'), A(SELF, '_subcircuit')
    # the accessor
    f = c.p.lookup(k, 'subcircuit')
    lab = label(k, 'subcircuit')
    o = dict(opaque={'get_subcircuit_named', 'value_str', 'reference', 'value', 'clone'}, no_raise=NR | {'get_subcircuit_named', 'clone', 'value', 'reference', 'value_str'})
    for r in c.walk(f, k, **o):
        if r.outcome.kind != 'return':
            continue
        ws = [(i, e) for i, e in enumerate(r.events) if e.kind == 'write' and e.path in (shadow, defn)]
        last = next((e for _, e in reversed(ws) if e.path == shadow), None)
        clones = [e for e in r.events if e.kind == 'call' and e.name == 'clone' and not e.raised]
        v = r.outcome.value
        isnew = last is not None and clones and last.value == ('res', clones[-1].n, 'clone')
        c.require(v == shadow or isnew and v == last.value, R1, lab, f'gives {show(v)} instead of the copy', r)
        if isnew:
            cl = clones[-1]
            nm = dict(cl.kw).get('new_name') or (cl.args[1] if len(cl.args or ()) > 1 else None)
            c.require(cl.recv in (defn, *[e.value for _, e in ws if e.path == defn]) and cl.args and cl.args[0] == SELF or dict(cl.kw).get('new_parent') == SELF, R1, lab, f'the copy is made by {cl!r}', r, cl.node)
            c.require(nm is not None and deep(nm, lambda x: isinstance(x, tuple) and x[0] == 'attr' and x[2] in ('reference', '_reference') and x[1] == SELF) and deep(
                nm, lambda x: isinstance(x, tuple) and x[0] == 'attr' and x[2] in ('value', 'value_str') or isinstance(x, tuple) and x[0] == 'res' and x[2] == 'name'),
                      R1, lab, f'the copy is called {show(nm) if nm else "as the definition"}', r, cl.node)
        else:
            c.require(last is None and not any(e.path == defn for _, e in ws) and is_fact(r, lambda l: l == ('isnone', shadow), False), R1, lab,
                      'an old copy is used for another definition, or none at all', r)
    # nobody else reads the shared definition
    owners = {'subcircuit', 'reset_attributes', 'set_value', '__init__'}
    for fn in c.p.all_funcs():
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and n.attr == '_subcircuit' and isinstance(n.ctx, ast.Load):
                c.require(owned_by(c.p, fn, {f'SpiceCircuitInstance.{x}' for x in owners}), R1, fn, 'works on the shared definition of an instance', None, n)
    # another definition
    f = c.p.lookup(k, 'set_value')
    for r in c.walk(f, k, opaque=OPQ | {'end_update'}, no_raise=NR):
        if r.outcome.kind != 'return':
            continue
        val = [i for i, e in enumerate(r.events) if e.kind in ('setitem', 'write') and e.path is not None and 'value' in show(e.path)]
        for p in (shadow, defn):
            w = [e for e in r.events if e.kind == 'write' and e.path == p]
            c.require(not val or w and w[-1].value == NONE_, R5, label(k, 'set_value'), f'{show(p)} of the previous definition is kept', r)
    # first edit
    f = c.p.lookup(k, 'begin_update')
    lab = label(k, 'begin_update')
    n_pt = 0
    for r in c.walk(f, k, opaque=OPQ | {'set_value'}, no_raise=NR | {'set_value', 'subcircuit'}):
        if r.outcome.kind != 'return':
            continue
        inform = is_fact(r, lambda l: contains(l, PERM('Inform')), True)
        mod = is_fact(r, lambda l: 'was_modified' in show(l), True)
        pts = [e for e in r.events if not e.raised and (e.kind == 'call' and e.name == 'set_value' or e.kind in ('setitem', 'write') and e.path is not None and 'value' in show(e.path))]
        if inform and not mod:
            n_pt += 1
            names = [e for e in r.events if e.kind == 'call' and e.name == 'name' and e.recv is not None and 'subcircuit' in show(e.recv) and '_subcircuit' not in show(e.recv).replace('shadow_subcircuit', 'subcircuit')]
            nv = [('res', e.n, 'name') for e in names]
            ok = len(pts) == 1 and any(deep(x, lambda y: y in nv) for x in [*(pts[0].args or ()), pts[0].value] if x is not None)
            c.require(ok, R3, lab, 'the first edit does not point the instance to its copy', r)
            rec = [e for e in r.events if e.kind == 'call' and e.name in RECORD and 'UpdateComponentValue' in repr(e) and any(deep(a, lambda y: y in nv) for a in [*(e.args or ()), *[v for _, v in e.kw]])]
            c.require(len(rec) == 1 and any('reference' in show(a) for a in rec[0].args), R3, lab, 'the new definition of the instance is not entered in the updates', r)
            cl = [e for e in r.events if e.kind == 'call' and e.name in RECORD and 'CloneSubcircuit' in repr(e)]
            c.require(len(cl) == 1, R3, lab, 'the copy is not entered in the updates', r)
            # the name of the definition is read before it is replaced
        else:
            c.require(not pts, R3, lab, 'the instance is pointed elsewhere although nothing is about to be edited', r)
        c.require(r.outcome.value == next((('res', e.n, 'begin_update') for e in r.events if e.kind == 'call' and e.name == 'begin_update'), 0), R3, lab, 'the permission of the netlist is not passed on', r)
    c.require(n_pt > 0, R3, lab, 'no path for a first edit')
    # which copies are written
    f = c.p.lookup(k, 'was_modified')
    for r in c.walk(f, k, opaque=set(), no_raise=NR):
        v = r.outcome.value
        facts = [(e.lit, e.pol) for e in r.events if e.kind == 'assume']
        mod = A(shadow, '_modified')
        s = repr(v)
        has = ('isnone', shadow)
        nocopy = (has, True) in facts
        copy_ = (has, False) in facts
        good = v == ('const', False) if nocopy else (v == mod or v == ('call', 'bool', (mod,)) or v == ('const', True) and any(pol and deep(l, lambda x: x == mod) for l, pol in facts) or
                                                     v == ('const', False) and any(not pol and deep(l, lambda x: x == mod) for l, pol in facts)) if copy_ else (
            v[0] == 'and' and deep(v, lambda x: x == has) and v[1][-1] in (mod, ('call', 'bool', (mod,))) and len(v[1]) == 2 and v[1][0] == ('not', has))
        c.require(good, R4, label(k, 'was_modified'), f'an instance counts as changed when {show(v)}', r)
    k2 = c.p.cls('SpiceCircuit')
    nl = A(SELF, 'netlist')
    el = ('elem', nl)
    f = c.p.lookup(k2, 'modified_subcircuits')
    lab = label(k2, 'modified_subcircuits')
    paths, loops = c.walk_loops(f, k2, opaque={'was_modified'}, no_raise=NR)
    for r in loops:
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        if not over(r.events[its[-1]], nl):
            continue
        add = [e for e in r.events[its[-1]:] if e.kind == 'call' and e.name == 'append']
        isx = is_fact(r, lambda l: inst(l, el, 'SpiceCircuitInstance'), True)
        mod = is_fact(r, lambda l: 'was_modified' in show(l), True)
        c.require(r.outcome.value != ('const', 'break'), R4, lab, 'the search stops early', r)
        if isx and mod:
            c.require(len(add) == 1 and add[0].args[0] in (A(el, 'shadow_subcircuit'), A(el, 'subcircuit')), R4, lab, 'a changed copy is left out', r)
        else:
            c.require(not add, R4, lab, 'something that was not changed is written', r)
    for r in paths:
        v = r.outcome.value
        if r.outcome.kind == 'return' and v is not None and v[0] == 'comp':
            cs = repr(v[3])
            c.require(v[2][0] in (A(el, 'shadow_subcircuit'), A(el, 'subcircuit')) and v[3][0][0] == nl and 'was_modified' in cs and 'SpiceCircuitInstance' in cs and "'not'" not in cs, R4, lab,
                      f'gives {show(v)}', r)
    # copying
    clone_of(c, R2, R1)
    kp = c.p.cls('SpiceComponent')
    f = c.p.lookup(kp, 'clone')
    lab = label(kp, 'clone')
    par = P(f.arg_names()[1]) if len(f.arg_names()) > 1 else None
    for r in c.walk(f, kp, opaque=set(), no_raise=NR | {'deepcopy'}):
        if r.outcome.kind != 'return':
            continue
        new = r.outcome.value
        if new is not None and new[0] == 'res' and new[2] in ('deepcopy', 'copy'):
            c.bad(R2, lab, 'a component is copied together with the circuit it belongs to', r)
            continue
        ws = {e.path[2]: e for e in r.events if e.kind == 'write' and e.path[0] == 'attr' and e.path[1] == new}
        if not c.require(new != SELF and new is not None, R2, lab, 'the copy is the component itself', r):
            continue
        for a in ('_attributes', '_obj', '_reference', '_netlist'):
            if not c.require(a in ws, R2, lab, f'{a} is not copied', r):
                continue
            v = ws[a].value
            src = A(SELF, a)
            if a == '_netlist':
                c.require(par is not None and (v == par or v[0] == 'or' and v[1][0] == par or v[0] == 'ifexp' or v == src and is_fact(r, lambda l: contains(l, par), False) or
                                               v == src and is_fact(r, lambda l: l == ('isnone', par), True)), R2, lab, 'the copy stays part of the definition', r, ws[a].node)
            elif a == '_attributes':
                d = next((e for e in r.events if e.kind == 'call' and e.name == 'deepcopy' and v == ('res', e.n, 'deepcopy')), None)
                c.require(d is not None and d.args[0] == src or v[0] == 'comp' and 'deepcopy' in repr(v), R2, lab, 'the copy shares its attributes with the definition', r, ws[a].node)
            else:
                c.require(derives(r, v, lambda x: x == src), R2, lab, f'{a} is not taken over', r, ws[a].node)


NONE_ = ('const', None)


def clone_of(c, R2, R1):
    k = c.p.cls('SpiceCircuit')
    f = c.p.lookup(k, 'clone')
    lab = label(k, 'clone')
    nl = A(SELF, 'netlist')
    el = ('elem', nl)
    par = P(f.arg_names()[1])
    paths, loops = c.walk_loops(f, k, opaque=OPQ | {'setname', 'clone'}, no_raise=NR | {'setname', 'clone'})
    seen = set()
    for r in paths:
        if r.outcome.kind != 'return':
            continue
        new = [e for e in r.events if e.kind == 'call' and e.name == 'SpiceCircuit']
        c.require(len(new) == 1 and (new[0].args and new[0].args[0] == par or dict(new[0].kw).get('parent') == par) and r.outcome.value[0] == 'obj' and r.outcome.value[1] == new[0].n, R2, lab,
                  'the copy is not a new circuit with the given parent', r)
        named = is_fact(r, lambda l: l[0] == 'isnone' and 'new_name' in show(l), False) and not is_fact(r, lambda l: 'isinstance' in repr(l) and 'new_name' in show(l), False)
        sn = [e for e in r.events if e.kind == 'call' and e.name == 'setname']
        if named:
            c.require(len(sn) == 1 and 'new_name' in show(sn[0].args[0]) and sn[0].recv == r.outcome.value, R2, lab, 'the copy does not get its new name', r)
        c.require(not any(e.kind == 'call' and e.name in ('append', 'insert', 'extend') and e.recv == nl for e in r.events), R2, lab, 'the definition itself is changed', r)
        c.require(any(e.kind == 'loop0' and over(e, nl) for e in r.events) or 'comp' in repr([e.args for e in r.events if e.kind == 'call']), R2, lab, 'the elements are not copied', r)
    for r in loops:
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        if not over(r.events[its[-1]], nl):
            continue
        c.require(r.outcome.value != ('const', 'break'), R2, lab, 'the copy ends early', r)
        new = [e for e in r.events if e.kind == 'call' and e.name == 'SpiceCircuit']
        obj = ('obj', new[0].n, 'SpiceCircuit') if new else None
        add = [e for i, e in enumerate(r.events) if i > its[-1] and e.kind == 'call' and e.name == 'append' and not e.raised and e.recv is not None and e.recv[0] == 'attr' and e.recv[2] == 'netlist']
        if not c.require(len(add) == 1 and root(add[0].recv)[:2] == obj[:2], R2, lab, f'an element is copied {len(add)} times', r):
            continue
        v = add[0].args[0]
        isnt = [cls for cls in ('Primitive', 'SpiceCircuit', 'SpiceComponent', 'str') if is_fact(r, lambda l: inst(l, el, cls), False)]
        is_ = [cls for cls in ('Primitive', 'SpiceCircuit', 'SpiceComponent', 'str', 'ControlEditor', 'IncludeFile') if is_fact(r, lambda l: inst(l, el, cls), True)]
        seen.update(is_)
        if v == el:
            c.require('str' in is_ or 'Primitive' in isnt and 'SpiceCircuit' in isnt, R2, lab, 'an element of the definition becomes part of the copy', r, add[0].node)
            continue
        src = next((e for e in r.events if e.kind == 'call' and v in (('res', e.n, e.name), ('obj', e.n, e.name))), None)
        if v[0] == 'res' and v[2] == 'clone' and src is not None:
            c.require(src.recv == el and (src.args and src.args[0] == obj or any(x == obj for _, x in src.kw)), R2, lab, f'an element is copied by {src!r}', r, src.node)
        elif src is not None and src.name in ('deepcopy',):
            c.bad(R2, lab, 'an element is copied together with the circuit it belongs to', r, src.node)
        else:
            kinds = src is not None and (src.name == '<value>' and src.value in (('call', 'type', (el,)), A(el, '__class__')) or src.name in is_ and src.name not in ('Primitive',) or
                                         src.name == 'Primitive' and {'ControlEditor', 'IncludeFile'} <= set(isnt_all(r, el)))
            c.require(kinds, R2, lab, f'an element becomes {show(v)} in the copy', r, add[0].node)
            if src is not None:
                given = [*(src.args or ()), *[x for _, x in src.kw]]
                c.require(obj in given and A(el, 'obj') in given or A(el, '_obj') in given and obj in given, R2, lab, 'the copied element belongs to the definition or loses its text', r, src.node)
    c.require({'SpiceCircuit', 'SpiceComponent'} <= seen or not seen, R2, lab, 'components or nested definitions are not copied as such')


def isnt_all(r, el):
    return [cls for cls in ('ControlEditor', 'IncludeFile') if is_fact(r, lambda l: inst(l, el, cls), False)]
