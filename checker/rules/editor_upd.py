"""Editing circuits: the list of updates (P37)."""
import ast
from .editor import *
from .editor_sub import is_fact, NONE_

UPD = ED + 'updates.py'
L = A(SELF, 'netlist_updates')
EL = ('elem', L)


def kinds_true(r, upto=None):
    """the kinds of update the item is known to be of"""
    out = None
    for e in r.events[:upto]:
        if e.kind != 'assume' or e.lit[0] != 'cmp' or e.lit[1] not in ('eq', 'in', 'is'):
            continue
        ns = {x[2] for x in subvalues(e.lit) if isinstance(x, tuple) and x[:2] == ('attr', ('global', 'UpdateType'))}
        if not ns:
            continue
        if e.pol:
            out = ns if out is None else out & ns
    return out


def newest_first(r):
    for e in r.events:
        if e.kind in ('iter', 'loop0'):
            s = repr(e.value)
            return "'reversed'" in s or "'slice'" in s and ('-1' in s or "'neg'" in s)
    return None


def eqfact(r, a, b, pol=True):
    return is_fact(r, lambda l: l[0] == 'cmp' and l[1] == 'eq' and {l[2], l[3]} == {a, b}, pol)


@prop('P37', 'The list of updates tells the last edit of everything, and loses none',
      'In the list of updates of an editor, an edit is merged only into the newest entry of the same name (for instructions: of the same text), and only if that is of the same kind; '
      'the entry then has the new value. Otherwise a new entry with the given name, value and kind is added at the end. value() and parameter() give the value of the newest '
      'fitting entry of exactly that name, None if there is none or the parameter was deleted last; updates_on() gives exactly the entries of the item and of what belongs to it. A copy of the list shares no entries '
      'with it. Every kind of update is described as what it is.',
      ['inputs', 'histories'],
      'any sequence of recorded edits with any names and values',
      'Tests look at lists of four or five entries; names that start alike, a parameter added, updated and deleted, or the same instruction twice decide otherwise, and the edits reported with simulation results are wrong.',
      [UPD],
      [dict(name='recording', where=UPD + ':Updates.add_update')],
      'Every path of the operations of Updates is followed: which entry is changed or given, and what is known about its name, kind and value at that point.',
      'path-sensitive dataflow with assumed facts',
      'All paths; loops over the entries are followed for one entry.', [])
def p37(c: Ctx):
    R1 = c.rule('P37.merge', 'an edit is merged only into its own newest entry', 3)
    R2 = c.rule('P37.add', 'any other edit is added at the end', 3)
    R3 = c.rule('P37.look', 'look-ups give the newest entry of exactly that name', 4)
    R4 = c.rule('P37.copy', 'a copy shares no entries', 1)
    R5 = c.rule('P37.text', 'every kind of update is described as what it is', 10)
    k = c.p.cls('Updates')
    f = c.p.lookup(k, 'add_update')
    lab = label(k, 'add_update')
    names = f.arg_names()
    NAME, VAL, KIND = P(names[1]), P(names[2]), P(names[3])
    INV = ('attr', ('global', 'UpdateType'), 'InvalidUpdate')
    o = dict(opaque=set(), no_raise=NR)
    for r in c.walk(f, k, **o):
        if r.outcome.kind != 'return' or is_fact(r, lambda l: l == ('isnone', EL), True):
            continue
        adds = [e for e in r.events if is_addition(e, L)]
        rem = [e for e in r.events if is_removal(e, L)]
        c.require(not rem, R2, lab, 'an entry is lost', r)
        ws = {(e.path[1], e.path[2]): e.value for e in r.events if e.kind == 'write' and e.path[0] == 'attr'}
        merged = any(b == EL for b, _ in ws)
        if merged:
            c.require(not adds, R1, lab, 'the edit is merged and added as well', r)
            c.require(eqfact(r, A(EL, 'name'), NAME), R1, lab, 'an edit is merged into the entry of another name', r)
            c.require(eqfact(r, A(EL, 'value'), VAL) or any(e.kind == 'assume' and "'INSTRUCTION'" in repr(e.lit) and not e.pol for e in r.events), R1, lab, 'an instruction is merged into the entry of another', r)
            c.require(eqfact(r, A(EL, 'updates'), KIND) or eqfact(r, INV, KIND), R1, lab, 'an edit is merged into an entry of another kind', r)
            c.require(ws.get((EL, 'value')) == VAL, R1, lab, 'the entry keeps its old value', r)
            c.require(newest_first(r), R1, lab, 'an edit is merged into an older entry than the newest of that name', r)
            for (b, a), v in ws.items():
                c.require(b == EL and (a, v) in (('value', VAL), ('updates', KIND), ('name', NAME)), R1, lab, f'{show(b)}.{a} becomes {show(v)}', r)
        else:
            if any(deep(b, lambda x: x[0] in ('call', 'comp') and contains(x, L)) for b, _ in ws):
                c.note('add_update finds the entry in a way that is not followed')
                continue
            if not c.require(len(adds) == 1 and adds[0].name in ('append', None, ''), R2, lab, f'an edit is added {len(adds)} times', r):
                continue
            v = added_value(adds[0])
            got = {}
            for e in r.events:
                if e.kind == 'call' and v in (('obj', e.n, e.name), ('res', e.n, e.name)):
                    got = kwmap(e, ('name', 'value', 'updates'))
            for (b, a), x in ws.items():
                if b == v:
                    got[a] = x
            for a, x in (('name', NAME), ('value', VAL), ('updates', KIND)):
                c.require(got.get(a) == x, R2, lab, f'the {a} of an added entry is {show(got[a]) if a in got else "missing"}', r)
            # an entry of the same name but another kind ends the search; entries of other names do not
            if eqfact(r, A(EL, 'name'), NAME) and eqfact(r, A(EL, 'updates'), KIND, False) and not is_fact(r, lambda l: "'INSTRUCTION'" in repr(l), True):
                c.require(any(e.kind == 'loopend' and e.name == 'break' for e in r.events), R1, lab, 'an edit is merged into an entry older than the newest of that name', r)
            if eqfact(r, A(EL, 'name'), NAME, False):
                c.require(not any(e.kind == 'loopend' and e.name == 'break' for e in r.events), R1, lab, 'the search ends at an entry of another name', r)
    # look-ups
    for mn, want in (('value', {'UpdateComponentValue'}), ('parameter', {'UpdateParameter', 'AddParameter'})):
        f = c.p.lookup(k, mn)
        lab = label(k, mn)
        arg = P(f.arg_names()[1])
        seen = set()
        for r in c.walk(f, k, **o):
            v = r.outcome.value
            if r.outcome.kind != 'return':
                c.require(r.outcome.kind != 'raise', R3, lab, 'a look-up fails', r)
                continue
            if v == A(EL, 'value'):
                ks = kinds_true(r)
                seen |= ks or set()
                c.require(eqfact(r, A(EL, 'name'), arg), R3, lab, 'gives the value of another name', r)
                c.require(ks is not None and ks <= want, R3, lab, f'gives the value of updates of kind {sorted(ks) if ks else "any"}', r)
                c.require(newest_first(r), R3, lab, 'gives an older value than the newest', r)
            elif v == NONE_ or v is None:
                ks = kinds_true(r)
                if eqfact(r, A(EL, 'name'), arg) and ks:
                    c.require(not ks & want, R3, lab, 'an update is not found', r)
                    c.ok(R3, lab)
                if eqfact(r, A(EL, 'name'), arg, False):
                    c.require(any(e.kind == 'loopend' and e.name == 'done' for e in r.events), R3, lab, 'the search ends at an entry of another name', r)
            elif v[0] == 'const':
                c.bad(R3, lab, f'gives {show(v)}', r)
            else:
                s = repr(v)
                c.require("'eq'" in s and repr(arg) in s and all(w in s for w in want) and "'startswith'" not in s and 'reversed' in s, R3, lab, f'gives {show(v)}', r)
                seen |= want
        c.require(want <= seen, R3, lab, f'updates of kind {sorted(want - seen)} are not found')
        if mn == 'parameter':
            rs = c.walk(f, k, **o)
            c.require(any('DeleteParameter' in repr(e.lit) for r in rs for e in r.events if e.kind == 'assume') or 'DeleteParameter' in repr([r.outcome.value for r in rs]), R3, lab, 'a deleted parameter still has a value')
    f = c.p.lookup(k, 'updates_on')
    lab = label(k, 'updates_on')
    arg = P(f.arg_names()[1])
    paths, loops = c.walk_loops(f, k, **o)
    conds = []
    for r in paths:
        v = r.outcome.value
        if r.outcome.kind == 'return' and v is not None and v[0] == 'comp':
            c.require(v[2][0] == EL and v[3][0][0] == L, R3, lab, f'gives {show(v)}', r)
            conds += [v[3][0][1]]
    for cond in conds:
        for x in subvalues(cond):
            if isinstance(x, tuple) and x and x[0] == 'mcall' and x[2] in ('startswith', 'endswith', 'find', '__contains__') or isinstance(x, tuple) and x and x[0] == 'cmp' and x[1] == 'in':
                t = repr(x)
                c.require(':' in t.replace("'", '') and "':'" in t, R3, lab, 'updates of items whose name starts alike are given too', None)
        c.require("'eq'" in repr(cond) or "'in'" in repr(cond) or 'partition' in repr(cond), R3, lab, 'the updates of the item itself are not given')
    for r in loops:
        its = [i for i, e in enumerate(r.events) if e.kind == 'iter']
        add = [e for e in r.events[its[-1]:] if e.kind == 'call' and e.name == 'append']
        if add:
            loose = [e for e in r.events if e.kind == 'assume' and e.pol and 'startswith' in repr(e.lit) and "':'" not in repr(e.lit)]
            c.require(not loose, R3, lab, 'updates of items whose name starts alike are given too', r)
    f = c.p.lookup(k, '__getitem__')
    lab = label(k, '__getitem__')
    arg = P(f.arg_names()[1])
    for r in c.walk(f, k, **o):
        if r.outcome.kind == 'return' and r.outcome.value == EL:
            c.require(eqfact(r, A(EL, 'name'), arg), R3, lab, 'gives the entry of another name', r)
        elif r.outcome.kind == 'return' and any(e.kind in ('iter', 'loop0') for e in r.events):
            c.require(contains(r.outcome.value, L), R3, lab, 'a name that is not there gives nothing instead of an error', r)
    f = c.p.lookup(k, '__copy__')
    lab = label(k, '__copy__')
    if f is None:
        c.bad(R4, lab, 'a copy shares the entries')
    else:
        for r in c.walk(f, k, opaque=set(), no_raise=NR | {'deepcopy', 'copy'}):
            if r.outcome.kind != 'return':
                continue
            new = r.outcome.value
            w = [e for e in r.events if e.kind == 'write' and e.path == A(new, 'netlist_updates')]
            if not w:
                g = [e for e in r.events if e.kind == 'call' and e.recv == A(new, 'netlist_updates')]
                c.require(new != SELF and (new[0] == 'res' and new[2] == 'deepcopy' or any('deepcopy' in repr(a) for e in g for a in e.args)), R4, lab, 'a copy is empty or shares the entries', r)
                continue
            v = w[-1].value
            src = next((e for e in r.events if e.kind == 'call' and v == ('res', e.n, 'deepcopy')), None)
            c.require(src is not None and src.args[0] == L or v[0] == 'comp' and v[2][0] != EL and contains(v, L), R4, lab, f'the entries of a copy are {show(v)}', r, w[-1].node)
    # description
    ku = c.p.cls('Update')
    f = c.p.lookup(ku, '__repr__')
    lab = label(ku, '__repr__')
    members = []
    for st in c.p.cls('UpdateType').node.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            members.append(st.targets[0].id)
    seen = set()
    own = A(SELF, 'updates')
    table = False
    for r in c.walk(f, ku, **o):
        if r.outcome.kind != 'return':
            continue
        ks = kinds_true(r)
        if ks is None:
            table |= r.outcome.value[0] not in ('const', 'fstr')
            continue
        seen |= ks
        txt = show(r.outcome.value)
        nm, vl = contains(r.outcome.value, A(SELF, 'name')), contains(r.outcome.value, A(SELF, 'value'))
        for m in ks:
            verb = 'delet' if m.startswith('Delete') else 'added' if m.startswith(('Add', 'Clone')) else 'updated' if m.startswith('Update') else None
            if verb:
                c.require(verb in txt and (nm or vl), R5, lab, f'an update of kind {m} is described as {txt}', r)
                if 'Instruction' not in m:
                    c.require(nm, R5, lab, f'an update of kind {m} does not tell what it is about', r)
                if m.startswith(('Update', 'AddParameter', 'AddComponentParameter')) or 'Instruction' in m:
                    c.require(vl, R5, lab, f'an update of kind {m} does not tell the value', r)
    for m in members:
        if m != 'InvalidUpdate' and not table:
            c.require(m in seen, R5, lab, f'an update of kind {m} has no description')
