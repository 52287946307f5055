"""The line of a component of a netlist, after edits (P55)."""
from .util import *
from .server import QUIET
from .scripts import feasible

SC = 'spicelib/editor/spice_components.py'
SELF = ('self',)
OP = {'_insert_section', '_parse_params', 'undress_designator', 'port_names', 'format_eng', 'sub', 'match', 'span', 'groupdict', 'rewrite_lines', '_set_ports', 'start', 'end'}
NR = QUIET | OP | {'error', 'get', 'keys', 'write', 'hasattr', 'setattr'}
LINE = 'R§1 a b R=1k tc=1 ; note'
SPAN = {'designator': (0, 3), 'nodes': (3, 7), 'value': (10, 12), 'params': (12, 17), 'formula': (-1, -1)}


def squeeze(s):
    return ' '.join(s.split())


class Case:
    """a part of the line, the line the part is now in, and what the component has for it"""

    def __init__(self, what, attr, now, want, line=LINE, spans=SPAN, ref='R1', nodes='a b', value='1k', old=None, new=None, pick=None):
        self.pick = pick
        self.what, self.attr, self.now, self.want, self.line, self.spans = what, attr, now, want, line, spans
        self.ref, self.nodes, self.value, self.old, self.new = ref, nodes, value, old if old is not None else {'tc': 1}, new if new is not None else {'tc': 1}
        self.info = {k: (line[a:b] if a >= 0 else None) for k, (a, b) in spans.items()}


MOVED = 'R§LONG a b R=1k tc=1 ; note'   # after an edit in front of the part
BARE = {'designator': (0, 2), 'nodes': (2, 6), 'value': (7, 9), 'params': (-1, -1)}
EMPTY = {'designator': (0, 2), 'nodes': (2, 7), 'value': (8, 8), 'params': (-1, -1)}
CASES = [
    Case('the reference is as it was', 'designator', LINE, LINE),
    Case('a new reference', 'designator', LINE, 'R§7 a b R=1k tc=1 ; note', ref='R7'),
    Case('a longer reference without §', 'designator', 'R1 a b 1k ; note', 'R77 a b 1k ; note', line='R1 a b 1k ; note', spans=BARE, ref='R77'),
    Case('a longer reference', 'designator', LINE, 'R§77 a b R=1k tc=1 ; note', ref='R77'),
    Case('a shorter reference', 'designator', 'R§12 a b', 'R§3 a b', line='R§12 a b', spans={'designator': (0, 4)}, ref='R3'),
    Case('the nodes are as they were', 'nodes', LINE, LINE),
    Case('new nodes', 'nodes', MOVED, 'R§LONG c dd R=1k tc=1 ; note', nodes='c dd'),
    Case('a node with another name of the same length', 'nodes', LINE, 'R§1 a c R=1k tc=1 ; note', nodes='a c'),
    Case('the value is as it was', 'value', MOVED, MOVED),
    Case('a new value', 'value', MOVED, 'R§LONG a b R= {x*2} tc=1 ; note', value='{x*2}'),
    Case('a new value, as number', 'value', MOVED, 'R§LONG a b R= 4.7k tc=1 ; note', value=4700),
    Case('a new value in the place of another of the same length', 'value', LINE, 'R§1 a b R= 2k tc=1 ; note', value='2k'),
    Case('the value in another case', 'value', LINE, 'R§1 a b R= 1K tc=1 ; note', value='1K'),
    Case('the value 0', 'value', LINE, 'R§1 a b R= 0 tc=1 ; note', value=0),
    Case('a value at the end where there was none', 'value', 'V1 in 0', 'V1 in 0 7', line='V1 in 0', spans=EMPTY, value='7'),
    Case('the parameters are as they were', 'params', MOVED, MOVED),
    Case('a parameter with a new value', 'params', MOVED, 'R§LONG a b R=1k tc=2 ; note', new={'tc': 2}),
    Case('a new parameter', 'params', MOVED, 'R§LONG a b R=1k new=5 ; note', old={}, new={'new': 5}),
    Case('a parameter that is removed', 'params', MOVED, 'R§LONG a b R=1k ; note', new={}),
    Case('one of two parameters is removed', 'params', MOVED, 'R§LONG a b R=1k x=2 ; note', old={'tc': 1, 'x': 2}, new={'x': 2}, pick='tc'),
    Case('the second of two parameters is changed', 'params', MOVED, 'R§LONG a b R=1k tc=1 x=3 ; note', old={'tc': 1, 'x': 2}, new={'tc': 1, 'x': 3}, pick='x'),
    Case('one of two parameters is new', 'params', MOVED, 'R§LONG a b R=1k tc=1 x=3 ; note', old={'tc': 1}, new={'tc': 1, 'x': 3}, pick='x'),
    Case('a parameter where there was none', 'params', 'R1 a b 1k ; note', 'R1 a b 1k new=5 ; note', line='R1 a b 1k ; note', spans=BARE, old={}, new={'new': 5}),
    Case('a parameter where there was none and a comment with a semicolon', 'params', 'R1 a b 1k ; note; more', 'R1 a b 1k new=5 ; note; more', line='R1 a b 1k ; note; more', spans=BARE, old={}, new={'new': 5}),
    Case('a parameter where there was none and no comment', 'params', 'R1 aa b 1k', 'R1 aa b 1k new=5', line='R1 a b 1k', spans=BARE, old={}, new={'new': 5}),
]


def insertion(line, a, b, text):
    """what _insert_section gives (P39)"""
    if not text:
        return line
    if a > len(line):
        raise Missing('IndexError')
    text = text.strip()
    if a > 0 and line[a - 1] != ' ':
        text = ' ' + text
    if b < len(line) and line[b] != ' ':
        text += ' '
    return (line[:a] + text + line[b:]).strip()


@prop('P55', 'Writing an edited component changes what was edited, and nothing else',
      'The line of a netlist component is written as it was read when nothing of it was edited. Otherwise it is written with the reference, the nodes, the value and the parameters the component has now, each in the place of the old '
      'one, wherever earlier replacements have moved it, whatever the lengths of the texts are and however many are replaced at once; the rest of the line, a comment included, is kept (white space aside; continued lines become one). '
      'Only what differs is replaced. Numbers are written in engineering notation, parameters as name=value with the values of a list separated by commas, all in their order, after the value and before the comment if there were none; '
      'removing them all leaves none. The § after the first letter of a reference is kept. A component that was not read from a line is written as its reference, nodes, value and parameters, in this order.',
      ['inputs', 'histories'], 'any lines and combinations of edits', 'The tests edit one or two properties of a few lines, mostly with texts of few lengths.', [SC],
      [dict(name='rewriting', where=SC + ':SpiceComponent.rewrite_lines'), dict(name='writing', where=SC + ':SpiceComponent.write_lines')],
      'One turn of the loop over the parts of the line is analysed for an arbitrary state of the line before it: all paths of it are enumerated, and by constant propagation of representative parts, lines and edits the line after it is '
      'compared with the line before it with only the part replaced. Values carried from turn to turn must keep their meaning: a displacement must grow by exactly what the line has grown.',
      'path enumeration with constant propagation and an induction over the parts of the line', 'Which part of the line is what is decided by the regular expressions of the editor, which are not analysed; nor is the splitting of the text of parameters.',
      ['the regular expressions give the parts of the line from left to right'])
def p55(c: Ctx):
    R1 = c.rule('P55.rewrite', 'each edited part replaces the old one where it is now', 17)
    R2 = c.rule('P55.params', 'the parameters are written as name=value', 2)
    R3 = c.rule('P55.line', 'the line is written as edited, or as read', 4)
    R4 = c.rule('P55.new', 'a new component is written with all it has', 4)
    with c.attempt('rewrite_lines'):
        rewrite(c, R1, R2, R3)
    with c.attempt('write_lines'):
        fresh(c, R4)


def results(r, case):
    """the results of the calls of a path for a case; the line after re.sub is the line and the blank of its end"""
    env = {A(SELF, '_obj'): case.line + '\n', A(SELF, 'obj'): case.line + '\n'}
    for n in ('reference', '_reference'):
        env[A(SELF, n)] = case.ref
    for e in r.events:
        if e.kind != 'call' or e.raised:
            continue
        v = ('res', e.n, e.name)
        if e.name == 'sub':
            env[v] = case.line + ' '
        elif e.name == 'groupdict':
            env[v] = case.info
            env[('elem', v)] = env[('key', v)] = case.attr
            for s in (('mcall', v, 'items', ()),):
                env[('elem', s)] = (case.attr, case.info[case.attr])
            a = case.attr
            for x in (('elem', v), ('key', v), ('item', ('elem', ('mcall', v, 'items', ())), 0)):
                env[('call', 'hasattr', (SELF, x))] = a not in ('formula',)
        elif e.name in ('span', 'start', 'end'):
            s = case.spans[case.attr]
            env[v] = s if e.name == 'span' else s[e.name == 'end']
        elif e.name == 'undress_designator':
            env[v] = case.info['designator'].replace('§', '')
        elif e.name == 'port_names':
            env[v] = case.nodes
        elif e.name == 'format_eng':
            env[v] = '4.7k' if case.value else '0'
        elif e.name == '_parse_params':
            env[v] = case.old
        elif e.name == 'match':
            env[('isnone', v)] = False
            env[v] = 'match'
        elif e.name == 'hasattr':
            env[v] = case.attr != 'formula'
        elif e.name == 'get' and 'component_replace_regexs' in str(e.recv):
            env[('isnone', v)] = False
    attrs = {'value': case.value, 'params': case.new, 'ports': ['n']}
    env[A(SELF, '_attributes')] = env[A(SELF, 'attributes')] = attrs
    env[A(SELF, 'params')] = case.new
    for p in (A(SELF, 'params'), ('call', 'list', (A(SELF, 'params'),))):
        if len(case.new) == 1 or case.pick in case.new:
            env[('elem', p)] = env[('key', p)] = case.pick if case.pick in case.new else next(iter(case.new))
    for e in r.events:
        if e.kind == 'call' and e.name == '_parse_params' and (len(case.old) == 1 or case.pick in case.old):
            env[('elem', ('res', e.n, e.name))] = env[('key', ('res', e.n, e.name))] = case.pick if case.pick in case.old else next(iter(case.old))
    return env


def joins(v):
    """' '.join of a list that was filled in a loop"""
    out = []
    deep(v, lambda x: out.append(x) if isinstance(x, tuple) and len(x) == 4 and x[0] == 'mcall' and x[2] == 'join' and x[1] == ('const', ' ') and x[3] and x[3][0] in (('list', ()),) or
         isinstance(x, tuple) and len(x) == 4 and x[0] == 'mcall' and x[2] == 'join' and x[1] == ('const', ' ') and x[3] and x[3][0][0] == 'phi' else None)
    return out


def rewrite(c, R1, R2, R3):
    k = c.p.cls('SpiceComponent')
    f = c.p.lookup(k, 'rewrite_lines')
    lab = 'SpiceComponent.rewrite_lines'
    ps = c.walk(f, k, any_iteration=True, opaque=OP - {'rewrite_lines'}, no_raise=NR)
    S = P(f.arg_names()[1])
    seen = set()
    for r in ps:
        g = next((e for e in r.events if e.kind == 'call' and e.name == 'groupdict'), None)
        if g is None or r.outcome.kind == 'raise':
            continue
        G = ('res', g.n, 'groupdict')
        its = [e for e in r.events if e.kind == 'iter' and contains(e.value, G)]
        outer = its[0] if its else None
        if outer is None:
            writes(c, R3, lab, r, S, None, None, {})
            continue
        ends = [e for e in r.events if e.kind == 'loopend' and e.value == outer.value]
        if not ends:
            c.bad(R1, lab, 'the parts after one of them are not looked at', r)
            continue
        c.require(ends[-1].name == 'done', R1, lab, 'the parts after one of them are not looked at', r)
        for case in CASES:
            env = results(r, case)
            start, after = outer.start or {}, ends[-1].start or {}
            lines = []
            for n, v in start.items():
                try:
                    x = evaluate(v, env)
                except Unknown:
                    continue
                if isinstance(x, str) and x.rstrip() == case.line:
                    lines.append((n, x))
            if len(lines) != 1:
                raise Unknown(f'no line that is edited: {lines}')
            name, first = lines[0]
            PHI = ('phi', name)
            trailing = first != case.line
            m = next(e for e in r.events if e.kind == 'call' and e.name == 'match')
            try:
                src = evaluate(m.args[0], env)
            except Unknown:
                raise Unknown('what is matched')
            inner = {x for x in start.values()}
            c.require(not (contains(m.args[0], A(SELF, '_obj')) or contains(m.args[0], A(SELF, 'obj'))) or contains(start[name], m.args[0]) or start[name] == m.args[0], R1, lab,
                      'the places of the parts are those in another text than the one edited', r)
            now = case.now + (' ' if trailing and case.now == case.line else '')
            env[PHI] = now
            moved = len(now) - len(first) if not trailing else len(case.now) - len(case.line)
            carried = []
            for n, v in start.items():
                if n != name:
                    try:
                        if evaluate(v, env) == 0 and not isinstance(evaluate(v, env), bool):
                            carried.append(n)
                            env[('phi', n)] = moved
                    except Unknown:
                        pass
            for e in r.events:
                if e.kind == 'iter' and e is not outer and e.n > outer.n:   # flags set before a loop inside of the turn
                    for n, v in (e.start or {}).items():
                        if v in (TRUE, FALSE):
                            env[('phi', n)] = v[1]
            for v in [e.lit for e in r.events if e.kind == 'assume'] + [a for e in r.events if e.kind == 'call' for a in e.args] + list(after.values()):
                for j in joins(v):
                    env[j] = ' '.join(f'{k}={v}' for k, v in case.new.items())
            if not feasible(r.events[:ends[-1].n], env):
                continue
            try:
                for e in r.events:
                    if e.kind == 'call' and e.name == '_insert_section' and e.n < ends[-1].n:
                        env[('res', e.n, e.name)] = insertion(*[evaluate(a, env) for a in e.args])
                    elif e.kind == 'assume' and e.n < ends[-1].n:
                        pass
                if not feasible(r.events[:ends[-1].n], env):
                    continue
                got = evaluate(after.get(name, PHI), env)
            except Missing as x:
                c.bad(R1, lab, f'{case.what}, in {case.now!r}: {x}', r)
                continue
            seen.add(case.what)
            c.require(squeeze(got) == squeeze(case.want), R1, lab, f'{case.what}: {case.now!r} becomes {got!r}', r)
            for n in carried:
                if n not in after:
                    continue
                used = any(contains(a, ('phi', n)) for q in ps for e in q.events if e.kind == 'call' and e.name == '_insert_section' for a in e.args)
                if used:
                    x = evaluate(after[n], env)
                    c.require(x == moved + len(got.rstrip()) - len(now.rstrip()), R1, lab, f'{case.what}: the line becomes {len(got.rstrip()) - len(now.rstrip())} longer, but what follows is looked for {x - moved} further', r)
            writes(c, R3, lab, r, S, name, after, env, got, got != now)
        params(c, R2, lab, r)
    for case in CASES:
        c.require(case.what in seen, R1, lab, f'{case.what}: no way through the code')


def writes(c, R3, lab, r, S, name, after, env, got=None, edited=False):
    w = [e for e in r.events if e.kind == 'call' and e.name == 'write' and e.recv == S]
    if not w:
        c.bad(R3, lab, 'nothing is written', r)
        return
    if name is None:
        return
    for flag in {n for n, v in after.items() if v == TRUE} | {('phi')}:
        pass
    try:
        text = evaluate(w[-1].args[0], env)
    except Unknown:
        return
    if edited:
        c.require(text == got + '\n' or text.rstrip() == got.rstrip() and text.endswith('\n'), R3, lab, f'{text!r} is written instead of the edited line {got!r}', r)
    else:
        c.require(text.rstrip('\n').rstrip() in (got.rstrip(), env[A(SELF, '_obj')].rstrip()) and text.endswith('\n'), R3, lab, f'{text!r} is written though nothing was edited in {got!r}', r)


def params(c, R2, lab, r):
    for e in r.events:
        if e.kind != 'call' or e.name != 'append' or not e.args:
            continue
        its = [x.value for x in r.events if x.kind == 'iter' and x.n < e.n and 'params' in str(x.value)]
        if not its:
            continue
        src = its[-1]
        one = ('elem', src)
        for key, value, want in (('ic', 5, 'ic=5'), ('w', '2u', 'w=2u'), ('tc', [1, 2], 'tc=1,2'), ('tc', [1, 1], 'tc=1,1'), ('tc', [2, 1], 'tc=2,1')):
            env = {one: (key, value) if src[0] == 'mcall' and src[2] == 'items' else key}
            base = src[1] if src[0] == 'mcall' and src[2] == 'items' else src
            env[base] = {key: value}
            env[('key', base)] = env[('elem', base)] = key
            if not feasible(r.events[:e.n], env):
                continue
            try:
                for x in r.events[:e.n]:
                    if x.kind == 'call' and x.name == 'fromkeys' and len(x.args) == 1:
                        env[('res', x.n, x.name)] = list(dict.fromkeys(evaluate(x.args[0], env)))
                got = evaluate(e.args[0], env)
            except Unknown:
                continue
            c.require(got == want, R2, lab, f'the parameter {key} with {value!r} is written as {got!r}', r)


def fresh(c, R4):
    k = c.p.cls('SpiceComponent')
    f = c.p.lookup(k, 'write_lines')
    lab = 'SpiceComponent.write_lines'
    S = P(f.arg_names()[1])
    ps = c.walk(f, k, any_iteration=True, opaque={'rewrite_lines', 'format_eng'}, no_raise=NR)
    read = False
    for r in ps:
        if r.outcome.kind == 'raise':
            continue
        rw = [e for e in r.events if e.kind == 'call' and e.name == 'rewrite_lines']
        w = [e for e in r.events if e.kind == 'call' and e.name == 'write' and e.recv == S]
        if feasible(r.events, {A(SELF, '_obj'): 'R1 a b 1k\n', A(SELF, 'obj'): 'R1 a b 1k\n'}):
            c.require(len(rw) == 1 and rw[0].args[0] == S and not w, R4, lab, 'a line that was read is not kept as it is', r)
            read = True
            continue
        c.require(w, R4, lab, 'nothing is written', r)
        if not w:
            continue
        for value, want in ((1, '1'), ([1, 2], '1,2')):
            try:
                attrs = {'value': '1k', 'params': {'tc': value}, 'ports': ['a']}
                env = {A(SELF, 'reference'): 'R1', A(SELF, '_reference'): 'R1', A(SELF, '_attributes'): attrs, A(SELF, 'attributes'): attrs, A(SELF, 'value_str'): '1k', A(SELF, 'params'): {'tc': value}, A(SELF, 'ports'): ['a'],
                       A(SELF, '_obj'): None}
                pp, qq = A(SELF, 'params'), ('mcall', A(SELF, 'params'), 'items', ())
                env[('elem', qq)] = ('tc', value)
                env[('elem', pp)] = env[('key', pp)] = 'tc'
                env[('elem', A(SELF, 'ports'))] = 'a'
                env[('elem', ('sub', A(SELF, '_attributes'), ('const', 'ports')))] = 'a'
                env[('global', 'SPICE_KEYWORDS')] = ('noiseless',)
                for e in w:
                    env[('res', e.n, 'write')] = 5
                for e in r.events:
                    if e.kind == 'iter':
                        if contains(e.value, A(SELF, 'ports')) and e.value[0] == 'comp':
                            env[('elem', e.value)] = 'a'
                        for n, v in (e.start or {}).items():
                            try:
                                env[('phi', n)] = evaluate(v, env)
                            except Unknown:
                                pass
                if not feasible(r.events, env):
                    continue
                text = ''.join(str(evaluate(e.args[0], env)) for e in w)
                c.require(squeeze(text) == f'R1 a 1k tc={want}' and text.endswith('\n'), R4, lab, f'R1 with node a, value 1k and tc={value!r} is written as {text!r}', r)
            except Unknown:
                continue
    c.require(read, R4, lab, 'a line that was read is not kept as it is')
