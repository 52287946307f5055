"""Values in engineering notation: utils/float_unit.py and its users (P52)."""
import ast
import math
import re
from .util import *
from .server import QUIET
from .toolkit_data import judge
from .raw_steps import lab_

FU = 'spicelib/utils/float_unit.py'
PRIM = 'spicelib/editor/primitives.py'
SI = {'f': -15, 'p': -12, 'n': -9, 'u': -6, 'µ': -6, 'μ': -6, 'm': -3, 'k': 3, 'M': 6, 'g': 9, 't': 12, '%': -2, 'a': -18}
NEEDED = 'fpPnNuUµμmkKMGgTt%'
SPICE = {'': 0, 'f': -15, 'p': -12, 'n': -9, 'u': -6, 'm': -3, 'k': 3, 'meg': 6, 'g': 9, 't': 12}
MATH = {n: (lambda r, a, kw, n=n: getattr(math, n)(*[float(x) if isinstance(x, Fraction) else x for x in a])) for n in ('log', 'log10', 'floor', 'isnan', 'isinf', 'trunc', 'fabs', 'isfinite')}


def si(letter):
    """the multiplier of a letter; None if it has none"""
    for x in (letter, letter.lower()):
        if x in SI:
            return 10.0 ** SI[x]
    return None


def inner(v):
    """x of int(x)"""
    while v[0] == 'call' and v[1] == 'int' and len(v[2]) == 1:
        v = v[2][0]
    return v


def factors(v):
    """(text given to float(), what it is multiplied with) of the number of a path; None if it has another form"""
    v = inner(v)
    if v[0] == 'call' and v[1] == 'float' and len(v[2]) == 1:
        return v[2][0], ('const', 1.0)
    if v[0] == 'bin' and v[1] == '/' and v[2][0] == 'call' and v[2][1] == 'float' and len(v[2][2]) == 1:
        return v[2][2][0], ('bin', '/', ('const', 1.0), v[3])
    if v[0] == 'bin' and v[1] == '*':
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if a[0] == 'call' and a[1] == 'float' and len(a[2]) == 1:
                return a[2][0], b
    return None


def consts(v):
    out = []
    deep(v, lambda x: out.append(x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'const' and isinstance(x[1], str) else None)
    return out


def lit_(e):
    l = e.lit
    while l[0] == 'truthy':
        l = l[1]
    return l


def is_e(l):
    """the character is compared with the E of scientific notation"""
    return l[0] == 'cmp' and l[1] in ('eq', 'in') and l[3][0] in ('const', 'tuple', 'list', 'set') and {x.upper() for x in (consts(l[3]) if l[3][0] == 'const' else [y for z in l[3][1] for y in consts(z)])} in ({'E'}, {'EE'})


def is_meg(l):
    return l[0] == 'mcall' and l[2] in ('startswith',) and any(x.upper() == 'MEG' for x in consts(l)) or l[0] == 'cmp' and l[1] == 'eq' and any(x.upper() == 'MEG' for x in consts(l))


def any_case(l):
    """the test does not depend on the case of the text"""
    found = []
    deep(l, lambda x: found.append(x[2]) if isinstance(x, tuple) and len(x) > 2 and x[0] == 'mcall' and x[2] in ('upper', 'lower', 'casefold') else None)
    return bool(found) or len({x.upper() for x in consts(l)}) < len(set(consts(l)))


def decode(text):
    """what SPICE reads in the text"""
    m = re.fullmatch(r'([-+]?[0-9]*\.?[0-9]*(?:[eE][-+]?[0-9]+)?)([a-zA-Z]*)', text)
    if not m or m[2].lower() not in SPICE:
        return None
    try:
        return float(m[1]) * 10.0 ** SPICE[m[2].lower()]
    except ValueError:
        return None


@prop('P52', 'Values in engineering notation mean the same when read and written',
     'A number read from text (parse_value(), hence scan_eng(), to_float(), float_unit() and the values of the editors) is multiplied with the SI factor of the letter after its digits (f p n u k g t in either case, m is 1e-3, M is 1e6, % is 0.01), '
     'with 1e6 for meg in any case, and with nothing if it has no such letter or is in scientific notation; digits after the letter are its decimals (4k7). Text that is no number raises ValueError, or gives NaN from parse_value() '
     'with accept_invalid. What format_eng() writes is read by SPICE as the same number, to six digits, for numbers of any size and sign. to_float() keeps float_unit objects, converts numbers and text, and for invalid text gives the text '
     'itself, or raises ValueError if accept_invalid is False; try_value() gives the complex number or the text then. A float_unit has the value and the unit of its text, is written as that text until clean() and as format_eng() and '
     'unit otherwise; sums, differences, products and quotients of them, and comparisons, are those of the numbers.',
     ['inputs'], 'any text or number', 'The tests read a handful of values; a wrong factor of one qualifier changes the circuit of the users of that one only.',
     [FU, PRIM, 'spicelib/editor/base_subcircuit.py'],
     [dict(name='read', where=FU + ':parse_value, scan_eng, to_float, _MULT'), dict(name='write', where=FU + ':format_eng'), dict(name='number with unit', where=FU + ':float_unit'),
      dict(name='users', where=PRIM + ':try_value')],
     'On every path of parse_value() the factor applied is compared with the tests of the character made on that path, and every entry of the table of factors with the SI factor of its letter. The paths of format_eng() are decided for numbers '
     'of all decades and signs by constant propagation, and the text with its suffix is given the meaning SPICE gives it. The paths of to_float(), try_value() and float_unit are decided for numbers, valid and invalid texts.',
     'path-sensitive dataflow over factors, table check, constant propagation per decade', 'The positions at which the scanner of parse_value() cuts the text are not decided, only the factor, which parts are used and the classes of characters.',
     ['math.log and math.floor give the exact exponents for the samples used'])
def p52(c: Ctx):
    R1 = c.rule('P52.table', 'every qualifier has its SI factor', 18)
    R2 = c.rule('P52.factor', 'the factor applied is the one of the qualifier found', 20)
    R3 = c.rule('P52.format', 'format_eng() writes what SPICE reads as the same number', 100)
    R4 = c.rule('P52.convert', 'texts and numbers are converted', 14)
    R5 = c.rule('P52.invalid', 'text that is no number is refused', 3)
    R6 = c.rule('P52.unit', 'a float_unit has the value and unit of its text', 10)
    with c.attempt('parse_value'):
        reading(c, R1, R2, R5)
    with c.attempt('format_eng'):
        f = c.p.function(FU, 'format_eng')
        lab = 'format_eng'
        ps = list(c.walk(f, None, any_iteration=True, opaque=set(MATH), no_raise=QUIET | set(MATH)))
        a = P(f.arg_names()[0])
        for v in samples():
            for r, w, sure in stepped(ps, {a: v}, MATH):
                if not sure:
                    continue
                if sure == BREAKS or r.outcome.kind == 'raise':
                    c.bad(R3, lab, f'format_eng({v!r}) raises an exception', r)
                    continue
                try:
                    got = evaluate(r.outcome.value, w)
                except Missing:
                    c.bad(R3, lab, f'format_eng({v!r}) raises an exception', r)
                    continue
                except Unknown:
                    continue
                d = decode(got) if isinstance(got, str) else None
                c.require(d is not None and abs(d - v) <= 1e-5 * abs(v), R3, lab, f'format_eng({v!r}) gives {got!r}, which SPICE reads as {d!r}', r)
    with c.attempt('to_float'):
        converting(c, R4)
    with c.attempt('float_unit'):
        units(c, R6)


def samples():
    out = [0, 0.0, 1, -1, 10, 999, 1000, 1500, 1000000, -2000]
    for e in range(-18, 19):
        out += [4.7 * 10.0 ** e, -3.3 * 10.0 ** e]
    for e in range(-5, 5):
        out += [999.4 * 1000.0 ** e, 1.0001 * 1000.0 ** e]
    return out


def reading(c, R1, R2, R5):
    f = c.p.function(FU, 'parse_value')
    lab = 'parse_value'
    val, acc = (P(x) for x in f.arg_names()[:2])
    ps = list(c.walk(f, None, any_iteration=True, opaque={'UnitError', 'float'}, no_raise=QUIET - {'float'}))
    floats = {}
    for r in ps:
        for e in r.events:
            if e.kind == 'call' and e.name == 'float' and not e.raised and len(e.args) == 1:
                floats[e.n] = e.args[0]
    tables = set()
    megs = False
    for r in ps:
        # ValueError of float() and of the tests of the text
        err = any(e.kind == 'call' and e.raised for e in r.events) or any(e.kind == 'except' for e in r.events)
        given = [e.pol for e in r.events if e.kind == 'assume' and lit_(e) == acc]
        v = r.outcome.value
        if r.outcome.kind == 'raise':
            if r.outcome.value != '*' and True in given:
                c.bad(R5, lab, 'an exception is raised with accept_invalid', r)
            elif False in given:
                c.ok(R5, lab)
            continue
        if r.outcome.kind != 'return' or v[0] != 'tuple' or len(v[1]) != 2:
            continue
        num, unit = v[1]
        if contains(num, ('attr', ('global', 'math'), 'nan')) or num[0] == 'call' and num[1] == 'float' and num[2] and num[2][0] == ('const', 'nan'):
            c.require(given and given[-1], R5, lab, 'text that is no number gives NaN without accept_invalid', r)
            continue
        if err and given:
            c.require(given[-1] is False or not err, R5, lab, f'text that is no number gives {show(num)}', r)
            continue
        x = product(r, num)
        if x is None:
            continue
        text, m = x
        tests = [(lit_(e), e.pol) for e in r.events if e.kind == 'assume']
        e_ = any(is_e(l) and p for l, p in tests)
        meg = [p for l, p in tests if is_meg(l)]
        megs = megs or bool(meg)
        for l, p in tests:
            if is_meg(l):
                c.require(any_case(l), R2, lab, f'meg is looked for as {show(l)}, in one case only', r)
        member = [(l, p) for l, p in tests if l[0] == 'cmp' and l[1] == 'in' and l[3][0] == 'global']
        found = [l for l, p in member if p]
        try:
            k = evaluate(m, {})
        except Unknown:
            k = None
        if m[0] == 'sub' and m[1][0] == 'global' or m[0] == 'mcall' and m[2] == 'get' and m[1][0] == 'global':
            tab, ch = (m[1], m[2]) if m[0] == 'sub' else (m[1], m[3][0])
            tables.add(tab[1])
            if True in meg:
                c.bad(R2, lab, 'meg has the factor of its first letter', r)
            elif e_:
                c.bad(R2, lab, 'a number in scientific notation is multiplied', r)
            elif found:
                c.require(any(l[2] == ch and l[3] == tab for l in found), R2, lab, f'the factor is the one of {show(ch)}, which is not the qualifier found', r)
                if megs and not meg:
                    c.bad(R2, lab, 'the factor of m is used without a test for meg', r)
        elif found and m[0] == 'bin' and m[1] == '/' and contains(m[3], found[0][2]):
            c.bad(R2, lab, 'the number is divided by its factor', r)
        elif k is not None:
            want = 1e6 if True in meg else 1
            if found and True not in meg:
                c.bad(R2, lab, f'the qualifier found is ignored, the factor is {k!r}', r)
            else:
                c.require(abs(k - want) < 1e-9 * want, R2, lab, f'the factor is {k!r} instead of {want!r}' + (' for meg' if want != 1 else ' without a qualifier'), r)
        # the decimals after the qualifier
        parts = pieces(text)
        if parts is None:
            continue
        cut = [t for t in parts if t[0] == 'sub' and t[2][0] == 'slice']
        c.require(len(cut) >= 1 and cut[0][2][1] in (NONE, ('const', 0)), R2, lab, f'the number is read from {show(text)}', r)
        nonempty = {e.lit[1]: e.pol for e in r.events if e.kind == 'assume' and e.lit[0] == 'truthy' and e.lit[1][0] == 'sub' and e.lit[1][2][0] == 'slice'}
        for s, p in nonempty.items():
            if s[2][1] not in (NONE, ('const', 0)) and s[2][2] != NONE:
                c.require((s in parts) == p and (('const', '.') in parts) == p, R2, lab, 'the digits after the qualifier are ' + ('not used as decimals' if p else 'used though there are none'), r)
        for l, p in tests:
            if l[0] == 'cmp' and l[1] == 'in' and l[3][0] == 'const' and isinstance(l[3][1], str) and set('0123456789') & set(l[3][1]):
                more = set(l[3][1]) - set('0123456789')
                c.require(set('0123456789') <= set(l[3][1]) and more in (set(), set('.+-'), set('E+-'), set('Ee+-'), set('+-'), set('.')), R2, lab, f'the characters of a number are {l[3][1]!r}', r)
    for name in sorted(tables):
        t = table(c, name)
        if t is None:
            continue
        for x, v in t.items():
            w = si(x)
            if isinstance(x, str) and len(x) == 1 and isinstance(v, (int, float)):
                c.require(w is not None and abs(v - w) <= 1e-9 * w, R1, f'{FU}:{name}', f'the factor of {x!r} is {v!r} instead of {w!r}')
        for x in NEEDED:
            c.require(x in t, R1, f'{FU}:{name}', f'{x!r} has no factor')


def product(r, num):
    """factors(), for float() calls that are events"""
    res = {('res', e.n, e.name): e.args[0] for e in r.events if e.kind == 'call' and e.name == 'float' and not e.raised and len(e.args) == 1}

    def back(v):
        if v in res:
            return ('call', 'float', (back(res[v]),))
        if isinstance(v, tuple):
            return tuple(back(x) if isinstance(x, tuple) else x for x in v)
        return v
    return factors(back(num))


def pieces(v):
    """the parts of a text put together with +"""
    if v[0] == 'bin' and v[1] == '+':
        a, b = pieces(v[2]), pieces(v[3])
        return None if a is None or b is None else a + b
    if v[0] == 'fstr':
        return list(v[1])
    if v[0] in ('sub', 'const') or v[0] == 'call' and v[1] == 'str' and v[2] and v[2][0][0] == 'call' and v[2][0][1] in ('int', 'float') or v[0] == 'mcall' and v[2] in ('lstrip', 'replace'):
        return [v]
    return None


def table(c, name):
    """the dictionary of constants `name` of the module"""
    out = None
    for n in next(m for m in c.p.modules.values() if m.rel == FU).tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
            try:
                out = ast.literal_eval(n.value)
            except (ValueError, TypeError, SyntaxError):
                return None
    return out if isinstance(out, dict) else None


TEXTS = {'4.7k': 4700.0, '10': 10.0, '-3m': -0.003}


def converting(c, R4):
    def made(recv, a, kw):
        v = a[0] if a else kw['value']
        if isinstance(v, Obj):
            return v
        if isinstance(v, str):
            if v not in TEXTS:
                raise ValueError(v)
            v = TEXTS[v]
        return Obj('float_unit', value=float(v))

    def parsed(recv, a, kw):
        v, acc = (list(a) + [kw.get('accept_invalid', kw.get('value'))])[:2] if len(a) < 2 else a
        if v in TEXTS:
            return [TEXTS[v], 'V']
        if acc:
            return [math.nan, '']
        raise ValueError(v)
    fu = Obj('float_unit', value=5.0)
    f = c.p.function(FU, 'to_float')
    v, acc = (P(x) for x in f.arg_names()[:2])
    ps = list(c.walk(f, None, any_iteration=True, opaque={'float_unit', 'UnitError', 'parse_value'}, no_raise=QUIET))
    for x, want in ((fu, fu), (4, Obj('float_unit', value=4.0)), (2.5, Obj('float_unit', value=2.5)), *((t, Obj('float_unit', value=n)) for t, n in TEXTS.items()), ('{R}', '{R}'), ('', '')):
        judge(c, R4, 'to_float', ps, {v: x, acc: True, ('attr', ('global', 'math'), 'nan'): math.nan}, {'float_unit': made, 'parse_value': parsed}, f'to_float({x!r})', want)
        bad = isinstance(want, str)
        judge(c, R4, 'to_float', ps, {v: x, acc: False}, {'float_unit': made, 'parse_value': parsed}, f'to_float({x!r}, accept_invalid=False)', Ellipsis if bad else want, error='ValueError' if bad else None)
    f = c.p.function(FU, 'scan_eng')
    v = P(f.arg_names()[0])
    ps = list(c.walk(f, None, any_iteration=True, opaque={'float_unit', 'UnitError', 'parse_value'}, no_raise=QUIET))
    for x, want in TEXTS.items():
        judge(c, R4, 'scan_eng', ps, {v: x}, {'parse_value': parsed}, f'scan_eng({x!r})', want)
    for r in ps:
        for e in r.events:
            if e.kind == 'call' and e.name == 'parse_value':
                c.require(e.arg(1, 'accept_invalid') == ('const', False), R4, 'scan_eng', 'scan_eng() accepts text that is no number', r)
    f = c.p.function(PRIM, 'try_value')
    v = P(f.arg_names()[0])
    ps = list(c.walk(f, None, any_iteration=True, opaque={'to_float', 'complex', 'float_unit'}, no_raise=QUIET))

    def number(recv, a, kw):
        acc = a[1] if len(a) > 1 else kw.get('accept_invalid', True)
        if a[0] not in TEXTS and acc:
            return a[0]
        return TEXTS[a[0]] if a[0] in TEXTS else made(recv, a, kw)
    for x, want in (*TEXTS.items(), ('1+2j', 1 + 2j), ('{R}', '{R}'), ('bc547', 'bc547')):
        judge(c, R4, 'try_value', ps, {v: x}, {'to_float': number, 'complex': lambda r, a, kw: complex(*a)}, f'try_value({x!r})', want)
    k = c.p.cls('BaseSubCircuit')
    with c.attempt('get_component_floatvalue'):
        f = c.p.lookup(k, 'get_component_floatvalue')
        ps = list(c.walk(f, k, any_iteration=True, opaque={'scan_eng', 'get_component_value', 'to_float', 'float'}, no_raise=QUIET - {'float'}))
        judge(c, R4, lab_(k, 'get_component_floatvalue'), ps, {P(f.arg_names()[1]): 'R1'}, {'get_component_value': lambda r, a, kw: {'R1': '4.7k'}[a[0]], 'scan_eng': lambda r, a, kw: TEXTS[a[0]],
                                                                                           'to_float': lambda r, a, kw: TEXTS[a[0]], 'float': lambda r, a, kw: float(a[0])}, 'get_component_floatvalue()', 4700.0)


OPS = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__truediv__': '/'}


def units(c, R6):
    k = c.p.cls('float_unit')
    op = {'parse_value', 'format_eng', 'isnan', '__new__'}

    def walk(m):
        f = c.p.lookup(k, m)
        return f, list(c.walk(f, k, any_iteration=True, opaque=op, no_raise=QUIET | op))
    orig, un = A(SELF, '_original'), A(SELF, '_unit')

    def parsed(recv, a, kw):
        return {' 4.7kV': [4700, 'V'], '10 Hz': [10, 'Hz'], '33': [33, ''], '5X': [5, 'X']}[a[0]]
    with c.attempt('__new__'):
        f, ps = walk('__new__')
        a = P(f.arg_names()[1])
        for x, want in ((' 4.7kV', 4700), ('33', 33), (2.5, 2.5), (7, 7)):
            judge(c, R6, lab_(k, '__new__'), ps, {a: x, P(f.arg_names()[2]): ''}, {'parse_value': parsed, '__new__': lambda r, a, kw: a[-1]}, f'float_unit({x!r})', want)
    with c.attempt('__init__'):
        f, ps = walk('__init__')
        a, b = (P(x) for x in f.arg_names()[1:3])
        names = {'_UNITS': {'V': 'volt', 'Hz': 'hertz', 'A': 'ampere'}, 'Unit': 'none'}
        env = {('global', n): x for n, x in names.items()}
        for x, u, want, o in ((' 4.7kV', '', 'volt', '4.7kV'), ('10 Hz', '', 'hertz', '10 Hz'), ('33', '', 'none', '33'), ('33', 'A', 'ampere', '33'), ('5X', '', 'none', '5X'), (2.5, 'A', 'ampere', None), (2.5, '', 'none', None), (3, 'X', 'none', None),
                              ('10 Hz', 'Hz', 'hertz', '10 Hz')):
            judge(c, R6, lab_(k, '__init__'), ps, {**env, a: x, b: u}, {'parse_value': parsed}, f'float_unit({x!r}, {u!r})', state={un: want, orig: o})
        judge(c, R6, lab_(k, '__init__'), ps, {**env, a: '10 Hz', b: 'V'}, {'parse_value': parsed}, "float_unit('10 Hz', 'V')", error='Error')
    with c.attempt('__str__'):
        f, ps = walk('__str__')
        for o, nan, want in (('4.7kV', False, '4.7kV'), (None, False, '10kV'), (None, True, 'nan')):
            judge(c, R6, lab_(k, '__str__'), ps, {orig: o, un: Obj('Volt', sign='V'), SELF: 'x'}, {'format_eng': lambda r, a, kw: '10k', 'isnan': lambda r, a, kw: nan}, f'str() of a number read from {o!r}', want)
    with c.attempt('clean'):
        f, ps = walk('clean')
        for r in ps:
            if r.outcome.kind == 'return':
                c.require(r.outcome.value == SELF, R6, lab_(k, 'clean'), 'clean() does not give the number itself', r)
        judge(c, R6, lab_(k, 'clean'), ps, {orig: '4.7kV'}, {}, 'clean()', state={orig: None})
    for m, o in OPS.items():
        with c.attempt(m):
            f, ps = walk(m)
            b = P(f.arg_names()[1])
            env = {SELF: 6.0, b: 4.0}
            want = {'+': 10.0, '-': 2.0, '*': 24.0, '/': 1.5}[o]
            arith = {n: (lambda r, a, kw, s=s: {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}[s](*(a if len(a) == 2 else [r, *a]))) for n, s in OPS.items()}
            judge(c, R6, lab_(k, m), ps, env, {**arith, 'float_unit': lambda r, a, kw: ('fu', float(a[0])), 'type': lambda r, a, kw: Unknown}, f'6 {o} 4', ('fu', want))
    with c.attempt('__eq__'):
        f, ps = walk('__eq__')
        b = P(f.arg_names()[1])

        def eq(recv, a, kw):
            x, y = a if len(a) == 2 else (recv, a[0])
            return float(x) == (y[1] if isinstance(y, tuple) else y)

        def made(recv, a, kw):
            return ('fu', {'6': 6.0, '7': 7.0}[a[0]]) if a[0] in ('6', '7') else _no(a[0])
        for x, want in ((6.0, True), (7, False), ('6', True), ('7', False), ('R', False), ('', False)):
            judge(c, R6, lab_(k, '__eq__'), ps, {SELF: 6.0, b: x}, {'__eq__': eq, 'float_unit': made}, f'6 == {x!r}', want)


def _no(x):
    raise ValueError(x)
