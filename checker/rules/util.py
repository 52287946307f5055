"""Shared vocabulary of the property rules."""
from __future__ import annotations
import ast
import pathlib
import posixpath
from fractions import Fraction
from ..project import Project, Func, Cls, AnalysisBroken, dotted, func_walk, Sym, Pattern
from ..paths import (Walker, PathResult, Ev, show, contains, replace, subvalues, NONE, TRUE, FALSE, SELF, mk_cmp, mk_not)
from ..core import Ctx, where

REGISTRY = {}

LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'popleft', 'appendleft', 'update',
            'setdefault', 'popitem', 'add', 'discard', '__setitem__', '__delitem__', 'write'}
LIST_REMOVE = {'pop', 'remove', 'clear', 'popleft', 'discard', 'popitem', '__delitem__'}
LIST_ADD = {'append', 'insert', 'extend', 'add', 'appendleft'}


def prop(pid, title, statement, over, qtext, why, files, mechanism, explanation, technique, note, assumptions=(),
         state=(), observe=()):
    def deco(fn):
        REGISTRY[pid] = dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                             mechanism=mechanism, explanation=explanation, technique=technique, note=note,
                             assumptions=list(assumptions), fn=fn, state=list(state), observe=list(observe))
        return fn
    return deco


def A(base, *names):
    for n in names:
        base = ('attr', base, n)
    return base


def P(n):
    return ('param', n)


def prop_path(c: Ctx, cname, pname):
    """the access path a trivial property returns, e.g. okSim -> self._okSim"""
    cls = c.p.cls(cname)
    f = c.p.lookup(cls, pname)
    if f is None:
        raise AnalysisBroken(f"{cname}.{pname} not found")
    vals = set()
    for r in c.walk(f, cls):
        if r.outcome.kind == 'return':
            vals.add(r.outcome.value)
    if len(vals) == 1:
        v = next(iter(vals))
        if v[0] == 'attr':
            return v
    raise AnalysisBroken(f"{cname}.{pname} does not return a plain attribute")


def is_removal(ev: Ev, path):
    """the event takes something out of the container at path"""
    if ev.kind == 'call' and not ev.raised and ev.recv == path and ev.name in LIST_REMOVE:
        return True
    if ev.kind == 'del' and (ev.recv == path or ev.path == path):
        return True
    if ev.kind in ('write', 'setitem') and (ev.path == path or ev.recv == path and ev.kind == 'setitem'):
        return True
    return False


def is_addition(ev: Ev, path):
    return ev.kind == 'call' and not ev.raised and ev.recv == path and ev.name in LIST_ADD \
        or ev.kind == 'aug' and ev.path == path and ev.op == '+'


def added_value(ev: Ev):
    if ev.kind == 'aug':
        v = ev.value
        return v[1][0] if v[0] in ('list', 'tuple') and len(v[1]) == 1 else v
    if not ev.args:
        return None
    return ev.args[-1]


def increments(ev: Ev, path):
    """+1 amount or None"""
    if ev.kind == 'aug' and ev.path == path and ev.op == '+':
        return ev.value[1] if ev.value[0] == 'const' else '?'
    if ev.kind == 'aug' and ev.path == path:
        return '?'
    if ev.kind == 'write' and ev.path == path:
        v = ev.value
        if v[0] == 'bin' and v[1] == '+':
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if (a == path or a[0] == 'old' and a[1] == path) and b[0] == 'const':
                    return b[1]
        return '?'
    return None


def strip_old(v):
    """ignore the 'value before a later write' marker"""
    if isinstance(v, tuple):
        if v and v[0] == 'old':
            return strip_old(v[1])
        return tuple(strip_old(x) if isinstance(x, tuple) else x for x in v)
    return v


def facts_at(r: PathResult, upto: int | None = None):
    """(lit, pol) assumed on the path up to event index"""
    out = []
    for i, e in enumerate(r.events):
        if upto is not None and i >= upto:
            break
        if e.kind == 'assume':
            out.append((e.lit, e.pol))
    return out


def holds(facts, lit, pol=True):
    return (lit, pol) in facts


def mutation_sites(p: Project, attrs: set[str]):
    """every syntactic mutation of an attribute called one of `attrs` anywhere in the package -> (func, node, attr, kind)"""
    out = []
    for f in p.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                if isinstance(n, ast.AnnAssign) and n.value is None:
                    continue
                flat = []
                for t in tg:
                    flat.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
                for t in flat:
                    base, kind = t, 'assign' if not isinstance(n, ast.AugAssign) else 'aug'
                    while isinstance(base, (ast.Subscript, ast.Starred)):
                        base, kind = base.value, 'item'
                    if isinstance(base, ast.Attribute) and base.attr in attrs:
                        out.append((f, n, base.attr, kind))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LIST_MUT \
                    and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in attrs:
                out.append((f, n, n.func.value.attr, n.func.attr))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant) and n.args[1].value in attrs:
                out.append((f, n, n.args[1].value, 'assign'))
    return out


def callers(p: Project):
    """name -> set of functions that call something of that name"""
    if not hasattr(p, '_callers'):
        m = {}
        for f in p.all_funcs():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm:
                        m.setdefault(nm, set()).add(f)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    m.setdefault('.' + n.attr, set()).add(f)
        p._callers = m
    return p._callers


def owned_by(p: Project, f: Func, owners: set[str]):
    """f is one of the owners (qualified names) or a helper all of whose callers are (transitively) owned"""
    seen = set()

    def rec(g):
        if g.qual in owners or g.name in ('__init__',) and g.cls is not None and f"{g.cls.name}.__init__" in owners:
            return True
        if g.qual in seen:
            return True
        seen.add(g.qual)
        if not g.name.startswith('_') or g.name.startswith('__'):
            return False      # public entry points can be called by anyone
        cs = callers(p).get(g.name, set()) - {g}
        return bool(cs) and all(rec(x) for x in cs)
    return rec(f)


def returns(paths):
    return [r for r in paths if r.outcome.kind == 'return']


def kwmap(ev: Ev, names):
    """argument values by parameter name"""
    d = {}
    for n, v in zip(names, ev.args or ()):
        d[n] = v
    for k, v in ev.kw or ():
        d[k] = v
    return d


def deep(v, pred):
    return any(pred(x) for x in subvalues(v))


def find_events(r, kind=None, name=None):
    return [(i, e) for i, e in enumerate(r.events) if (kind is None or e.kind == kind) and (name is None or e.name == name)]


def dict_items(v):
    """key->value of a dict value made of constants keys, or None"""
    if v is None:
        return None
    if v[0] == 'dict':
        its = v[1]
    elif v[0] == 'grown' and v[1] == 'dict':
        its = v[2]
    elif v[0] == 'call' and v[1] == 'dict' and len(v) > 3:
        return {k: x for k, x in v[3]}
    else:
        return None
    out = {}
    for k, x in its:
        if k[0] != 'const':
            return None
        out[k[1]] = x
    return out


def cconst(c: Ctx, k: Cls, name):
    """value of a class-level constant looked up along the class hierarchy; None if not a constant"""
    t = c.p.class_const(k, name)
    if t is None:
        return None
    node, owner = t
    try:
        return c.p.const_eval(owner.module, node, owner)
    except Exception:
        return None


def concrete(v):
    """(value,) of an expression of constants, or None"""
    if v is None or not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'const':
        return (v[1],)
    if v[0] == 'mcall' and v[2] in ('lower', 'upper', 'casefold', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'split', 'replace', 'isdigit'):
        b, a = concrete(v[1]), [concrete(x) for x in v[3]]
        if b is not None and isinstance(b[0], str) and all(x is not None for x in a):
            try:
                return (getattr(b[0], v[2])(*[x[0] for x in a]),)
            except Exception:
                return None
    if v[0] in ('tuple', 'list', 'set') and len(v) > 1 and isinstance(v[1], tuple):
        a = [concrete(x) for x in v[1]]
        return (tuple(x[0] for x in a),) if all(x is not None for x in a) else None
    if v[0] == 'call' and v[1] == 'len' and len(v[2]) == 1:
        b = concrete(v[2][0])
        return (len(b[0]),) if b is not None and hasattr(b[0], '__len__') else None
    return None


def settled(l):
    """the truth value of a condition that does not depend on anything, or None"""
    if l[0] == 'truthy':
        l = l[1]
    if l[0] == 'cmp':
        a, b = concrete(l[2]), concrete(l[3])
        if l[1] == 'lt' and l[2][0] == 'idx' and b is not None and isinstance(b[0], int) and b[0] <= 0:
            return False
        if a is None or b is None:
            return None
        try:
            return {'eq': lambda x, y: x == y, 'is': lambda x, y: x is y, 'lt': lambda x, y: x < y, 'in': lambda x, y: x in y}[l[1]](a[0], b[0])
        except Exception:
            return None
    v = concrete(l)
    return None if v is None else bool(v[0])


def impossible(r):
    """the path assumes something that is never so"""
    for e in r.events:
        if e.kind == 'assume':
            s = settled(e.lit)
            if s is not None and s != e.pol:
                return True
    return False


class Entry:
    """one way an element gets (or does not get) into a list that is built"""

    def __init__(self, src, elt, facts, added):
        self.src, self.elt, self.facts, self.added = src, elt, facts, added

    def fact(self, lit):
        """True/False when the condition is assumed, else None"""
        for l, p in self.facts:
            m = l[1] if l[0] == 'truthy' else l
            if m == lit or m[0] == 'cmp' and m[1] == 'eq' and lit[0] == 'cmp' and lit[1] == 'eq' and m[2] == lit[3] and m[3] == lit[2]:
                return p
        return None


def whole(src):
    """what is iterated, without enumerate(), list(), items() …"""
    while True:
        if src[0] == 'call' and src[1] in ('enumerate', 'list', 'tuple', 'iter') and len(src[2]) == 1:
            src = src[2][0]
        elif src[0] == 'call' and src[1] == 'range' and len(src[2]) == 1 and src[2][0][0] == 'call' and src[2][0][1] == 'len':
            src = src[2][0][2][0]
        elif src[0] == 'mcall' and src[2] in ('items', 'keys', 'copy') and not src[3]:
            src = src[1]
        elif src[0] == 'sub' and src[2][0] == 'slice' and all(x in (None, NONE) for x in src[2][1:]):
            src = src[1]
        else:
            return src


def built(r, v):
    """[Entry] of a list made by a comprehension or by appending to it in a loop; None if it is made in another way"""
    if v[0] == 'call' and v[1] in ('list', 'tuple', 'sorted') and len(v[2]) == 1:
        return built(r, v[2][0])
    if v[0] == 'comp' and v[1] in ('ListComp', 'GeneratorExp') and len(v[3]) == 1 and len(v[2]) == 1:
        src, ifs = v[3][0]
        fs = []

        def flat(x, pol=True):
            if x[0] == 'not':
                flat(x[1], not pol)
            elif x[0] == ('and' if pol else 'or'):
                for y in x[1]:
                    flat(y, pol)
            else:
                fs.append((x, pol))
        for x in ifs:
            flat(x)
        es = [Entry(src, v[2][0], fs, True)]
        # what is left out: one condition fails
        for x, pol in fs:
            es.append(Entry(src, v[2][0], [(x, not pol)], False))
        return es
    if v in (('list', ()), ('const', ())):
        return []
    if v[0] not in ('phi', 'local', 'obj', 'list', 'grown'):
        return None
    if v[0] in ('list', 'grown') and not any(e.kind == 'call' and e.recv == v for e in r.events):
        return None
    out = []
    stack = []
    for e in r.events:
        if e.kind == 'iter':
            stack.append((e.value, [], []))
        elif e.kind == 'loopend' and stack:
            src, fs, adds = stack.pop()
            if adds:
                for a in adds:
                    out.append(Entry(src, a, fs, True))
            elif e.name == 'done' or r.outcome.kind == 'return':
                out.append(Entry(src, None, fs, False))
        elif e.kind == 'assume' and stack:
            stack[-1][1].append((e.lit, e.pol))
        elif e.kind == 'call' and e.name == 'append' and e.recv == v and stack and len(e.args) == 1:
            stack[-1][2].append(e.args[0])
        elif e.kind == 'aug' and e.path == v and stack and e.value is not None and e.value[0] == 'list' and len(e.value[1]) == 1:
            stack[-1][2].append(e.value[1][0])
        elif e.kind == 'call' and e.recv == v and e.name in LIST_MUT and e.name not in ('append',) and not e.raised:
            return None
    return out


class Unknown(Exception):
    pass


class Missing(Unknown):
    """an index or key that does not exist"""


def evaluate(v, env):
    """the Python value of a condition or expression once the values in env are known; raises Unknown"""
    if v in env:
        return env[v]
    h = v[0] if v else None
    if h == 'const':
        return v[1]
    if h == 'truthy':
        return bool(evaluate(v[1], env))
    if h == 'not':
        return not evaluate(v[1], env)
    if h == 'neg':
        return -evaluate(v[1], env)
    if h in ('and', 'or'):
        got = []
        for x in v[1]:
            try:
                got.append(evaluate(x, env))
            except Unknown:
                got.append(Unknown)
        stop = next((g for g in got if g is not Unknown and bool(g) == (h == 'or')), Unknown)
        if stop is not Unknown:
            return stop
        if Unknown in got:
            raise Unknown
        return got[-1]
    if h == 'isnone':
        return evaluate(v[1], env) is None
    if h == 'cmp':
        a, b = evaluate(v[2], env), evaluate(v[3], env)
        try:
            return {'eq': lambda: a == b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'is': lambda: a is b, 'in': lambda: a in b}[v[1]]()
        except (KeyError, TypeError):
            if v[1] == 'in' and (b is None or isinstance(b, pathlib.PurePath)):
                raise Missing('TypeError')
            raise Unknown
    if h == 'call' and v[1] in ('int', 'bool', 'abs', 'len', 'str', 'float') and len(v[2]) == 1:
        try:
            return {'int': int, 'bool': bool, 'abs': abs, 'len': len, 'str': str, 'float': float}[v[1]](evaluate(v[2][0], env))
        except (TypeError, ValueError):
            raise Unknown
    if h == 'call' and v[1] in ('min', 'max') and len(v[2]) > 1:
        try:
            return {'min': min, 'max': max}[v[1]](evaluate(x, env) for x in v[2])
        except TypeError:
            raise Unknown
    if h == 'bin':
        a, b = evaluate(v[2], env), evaluate(v[3], env)
        try:
            if isinstance(a, str) and v[1] == '%' or v[1] == '**' and abs(b) > 64 or v[1] == '<<' and b > 64:
                raise Unknown
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: Fraction(a) / b, '//': lambda: a // b, '%': lambda: a % b,
                    '**': lambda: a ** b, '>>': lambda: a >> b, '<<': lambda: a << b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[v[1]]()
        except (KeyError, TypeError, ValueError, ZeroDivisionError):
            raise Unknown
    if h in ('tuple', 'list', 'set') and len(v) > 1 and isinstance(v[1], tuple):
        return [evaluate(x, env) for x in v[1]]
    c = concrete(v)
    if c is not None:
        return c[0]
    try:
        return _fold(v, h, env)
    except (IndexError, KeyError) as e:
        raise Missing(f'{type(e).__name__}: {e}')
    except (TypeError, ValueError, AttributeError, ZeroDivisionError):
        raise Unknown


STR_FOLD = {'lower', 'upper', 'casefold', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'split', 'rsplit', 'replace', 'isdigit', 'find', 'rfind', 'index', 'count', 'partition', 'rpartition',
            'join', 'title', 'zfill', 'removeprefix', 'removesuffix', 'splitlines', 'isalpha', 'isalnum'}
SEQ_FOLD = {'index', 'count', 'get', 'keys', 'values', 'items', 'copy', 'union', 'intersection', 'difference', 'issubset', 'issuperset'}
CALL_FOLD = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict, 'sorted': sorted, 'reversed': lambda x: list(reversed(x)), 'zip': lambda *a: list(zip(*a)),
             'enumerate': lambda *a: list(enumerate(*a)), 'range': lambda *a: list(range(*a)), 'sum': sum, 'any': any, 'all': all, 'round': round, 'divmod': divmod, 'ord': ord, 'chr': chr,
             'min': min, 'max': max, 'repr': repr, 'OrderedDict': dict, 'iter': list}


PATH_ATTRS = {'name', 'stem', 'suffix', 'parent', 'parts', 'suffixes', 'drive', 'anchor'}
PATH_FOLD = {'as_posix', 'with_suffix', 'with_name', 'with_stem', 'joinpath', 'is_absolute', 'relative_to'}
OS_PATH = ('attr', ('global', 'os'), 'path')
OS_FOLD = {'join', 'basename', 'dirname', 'splitext', 'split', 'normpath', 'isabs', 'commonpath'}


class Obj:
    """an object of a class of the project, with known attributes"""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def with_(self, name, value):
        return Obj(self.cls, **{**self.fields, name: value})

    def __eq__(self, other):
        return isinstance(other, Obj) and self.cls == other.cls and self.fields == other.fields

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return f"{self.cls}({', '.join(f'{k}={v!r}' for k, v in self.fields.items())})"


def _fold(v, h, env):
    if h == 'call' and v[1] in ('Path', 'PurePath', 'PurePosixPath', 'PureWindowsPath') and v[2]:
        return (pathlib.PureWindowsPath if v[1] == 'PureWindowsPath' else pathlib.PurePosixPath)(*[evaluate(x, env) for x in v[2]])
    if h == 'attr':
        b = evaluate(v[1], env)
        if isinstance(b, pathlib.PurePath) and v[2] in PATH_ATTRS:
            return getattr(b, v[2])
        if isinstance(b, Obj):
            if v[2] not in b.fields:
                raise Missing('AttributeError')
            return b.fields[v[2]]
        if isinstance(b, (int, float, complex)) and v[2] in ('real', 'imag'):
            return getattr(b, v[2])
        raise Unknown
    if h == 'mcall' and v[1] == OS_PATH and v[2] in OS_FOLD:
        return getattr(posixpath, v[2])(*[evaluate(x, env) for x in v[3]])
    if h == 'sub':
        b = evaluate(v[1], env)
        if v[2][0] == 'slice':
            return b[slice(*[evaluate(x, env) for x in v[2][1:]])]
        return b[evaluate(v[2], env)]
    if h == 'item' and isinstance(v[2], int):
        return evaluate(v[1], env)[v[2]]
    if h == 'ifexp':
        return evaluate(v[2] if evaluate(v[1], env) else v[3], env)
    if h == 'fstr':
        out = ''
        for x in v[1]:
            if x[0] == 'fmt':
                spec = ast.literal_eval(x[2].removeprefix('f')) if '{' not in x[2] else None
                if spec is None:
                    raise Unknown
                y = evaluate(x[1], env)
                out += format(float(y) if isinstance(y, Fraction) else y, spec)
                continue
            out += str(evaluate(x, env))
        return out
    if h == 'dict':
        return {evaluate(k, env): evaluate(x, env) for k, x in v[1]}
    if h == 'grown':
        if v[1] == 'dict':
            return {evaluate(k, env): evaluate(x, env) for k, x in v[2]}
        if v[1] == 'list':
            return [evaluate(x, env) for x in v[2]]
    if h == 'call' and v[1] in CALL_FOLD:
        kw = dict(v[3]) if len(v) > 3 else {}
        return CALL_FOLD[v[1]](*[evaluate(x, env) for x in v[2]], **{k: evaluate(x, env) for k, x in kw.items()})
    if h == 'call' and v[1] == 'isinstance' and len(v[2]) == 2:
        x = evaluate(v[2][0], env)
        names = [y[1] for y in ([v[2][1]] if v[2][1][0] not in ('tuple', 'list') else v[2][1][1])]
        known = {'str': str, 'int': int, 'float': float, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'complex': complex, 'bool': bool, 'bytes': bytes}
        if isinstance(x, pathlib.PurePath) and any(n in ('Path', 'PurePath', 'PathLike') for n in names):
            return True
        if isinstance(x, Obj):
            return x.cls in names
        hit = [known[n] for n in names if n in known]
        if isinstance(x, tuple(hit)):
            return True
        if len(hit) == len(names) or type(x) in (str, int, float, list, tuple, dict, type(None)) and all(n in known or str(n) in ('Path', 'np', 'ndarray', 'LTComplex', 'float_unit', 'ComponentDeviation', 'LogfileData') for n in names):
            return False
        raise Unknown
    if h == 'mcall':
        b = evaluate(v[1], env)
        a = [evaluate(x, env) for x in v[3]]
        if len(v) > 4 and v[4]:
            raise Unknown
        if isinstance(b, str) and v[2] in STR_FOLD:
            return getattr(b, v[2])(*[tuple(x) if isinstance(x, list) and v[2] in ('startswith', 'endswith') else x for x in a])
        if isinstance(b, pathlib.PurePath) and v[2] in PATH_FOLD:
            return getattr(b, v[2])(*a)
        if isinstance(b, pathlib.PurePath) and v[2] in ('absolute', 'resolve') and b.is_absolute() and not a:
            return b
        if isinstance(b, str) and not hasattr(b, v[2]):
            raise Missing('AttributeError')
        if isinstance(b, (list, tuple, dict, set)) and v[2] in SEQ_FOLD:
            r = getattr(b, v[2])(*a)
            return list(r) if v[2] in ('keys', 'values', 'items') else r
        raise Unknown
    if h == 'comp':
        out = []
        for e in _turns(v[3], env):
            out.append(tuple(evaluate(x, e) for x in v[2]))
        if v[1] == 'DictComp':
            return dict(out)
        out = [x[0] for x in out]
        return set(out) if v[1] == 'SetComp' else out
    raise Unknown


def _turns(gens, env):
    if not gens:
        yield env
        return
    src, ifs = gens[0]
    for e in bindings(src, env):
        if all(evaluate(i, e) for i in ifs):
            yield from _turns(gens[1:], e)


def bindings(src, env):
    """the environments of the turns of a loop over src"""
    if src[0] == 'mcall' and src[2] == 'values' and not src[3]:
        base = evaluate(src[1], env)
        if isinstance(base, dict):
            for k, x in base.items():
                yield {**env, ('key', src[1]): k, ('elem', src): x}
            return
    for x in list(evaluate(src, env)):
        e = dict(env)
        _bind(src, x, e, env)
        yield e


def _bind(src, x, e, env):
    h = src[0]
    if h == 'call' and src[1] == 'enumerate' and src[2]:
        first = evaluate(src[2][1], env) if len(src[2]) > 1 else evaluate(dict(src[3]).get('start', ('const', 0)), env) if len(src) > 3 else 0
        e[('idx', src[2][0])] = x[0] - first
        _bind(src[2][0], x[1], e, env)
    elif h == 'mcall' and src[2] in ('items', 'keys') and not src[3]:
        e[('key', src[1])] = x[0] if src[2] == 'items' else x
        e[('elem', src)] = x
        e[('elem', src[1])] = x[0] if src[2] == 'items' else x
    elif h == 'call' and src[1] == 'zip' and isinstance(x, tuple) and len(x) == len(src[2]):
        for s, y in zip(src[2], x):
            _bind(s, y, e, env)
        e[('elem', src)] = x
    elif h == 'call' and src[1] in ('list', 'tuple', 'sorted', 'reversed') and len(src[2]) == 1:
        e[('elem', src)] = x
        _bind(src[2][0], x, e, env)
    elif h == 'mcall' and src[2] == 'copy' or h == 'sub' and src[2][0] == 'slice' and src[2][1:] in ((NONE, NONE, NONE), (NONE, NONE, ('const', -1)), (NONE, NONE, ('neg', ('const', 1)))):
        e[('elem', src)] = x
        _bind(src[1], x, e, env)
    else:
        e[('elem', src)] = x


def possible(r, env, upto=None):
    """whether the path can be taken when the values in env are known: False, True, or None when a condition about them is not understood"""
    out = True
    for e in (r.events if upto is None else r.events[:upto]):
        if e.kind == 'assume':
            try:
                if bool(evaluate(e.lit, env)) != e.pol:
                    return False
            except Unknown:
                if any(contains(e.lit, k) for k in env):
                    out = None
    return out


def worlds(r, env):
    """the environments of the turns of the loops of a path; none if a loop that is skipped has elements"""
    out = [dict(env)]
    for e in r.events:
        if e.value is None or not isinstance(e.value, tuple) or e.kind not in ('iter', 'loop0'):
            continue
        nxt = []
        for w in out:
            try:
                turns = list(bindings(e.value, w))
            except Unknown:
                nxt.append(w)
                continue
            if e.kind == 'loop0':
                if not turns:
                    nxt.append(w)
            else:
                nxt.extend(turns)
        out = nxt[:200]
    return out


def answered(r, env, calls):
    """env with the results of the calls of a path to functions that are modelled: name -> function(receiver, arguments), which may
    raise Unknown; None if the path is not possible because one of them does not (or does) raise an exception there"""
    env = dict(env)
    for e in r.events:
        if e.kind == 'setitem' and e.path is not None and e.path[1] in env and isinstance(env[e.path[1]], (list, dict)):
            try:
                b = env[e.path[1]].copy()
                b[evaluate(e.path[2], env)] = evaluate(e.value, env)
                env[e.path[1]] = b
            except (Missing, IndexError):
                return None
            except Unknown:
                del env[e.path[1]]
            continue
        if e.kind != 'call' or e.name not in calls or e.n is None:
            continue
        try:
            recv = evaluate(e.recv, env) if e.recv is not None else None
        except Unknown:
            recv = Unknown
        try:
            got = calls[e.name](recv, [evaluate(a, env) for a in e.args], {k: evaluate(a, env) for k, a in e.kw or ()})
        except Unknown:
            continue
        except Exception:
            if not e.raised:
                return None
            continue
        if e.raised:
            return None
        env[('res', e.n, e.name)] = got
    return env


BREAKS = 'breaks'
LIST_CALLS = {'append', 'extend', 'clear', 'pop', 'insert', 'remove', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem', 'sort'}
CATCHES = {'KeyError': ('KeyError', 'LookupError', 'Exception', 'BaseException'), 'IndexError': ('IndexError', 'LookupError', 'Exception', 'BaseException'),
           'ValueError': ('ValueError', 'Exception', 'BaseException'), 'FileNotFoundError': ('FileNotFoundError', 'OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException')}


def store(env, path, value):
    """env[path] = value, in the containers and objects it is part of"""
    if ('alias', path) in env:
        store(env, env[('alias', path)], value)
    if path in env or path[0] not in ('sub', 'attr'):
        env[path] = value
        return
    try:
        b = evaluate(path[1], env)
    except Unknown:
        env[path] = value
        return
    if path[0] == 'attr' and isinstance(b, Obj):
        store(env, path[1], b.with_(path[2], value))
    elif path[0] == 'sub' and isinstance(b, (list, dict)):
        b = b.copy()
        b[evaluate(path[2], env)] = value
        store(env, path[1], b)
    else:
        env[path] = value


def step(e, env, calls):
    """the effect of an event on env; the name of the exception raised, None if nothing is raised; raises Unknown"""
    if e.kind in ('write', 'setitem') and e.path is not None:
        try:
            store(env, e.path, evaluate(e.value, env))
        except Missing:
            raise
        except Unknown:
            spoil(env, e.path)
    elif e.kind == 'aug':
        try:
            store(env, e.path, evaluate(('bin', e.op, e.path, e.value), env))
        except Missing:
            raise
        except Unknown:
            spoil(env, e.path)
    elif e.kind == 'del' and e.path is not None and e.path[0] == 'sub':
        try:
            b = evaluate(e.path[1], env)
            b = b.copy()
            del b[evaluate(e.path[2], env)]
            store(env, e.path[1], b)
        except (KeyError, IndexError):
            return 'KeyError'
        except (Unknown, AttributeError, TypeError):
            spoil(env, e.path[1])
    elif e.kind == 'call' and e.n is not None:
        recv = None
        if e.recv is not None:
            try:
                recv = evaluate(e.recv, env)
            except Unknown:
                recv = Unknown
        if e.name in LIST_CALLS and isinstance(recv, (list, dict, set)) and e.name not in calls:
            try:
                b = recv.copy()
                got = getattr(b, e.name)(*[evaluate(a, env) for a in e.args], **{k: evaluate(a, env) for k, a in e.kw or ()})
                store(env, e.recv, b)
                env[('res', e.n, e.name)] = got
                if e.name == 'setdefault':
                    env[('alias', ('res', e.n, e.name))] = ('sub', e.recv, ('const', evaluate(e.args[0], env)))
            except (KeyError, IndexError, ValueError) as x:
                return type(x).__name__
            except (Unknown, TypeError, AttributeError):
                spoil(env, e.recv)
            return None
        if e.name in calls:
            try:
                args, kw = [evaluate(a, env) for a in e.args], {k: evaluate(a, env) for k, a in e.kw or ()}
            except Missing:
                raise
            except Unknown:
                return None
            try:
                got = calls[e.name](recv, args, kw)
            except Unknown:
                return None
            except Exception as x:
                return type(x).__name__
            env[('res', e.n, e.name)] = env[('obj', e.n, e.name)] = got
    return None


def spoil(env, path):
    """nothing is known any more about path"""
    while path is not None:
        if path in env:
            del env[path]
        for k in [k for k in env if contains(k, path)]:
            del env[k]
        path = path[1] if path[0] in ('sub', 'attr') and path[1] != SELF else None


def stepped(ps, env, calls):
    """like simulated(), but what is written on the way is followed, into objects and containers; the environment of a result is the final one"""
    got = []
    for r in ps:
        for w in worlds(r, env):
            w = dict(w)
            sure, pending, broken = True, None, False
            for e in r.events:
                if e.kind == 'assume':
                    try:
                        if bool(evaluate(e.lit, w)) != e.pol:
                            break
                    except Missing:
                        got.append((r, w, BREAKS if sure else False))
                        break
                    except Unknown:
                        sure = False
                    continue
                if e.kind == 'except' and pending:
                    t = getattr(e.node, 'type', None)
                    names = [(dotted(x) or pending).rsplit('.', 1)[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])] if t is not None else [pending]
                    if not any(n in CATCHES.get(pending, (pending, 'Exception', 'BaseException')) for n in names):
                        break
                    pending = None
                    continue
                try:
                    x = step(e, w, calls)
                except Missing:
                    got.append((r, w, BREAKS if sure else False))
                    break
                if e.kind == 'call' and (x is not None) != bool(e.raised) and (x is not None or e.name in calls and ('res', e.n, e.name) in w):
                    if x is not None and not may_raise(r, e, ps):
                        got.append((r, w, BREAKS if sure else False))
                    break
                if x is not None:
                    pending = x
            else:
                got.append((r, w, sure))
    if any(s is True and not (r.outcome.kind == 'raise' and r.outcome.value == '*') for r, w, s in got):
        got = [g for g in got if not (g[0].outcome.kind == 'raise' and g[0].outcome.value == '*')]
    return got


def may_raise(r, e, ps):
    """there is a path on which this call raises an exception"""
    return any(x.raised and x.kind == 'call' and x.node is e.node for p in ps for x in p.events)


def simulated(ps, env, calls):
    """outcomes() with modelled calls; certain only if every condition is understood, BREAKS if a condition raises an exception"""
    got = []
    for r in ps:
        for w in worlds(r, env):
            w = answered(r, w, calls)
            if w is None:
                continue
            sure = True
            for e in r.events:
                if e.kind == 'assume':
                    try:
                        if bool(evaluate(e.lit, w)) != e.pol:
                            break
                    except Missing:
                        got.append((r, w, BREAKS if sure else False))
                        break
                    except Unknown:
                        sure = False
            else:
                got.append((r, w, sure))
    return got


def outcomes(ps, env, extra=None):
    """what a function can do for the given values: list of (path, environment, certain)"""
    got = []
    for r in ps:
        base = dict(env)
        if extra is not None:
            base.update(extra(r))
        for w in worlds(r, base):
            t = possible(r, w)
            if t is not False:
                got.append((r, w, t is True))
    return got
