"""Path-sensitive dataflow over inlined control flow.

Enumerates the acyclic control-flow paths of a function (loops: zero or one iteration), following calls to
project functions, with local names replaced by the access path / definition that reaches them (value numbering).
Each path is an ordered list of events (calls, attribute writes, assumptions, yields) plus an outcome.
Nothing of the analysed program is executed; opaque values stay symbolic and no constraint solving takes place:
a branch is pruned only when the very same canonical condition was already assumed the other way, or is a constant.
"""
from __future__ import annotations
import ast
import builtins
import re
import time
from .project import Project, Func, Cls, Module, AnalysisBroken, dotted, mentions, func_walk

PURE_FUNCS = {'len', 'isinstance', 'issubclass', 'str', 'int', 'float', 'bool', 'abs', 'min', 'max', 'list', 'tuple',
              'dict', 'set', 'frozenset', 'sorted', 'reversed', 'range', 'enumerate', 'zip', 'sum', 'any', 'all', 'round',
              'repr', 'ord', 'chr', 'type', 'hasattr', 'getattr', 'iter', 'callable', 'Path', 'id', 'hash', 'map',
              'filter', 'complex', 'format', 'OrderedDict', 'divmod', 'bytes'}
PURE_METHODS = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'split', 'rsplit', 'splitlines',
                'join', 'exists', 'is_alive', 'items', 'keys', 'values', 'get', 'index', 'count', 'find', 'rfind',
                'with_suffix', 'as_posix', 'absolute', 'resolve', 'is_file', 'is_dir', 'group', 'groups', 'span',
                'format', 'isdigit', 'copy', 'casefold', 'partition', 'rpartition', 'with_name', 'relative_to',
                'is_integer', 'isalpha', 'isalnum', 'title', 'zfill', 'is_relative_to', 'groupdict', 'start_', 'end'}
CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Is: 'is',
       ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
NONE = ('const', None)
TRUE = ('const', True)
FALSE = ('const', False)
SELF = ('self',)


class TooManyPaths(AnalysisBroken):
    pass


def const_items(v):
    """{key: value} of a dict value with constant strings as keys, or None"""
    if v[0] == 'call' and v[1] == 'dict' and not v[2]:
        its = [(('const', k), x) for k, x in (v[3] if len(v) > 3 else ())]
        if any(k[1] in (None, '**') for k, _ in its):
            return None
    elif v[0] == 'dict' and len(v) > 1 and isinstance(v[1], tuple):
        its = v[1]
    elif v[0] == 'grown' and v[1] == 'dict':
        its = v[2]
    else:
        return None
    if any(k[0] != 'const' or not isinstance(k[1], str) or k[1] == '**' for k, _ in its):
        return None
    return {k[1]: x for k, x in its}


def without(v, key):
    """the dict value without that key; None when it is not known"""
    its = const_items(v)
    if its is None or key[0] != 'const':
        return None
    return ('grown', 'dict', tuple((('const', k), x) for k, x in its.items() if k != key[1]))


class Ev:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'value', 'path', 'lit', 'pol', 'node', 'fn', 'n', 'raised', 'op', 'start')

    def __init__(self, kind, node, fn, **k):
        self.kind, self.node, self.fn = kind, node, fn
        for a in ('name', 'recv', 'args', 'kw', 'value', 'path', 'lit', 'pol', 'n', 'op'):
            setattr(self, a, k.get(a))
        self.raised = k.get('raised', False)
        self.start = k.get('start')  # of 'iter' and 'loopend': the values the names changed by the loop have when it is entered or left

    def key(self):
        return (self.kind, self.name, self.recv, self.args, self.kw, self.value, self.path, self.lit, self.pol, self.raised, self.op)

    def __repr__(self):
        if self.kind == 'assume':
            return f"[{'' if self.pol else 'not '}{show(self.lit)}]"
        if self.kind == 'call':
            return (f"{show(self.recv) + '.' if self.recv is not None else ''}{self.name}("
                    + ', '.join([show(a) for a in self.args] + [f'{k}={show(v)}' for k, v in self.kw]) + ')'
                    + ('!raised' if self.raised else ''))
        if self.kind == 'write':
            return f"{show(self.path)} = {show(self.value)}"
        if self.kind == 'aug':
            return f"{show(self.path)} {self.op}= {show(self.value)}"
        if self.kind == 'setitem':
            return f"{show(self.path)} := {show(self.value)}"
        if self.kind == 'del':
            return f"del {show(self.path)}"
        return f"<{self.kind} {show(self.value) if self.value else self.name or ''}>"

    def arg(self, i, name=None):
        for k, v in self.kw or ():
            if k == name and name is not None:
                return v
        if i is not None and self.args is not None and i < len(self.args):
            return self.args[i]
        return None

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)


class Abrupt:
    """Outcome other than falling through."""
    __slots__ = ('kind', 'value', 'node')

    def __init__(self, kind, value=None, node=None):
        self.kind, self.value, self.node = kind, value, node

    def __repr__(self):
        return f"<{self.kind} {show(self.value) if isinstance(self.value, tuple) else self.value}>"


def show(v):
    if v is None:
        return '?'
    if not isinstance(v, tuple):
        return str(v)
    k = v[0] if v else ''
    try:
        if k == 'const':
            return repr(v[1])
        if k == 'self':
            return 'self'
        if k in ('param', 'global', 'local', 'phi'):
            return str(v[1])
        if k == 'attr':
            return f"{show(v[1])}.{v[2]}"
        if k == 'sub':
            return f"{show(v[1])}[{show(v[2])}]"
        if k == 'res':
            return f"<{v[2]}#{v[1]}>"
        if k == 'obj':
            return f"<new {v[2]}#{v[1]}>"
        if k == 'elem':
            return f"each({show(v[1])})"
        if k == 'call':
            return f"{v[1]}({', '.join(map(show, v[2]))})"
        if k == 'mcall':
            return f"{show(v[1])}.{v[2]}({', '.join(map(show, v[3]))})"
        if k == 'cmp':
            return f"{show(v[2])} {v[1]} {show(v[3])}"
        if k == 'not':
            return f"not {show(v[1])}"
        if k == 'truthy':
            return show(v[1])
        if k == 'isnone':
            return f"{show(v[1])} is None"
        if k == 'bin':
            return f"({show(v[2])} {v[1]} {show(v[3])})"
        if k == 'fstr':
            return 'f"' + ''.join(x[1] if x[0] == 'const' and isinstance(x[1], str) else '{' + show(x) + '}' for x in v[1]) + '"'
        return f"{k}({', '.join(show(x) if isinstance(x, tuple) else str(x) for x in v[1:])})"
    except Exception:
        return str(v)


def contains(v, p):
    if v == p:
        return True
    if isinstance(v, tuple):
        return any(contains(x, p) for x in v)
    return False


def replace(v, p, r):
    if v == p:
        return r
    if isinstance(v, tuple):
        n = tuple(replace(x, p, r) if isinstance(x, tuple) else x for x in v)
        return n if n != v else v
    return v


def subvalues(v):
    if isinstance(v, tuple) and v:
        yield v
        for x in v:
            if isinstance(x, tuple):
                yield from subvalues(x)


LISTLIKE = {'append', 'extend', 'insert', 'add', 'appendleft', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update'}


def item_of(v, i):
    """the i-th item of a sequence value"""
    if v[0] in ('list', 'tuple') and len(v) > 1 and isinstance(v[1], tuple) and i < len(v[1]) and not any(x[0] == 'star' for x in v[1][:i + 1]):
        return v[1][i]
    if v[0] == 'sub' and v[2][0] == 'slice' and v[2][1][0] == 'const' and (v[2][1][1] is None or isinstance(v[2][1][1], int) and v[2][1][1] >= 0) and v[2][3] in (NONE, ('const', 1)):
        return item_of(v[1], i + (v[2][1][1] or 0))
    if v[0] == 'comp' and v[1] in ('ListComp', 'GeneratorExp') and len(v[2]) == 1 and len(v[3]) == 1 and not v[3][0][1]:
        it = v[3][0][0]
        return substitute(v[2][0], ('elem', it), item_of(it, i))
    if v[0] == 'call' and v[1] in ('list', 'tuple') and len(v[2]) == 1:
        return item_of(v[2][0], i)
    if v[0] == 'call' and v[1] == 'map' and len(v[2]) == 2 and v[2][0][0] in ('global', 'builtin', 'class', 'name') and isinstance(v[2][0][1], str):
        return ('call', v[2][0][1], (item_of(v[2][1], i),))
    return ('item', v, i)


def substitute(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(substitute(x, a, b) for x in v)
    return v


def list_items(v):
    """items of a list value built locally (unknown parts as ('star', v)), or None"""
    if v[0] in ('list', 'tuple', 'set') and len(v) > 1:
        return v[1]
    if v[0] == 'grown' and v[1] == 'list':
        return v[2]
    if v[0] == 'call' and v[1] in ('list', 'tuple') and len(v[2]) == 1:
        sub = list_items(v[2][0])
        return sub if sub is not None else (('star', v[2][0]),)
    if v[0] == 'mcall' and v[2] == 'copy' and not v[3]:
        return (('star', v[1]),)
    if v[0] == 'bin' and v[1] == '+':
        a, b = list_items(v[2]), list_items(v[3])
        if a is not None or b is not None:
            return (a if a is not None else (('star', v[2]),)) + (b if b is not None else (('star', v[3]),))
    return None


def mk_not(v):
    if v[0] == 'not':
        return v[1]
    if v == TRUE:
        return FALSE
    if v == FALSE:
        return TRUE
    return ('not', v)


def mk_cmp(op, a, b):
    if op == 'ne':
        return mk_not(mk_cmp('eq', a, b))
    if op == 'isnot':
        return mk_not(mk_cmp('is', a, b))
    if op == 'notin':
        return mk_not(mk_cmp('in', a, b))
    if op == 'gt':
        return mk_cmp('lt', b, a)
    if op == 'ge':
        return mk_not(mk_cmp('lt', a, b))
    if op == 'le':
        return mk_not(mk_cmp('lt', b, a))
    if op in ('is', 'eq'):
        if a[0] == 'const' and b[0] != 'const':
            a, b = b, a
        if b[0] == 'const' and b[1] is None and a[0] != 'const':
            return ('isnone', a)
        if b[0] == 'const' and b[1] is True and a[0] != 'const':
            return ('truthy', a)
        if b[0] == 'const' and a[0] != 'const' and (b[1] is False or (op == 'eq' and type(b[1]) is int and b[1] == 0)):
            # numeric zero and False are the same test for the integers these conditions are about
            return ('not', ('truthy', a[2][0] if a[0] == 'call' and a[1] == 'len' else a))
        if a[0] == 'const' and b[0] == 'const':
            return ('const', (a[1] is b[1] or (a[1] == b[1] and type(a[1]) is type(b[1]))) if op == 'is' else a[1] == b[1])
        if op == 'eq' and b in (('const', ''), ('list', ()), ('dict', ()), ('tuple', ())):
            return ('cmp', 'eq', a, b)
        if a == b:
            return TRUE
        if repr(a) > repr(b) and b[0] != 'const':
            a, b = b, a
        return ('cmp', 'eq', a, b)
    if op == 'lt':
        if a[0] == 'const' and b[0] == 'const':
            try:
                return ('const', a[1] < b[1])
            except TypeError:
                pass
        if a == ('const', 0) and b[0] == 'call' and b[1] == 'len':
            return ('truthy', b[2][0])
        if b == ('const', 1) and a[0] == 'call' and a[1] == 'len':
            return ('not', ('truthy', a[2][0]))
        return ('cmp', 'lt', a, b)
    if op == 'in' and b[0] in ('list', 'tuple', 'set') and len(b) > 1:
        if all(x[0] == 'const' for x in b[1]) and a[0] == 'const':
            return ('const', any(x[1] == a[1] for x in b[1]))
        if len(b[1]) == 1:
            return mk_cmp('eq', a, b[1][0])
        return ('cmp', 'in', a, ('tuple', tuple(sorted(b[1], key=repr))))
    return ('cmp', op, a, b)


class St:
    __slots__ = ('env', 'heap', 'facts', 'trace', 'cnt')

    def __init__(self, env=None, heap=None, facts=None, trace=(), cnt=0):
        self.env, self.heap, self.facts, self.trace, self.cnt = env or {}, heap or {}, facts or {}, trace, cnt

    def copy(self):
        return St(dict(self.env), dict(self.heap), dict(self.facts), self.trace, self.cnt)


class PathResult:
    def __init__(self, events, outcome, st):
        self.events, self.outcome, self.st = events, outcome, st

    def __repr__(self):
        return ' ; '.join(map(repr, self.events)) + f"  => {self.outcome}"

    def calls(self, name):
        return [e for e in self.events if e.kind == 'call' and e.name == name]


class Walker:
    def __init__(self, project: Project, ctx: Cls | None = None, *, interest: set[str] | None = None, opaque=(),
                 max_depth=6, max_paths=40000, unroll=1, implicit_raise=True, inline_typed=True, raise_everywhere=False,
                 types=None, pure=(), no_raise=(), inline_funcs=True, infer=False,
                 max_time=120, nonnull=(), side_loops=False, any_iteration=False, ages=()):
        # ages: attributes whose values held in names are marked as old after an opaque method of the object was called
        # any_iteration: loops are entered in an arbitrary state of the local names they change
        self.any_iteration, self.phi_inits = any_iteration, {}
        self.ages = tuple(ages)
        self.infer = infer
        # side_loops: the iterations of for-loops are recorded in loop_traces instead of multiplying the paths
        self.side_loops, self.loop_traces = side_loops, []
        self.p, self.ctx = project, ctx
        self.interest = set(interest) if interest is not None else None
        self.opaque = set(opaque)
        self.max_depth, self.max_paths, self.unroll = max_depth, max_paths, unroll
        self.implicit_raise, self.raise_everywhere = implicit_raise, raise_everywhere
        self.inline_typed = inline_typed
        self.inline_funcs = inline_funcs
        self.pure = set(pure)
        self.nonnull = set(nonnull)
        self.no_raise = set(no_raise)
        self.vtypes: dict = dict(types or {})
        if ctx is not None:
            self.vtypes[SELF] = ctx
        self.frames: list = []
        self.try_depth = 0
        self.funcs: dict = {}
        self.relevant_cache: dict = {}
        self.func_rel_cache: dict = {}
        self.stats = {'paths': 0, 'inlined': set()}
        self.match_cache = {}
        self.deadline = time.monotonic() + max_time

    # ------------------------------------------------------------ entry
    def run(self, func: Func, bind: dict | None = None) -> list[PathResult]:
        st = St()
        mod, cls = func.module, func.cls
        names = func.arg_names()
        env = {}
        a = func.node.args
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and not func.is_static:
                env[n] = SELF if not func.is_classmethod else ('cls',)
                if func.is_classmethod and self.ctx is not None:
                    self.vtypes[('cls',)] = self.ctx
            else:
                env[n] = ('param', n)
        for x in a.kwonlyargs:
            env[x.arg] = ('param', x.arg)
        if a.vararg:
            env[a.vararg.arg] = ('param', '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('param', '**' + a.kwarg.arg)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                c = self._ann_class(mod, x.annotation)
                if c is not None and env.get(x.arg, ('',))[0] == 'param':
                    self.vtypes.setdefault(env[x.arg], c)
        if bind:
            env.update(bind)
        st.env = env
        out = []
        self.frames = [(func, None)]
        for s, o in self.block(func.node.body, st):
            if o is None:
                o = Abrupt('return', NONE, func.node)
            out.append(PathResult(list(s.trace), o, s))
            if len(out) > self.max_paths:
                raise TooManyPaths(f"too many paths in {func.qual}")
        self.stats['paths'] += len(out)
        # dedupe
        seen, res = set(), []
        for r in out:
            k = (tuple(e.key() for e in r.events), r.outcome.kind, repr(r.outcome.value))
            if k not in seen:
                seen.add(k)
                res.append(r)
        return res

    def _ann_class(self, mod, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp):
            cands = [self._ann_class(mod, ann.left), self._ann_class(mod, ann.right)]
            cands = [c for c in cands if c]
            return cands[0] if len(cands) == 1 else None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            return self.p.resolve_class(mod, dotted(ann))
        return None

    # ------------------------------------------------------------ relevance
    @property
    def fn(self) -> Func:
        return self.frames[-1][0]

    def rel(self, node) -> bool:
        if self.interest is None:
            return True
        k = id(node)
        if k in self.relevant_cache:
            return self.relevant_cache[k]
        self.relevant_cache[k] = True  # recursion guard
        r = self._rel(node)
        self.relevant_cache[k] = r
        return r

    def _rel(self, node):
        for n in [node] + list(func_walk(node)):
            if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, ast.Name) and n.id in self.interest:
                return True
            if isinstance(n, ast.Attribute) and n.attr in self.interest:
                return True
            if isinstance(n, ast.keyword) and n.arg in self.interest:
                return True
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in self.interest:
                return True
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm and nm in self.rel_names():
                    return True
        return False

    def rel_names(self):
        """names of project functions that (transitively, by name) touch an interesting identifier"""
        if not hasattr(self, '_relnames'):
            fs = {}
            for f in self.p.all_funcs():
                fs.setdefault(f.name, []).append(f)
            # local functions too
            rel = set()
            calls = {}
            for name, lst in fs.items():
                cs = set()
                for f in lst:
                    if mentions_ids(f.node, self.interest):
                        rel.add(name)
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Call):
                            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                            if nm:
                                cs.add(nm)
                calls[name] = cs
            changed = True
            while changed:
                changed = False
                for name, cs in calls.items():
                    if name not in rel and cs & rel:
                        rel.add(name)
                        changed = True
            self._relnames = rel
        return self._relnames

    # ------------------------------------------------------------ events / facts
    def emit(self, st: St, kind, node, **k) -> Ev:
        ev = Ev(kind, node, self.fn.qual, n=st.cnt, **k)
        st.cnt += 1
        st.trace = st.trace + (ev,)
        return ev

    def invalidate(self, st: St, path, strict=False):
        for f in list(st.facts):
            if contains(f, path):
                del st.facts[f]
        for h in list(st.heap):
            if contains(h, path) and h != path:
                del st.heap[h]

    def write(self, st: St, path, value, node, kind='write', **k):
        self.emit(st, kind, node, path=path, value=value, **k)
        self.invalidate(st, path)
        old = ('old', path, st.cnt)
        for n, v in list(st.env.items()):
            if isinstance(v, tuple) and contains(v, path):
                st.env[n] = replace(v, path, old)
        st.heap[path] = replace(value, path, old) if isinstance(value, tuple) else value

    def decide(self, st: St, lit):
        """True / False / None"""
        if lit[0] == 'const':
            return bool(lit[1])
        if lit in st.facts:
            return st.facts[lit]
        if lit[0] == 'truthy':
            v = lit[1]
            if v[0] == 'const':
                return bool(v[1])
            if v[0] in ('list', 'tuple', 'dict', 'set') and len(v) > 1 and isinstance(v[1], tuple):
                return bool(v[1]) if v[0] != 'tuple' or True else None
            if v[0] in ('obj', 'func', 'class', 'grown'):
                return True
            if v[0] == 'bin' and v[1] == '%' and v[2][0] == 'const' and isinstance(v[2][1], str) \
                    and re.sub(r'%[-+ #0-9.]*[a-zA-Z]', '', v[2][1]):
                return True
            if v[0] == 'bin' and v[1] == '+' and any(x[0] == 'const' and isinstance(x[1], str) and x[1] for x in v[2:4]):
                return True
            if v[0] == 'call' and v[1] == 'Path':
                return True
            if v[0] == 'fstr' and any(x[0] == 'const' and x[1] for x in v[1]):
                return True
            if v[0] == 'call' and v[1] == 'isinstance' and len(v[2]) == 2 and v[2][0] == SELF and self.ctx is not None \
                    and v[2][1][0] in ('global', 'class') and isinstance(v[2][1][1], str):
                if any(k.name == v[2][1][1] for k in self.p.mro(self.ctx)):
                    return True
            if st.facts.get(('isnone', v)) is True:
                return False
            for f, val in st.facts.items():
                if val and f[0] == 'cmp' and f[1] == 'eq' and f[2] == v and f[3][0] == 'const':
                    return bool(f[3][1])
        if lit[0] == 'isnone':
            v = lit[1]
            if v[0] == 'const':
                return v[1] is None
            if v[0] in ('list', 'tuple', 'dict', 'set', 'obj', 'fstr', 'bin', 'func', 'self', 'comp', 'cmp', 'not', 'class', 'grown'):
                return False
            if v[0] == 'res' and v[2] in self.nonnull:
                return False
            if v[0] == 'call' and v[1] in PURE_FUNCS and v[1] not in ('getattr', 'max', 'min'):
                return False
            if v[0] == 'mcall' and v[2] in ('upper', 'lower', 'strip', 'split', 'with_suffix', 'as_posix', 'absolute', 'join'):
                return False
            if st.facts.get(('truthy', v)) is True:
                return False
            for f, val in st.facts.items():
                if val and f[0] == 'cmp' and f[1] == 'eq' and v in (f[2], f[3]):
                    return False
                if val and f[0] == 'call' and f[1] == 'isinstance' and f[2] and f[2][0] == v:
                    return False
                if val and f[0] == 'truthy' and f[1][0] == 'call' and f[1][1] == 'isinstance' and f[1][2][0] == v:
                    return False
        if lit[0] == 'cmp' and lit[1] == 'eq':
            a, b = lit[2], lit[3]
            for f, val in st.facts.items():
                if val and f[0] == 'cmp' and f[1] == 'eq' and self.distinct(f, lit):
                    return False
                if val and f[0] == 'isnone' and f[1] in (a, b) and (b[0] == 'const' or self.is_enum_member(b)):
                    return False
            if self.is_enum_member(a) and self.is_enum_member(b) and a != b:
                return False
        if lit[0] == 'cmp' and lit[1] == 'in':
            if lit[3][0] in ('list', 'tuple', 'set') and lit[3] == (lit[3][0], ()):
                return False
        return None

    def is_enum_member(self, v):
        if v[0] == 'attr' and v[1][0] == 'global' and v[1][1] in self.p.class_index:
            return self.p.is_enum(self.p.class_index[v[1][1]][0])
        return False

    def distinct(self, f, lit):
        """x==A known and asked x==B with A, B distinct constants / enum members"""
        for x, a in ((f[2], f[3]), (f[3], f[2])):
            for y, b in ((lit[2], lit[3]), (lit[3], lit[2])):
                if x == y and a != b:
                    if a[0] == 'const' and b[0] == 'const':
                        return True
                    if self.is_enum_member(a) and self.is_enum_member(b):
                        return True
        return False

    def cond_value(self, st: St, v, node, record=True):
        """fork on the truth of value v -> yields (st, bool)"""
        pol = True
        while v[0] == 'not':
            v, pol = v[1], not pol
        if v[0] in ('or', 'and'):
            yield from self._bool_vals(st, list(v[1]), v[0], pol, node, record)
            return
        if v[0] == 'ifexp':
            for s, b in self.cond_value(st, v[1], node, record):
                for s2, b2 in self.cond_value(s, v[2] if b else v[3], node, record):
                    yield s2, (b2 if pol else not b2)
            return
        if v[0] == 'call' and v[1] == 'bool' and len(v[2]) == 1:
            for s, b in self.cond_value(st, v[2][0], node, record):
                yield s, (b if pol else not b)
            return
        if v[0] == 'call' and v[1] == 'len' and len(v[2]) == 1:
            v = v[2][0]
        lit = v if v[0] in ('cmp', 'isnone', 'truthy', 'const') else ('truthy', v)
        d = self.decide(st, lit)
        if d is not None:
            yield st, (d if pol else not d)
            return
        for b in (True, False):
            s = st.copy()
            s.facts[lit] = b
            if record:
                self.emit(s, 'assume', node, lit=lit, pol=b)
            yield s, (b if pol else not b)

    def _bool_vals(self, st, vals, op, pol, node, record):
        if len(vals) == 1:
            for s, b in self.cond_value(st, vals[0], node, record):
                yield s, (b if pol else not b)
            return
        for s, b in self.cond_value(st, vals[0], node, record):
            if (op == 'or' and b) or (op == 'and' and not b):
                yield s, (b if pol else not b)
            else:
                yield from self._bool_vals(s, vals[1:], op, pol, node, record)

    # ------------------------------------------------------------ conditions (AST)
    def cond(self, e, st: St, record=True):
        """yields (st, bool | Abrupt)"""
        if isinstance(e, ast.BoolOp):
            op = 'or' if isinstance(e.op, ast.Or) else 'and'

            def rec(vals, s):
                for s1, b in self.cond(vals[0], s, record):
                    if isinstance(b, Abrupt):
                        yield s1, b
                    elif len(vals) == 1 or (op == 'or' and b) or (op == 'and' and not b):
                        yield s1, b
                    else:
                        yield from rec(vals[1:], s1)
            yield from rec(e.values, st)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            for s, b in self.cond(e.operand, st, record):
                yield s, (b if isinstance(b, Abrupt) else not b)
            return
        if isinstance(e, ast.IfExp):
            for s, b in self.cond(e.test, st, record):
                if isinstance(b, Abrupt):
                    yield s, b
                else:
                    yield from self.cond(e.body if b else e.orelse, s, record)
            return
        for s, v in self.ev(e, st):
            if isinstance(v, Abrupt):
                yield s, v
            else:
                yield from self.cond_value(s, v, e, record)

    # ------------------------------------------------------------ expressions
    def evs(self, exprs, st: St):
        """evaluate a list of expressions left to right: yields (st, [values] | Abrupt)"""
        if not exprs:
            yield st, []
            return
        for s, v in self.ev(exprs[0], st):
            if isinstance(v, Abrupt):
                yield s, v
                continue
            for s2, rest in self.evs(exprs[1:], s):
                if isinstance(rest, Abrupt):
                    yield s2, rest
                else:
                    yield s2, [v] + rest

    def read(self, st: St, path):
        if path in st.heap:
            v = st.heap[path]
            if v[0] == 'const' or v[0] in ('list', 'dict', 'obj') and False:
                return v
        return path

    def name(self, st: St, n: str):
        if n in st.env:
            return st.env[n]
        fr = self.frames[-1][1]
        while fr is not None:
            if n in fr[0]:
                return fr[0][n]
            fr = fr[1]
        mod = self.fn.module
        if n in mod.consts and mod.const_counts.get(n) == 1 and isinstance(mod.consts[n], ast.Constant):
            return ('const', mod.consts[n].value)
        if n in mod.consts:
            return ('global', n)
        if n in ('True', 'False', 'None'):
            return ('const', {'True': True, 'False': False, 'None': None}[n])
        org = mod.imports.get(n)
        if org:
            mname, _, c = org.rpartition('.')
            m = self.p.modules.get(mname)
            if m and c in m.consts and m.const_counts.get(c) == 1 and isinstance(m.consts[c], ast.Constant):
                return ('const', m.consts[c].value)
            return ('global', c or org)
        return ('global', n)

    def ev(self, e, st: St):
        """yields (st, value | Abrupt)"""
        t = type(e)
        if t is ast.Constant:
            yield st, ('const', e.value)
        elif t is ast.Name:
            yield st, self.name(st, e.id)
        elif t is ast.Attribute:
            for s, b in self.ev(e.value, st):
                if isinstance(b, Abrupt):
                    yield s, b
                    continue
                yield from self.attr(s, b, e.attr, e)
        elif t is ast.Subscript:
            for s, vs in self.evs([e.value, e.slice], st):
                if isinstance(vs, Abrupt):
                    yield s, vs
                    continue
                b, i = vs
                if b[0] in ('tuple', 'list') and i[0] == 'const' and isinstance(i[1], int) and len(b) > 1 \
                        and -len(b[1]) <= i[1] < len(b[1]):
                    yield s, b[1][i[1]]
                else:
                    yield s, self.read(s, ('sub', b, i))
        elif t is ast.Slice:
            for s, vs in self.evs([x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)], st):
                yield s, (vs if isinstance(vs, Abrupt) else ('slice',) + tuple(vs))
        elif t in (ast.Tuple, ast.List, ast.Set):
            k = {ast.Tuple: 'tuple', ast.List: 'list', ast.Set: 'set'}[t]
            for s, vs in self.evs(e.elts, st):
                yield s, (vs if isinstance(vs, Abrupt) else (k, tuple(vs)))
        elif t is ast.Dict:
            ks = [k if k is not None else ast.Constant('**') for k in e.keys]
            for s, vs in self.evs(ks + e.values, st):
                if isinstance(vs, Abrupt):
                    yield s, vs
                else:
                    n = len(ks)
                    yield s, ('dict', tuple(zip(vs[:n], vs[n:])))
        elif t is ast.Starred:
            for s, v in self.ev(e.value, st):
                yield s, (v if isinstance(v, Abrupt) else ('star', v))
        elif t is ast.BinOp:
            for s, vs in self.evs([e.left, e.right], st):
                if isinstance(vs, Abrupt):
                    yield s, vs
                    continue
                yield s, self.binop(OPS.get(type(e.op), '?'), vs[0], vs[1])
        elif t is ast.UnaryOp:
            for s, v in self.ev(e.operand, st):
                if isinstance(v, Abrupt):
                    yield s, v
                elif isinstance(e.op, ast.Not):
                    yield s, mk_not(v if v[0] in ('cmp', 'isnone', 'truthy', 'const', 'not') else ('truthy', v))
                elif isinstance(e.op, ast.USub):
                    yield s, (('const', -v[1]) if v[0] == 'const' and isinstance(v[1], (int, float)) else ('neg', v))
                else:
                    yield s, ('unary', type(e.op).__name__, v)
        elif t is ast.Compare:
            if len(e.ops) == 1:
                for s, vs in self.evs([e.left, e.comparators[0]], st):
                    yield s, (vs if isinstance(vs, Abrupt) else mk_cmp(CMP[type(e.ops[0])], vs[0], vs[1]))
            else:
                for s, vs in self.evs([e.left] + e.comparators, st):
                    if isinstance(vs, Abrupt):
                        yield s, vs
                    else:
                        yield s, ('and', tuple(mk_cmp(CMP[type(o)], vs[i], vs[i + 1]) for i, o in enumerate(e.ops)))
        elif t is ast.BoolOp:
            op = 'or' if isinstance(e.op, ast.Or) else 'and'
            if any(isinstance(n, (ast.Call, ast.NamedExpr)) and not self._pure_call(n) for v in e.values[1:] for n in ast.walk(v)):
                # later operands have effects: fork
                def rec(vals, s):
                    for s1, v in self.ev(vals[0], s):
                        if isinstance(v, Abrupt) or len(vals) == 1:
                            yield s1, v
                            continue
                        for s2, b in self.cond_value(s1, v, e):
                            if (op == 'or') == b:
                                yield s2, v
                            else:
                                yield from rec(vals[1:], s2)
                yield from rec(e.values, st)
            else:
                for s, vs in self.evs(e.values, st):
                    if isinstance(vs, Abrupt):
                        yield s, vs
                        continue
                    flat = []
                    for v in vs:
                        flat.extend(v[1] if v[0] == op else [v])
                    yield s, (op, tuple(flat))
        elif t is ast.IfExp:
            if self.rel(e) or any(isinstance(n, ast.Call) and not self._pure_call(n) for n in ast.walk(e)):
                for s, b in self.cond(e.test, st):
                    if isinstance(b, Abrupt):
                        yield s, b
                    else:
                        yield from self.ev(e.body if b else e.orelse, s)
            else:
                for s, vs in self.evs([e.test, e.body, e.orelse], st):
                    yield s, (vs if isinstance(vs, Abrupt) else ('ifexp',) + tuple(vs))
        elif t is ast.JoinedStr:
            parts = []
            exprs = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
            for s, vs in self.evs(exprs, st):
                if isinstance(vs, Abrupt):
                    yield s, vs
                    continue
                it = iter(vs)
                out = []
                for v in e.values:
                    if isinstance(v, ast.Constant):
                        out.append(('const', v.value))
                    else:
                        x = next(it)
                        if v.format_spec is not None:
                            x = ('fmt', x, ast.unparse(v.format_spec))
                        out.append(x)
                merged = []
                for x in out:
                    if x[0] == 'const' and isinstance(x[1], str) and merged and merged[-1][0] == 'const' and isinstance(merged[-1][1], str):
                        merged[-1] = ('const', merged[-1][1] + x[1])
                    else:
                        merged.append(x)
                yield s, ('fstr', tuple(merged))
        elif t is ast.NamedExpr:
            for s, v in self.ev(e.value, st):
                if not isinstance(v, Abrupt):
                    s = s.copy()
                    s.env[e.target.id] = v
                yield s, v
        elif t is ast.Lambda:
            k = ('func', e.lineno, e.col_offset, self.fn.qual)
            self.funcs[k] = (e, dict(st.env), self.frames[-1])
            yield st, k
        elif t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            yield from self.comp(e, st)
        elif t is ast.Call:
            yield from self.call(e, st)
        elif t in (ast.Yield, ast.YieldFrom):
            if e.value is None:
                s = st.copy()
                self.emit(s, 'yield', e, value=NONE)
                yield s, ('yielded',)
            else:
                for s, v in self.ev(e.value, st):
                    if isinstance(v, Abrupt):
                        yield s, v
                        continue
                    s = s.copy()
                    self.emit(s, 'yield', e, value=v)
                    yield s, ('yielded',)
        elif t is ast.Await:
            yield from self.ev(e.value, st)
        elif t is ast.FormattedValue:
            yield from self.ev(e.value, st)
        else:
            yield st, ('unknown', t.__name__, getattr(e, 'lineno', 0))

    def _pure_call(self, n):
        if isinstance(n, ast.NamedExpr):
            return False
        f = n.func
        if isinstance(f, ast.Name):
            return f.id in PURE_FUNCS or f.id in self.pure
        if isinstance(f, ast.Attribute):
            if f.attr == 'join' and not isinstance(f.value, (ast.Constant, ast.JoinedStr)):
                return False
            return f.attr in PURE_METHODS or f.attr in self.pure
        return False

    def binop(self, op, a, b):
        if a[0] == 'const' and b[0] == 'const':
            try:
                if op == '+':
                    return ('const', a[1] + b[1])
                if op == '-':
                    return ('const', a[1] - b[1])
                if op == '*' and not isinstance(a[1], str) and not isinstance(b[1], str):
                    return ('const', a[1] * b[1])
            except Exception:
                pass
        return ('bin', op, a, b)

    def attr(self, st: St, b, name, node):
        if b[0] == 'class':
            b = ('global', b[1])
        c = self.type_of(b)
        if c is not None and name not in self.opaque:
            f = self.p.lookup(c, name)
            if f is not None and f.is_property:
                body = f.body_nodoc()
                if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and len(self.frames) < self.max_depth \
                        and not any(isinstance(n, ast.Call) for n in ast.walk(body[0].value)):
                    sub = st.copy()
                    saved = sub.env
                    sub.env = {f.arg_names()[0]: b}
                    self.frames.append((f, None))
                    try:
                        res = list(self.ev(body[0].value, sub))
                    finally:
                        self.frames.pop()
                    for s, v in res:
                        s.env = dict(saved)
                        yield s, v
                    return
        yield st, self.read(st, ('attr', b, name))

    def type_of(self, v):
        if v in self.vtypes:
            return self.vtypes[v]
        if v[0] == 'obj':
            cs = self.p.class_index.get(v[2])
            return cs[0] if cs else None
        if v[0] == 'old':
            return self.type_of(v[1])
        if self.infer:
            if v[0] == 'attr':
                c = self.type_of(v[1])
                if c is not None:
                    return self.p.attr_type(c, v[2])[0]
            elif v[0] in ('elem', 'sub') and v[1][0] == 'attr' and (v[0] == 'elem' or v[2][0] != 'slice'):
                c = self.type_of(v[1][1])
                if c is not None:
                    return self.p.attr_type(c, v[1][2])[1]
        return None

    def comp(self, e, st: St):
        kind = type(e).__name__
        s0 = st.copy()
        saved = dict(s0.env)

        def gens(i, s):
            if i == len(e.generators):
                elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
                for s2, vs in self.evs(elts, s):
                    yield s2, (vs if isinstance(vs, Abrupt) else (vs, []))
                return
            g = e.generators[i]
            for s1, it in self.ev(g.iter, s):
                if isinstance(it, Abrupt):
                    yield s1, it
                    continue
                s1 = s1.copy()
                self.bind_elem(s1, g.target, it)
                for s2, cs in self.evs(g.ifs, s1):
                    if isinstance(cs, Abrupt):
                        yield s2, cs
                        continue
                    for s3, r in gens(i + 1, s2):
                        if isinstance(r, Abrupt):
                            yield s3, r
                        else:
                            yield s3, (r[0], [(it, tuple(cs))] + r[1])
        for s, r in gens(0, s0):
            if isinstance(r, Abrupt):
                yield s, r
                continue
            s.env = dict(saved)
            yield s, ('comp', kind, tuple(r[0]), tuple(r[1]))

    # ------------------------------------------------------------ calls
    def call(self, e: ast.Call, st: St):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            yield st, ('super',)
            return
        argx = list(e.args) + [k.value for k in e.keywords]
        recv_states = []
        if isinstance(e.func, ast.Attribute):
            for s, b in self.ev(e.func.value, st):
                if isinstance(b, Abrupt):
                    yield s, b
                else:
                    recv_states.append((s, b))
        else:
            for s, b in self.ev(e.func, st):
                if isinstance(b, Abrupt):
                    yield s, b
                else:
                    recv_states.append((s, b))
        for s, b in recv_states:
            for s2, vs in self.evs(argx, s):
                if isinstance(vs, Abrupt):
                    yield s2, vs
                    continue
                args = vs[:len(e.args)]
                flat = []
                for a in args:
                    if a[0] == 'star' and a[1][0] in ('tuple', 'list'):
                        flat.extend(a[1][1])
                    else:
                        flat.append(a)
                args = tuple(flat)
                kw = []
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    its = const_items(v) if k.arg is None else None
                    if its is not None:
                        kw.extend(its.items())
                    else:
                        kw.append((k.arg or '**', v))
                kw = tuple(kw)
                yield from self.apply(e, s2, b, args, kw)

    def apply(self, e, st: St, b, args, kw):
        fnode = e.func
        if isinstance(fnode, ast.Attribute):
            name, recv = fnode.attr, b
        else:
            name, recv = None, None
            if b[0] == 'global':
                name = b[1]
            elif b[0] == 'func':
                name = fnode.id if isinstance(fnode, ast.Name) and fnode.id in self.opaque else 'lambda'
            elif b[0] == 'attr':
                name, recv = b[2], b[1]
            elif b[0] == 'class':
                name = b[1]
            else:
                name = '<value>'
        # --- inlining
        target, bound = None, None
        if name not in self.opaque and len(self.frames) <= self.max_depth and self.inline_funcs:
            if b[0] == 'func' and b in self.funcs and not isinstance(fnode, ast.Attribute):
                target = b
            elif recv is None and b[0] == 'global':
                f = self.p.resolve_function(self.fn.module, fnode.id if isinstance(fnode, ast.Name) else name)
                target = f
            elif recv is not None:
                if recv == ('super',):
                    c = self.ctx or self.fn.cls
                    owner = self.fn.cls
                    selfv = SELF
                    # current receiver
                    fa = self.fn.arg_names()
                    if fa and fa[0] in st.env:
                        selfv = st.env[fa[0]]
                    tc = self.type_of(selfv) or c
                    f = self.p.lookup(tc, name, after=owner) if owner is not None and owner in self.p.mro(tc) else None
                    target, bound = f, selfv
                    recv = selfv
                else:
                    c = self.type_of(recv)
                    if c is not None and (recv in (SELF, ('cls',)) or self.inline_typed):
                        f = self.p.lookup(c, name)
                        if f is not None and not f.is_property:
                            target, bound = f, (None if f.is_static else recv)
                    elif recv[0] == 'global' and recv[1] in self.p.class_index:
                        cc = self.p.resolve_class(self.fn.module, recv[1]) or self.p.class_index[recv[1]][0]
                        f = self.p.lookup(cc, name)
                        if f is not None:
                            if f.is_static:
                                target, bound = f, None
                            elif f.is_classmethod:
                                target, bound = f, recv
                            elif args:
                                target, bound, args = f, args[0], args[1:]
                                recv = bound
                    elif recv[0] == 'global':
                        # module function:  module.func(...)
                        f = self.p.resolve_function(self.fn.module, f"{dotted(fnode.value)}.{name}") if isinstance(fnode, ast.Attribute) and dotted(fnode.value) else None
                        target = f
        if isinstance(target, Func):
            if target.is_abstract or any(fr[0] is target for fr in self.frames) or (
                    self.interest is not None and target.name not in self.rel_names() and not mentions_ids(target.node, self.interest)
                    and not any(isinstance(n, (ast.Raise,)) for n in ast.walk(target.node))):
                target = None
            elif any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in func_walk(target.node)):
                target = None
        if target is not None:
            yield from self.inline(e, st, target, bound, args, kw)
            return
        # --- opaque
        if b[0] == 'global' and recv is None:
            if (name in PURE_FUNCS or name in self.pure) and name not in self.opaque:
                if name == 'getattr' and len(args) == 2 and args[1][0] == 'const':
                    yield from self.attr(st, args[0], args[1][1], e)
                    return
                v = ('call', name, args, kw) if kw else ('call', name, args)
                if name == 'len' and args and args[0][0] in ('list', 'tuple') and len(args[0]) > 1 and not any(x[0] == 'star' for x in args[0][1]):
                    v = ('const', len(args[0][1]))
                if name == 'str' and len(args) == 1 and args[0][0] == 'const':
                    v = ('const', str(args[0][1]))
                yield st, v
                return
            if name == 'setattr' and len(args) == 3 and args[1][0] == 'const':
                s = st.copy()
                self.write(s, ('attr', args[0], args[1][1]), args[2], e)
                yield s, NONE
                return
        if recv is not None and (name in PURE_METHODS or name in self.pure or name == 'replace' and len(args) >= 2) and name not in self.opaque \
                and recv != SELF and recv[0] != 'global' and not (name == 'join' and recv[0] not in ('const', 'fstr')) \
                and not (name == 'get' and not args and not kw):
            yield st, ('mcall', recv, name, args) + ((kw,) if kw else ())
            return
        s = st.copy()
        ev = self.emit(s, 'call', e, name=name, recv=recv, args=args, kw=kw, value=b)
        if recv is not None and isinstance(fnode, ast.Attribute) and isinstance(fnode.value, ast.Name) and fnode.value.id in s.env \
                and (recv[0] in ('list', 'set', 'dict', 'grown') or list_items(recv) is not None and name in LISTLIKE):
            items = list_items(recv)
            if name in ('append', 'add', 'appendleft') and len(args) == 1 and items is not None:
                s.env[fnode.value.id] = ('grown', 'list', (args[-1],) + items if name == 'appendleft' else items + (args[-1],))
            elif name == 'insert' and len(args) == 2 and items is not None:
                s.env[fnode.value.id] = ('grown', 'list', (args[1],) + items if args[0] == ('const', 0) else items + (args[1],))
            elif name == 'extend' and len(args) == 1 and items is not None:
                more = list_items(args[0])
                s.env[fnode.value.id] = ('grown', 'list', items + (more if more is not None else (('star', args[0]),)))
            elif name == 'pop' and args and without(recv, args[0]) is not None:
                s.env[fnode.value.id] = without(recv, args[0])
            else:
                s.env[fnode.value.id] = ('phi', fnode.value.id)
        iscls = name in self.p.class_index and (recv is None or recv[0] == 'global')
        val = ('obj', ev.n, name) if iscls else ('res', ev.n, name)
        if (self.try_depth > 0 and self.implicit_raise or self.raise_everywhere) and name not in self.no_raise \
                and not (recv and recv[0] == 'global' and recv[1].endswith('logger')) \
                and not (recv is None and name == 'print'):
            sr = st.copy()
            self.emit(sr, 'call', e, name=name, recv=recv, args=args, kw=kw, value=b, raised=True)
            yield sr, Abrupt('raise', '*', e)
        if recv is not None:
            if recv == SELF:
                if not (self.ctx is not None and self.benign(self.p.lookup(self.ctx, name))):
                    self.invalidate_self(s)
                    for path in self.ages:
                        s.env = {n: replace(v, path, ('old', path, ev.n + 1)) if isinstance(v, tuple) and contains(v, path) else v for n, v in s.env.items()}
            elif recv[0] != 'global':
                self.invalidate(s, recv)
        for a in args:
            if a[0] in ('attr', 'self', 'obj', 'res') and a != SELF:
                self.invalidate_args(s, a)
        yield s, val

    def benign(self, f, stack=()):
        """a method that stores nothing into attributes and mutates no container reached from an attribute"""
        if f is None:
            return False
        k = ('benign', id(f))
        if k in self.func_rel_cache:
            return self.func_rel_cache[k]
        if f in stack or len(stack) > 4:
            return True
        r = True
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                base = n
                while isinstance(base, (ast.Attribute, ast.Subscript)):
                    base = base.value
                if isinstance(n, ast.Attribute) or not isinstance(base, ast.Name) or base.id == (f.arg_names() or [''])[0] :
                    r = False
                    break
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    r = False
                    break
                if isinstance(n.func, ast.Attribute):
                    d = dotted(n.func) or ''
                    a0 = (f.arg_names() or [''])[0]
                    if a0 and d.startswith(a0 + '.') and n.func.attr not in PURE_METHODS:
                        if d == f'{a0}.{n.func.attr}' and self.ctx is not None:
                            g = self.p.lookup(self.ctx, n.func.attr)
                            if not self.benign(g, stack + (f,)):
                                r = False
                                break
                        else:
                            r = False
                            break
        self.func_rel_cache[k] = r
        return r

    def invalidate_self(self, st):
        for f in list(st.facts):
            if any(x[0] == 'attr' and x[1] == SELF for x in subvalues(f)):
                del st.facts[f]
        for h in list(st.heap):
            if h[0] == 'attr' and h[1] == SELF:
                del st.heap[h]

    def invalidate_args(self, st, a):
        for f in list(st.facts):
            # structural facts about contents of the argument only
            if contains(f, a) and f != ('isnone', a) and not (f[0] == 'cmp'):
                del st.facts[f]

    def inline(self, e, st: St, target, bound, args, kw):
        if isinstance(target, tuple):      # lambda / nested def
            node, cenv, frame = self.funcs[target]
            func = frame[0]
            if isinstance(node, ast.Lambda):
                a = node.args
                pnames = [x.arg for x in a.posonlyargs + a.args]
                f2 = func
            else:
                a = node.args
                pnames = [x.arg for x in a.posonlyargs + a.args]
                f2 = Func(func.module, func.cls, node, f"{func.qual}.{node.name}")
            if self.frames and self.frames[-1] is frame:
                cenv = {**cenv, **st.env}  # names are looked up when the function is called
            parent = (cenv, frame[1])
        else:
            node, f2, parent = target.node, target, None
            a = node.args
            pnames = target.arg_names()
            self.stats['inlined'].add(target.qual)
        if len(self.frames) > self.max_depth or any(fr[0].node is node for fr in self.frames):
            s = st.copy()
            ev = self.emit(s, 'call', e, name=getattr(node, 'name', 'lambda'), recv=bound, args=args, kw=kw, value=('global', getattr(node, 'name', 'lambda')))
            yield s, ('res', ev.n, getattr(node, 'name', 'lambda'))
            return
        env = {}
        full = ((bound,) if bound is not None else ()) + tuple(args)
        # defaults
        defaults = a.defaults
        for nme, d in zip(pnames[len(pnames) - len(defaults):], defaults):
            env[nme] = ('const', d.value) if isinstance(d, ast.Constant) else ('default', nme, ast.unparse(d))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                env[x.arg] = ('const', d.value) if isinstance(d, ast.Constant) else ('default', x.arg, ast.unparse(d))
        star = any(x[0] == 'star' for x in full)
        for i, v in enumerate(full):
            if i < len(pnames):
                env[pnames[i]] = v if v[0] != 'star' else ('item', v[1], i)
        if a.vararg:
            env[a.vararg.arg] = ('tuple', tuple(full[len(pnames):]))
        extra = []
        for k, v in kw:
            if k in pnames or any(x.arg == k for x in a.kwonlyargs):
                env[k] = v
            else:
                extra.append((('const', k), v))
        if a.kwarg:
            if len(extra) == 1 and extra[0][0] == ('const', '**'):
                env[a.kwarg.arg] = extra[0][1]
            else:
                env[a.kwarg.arg] = ('dict', tuple(extra))
        for n in pnames:
            env.setdefault(n, ('unknown', n, 0))
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and x.arg in env and env[x.arg][0] in ('param', 'res', 'elem'):
                c = self._ann_class(f2.module, x.annotation)
                if c is not None:
                    self.vtypes.setdefault(env[x.arg], c)
        caller_env = st.env
        s0 = st.copy()
        s0.env = env
        self.frames.append((f2, parent))
        saved_fr = self.frames
        try:
            if isinstance(node, ast.Lambda):
                res = [(s, v) for s, v in self.ev(node.body, s0)]
                res = [(s, v if isinstance(v, Abrupt) else Abrupt('return', v)) for s, v in res]
            else:
                res = []
                for s, o in self.block(node.body, s0):
                    res.append((s, o if o is not None else Abrupt('return', NONE, node)))
                    if len(res) > self.max_paths:
                        raise TooManyPaths(f"too many paths inlining {f2.qual}")
        finally:
            self.frames.pop()
        res = self.merge(res)
        for s, o in res:
            s = s.copy()
            # env renames performed in callee for written paths must be applied to the caller env as well
            s.env = self.rename_env(caller_env, st, s)
            if o.kind == 'return':
                yield s, o.value
            elif o.kind == 'raise':
                yield s, o
            else:
                yield s, o

    def rename_env(self, env, before: St, after: St):
        new = after.trace[len(before.trace):]
        out = dict(env)
        for ev in new:
            if ev.kind in ('write', 'aug'):
                old = ('old', ev.path, ev.n + 1)
                for n, v in list(out.items()):
                    if isinstance(v, tuple) and contains(v, ev.path):
                        out[n] = replace(v, ev.path, old)
            elif self.ages and ev.kind == 'call' and ev.recv == SELF and ev.name in self.opaque:
                for path in self.ages:
                    out = {n: replace(v, path, ('old', path, ev.n + 1)) if isinstance(v, tuple) and contains(v, path) else v for n, v in out.items()}
        return out

    def merge(self, res):
        seen, out = set(), []
        for s, o in res:
            k = (tuple((e.key()) for e in s.trace), tuple(sorted((a, repr(b)) for a, b in s.facts.items()) if False else
                 sorted((repr(a), b) for a, b in s.facts.items())),
                 None if o is None else (o.kind, repr(o.value)), tuple(sorted((a, repr(b)) for a, b in s.env.items())))
            if k not in seen:
                seen.add(k)
                out.append((s, o))
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts, st: St):
        """yields (st, None | Abrupt)"""
        states = [(st, None)]
        for i, stt in enumerate(stmts):
            nxt = []
            for s, o in states:
                if o is not None:
                    nxt.append((s, o))
                    continue
                if time.monotonic() > self.deadline:
                    raise TooManyPaths(f"out of time in {self.fn.qual}")
                nxt.extend(self.stmt(stt, s))
            if len(nxt) > 64:
                nxt = self.merge(nxt)
            if len(nxt) > self.max_paths:
                raise TooManyPaths(f"too many paths in {self.fn.qual} ({len(nxt)})")
            states = nxt
            if not any(o is None for _, o in states):
                break
        return states

    def havoc(self, st: St, node):
        s = st.copy()
        for n in [node] + list(func_walk(node)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                s.env[n.id] = ('phi', n.id)
        return s

    def assign(self, target, v, st: St, node):
        """yields st"""
        if isinstance(target, ast.Name):
            s = st.copy()
            for f in [f for f in s.facts if contains(f, ('phi', target.id))]:
                del s.facts[f]
            s.env[target.id] = v
            yield s
        elif isinstance(target, ast.Attribute):
            for s, b in self.ev(target.value, st):
                if isinstance(b, Abrupt):
                    continue
                s = s.copy()
                self.write(s, ('attr', b, target.attr), v, node)
                yield s
        elif isinstance(target, ast.Subscript):
            for s, vs in self.evs([target.value, target.slice], st):
                if isinstance(vs, Abrupt):
                    continue
                s = s.copy()
                self.emit(s, 'setitem', node, path=('sub', vs[0], vs[1]), value=v, recv=vs[0])
                self.invalidate(s, vs[0])
                if isinstance(target.value, ast.Name) and target.value.id in s.env:
                    c = vs[0]
                    if c[0] == 'call' and c[1] == 'dict' and not c[2] and (len(c) < 4 or all(k for k, _ in c[3])):
                        c = ('dict', tuple((('const', k), x) for k, x in (c[3] if len(c) > 3 else ())))
                    if c[0] == 'dict' or c[0] == 'grown' and c[1] == 'dict':
                        items = c[2] if c[0] == 'grown' else c[1]
                        s.env[target.value.id] = ('grown', 'dict', items + ((vs[1], v),))
                    elif c[0] in ('list', 'grown') or c[0] == 'call' and c[1] in ('dict', 'list', 'OrderedDict'):
                        s.env[target.value.id] = ('phi', target.value.id)
                yield s
        elif isinstance(target, (ast.Tuple, ast.List)):
            states = [st]
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    x, t = ('rest', v, i), t.value
                elif v[0] in ('tuple', 'list') and len(v) > 1 and len(v[1]) == len(target.elts):
                    x = v[1][i]
                else:
                    x = item_of(v, i)
                ns = []
                for s in states:
                    # the values were taken before the targets on the left were written
                    ns.extend(self.assign(t, self.rename_env({'': x}, st, s)[''] if i and isinstance(x, tuple) else x, s, node))
                states = ns
            yield from states
        elif isinstance(target, ast.Starred):
            yield from self.assign(target.value, v, st, node)

    def bind_elem(self, s: St, target, it):
        el = ('elem', it)
        for f in [f for f in s.facts if contains(f, el)]:
            del s.facts[f]
        if isinstance(target, (ast.Tuple, ast.List)):
            if it[0] == 'call' and it[1] == 'enumerate' and len(target.elts) == 2 and it[2]:
                for f in [f for f in s.facts if contains(f, ('idx', it[2][0]))]:
                    del s.facts[f]
                first = it[2][1] if len(it[2]) > 1 else dict(it[3]).get('start', ('const', 0)) if len(it) > 3 else ('const', 0)
                self.bind_name(s, target.elts[0], ('idx', it[2][0]) if first == ('const', 0) else ('bin', '+', ('idx', it[2][0]), first))
                self.bind_elem(s, target.elts[1], it[2][0])
                return
            if it[0] == 'mcall' and it[2] == 'items' and len(target.elts) == 2:
                self.bind_name(s, target.elts[0], ('key', it[1]))
                self.bind_name(s, target.elts[1], ('sub', it[1], ('key', it[1])))
                return
            if it[0] == 'call' and it[1] == 'zip' and len(it[2]) == len(target.elts):
                for t, x in zip(target.elts, it[2]):
                    self.bind_elem(s, t, x)
                return
            for i, t in enumerate(target.elts):
                self.bind_name(s, t.value if isinstance(t, ast.Starred) else t, ('item', el, i))
        else:
            if it[0] == 'mcall' and it[2] == 'values':
                el = ('sub', it[1], ('key', it[1]))
            elif it[0] == 'mcall' and it[2] == 'keys':
                el = ('key', it[1])
            elif it[0] == 'call' and it[1] in ('list', 'tuple', 'sorted', 'reversed') and len(it[2]) == 1:
                return self.bind_elem(s, target, it[2][0])
            elif it[0] == 'mcall' and it[2] == 'copy':
                return self.bind_elem(s, target, it[1])
            elif it[0] == 'sub' and it[2][0] == 'slice' and it[2][1:] in ((NONE, NONE, NONE), (NONE, NONE, ('const', -1)), (NONE, NONE, ('neg', ('const', 1)))):
                return self.bind_elem(s, target, it[1])
            elif it[0] == 'comp' and it[1] != 'DictComp' and len(it[2]) == 1:
                # iterating a comprehension: the element is its expression and its filters hold
                for _, conds in it[3]:
                    for c in conds:
                        self.assume_all(s, c, True)
                el = it[2][0]
            elif it[0] == 'grown' and it[1] == 'list':
                el = it[2][-1]
            self.bind_name(s, target, el)

    def assume_all(self, s: St, v, pol):
        while v[0] == 'not':
            v, pol = v[1], not pol
        if (v[0] == 'and' and pol) or (v[0] == 'or' and not pol):
            for x in v[1]:
                self.assume_all(s, x, pol)
            return
        if v[0] == 'call' and v[1] == 'bool' and len(v[2]) == 1:
            return self.assume_all(s, v[2][0], pol)
        lit = v if v[0] in ('cmp', 'isnone', 'truthy', 'const') else ('truthy', v)
        if lit[0] != 'const' and lit not in s.facts:
            s.facts[lit] = pol
            self.emit(s, 'assume', None, lit=lit, pol=pol)

    def bind_name(self, s: St, t, v):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind_name(s, x, ('item', v, i))
        elif isinstance(t, ast.Attribute):
            pass

    def stmt(self, n, st: St):
        t = type(n)
        if t is ast.Expr:
            if isinstance(n.value, ast.Constant):
                return [(st, None)]
            return [(s, v if isinstance(v, Abrupt) else None) for s, v in self.ev(n.value, st)]
        if t is ast.Assign:
            out = []
            for s, v in self.ev(n.value, st):
                if isinstance(v, Abrupt):
                    out.append((s, v))
                    continue
                states = [s]
                for tg in n.targets:
                    ns = []
                    for x in states:
                        ns.extend(self.assign(tg, v, x, n))
                    states = ns
                out.extend((x, None) for x in states)
            return out
        if t is ast.AnnAssign:
            if n.value is None:
                return [(st, None)]
            out = []
            for s, v in self.ev(n.value, st):
                if isinstance(v, Abrupt):
                    out.append((s, v))
                else:
                    if v[0] in ('res', 'elem', 'sub', 'item'):
                        c = self._ann_class(self.fn.module, n.annotation)
                        if c is not None:
                            self.vtypes.setdefault(v, c)
                    out.extend((x, None) for x in self.assign(n.target, v, s, n))
            return out
        if t is ast.AugAssign:
            out = []
            for s, v in self.ev(n.value, st):
                if isinstance(v, Abrupt):
                    out.append((s, v))
                    continue
                op = OPS.get(type(n.op), '?')
                if isinstance(n.target, ast.Name):
                    s = s.copy()
                    old = self.name(s, n.target.id)
                    if op == '+' and old[0] in ('attr', 'sub', 'param', 'elem') and (list_items(v) is not None or v[0] == 'comp' and v[1] == 'ListComp'):
                        # in-place extension of a list that belongs to somebody else
                        self.emit(s, 'call', n, name='extend', recv=old, args=(v,), kw=())
                        self.invalidate(s, old)
                    s.env[n.target.id] = self.binop(op, old, v)
                    out.append((s, None))
                elif isinstance(n.target, ast.Attribute):
                    for s2, b in self.ev(n.target.value, s):
                        if isinstance(b, Abrupt):
                            out.append((s2, b))
                            continue
                        s2 = s2.copy()
                        path = ('attr', b, n.target.attr)
                        self.emit(s2, 'aug', n, path=path, op=op, value=v)
                        self.invalidate(s2, path)
                        old = ('old', path, s2.cnt)
                        for nm, vv in list(s2.env.items()):
                            if isinstance(vv, tuple) and contains(vv, path):
                                s2.env[nm] = replace(vv, path, old)
                        s2.heap.pop(path, None)
                        out.append((s2, None))
                elif isinstance(n.target, ast.Subscript):
                    for s2, vs in self.evs([n.target.value, n.target.slice], s):
                        if isinstance(vs, Abrupt):
                            out.append((s2, vs))
                            continue
                        s2 = s2.copy()
                        self.emit(s2, 'aug', n, path=('sub', vs[0], vs[1]), op=op, value=v, recv=vs[0])
                        self.invalidate(s2, vs[0])
                        out.append((s2, None))
            return out
        if t is ast.Return:
            if n.value is None:
                return [(st, Abrupt('return', NONE, n))]
            return [(s, v if isinstance(v, Abrupt) else Abrupt('return', v, n)) for s, v in self.ev(n.value, st)]
        if t is ast.Raise:
            if n.exc is None:
                return [(st, Abrupt('raise', self._cur_exc(st), n))]
            nm = dotted(n.exc.func) if isinstance(n.exc, ast.Call) else dotted(n.exc)
            if isinstance(n.exc, ast.Name) and n.exc.id in st.env and st.env[n.exc.id][0] == 'exc':
                nm = st.env[n.exc.id][1]
            return [(st, Abrupt('raise', (nm or '?').split('.')[-1], n))]
        if t in (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal):
            return [(st, None)]
        if t is ast.Break:
            return [(st, Abrupt('break'))]
        if t is ast.Continue:
            return [(st, Abrupt('continue'))]
        if t is ast.If:
            return self.do_if(n, st)
        if t in (ast.For, ast.AsyncFor):
            return self.do_for(n, st)
        if t is ast.While:
            return self.do_while(n, st)
        if t in (ast.With, ast.AsyncWith):
            return self.do_with(n, st)
        if t is ast.Try or t.__name__ == 'TryStar':
            return self.do_try(n, st)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            s = st.copy()
            k = ('func', n.lineno, n.col_offset, self.fn.qual)
            self.funcs[k] = (n, s.env, self.frames[-1])
            s.env[n.name] = k
            return [(s, None)]
        if t is ast.ClassDef:
            s = st.copy()
            s.env[n.name] = ('class', n.name)
            return [(s, None)]
        if t is ast.Assert:
            out = []
            for s, b in self.cond(n.test, st, record=self.rel(n)):
                if isinstance(b, Abrupt):
                    out.append((s, b))
                elif b:
                    out.append((s, None))
                else:
                    out.append((s, Abrupt('raise', 'AssertionError', n)))
            return out
        if t is ast.Delete:
            states = [st]
            for tg in n.targets:
                ns = []
                for s in states:
                    if isinstance(tg, ast.Name):
                        s = s.copy()
                        s.env.pop(tg.id, None)
                        ns.append(s)
                    elif isinstance(tg, ast.Attribute):
                        for s2, b in self.ev(tg.value, s):
                            if not isinstance(b, Abrupt):
                                s2 = s2.copy()
                                self.emit(s2, 'del', n, path=('attr', b, tg.attr))
                                self.invalidate(s2, ('attr', b, tg.attr))
                                ns.append(s2)
                    elif isinstance(tg, ast.Subscript):
                        for s2, vs in self.evs([tg.value, tg.slice], s):
                            if not isinstance(vs, Abrupt):
                                s2 = s2.copy()
                                self.emit(s2, 'del', n, path=('sub', vs[0], vs[1]), recv=vs[0])
                                self.invalidate(s2, vs[0])
                                if isinstance(tg.value, ast.Name) and tg.value.id in s2.env and vs[0][0] in ('dict', 'grown', 'call', 'list'):
                                    s2.env[tg.value.id] = without(vs[0], vs[1]) or ('phi', tg.value.id)
                                ns.append(s2)
                states = ns
            return [(s, None) for s in states]
        if t.__name__ == 'Match':
            return self.do_match(n, st)
        return [(st, None)]

    def _cur_exc(self, st):
        v = st.env.get('$exc')
        return v[1] if v else '*'

    def do_if(self, n, st: St):
        if not self.rel(n):
            # evaluate the test for its effects only when it contains calls
            s = self.havoc(st, n)
            return [(s, None)]
        out = []
        for s, b in self.cond(n.test, st):
            if isinstance(b, Abrupt):
                out.append((s, b))
            else:
                out.extend(self.block(n.body if b else n.orelse, s))
        return out

    def do_match(self, n, st: St):
        out = []
        for s, subj in self.ev(n.subject, st):
            if isinstance(subj, Abrupt):
                out.append((s, subj))
                continue

            def pat(p, s):
                """yields (st,bool)"""
                if isinstance(p, ast.MatchValue):
                    for s1, v in self.ev(p.value, s):
                        yield from self.cond_value(s1, mk_cmp('eq', subj, v), p)
                elif isinstance(p, ast.MatchSingleton):
                    yield from self.cond_value(s, mk_cmp('is', subj, ('const', p.value)), p)
                elif isinstance(p, ast.MatchOr):
                    def rec(ps, s):
                        for s1, b in pat(ps[0], s):
                            if b or len(ps) == 1:
                                yield s1, b
                            else:
                                yield from rec(ps[1:], s1)
                    yield from rec(p.patterns, s)
                elif isinstance(p, ast.MatchAs) and p.pattern is None:
                    if p.name:
                        s = s.copy()
                        s.env[p.name] = subj
                    yield s, True
                else:
                    yield from self.cond_value(s, ('match', subj, ast.unparse(p)), p)

            def cases(cs, s):
                if not cs:
                    yield s, None
                    return
                c = cs[0]
                for s1, b in pat(c.pattern, s):
                    if not b:
                        yield from cases(cs[1:], s1)
                    elif c.guard is not None:
                        for s2, g in self.cond(c.guard, s1):
                            if isinstance(g, Abrupt):
                                yield s2, g
                            elif g:
                                yield from self.block(c.body, s2)
                            else:
                                yield from cases(cs[1:], s2)
                    else:
                        yield from self.block(c.body, s1)
            out.extend(cases(n.cases, s))
        return out

    def loop_havoc_consts(self, st: St, n, every=False):
        assigned = {x.id for x in func_walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        s = st.copy()
        if self.any_iteration:
            for x in func_walk(n):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in LISTLIKE:
                    assigned.add(x.func.value.id)
            for a in assigned:
                if a in s.env:
                    s.env[a] = ('phi', a)
            return s
        for a in assigned:
            v = s.env.get(a)
            if v and v[0] == 'const' and (every or isinstance(v[1], (int, float)) and not isinstance(v[1], bool)):
                self.phi_inits.setdefault((n, a), set()).add(v)
                s.env[a] = ('phi', a)
        return s

    def starts(self, before: St, inside: St):
        return {a: before.env[a] for a, v in inside.env.items() if v == ('phi', a) and a in before.env and before.env[a] != v}

    def ends(self, n, s: St):
        """the values the names of the loop have when it is left"""
        for e in reversed(s.trace):
            if e.kind == 'iter' and e.node is n:
                return {a: s.env[a] for a in e.start or () if a in s.env}
        return None

    def do_for(self, n, st: St):
        if not self.rel(n):
            return [(self.havoc(st, n), None)]
        out = []
        for s, it in self.ev(n.iter, st):
            if isinstance(it, Abrupt):
                out.append((s, it))
                continue
            # zero iterations
            z = s.copy()
            nonempty = None
            seq = self.literal_items(it)
            if seq is not None:
                cur = [s.copy()]
                for x in seq:
                    nxt = []
                    for s1 in cur:
                        s1 = s1.copy()
                        self.emit(s1, 'iter', n, value=it)
                        for s1 in self.assign(n.target, x, s1, n):
                            for s2, o in self.block(n.body, s1):
                                if o is None or o.kind == 'continue':
                                    nxt.append(s2)
                                elif o.kind == 'break':
                                    s2 = s2.copy()
                                    self.emit(s2, 'loopend', n, value=it, name='break', start=self.ends(n, s2))
                                    out.append((s2, None))
                                else:
                                    out.append((s2, o))
                    if len(nxt) > 64:
                        nxt = [x for x, _ in self.merge([(x, None) for x in nxt])]
                    cur = nxt
                for s3 in cur:
                    s3 = s3.copy()
                    self.emit(s3, 'loopend', n, value=it, name='done')
                    out.extend(self.block(n.orelse, s3) if n.orelse else [(s3, None)])
                continue
            if self.side_loops:
                s1 = self.loop_havoc_consts(s, n, True)
                self.emit(s1, 'iter', n, value=it, start=self.starts(s, s1))
                self.bind_elem(s1, n.target, it)
                for s2, o in self.block(n.body, s1):
                    if o is None or o.kind in ('continue', 'break'):
                        self.loop_traces.append(PathResult(list(s2.trace), Abrupt('loopbody', ('const', 'break' if o is not None and o.kind == 'break' else 'done'), n), s2))
                    else:
                        out.append((s2, o))
                z = self.havoc(z, n)
                self.emit(z, 'loop0', n, value=it, name='side')
                out.extend(self.block(n.orelse, z) if n.orelse else [(z, None)])
                continue
            base = it
            while base[0] == 'call' and base[1] in ('list', 'tuple', 'sorted', 'reversed', 'enumerate') and len(base[2]) >= 1:
                base = base[2][0]
            if base[0] in ('list', 'tuple') and len(base) > 1 and isinstance(base[1], tuple):
                nonempty = len(base[1]) > 0
            if base[0] == 'grown':
                nonempty = True
            if nonempty is not True:
                self.emit(z, 'loop0', n, value=it)
                out.extend(self.block(n.orelse, z) if n.orelse else [(z, None)])
            if nonempty is False:
                continue
            cur = [self.loop_havoc_consts(s, n)]
            for k in range(self.unroll):
                nxt = []
                for s1 in cur:
                    s1 = s1.copy()
                    self.emit(s1, 'iter', n, value=it, start=self.starts(s, s1))
                    self.bind_elem(s1, n.target, it)
                    if isinstance(n.target, (ast.Attribute, ast.Subscript)):
                        pass
                    for s2, o in self.block(n.body, s1):
                        if o is None or o.kind == 'continue':
                            nxt.append(s2)
                        elif o.kind == 'break':
                            s2 = s2.copy()
                            self.emit(s2, 'loopend', n, value=it, name='break', start=self.ends(n, s2))
                            out.append((s2, None))
                        else:
                            out.append((s2, o))
                if len(nxt) > 64:
                    nxt = [x for x, _ in self.merge([(x, None) for x in nxt])]
                for s2 in nxt:
                    s3 = s2.copy()
                    self.emit(s3, 'loopend', n, value=it, name='done', start=self.ends(n, s3))
                    out.extend(self.block(n.orelse, s3) if n.orelse else [(s3, None)])
                cur = nxt
        return out

    def literal_items(self, it):
        """the values a loop over a short literal sequence runs through, or None"""
        num = it[0] == 'call' and it[1] == 'enumerate' and len(it[2]) == 1
        v = it[2][0] if num else it
        if v[0] not in ('tuple', 'list') or len(v) < 2 or not isinstance(v[1], tuple) or not 1 <= len(v[1]) <= 8 or any(x[0] == 'star' for x in v[1]):
            return None
        return [('tuple', (('const', i), x)) for i, x in enumerate(v[1])] if num else list(v[1])

    def do_while(self, n, st: St):
        if not self.rel(n):
            return [(self.havoc(st, n), None)]
        out = []
        cur = [self.loop_havoc_consts(st, n)]
        for k in range(self.unroll + 1):
            nxt = []
            for s in cur:
                for s1, b in self.cond(n.test, s):
                    if isinstance(b, Abrupt):
                        out.append((s1, b))
                    elif not b:
                        if k == 0:
                            self.emit(s1, 'loop0', n, name='while')
                        else:
                            self.emit(s1, 'loopend', n, name='done', start=self.ends(n, s1))
                        out.extend(self.block(n.orelse, s1) if n.orelse else [(s1, None)])
                    elif k < self.unroll:
                        s1 = s1.copy()
                        self.emit(s1, 'iter', n, name='while', start=self.starts(st, s1))
                        for s2, o in self.block(n.body, s1):
                            if o is None or o.kind == 'continue':
                                s2 = s2.copy()
                                nxt.append(s2)
                            elif o.kind == 'break':
                                s2 = s2.copy()
                                self.emit(s2, 'loopend', n, name='break', start=self.ends(n, s2))
                                out.append((s2, None))
                            else:
                                out.append((s2, o))
                    else:
                        out.append((s1, Abrupt('loopback', None, n)))
            # forget facts about loop state before re-testing the condition
            cur = []
            for s in nxt:
                s = s.copy()
                if not (isinstance(n.test, ast.Constant)):
                    s.facts = {f: v for f, v in s.facts.items() if not any(f == x.lit for x in s.trace if x.kind == 'assume' and x.node is n.test)}
                cur.append(s)
            if len(cur) > 64:
                cur = [x for x, _ in self.merge([(x, None) for x in cur])]
            if len(cur) > self.max_paths:
                raise TooManyPaths(self.fn.qual)
        return out

    def do_with(self, n, st: St):
        states = [(st, [], None)]
        for item in n.items:
            nxt = []
            for s, exits, ab in states:
                if ab is not None:
                    nxt.append((s, exits, ab))
                    continue
                for s1, v in self.ev(item.context_expr, s):
                    if isinstance(v, Abrupt):
                        nxt.append((s1, exits, v))
                        continue
                    s1 = s1.copy()
                    self.emit(s1, 'enter', item, value=v)
                    ss = [s1]
                    if item.optional_vars is not None:
                        ss = list(self.assign(item.optional_vars, v if v[0] in ('res', 'obj') else ('entered', v), s1, n))
                    for s2 in ss:
                        nxt.append((s2, exits + [v], None))
            states = nxt
        out = []
        for s, exits, ab in states:
            res = [(s, ab)] if ab is not None else self.block(n.body, s)
            for s1, o in res:
                s1 = s1.copy()
                for v in reversed(exits):
                    self.emit(s1, 'exit', n, value=v)
                # contextlib.suppress
                if o is not None and o.kind == 'raise' and any(v[0] == 'res' and v[2] == 'suppress' for v in exits):
                    o = None
                out.append((s1, o))
        return out

    # exception matching -----------------------------------------------------
    def exc_is(self, name, handler_name):
        """True/False/None(unknown): does exception class `name` derive from `handler_name`"""
        if name == handler_name or handler_name in ('BaseException',):
            return True
        if name == '*':
            return True if handler_name == 'Exception' else None
        bn, hn = getattr(builtins, name, None), getattr(builtins, handler_name, None)
        if isinstance(bn, type) and isinstance(hn, type):
            return issubclass(bn, hn)
        if name in self.p.class_index:
            for c in self.p.mro(self.p.class_index[name][0]):
                for b in [c.name] + [x.split('.')[-1] for x in c.base_names if x]:
                    if b == handler_name:
                        return True
                    bb = getattr(builtins, b, None)
                    if isinstance(bb, type) and isinstance(hn, type) and issubclass(bb, hn):
                        return True
            return False
        if handler_name == 'Exception':
            return True
        if handler_name in self.p.class_index or isinstance(hn, type):
            return None if not isinstance(bn, type) else False
        return None

    def do_try(self, n, st: St):
        if not self.rel(n) and not self.raise_everywhere:
            return [(self.havoc(st, n), None)]
        out = []
        self.try_depth += 1 if n.handlers or n.finalbody else 0
        try:
            body = list(self.block(n.body, st))
        finally:
            self.try_depth -= 1 if n.handlers or n.finalbody else 0
        body = self.merge(body) if len(body) > 64 else body
        after = []
        for s, o in body:
            if o is None:
                if n.orelse:
                    after.extend(self.block(n.orelse, s))
                else:
                    after.append((s, None))
            elif o.kind == 'raise':
                handled = False
                for h in n.handlers:
                    names = []
                    if h.type is None:
                        names = ['BaseException']
                    elif isinstance(h.type, ast.Tuple):
                        names = [(dotted(x) or '?').split('.')[-1] for x in h.type.elts]
                    else:
                        d = dotted(h.type)
                        names = [(d or '?').split('.')[-1]]
                    verdicts = [self.exc_is(o.value, x) for x in names]
                    if True in verdicts or None in verdicts:
                        s1 = s.copy()
                        hname = names[verdicts.index(True)] if True in verdicts else names[verdicts.index(None)]
                        self.emit(s1, 'except', h, name=hname)
                        exn = o.value if o.value != '*' else hname
                        s1.env['$exc'] = ('exc', exn)
                        if h.name:
                            s1.env[h.name] = ('exc', exn, s1.cnt)
                        for s2, o2 in self.block(h.body, s1):
                            s2 = s2.copy()
                            s2.env.pop('$exc', None)
                            after.append((s2, o2))
                        if True in verdicts:
                            handled = True
                            break
                if not handled:
                    after.append((s, o))
            else:
                after.append((s, o))
        if n.finalbody:
            for s, o in after:
                s1 = s.copy()
                self.emit(s1, 'finally', n)
                for s2, o2 in self.block(n.finalbody, s1):
                    out.append((s2, o2 if o2 is not None else o))
        else:
            out = after
        return out


def mentions_ids(node, ids) -> bool:
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and n.id in ids:
            return True
        if isinstance(n, ast.Attribute) and n.attr in ids:
            return True
        if isinstance(n, ast.keyword) and n.arg in ids:
            return True
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in ids:
            return True
    return False
