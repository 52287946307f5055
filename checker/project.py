"""Source loader and symbol tables for the analysed tree (AST only, nothing is imported or run)."""
from __future__ import annotations
import ast
import os
import sys
from pathlib import Path

REPO = Path(os.environ.get("SPICELIB_REPO", "/repo"))
PKG = "spicelib"


class AnalysisBroken(Exception):
    """An anchor the analysis relies on is gone: the check cannot answer (exit code 2)."""


class Func:
    def __init__(self, module, cls, node, qual):
        self.module, self.cls, self.node, self.qual = module, cls, node, qual
        self.name = node.name
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return any(d in ('property', 'cached_property', 'functools.cached_property') for d in self.decorators)

    @property
    def is_setter(self):
        return any(d.endswith('.setter') for d in self.decorators if d)

    @property
    def is_abstract(self):
        return any((d or '').split('.')[-1] == 'abstractmethod' for d in self.decorators)

    def arg_names(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def body_nodoc(self):
        b = self.node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            return b[1:]
        return b

    def where(self, node=None):
        return f"{self.module.rel}:{self.qual}"

    def __repr__(self):
        return f"<Func {self.module.rel}:{self.qual}>"


class Cls:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods: dict[str, Func] = {}
        self.setters: dict[str, Func] = {}
        self.consts: dict[str, ast.expr] = {}
        self.base_names = [dotted(b) for b in node.bases]
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, self, st, f"{node.name}.{st.name}")
                if f.is_setter:
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.consts[st.target.id] = st.value

    def __repr__(self):
        return f"<Cls {self.name}>"


def dotted(node):
    if node is None:
        return None
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return f"{b}.{node.attr}" if b else node.attr
    if isinstance(node, ast.Call):
        return dotted(node.func)
    if isinstance(node, ast.Subscript):
        return dotted(node.value)
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return node.value
    return None


class Module:
    def __init__(self, path: Path, rel: str, name: str):
        self.path, self.rel, self.name = path, rel, name
        self.src = path.read_text(encoding='utf-8')
        self.tree = ast.parse(self.src, filename=str(path))
        self.classes: dict[str, Cls] = {}
        self.functions: dict[str, Func] = {}
        self.consts: dict[str, ast.expr] = {}
        self.const_counts: dict[str, int] = {}
        self.imports: dict[str, str] = {}   # local name -> dotted origin
        self._scan(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for g in n.names:       # assigned by a function: not a constant
                    self.const_counts[g] = self.const_counts.get(g, 0) + 1
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = self._abs(n.module, n.level)
                for a in n.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}" if base else a.name

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = Cls(self, st)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(self, None, st, st.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = st.value
                        self.const_counts[t.id] = self.const_counts.get(t.id, 0) + 1
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.consts[st.target.id] = st.value
                self.const_counts[st.target.id] = self.const_counts.get(st.target.id, 0) + 1
            elif isinstance(st, ast.If):
                # platform / __main__ guards: keep definitions of both branches (not the __main__ one)
                if not (isinstance(st.test, ast.Compare) and dotted(st.test.left) == '__name__'):
                    self._scan(st.body)
                    self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)

    def _abs(self, module, level):
        if level == 0:
            return module or ''
        parts = self.name.split('.')
        pk = parts[:-1] if not self.path.name == '__init__.py' else parts
        pk = pk[:len(pk) - (level - 1)]
        return '.'.join(pk + ([module] if module else []))


class Project:
    def __init__(self, repo: Path = REPO):
        self.repo = Path(repo)
        root = self.repo / PKG
        if not root.is_dir():
            raise AnalysisBroken(f"package directory {root} not found")
        self.modules: dict[str, Module] = {}
        for p in sorted(root.rglob('*.py')):
            rel = p.relative_to(self.repo).as_posix()
            name = rel[:-3].replace('/', '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            try:
                self.modules[name] = Module(p, rel, name)
            except SyntaxError as e:
                raise AnalysisBroken(f"{rel} does not parse: {e}")
        self.class_index: dict[str, list[Cls]] = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.class_index.setdefault(c.name, []).append(c)
        self._mro: dict[int, list[Cls]] = {}

    # ---- lookups -------------------------------------------------------
    def mod(self, rel: str) -> Module:
        for m in self.modules.values():
            if m.rel == rel or m.name == rel:
                return m
        raise AnalysisBroken(f"module {rel} not found")

    def has_cls(self, name):
        return name in self.class_index

    def cls(self, name: str, rel: str | None = None) -> Cls:
        cands = self.class_index.get(name, [])
        if rel:
            cands = [c for c in cands if c.module.rel == rel] or cands
        if not cands:
            raise AnalysisBroken(f"class {name} not found")
        return cands[0]

    def resolve_class(self, module: Module, name: str) -> Cls | None:
        if name is None:
            return None
        last = name.split('.')[-1]
        if last in module.classes and '.' not in name:
            return module.classes[last]
        origin = module.imports.get(name.split('.')[0])
        if origin:
            full = origin if '.' not in name else origin + name[name.index('.'):]
            mname, _, cname = full.rpartition('.')
            m = self.modules.get(mname)
            if m:
                if cname in m.classes:
                    return m.classes[cname]
                if cname in m.imports:   # re-export
                    return self.resolve_class(m, cname)
            if not full.startswith(PKG):
                return None
        if origin is None and last in self.class_index and (module.name.startswith(PKG)):
            # star imports
            for n in ast.walk(module.tree):
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    return self.class_index[last][0]
        return None

    def bases(self, cls: Cls) -> list[Cls]:
        out = []
        for b in cls.base_names:
            c = self.resolve_class(cls.module, b)
            if c is not None:
                out.append(c)
        return out

    def mro(self, cls: Cls) -> list[Cls]:
        if id(cls) in self._mro:
            return self._mro[id(cls)]

        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        bs = self.bases(cls)
        r = [cls] + merge([self.mro(b) for b in bs] + [bs])
        self._mro[id(cls)] = r
        return r

    def subclasses(self, cls: Cls) -> list[Cls]:
        return [c for cs in self.class_index.values() for c in cs if c is not cls and cls in self.mro(c)]

    def lookup(self, cls: Cls, name: str, after: Cls | None = None) -> Func | None:
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def class_const(self, cls: Cls, name: str):
        for c in self.mro(cls):
            if name in c.consts:
                return c.consts[name], c
        return None, None

    def method(self, cname: str, mname: str) -> Func:
        c = self.cls(cname)
        f = self.lookup(c, mname)
        if f is None:
            raise AnalysisBroken(f"method {cname}.{mname} not found")
        return f

    def function(self, rel: str, name: str) -> Func:
        m = self.mod(rel)
        if name in m.functions:
            return m.functions[name]
        if name in m.imports:
            f = self.resolve_function(m, name)
            if f:
                return f
        raise AnalysisBroken(f"function {name} not found in {rel}")

    def resolve_function(self, module: Module, name: str) -> Func | None:
        if name in module.functions:
            return module.functions[name]
        origin = module.imports.get(name.split('.')[0])
        if origin:
            full = origin if '.' not in name else origin + name[name.index('.'):]
            mname, _, fname = full.rpartition('.')
            m = self.modules.get(mname)
            if m:
                if fname in m.functions:
                    return m.functions[fname]
                if fname in m.imports and m is not module:
                    return self.resolve_function(m, fname)
        return None

    def attr_type(self, cls: Cls, name: str):
        """(class of the attribute, class of its elements) from annotations and constructor assignments"""
        key = (id(cls), name)
        if not hasattr(self, '_attr_types'):
            self._attr_types = {}
        if key in self._attr_types:
            return self._attr_types[key]
        own, el = set(), set()

        def ann(c, a):
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                try:
                    a = ast.parse(a.value, mode='eval').body
                except SyntaxError:
                    return
            if isinstance(a, ast.BinOp):
                ann(c, a.left)
                ann(c, a.right)
            elif isinstance(a, (ast.Name, ast.Attribute)):
                x = self.resolve_class(c.module, dotted(a))
                if x:
                    own.add(x)
            elif isinstance(a, ast.Subscript):
                d = (dotted(a.value) or '').split('.')[-1]
                if d in ('list', 'List', 'tuple', 'set', 'Sequence', 'Iterable', 'dict', 'Dict', 'OrderedDict', 'Optional'):
                    sl = a.slice.elts[-1] if isinstance(a.slice, ast.Tuple) else a.slice
                    if d == 'Optional':
                        return ann(c, sl)
                    x = self.resolve_class(c.module, dotted(sl)) if isinstance(sl, (ast.Name, ast.Attribute)) else None
                    if x:
                        el.add(x)
        for c in self.mro(cls):
            for st in c.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                    ann(c, st.annotation)
            for f in c.methods.values():
                a0 = (f.arg_names() or [''])[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and dotted(n.target) == f"{a0}.{name}":
                        ann(c, n.annotation)
                    elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and dotted(t) == f"{a0}.{name}":
                                x = self.resolve_class(c.module, dotted(n.value.func) or '')
                                if x:
                                    own.add(x)
        r = (next(iter(own)) if len(own) == 1 else None, next(iter(el)) if len(el) == 1 else None)
        self._attr_types[key] = r
        return r

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()

    # ---- constant evaluation of literal tables ---------------------------
    def const_eval(self, module: Module, node, cls: Cls | None = None, depth=0):
        """Evaluates literal expressions/tables by constant propagation. Raises ValueError when not constant."""
        ev = lambda n: self.const_eval(module, n, cls, depth + 1)
        if depth > 40:
            raise ValueError("depth")
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Tuple):
            return tuple(self._seq(module, node.elts, cls, depth))
        if isinstance(node, ast.List):
            return list(self._seq(module, node.elts, cls, depth))
        if isinstance(node, ast.Set):
            return set(self._seq(module, node.elts, cls, depth))
        if isinstance(node, ast.Dict):
            d = {}
            for k, v in zip(node.keys, node.values):
                if k is None:
                    d.update(ev(v))
                else:
                    d[ev(k)] = ev(v)
            return d
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            return -ev(node.operand)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not ev(node.operand)
        if isinstance(node, ast.BinOp):
            l, r = ev(node.left), ev(node.right)
            ops = {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r, ast.Div: lambda: l / r,
                   ast.Pow: lambda: l ** r, ast.Mod: lambda: l % r, ast.FloorDiv: lambda: l // r,
                   ast.BitOr: lambda: l | r, ast.LShift: lambda: l << r}
            if type(node.op) in ops:
                try:
                    return ops[type(node.op)]()
                except Exception as e:
                    raise ValueError(str(e))
        if isinstance(node, ast.JoinedStr):
            out = ''
            for v in node.values:
                if isinstance(v, ast.Constant):
                    out += v.value
                elif isinstance(v, ast.FormattedValue) and v.format_spec is None and v.conversion == -1:
                    out += str(ev(v.value))
                else:
                    raise ValueError("fstr")
            return out
        if isinstance(node, ast.Name):
            if cls is not None and node.id in cls.consts:
                return self.const_eval(module, cls.consts[node.id], cls, depth + 1)
            if node.id in module.consts:
                return self.const_eval(module, module.consts[node.id], None, depth + 1)
            origin = module.imports.get(node.id)
            if origin:
                mname, _, n = origin.rpartition('.')
                m = self.modules.get(mname)
                if m and n in m.consts:
                    return self.const_eval(m, m.consts[n], None, depth + 1)
            c = self.resolve_class(module, node.id)
            if c:
                return Sym(c.name)
            f = self.resolve_function(module, node.id)
            if f:
                return Sym(f.name)
            if origin:
                return Sym(origin)
            if node.id in ('str', 'int', 'float', 'complex', 'list', 'dict', 'tuple', 'bytes', 'bool', 'object'):
                return Sym(node.id)
            raise ValueError(f"name {node.id}")
        if isinstance(node, ast.Attribute):
            d = dotted(node)
            head, _, at = d.rpartition('.')
            c = self.resolve_class(module, head)
            if c and at in c.consts and not self.is_enum(c):
                return self.const_eval(c.module, c.consts[at], c, depth + 1)
            return Sym(d)
        if isinstance(node, ast.Call):
            d = dotted(node.func)
            if d and d.split('.')[-1] == 'compile' and node.args:
                return Pattern(ev(node.args[0]), [dotted(a) or ast.dump(a) for a in node.args[1:]]
                               + [ast.unparse(k.value) for k in node.keywords])
            if d == 'dict' and not node.args:
                return {k.arg: ev(k.value) for k in node.keywords}
            if d in ('tuple', 'list', 'set', 'frozenset', 'sorted', 'dict', 'OrderedDict', 'reversed') and len(node.args) <= 1 and not node.keywords:
                fn = {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset, 'sorted': sorted,
                      'dict': dict, 'OrderedDict': dict, 'reversed': lambda x: list(reversed(x))}[d]
                return fn(ev(node.args[0])) if node.args else fn(())
            if isinstance(node.func, ast.Attribute) and node.func.attr in ('upper', 'lower', 'strip', 'join', 'split',
                                                                            'keys', 'values', 'items', 'replace'):
                o = ev(node.func.value)
                try:
                    return getattr(o, node.func.attr)(*[ev(a) for a in node.args])
                except Exception as e:
                    raise ValueError(str(e))
            f = self.resolve_function(module, d) if d else None
            if f and len(f.body_nodoc()) == 1 and isinstance(f.body_nodoc()[0], ast.Return):
                # single-expression helper: substitute constants
                env = dict(zip(f.arg_names(), node.args))
                for k in node.keywords:
                    env[k.arg] = k.value
                defs = f.node.args.defaults
                for nme, dv in zip(f.arg_names()[len(f.arg_names()) - len(defs):], defs):
                    env.setdefault(nme, dv)
                e2 = {k: ev(v) for k, v in env.items()}
                return self._eval_with(f.module, f.body_nodoc()[0].value, e2, depth)
            raise ValueError(f"call {d}")
        if isinstance(node, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self._eval_with(module, node, {}, depth)
        if isinstance(node, ast.Subscript):
            b = ev(node.value)
            try:
                return b[ev(node.slice)]
            except (KeyError, IndexError, TypeError) as e:
                raise ValueError(str(e))
        raise ValueError(type(node).__name__)

    def _eval_with(self, module, node, env, depth):
        proj = self

        class Sub(ast.NodeTransformer):
            def visit_Name(s, n):
                if n.id in env:
                    return ast.copy_location(_Lit(env[n.id]), n)
                return n
        if isinstance(node, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            results = []

            def rec(gens, env):
                if not gens:
                    if isinstance(node, ast.DictComp):
                        results.append((proj._eval_with(module, node.key, env, depth + 1),
                                        proj._eval_with(module, node.value, env, depth + 1)))
                    else:
                        results.append(proj._eval_with(module, node.elt, env, depth + 1))
                    return
                g = gens[0]
                for v in proj._eval_with(module, g.iter, env, depth + 1):
                    e = dict(env)
                    if isinstance(g.target, ast.Name):
                        e[g.target.id] = v
                    elif isinstance(g.target, ast.Tuple):
                        for t, x in zip(g.target.elts, v):
                            e[t.id] = x
                    if all(proj._eval_with(module, c, e, depth + 1) for c in g.ifs):
                        rec(gens[1:], e)
            rec(node.generators, env)
            if isinstance(node, ast.DictComp):
                return dict(results)
            return set(results) if isinstance(node, ast.SetComp) else results
        import copy
        n2 = Sub().visit(copy.deepcopy(node))
        return self._lit_eval(module, n2, depth)

    def _lit_eval(self, module, node, depth):
        if isinstance(node, _Lit):
            return node.v
        orig = self.const_eval
        # wrap: evaluate literals embedded
        if isinstance(node, ast.JoinedStr):
            out = ''
            for v in node.values:
                if isinstance(v, ast.Constant):
                    out += v.value
                else:
                    out += str(self._lit_eval(module, v.value, depth))
            return out
        if isinstance(node, ast.BinOp):
            l, r = self._lit_eval(module, node.left, depth), self._lit_eval(module, node.right, depth)
            if isinstance(node.op, ast.Add):
                return l + r
            if isinstance(node.op, ast.Mod):
                return l % r
            if isinstance(node.op, ast.Mult):
                return l * r
        if isinstance(node, ast.Tuple):
            return tuple(self._lit_eval(module, e, depth) for e in node.elts)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            o = self._lit_eval(module, node.func.value, depth)
            if isinstance(o, (str, dict, list, tuple)) and node.func.attr in ('items', 'keys', 'values', 'upper', 'lower', 'strip'):
                return getattr(o, node.func.attr)()
        return orig(module, node, None, depth + 1)

    def _seq(self, module, elts, cls, depth):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.const_eval(module, e.value, cls, depth + 1))
            else:
                out.append(self.const_eval(module, e, cls, depth + 1))
        return out

    def is_enum(self, cls: Cls):
        for c in self.mro(cls):
            if any((b or '').split('.')[-1] in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum') for b in c.base_names):
                return True
        return False


class _Lit(ast.expr):
    _fields = ()

    def __init__(self, v):
        self.v = v


class Sym(str):
    """A symbolic constant (enum member, class or function name)."""
    def __repr__(self):
        return f"Sym({str(self)})"


class Pattern:
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags

    def __repr__(self):
        return f"Pattern({self.pattern!r},{self.flags})"


def mentions(node, names: set[str]) -> bool:
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and n.id in names:
            return True
        if isinstance(n, ast.Attribute) and n.attr in names:
            return True
        if isinstance(n, ast.keyword) and n.arg in names:
            return True
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in names:
            return True
    return False


def func_walk(node):
    """ast.walk of a function body not descending in nested function definitions / lambdas."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
