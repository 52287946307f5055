"""Where symbols, libraries and schematics are looked for (P54)."""
import pathlib
import posixpath
from .util import *
from .server import QUIET
from .scripts import feasible

FS = 'spicelib/utils/file_search.py'
PURE = {'join', 'getcwd', 'expanduser', 'dirname', 'basename', 'normpath', 'abspath', 'cwd', 'home'}
OSP = ('attr', ('global', 'os'), 'path')
SELF = ('self',)
CIRCUIT, CUSTOM, SIM = '/w/circ/c.asc', ['/c1', '/c2'], ['/s1', '/s2']
SEARCH = 'search_file_in_containers'
Q = QUIET | {SEARCH}


def base_env():
    return {A(OSP, 'curdir'): '.', ('attr', ('global', 'os'), 'curdir'): '.', ('mcall', ('global', 'os'), 'getcwd', ()): '.', A(OSP, 'extsep'): '.', ('attr', ('global', 'os'), 'extsep'): '.'}


def editor_env(**more):
    env = base_env()
    for n, v in (('_circuit_filepath', CIRCUIT), ('circuit_file', CIRCUIT), ('custom_lib_paths', CUSTOM), ('simulator_lib_paths', SIM)):
        env[A(SELF, n)] = v
    env.update(more)
    return env


def spread(args, env):
    out = []
    for a in args:
        if a[0] == 'star':
            out += star_(a[1], env)
        else:
            try:
                out.append(str(evaluate(a, env)))
            except Unknown:
                if not consts_(a, '.zip'):
                    raise
    return out


def star_(v, env):
    if v[0] in ('tuple', 'list') and len(v) > 1 and isinstance(v[1], tuple):
        return spread(v[1], env)
    if v[0] == 'grown' and v[1] == 'list':
        return spread(v[2], env)
    if v[0] == 'bin' and v[1] == '+':
        return star_(v[2], env) + star_(v[3], env)
    if v[0] == 'call' and v[1] in ('list', 'tuple') and len(v[2]) == 1:
        return star_(v[2][0], env)
    if v[0] == 'sub' and v[2][0] == 'slice':
        return star_(v[1], env)[slice(*[evaluate(x, env) for x in v[2][1:]])]
    if v[0] == 'call' and v[1] in ('sorted', 'reversed') and len(v[2]) == 1:
        return list({'sorted': sorted, 'reversed': reversed}[v[1]](star_(v[2][0], env)))
    return [str(x) for x in evaluate(v, env)]


def inlined(r, v):
    """a value with the results of joins of paths as the joins"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'res' and v[2] in ('join', 'getcwd'):
            e = res_of(r, v)
            if e is not None and e.recv is not None:
                return ('mcall', e.recv, e.name, inlined(r, e.args))
        return tuple(inlined(r, x) for x in v)
    return v


def consts_(v, end):
    return bool(deep(v, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'const' and isinstance(x[1], str) and x[1].endswith(end)))


def places(args, env):
    """the folders, in order, without the ones searched already and the archives"""
    out = []
    for x in spread(args, env):
        x = x if x != '' else None
        if x is not None and not x.endswith('.zip'):
            x = posixpath.normpath(x)
            if x not in out:
                out.append(x)
    return out


def lowered(v):
    """the text whose case is ignored"""
    return v[1] if v[0] == 'mcall' and v[2] in ('lower', 'upper', 'casefold') else None


def same_name(r, upto, entry, ok):
    """the answers of the path to 'is the entry the file, ignoring case?'"""
    out = []
    for e in r.events[:upto]:
        l = e.lit if e.kind == 'assume' else None
        while l is not None and l[0] == 'truthy':
            l = l[1]
        if l is None or l[0] != 'cmp' or l[1] != 'eq':
            continue
        for a, b in ((l[2], l[3]), (l[3], l[2])):
            if contains(a, entry) and ok(b):
                out.append((e.pol, lowered(a) is not None and lowered(b) is not None))
    return out


def elements(r, src_ok):
    """the elements of the loops of a path over a value"""
    return [(e.n, e.value) for e in r.events if e.kind == 'iter' and src_ok(e.value)]


def res_of(r, v):
    """the call a value is the result of"""
    if v[0] == 'res':
        return next((e for e in r.events if e.kind == 'call' and e.n == v[1]), None)
    return None


@prop('P54', 'Files are looked for in the places that apply to the circuit, in their order',
      'Looking for a file takes the containers in the order given: those that do not exist are passed over, a folder is searched with everything below it for the name (and below the folder the name has in front, if it has one), ignoring '
      'case, a .zip archive for an entry of that name, which is extracted; the path of the first file found is returned and None only after all have been searched. An AscEditor looks for symbols in the folder of its own circuit, the '
      'current folder, the sym folders of the library paths of the simulator and the custom library paths, in this order, and for libraries likewise with sub; for the schematics of blocks in the folder of its circuit, the current folder and the custom '
      'paths; a netlist looks for libraries in the folder of its circuit, the current folder, the library paths of the simulator and the custom ones; a QschEditor in the folder it is told, the current folder, the custom paths and '
      'those of the simulator. A symbol found before is only taken again while the same places apply. set_custom_library_paths replaces the custom paths by those of the folders given that exist, and prepare_for_simulator takes the library paths of the simulator given.',
      ['inputs', 'configurations', 'histories'], 'any file names, folders and sequences of circuits', 'The tests search for files in a few folders of the repository.',
      [FS, 'spicelib/editor/asc_editor.py', 'spicelib/editor/qsch_editor.py', 'spicelib/editor/spice_subcircuit.py', 'spicelib/editor/base_editor.py'],
      [dict(name='search', where=FS + ':search_file_in_containers'), dict(name='cache of symbols', where='spicelib/editor/asc_editor.py:AscEditor._asy_file_find')],
      'All paths of the searches are enumerated with any number of turns of their loops; a path that ends without a file must have seen all containers and no entry with the name. The lists of containers are evaluated by constant '
      'propagation for representative configurations, and the key under which symbols are remembered must contain everything the search depends on.',
      'path enumeration with constant propagation and a dependence check of the cache key', 'Symbols that are deleted or added after they were looked for are not considered.', ['the file system does not change between searches', 'os.walk lists all folders below'])
def p54(c: Ctx):
    R1 = c.rule('P54.folder', 'a folder is searched with all below it', 4)
    R2 = c.rule('P54.containers', 'all containers are searched in their order', 5)
    R3 = c.rule('P54.places', 'the editors search in the places that apply', 8)
    R4 = c.rule('P54.cache', 'what was found before is only used where it would be found again', 1)
    R5 = c.rule('P54.custom', 'the custom library paths are those given', 5)
    R6 = c.rule('P54.simulator', 'the library paths of the simulator are taken', 2)
    with c.attempt('find_file_in_directory'):
        folder(c, R1)
    with c.attempt(SEARCH):
        containers(c, R2)
    with c.attempt('places'):
        editors(c, R3, R4)
    with c.attempt('set_custom_library_paths'):
        custom(c, R5)
    with c.attempt('prepare_for_simulator'):
        simulator(c, R6)


def folder(c, R1):
    f = c.p.function(FS, 'find_file_in_directory')
    lab = f.name
    D, N = P(f.arg_names()[0]), P(f.arg_names()[1])
    ps = c.walk(f, None, any_iteration=True, no_raise=QUIET, pure=PURE)
    for r in ps:
        if r.outcome.kind != 'return':
            continue
        w = next((e for e in r.events if e.kind == 'call' and e.name in ('walk', 'rglob', 'glob')), None)
        if w is None or w.name != 'walk':
            raise Unknown('no os.walk')
        for d, n, want in (('/d', 'x.lib', '/d'), ('/d', 'sub/x.lib', '/d/sub')):
            env = {**base_env(), D: d, N: n}
            if feasible(r.events[:w.n], env):
                try:
                    got = posixpath.normpath(str(evaluate(inlined(r, w.args[0]), env)))
                    c.require(got == want, R1, lab, f'{n} is searched for in {got} instead of {want}', r)
                except Unknown:
                    pass
        top = ('res', w.n, 'walk')
        td = w.arg(1, 'topdown')
        entries = ('item', ('elem', top), 2)
        dirs = ('item', ('elem', top), 1)
        for e in r.events:
            if e.kind in ('write', 'setitem', 'del', 'delitem', 'aug') and e.path is not None and contains(e.path, dirs) or e.kind == 'call' and e.recv == dirs and e.name in ('clear', 'remove', 'pop'):
                c.bad(R1, lab, 'folders below the folder are left out of the search', r)
        ok = lambda b: contains(b, N)
        v = r.outcome.value
        if v == NONE:
            for i, x in elements(r, lambda s: True):
                if x == entries or contains(x, entries):
                    for pol, low in same_name(r, len(r.events), ('elem', x), ok):
                        c.require(not pol, R1, lab, 'a file with the name is passed over', r)
                        c.require(low, R1, lab, 'the case of the name is not ignored', r)
            done = [e for e in r.events if (e.kind == 'loop0' or e.kind == 'loopend' and e.name == 'done') and e.value == top]
            c.require(done, R1, lab, 'the search ends before all folders have been searched', r)
            continue
        j = res_of(r, v)
        args = v[3] if v[0] == 'mcall' and v[1] == OSP and v[2] == 'join' else j.args if j is not None and j.name == 'join' else v[2] if v[0] == 'call' and v[1] == 'Path' else None
        if args is None or len(args) != 2:
            raise Unknown(show(v))
        root, name = args
        c.require(root == ('item', ('elem', top), 0), R1, lab, f'the file is returned in {show(root)}, not in the folder it was found in', r)
        if not contains(name, entries):
            c.bad(R1, lab, f'{show(name)} is returned as the file found', r)
            continue
        if name != ('elem', entries):
            raise Unknown(show(name))
        seen = same_name(r, len(r.events), name, ok)
        c.require([1 for pol, low in seen if pol], R1, lab, 'a file is returned without its name being compared', r)
        c.require(all(low for pol, low in seen), R1, lab, 'the case of the name is not ignored', r)


def containers(c, R2):
    f = c.p.function(FS, SEARCH)
    lab = f.name
    N = P(f.arg_names()[0])
    ALL = P('*' + f.node.args.vararg.arg)
    op = {'find_file_in_directory'}
    ps = c.walk(f, None, any_iteration=True, opaque=op, no_raise=QUIET | op, pure=PURE)
    kinds = set()
    for r in ps:
        if r.outcome.kind != 'return':
            if r.outcome.kind == 'raise':
                c.bad(R2, lab, f'the search raises {show(r.outcome.value)}', r)
            continue
        its = [e for e in r.events if e.kind in ('iter', 'loop0', 'loopend') and contains(e.value, ALL) and not contains(e.value, ('elem', e.value))]
        outer = next((e.value for e in its), None)
        if outer is None:
            raise Unknown('no loop over the containers')
        w = whole(outer)
        if w[0] == 'comp' and len(w[3]) == 1 and w[3][0][0] in (ALL, ('star', ALL)) and w[2][0] == ('elem', w[3][0][0]):
            if not all(contains(x, ('mcall', OSP, 'exists', (w[2][0],))) or 'exists' in str(x) for x in w[3][0][1]):
                raise Unknown(show(outer))
        elif w not in (ALL, ('star', ALL)):
            c.bad(R2, lab, f'the containers are searched in another order, as {show(outer)}', r)
            continue
        cont = ('elem', outer)
        same = (cont, ('elem', w[3][0][0])) if w[0] == 'comp' else (cont,)
        v = r.outcome.value
        inside = [e for e in r.events if e.kind == 'iter' and e.value == outer]
        zips = [e for e in r.events if e.kind == 'call' and e.name == 'namelist']
        finds = [e for e in r.events if e.kind == 'call' and e.name == 'find_file_in_directory']
        for e in finds:
            c.require(e.args[0] in same and e.arg(1, 'filename') == N, R2, lab, f'{show(e.arg(1, "filename"))} is searched for in {show(e.args[0])}', r)
        for e in r.events:
            if e.kind == 'call' and e.name == 'ZipFile':
                c.require(e.args[0] in same, R2, lab, f'{show(e.args[0])} is opened instead of the archive', r)
        facts = [(plain_(e.lit), e.pol) for e in r.events if e.kind == 'assume']
        if v == NONE:
            c.require([e for e in r.events if (e.kind == 'loop0' or e.kind == 'loopend' and e.name == 'done') and e.value == outer], R2, lab, 'the search ends before all containers have been searched', r)
            if not inside:
                continue
            gone = [l for l, pol in facts if not pol and 'exists' in str(l) and any(contains(l, x) for x in same) or not pol and l[0] == 'res' and 'exists' in str(res_of(r, l))]
            for e in finds:
                res = ('res', e.n, e.name)
                none = [1 for l, pol in facts if l == ('isnone', res) and pol or l == res and not pol or l == ('cmp', 'is', res, NONE) and pol]
                c.require(none, R2, lab, 'a file found in a folder is not returned', r)
                kinds.add('folder')
            for e in zips:
                names = ('res', e.n, 'namelist')
                for i, x in elements(r, lambda s: contains(s, names)):
                    for pol, low in same_name(r, len(r.events), ('elem', x), lambda b: contains(b, N)):
                        c.require(not pol and low, R2, lab, 'an entry of the archive with the name is passed over', r)
                kinds.add('zip')
            if not gone and not finds and not zips:
                c.bad(R2, lab, 'a container that exists is not searched', r)
            continue
        e = res_of(r, v)
        if e is None:
            raise Unknown(show(v))
        if e.name == 'find_file_in_directory':
            c.require([1 for l, pol in facts if l in (('isnone', v), ('cmp', 'is', v, NONE)) and not pol or l == v and pol], R2, lab, 'the search ends with a folder that does not have the file', r)
        elif e.name == 'extract':
            entry = e.args[0]
            names = next((('res', z.n, 'namelist') for z in zips), None)
            if names is None or not contains(entry, names):
                c.bad(R2, lab, f'{show(entry)} is extracted, which is not an entry of the archive', r)
                continue
            if entry[0] != 'elem':
                raise Unknown(show(entry))
            seen = same_name(r, len(r.events), entry, lambda b: contains(b, N))
            c.require([1 for pol, low in seen if pol and low], R2, lab, 'an entry is extracted without its name being compared', r)
        else:
            c.bad(R2, lab, f'{show(v)} is returned instead of the file found', r)
        zip_facts = [pol for l, pol in facts if l in [('mcall', x, 'endswith', (('const', '.zip'),)) for x in same]]
        if zip_facts:
            c.require(zip_facts[0] == (e.name == 'extract'), R2, lab, 'an archive is searched as a folder or a folder as an archive', r)
    c.require({'folder', 'zip'} <= kinds, R2, lab, f'only {sorted(kinds)} are searched')


def plain_(l):
    while l[0] == 'truthy':
        l = l[1]
    return l


def editors(c, R3, R4):
    asc, qsch, net = c.p.cls('AscEditor'), c.p.cls('QschEditor'), c.p.cls('SpiceCircuit')
    w = '/w/circ'
    sym, sub = [x + '/sym' for x in SIM], [x + '/sub' for x in SIM]
    cases = [(asc, '_asy_file_find', editor_env(), [w, '.', *sym, *CUSTOM], {}),
             (asc, '_lib_file_find', editor_env(), [w, '.', *sub, *CUSTOM], {}),
             (asc, '_get_subcircuit', editor_env(), None, dict(block=[w, '.', *CUSTOM], lib=[w, '.', *sub, *CUSTOM]))]
    W = P('work_dir')
    for x, want in ((None, []), ('.', []), ('/q', ['/q'])):
        cases.append((qsch, '_qsch_file_find', editor_env(**{}) | {W: x}, [*[y for y in want], '.', *CUSTOM, *SIM], {}))
    E = A(SELF, 'editor')
    env = base_env()
    for ed, want in ((Obj('E', circuit_file=CIRCUIT, custom_lib_paths=CUSTOM, simulator_lib_paths=SIM), [w, '.', *SIM, *CUSTOM]), (Obj('E', circuit_file='', custom_lib_paths=CUSTOM, simulator_lib_paths=SIM), ['.', *SIM, *CUSTOM]),
                     (None, ['.'])):
        cases.append((net, 'find_library', env | {E: ed}, want, {}))
    for k, m, env, want, by in cases:
        lab = f'{k.name}.{m}'
        with c.attempt(lab):
            f = c.p.lookup(k, m)
            op = {SEARCH} | ({'AscEditor', 'SpiceEditor', 'find_subckt_in_lib', 'get_library', 'get_schematic_file', 'get_model'} if by else set())
            ps = list(c.walk(f, k, any_iteration=True, opaque=op, no_raise=Q | op, pure=PURE))
            for r in ps:
                if not feasible(r.events, env):
                    continue
                found = [e for e in r.events if e.kind == 'call' and e.name == SEARCH]
                for e in found:
                    got = places(inlined(r, e.args[1:]), env)
                    need = want
                    if by:
                        lib = [x for x in r.events if x.kind == 'call' and x.name == 'get_schematic_file' and x.n < e.n]
                        need = by['block'] if lib else by['lib']
                    c.require(got == need, R3, lab, f'the places searched are {got} instead of {need}', r)
                    if not by:
                        c.require(e.args[0] == P(f.arg_names()[1]) or not_plain(e.args[0]), R3, lab, f'{show(e.args[0])} is searched for instead of the file', r)
                v = r.outcome.value
                if r.outcome.kind == 'return' and not by and len(found) == 1:
                    c.require(v == ('res', found[0].n, SEARCH), R3, lab, f'{show(v)} is returned instead of what was found', r)
            if not by:
                cached(c, R4, lab, f, ps, env)


def not_plain(v):
    """not a form that is known to be another file"""
    return v[0] not in ('const', 'param')


def cached(c, R4, lab, f, ps, env):
    """what a search returns without searching was stored under a key which all of the search depends on"""
    parts = [x for x in env if x[0] == 'attr' and x[1] == SELF] if lab.startswith('Asc') else []
    for r in ps:
        if r.outcome.kind != 'return' or any(e.kind == 'call' and e.name == SEARCH for e in r.events):
            continue
        v = r.outcome.value
        if v == NONE:
            c.bad(R4, lab, 'the file is not searched for', r)
            continue
        key = v[2] if v[0] == 'sub' else v[3][0] if v[0] == 'mcall' and v[2] in ('get', '__getitem__') else None
        call = res_of(r, v)
        if key is None and call is not None and call.name in ('get', 'pop'):
            key = call.args[0]
        if key is None:
            raise Unknown(show(v))
        c.require(contains(key, P(f.arg_names()[1])), R4, lab, 'a file of another name is returned', r)
        for n in ('circuit', 'custom_lib_paths', 'simulator_lib_paths'):
            here = [x for x in parts if (n == 'circuit' and 'circuit' in x[2]) or x[2] == n]
            c.require(any(contains(key, x) for x in here), R4, lab, {'circuit': 'a file found for a circuit is taken for those of other folders', 'custom_lib_paths': 'a file found before is taken whatever the custom library paths are now',
                                                                      'simulator_lib_paths': 'a file found before is taken whatever the simulator is now'}[n], r)
        c.require('getcwd' in str(key) or 'abspath' in str(key) or 'cwd' in str(key), R4, lab, 'a file found in the current folder is taken in other ones', r)
    for r in ps:
        for e in r.events:
            if e.kind in ('write', 'setitem') and e.path[0] == 'sub' and 'cache' in str(e.path[1]):
                src = res_of(r, e.value)
                c.require(src is not None and src.name == SEARCH, R4, lab, f'{show(e.value)} is remembered instead of the file found', r)
                asked = [plain_(x.lit) for x in r.events if x.kind == 'assume' and plain_(x.lit)[0] == 'cmp' and plain_(x.lit)[1] == 'in' and plain_(x.lit)[3] == e.path[1]]
                c.require(all(a[2] == e.path[2] for a in asked), R4, lab, 'what is found is remembered under another key', r)


def custom(c, R5):
    k = c.p.cls('BaseEditor')
    f = c.p.lookup(k, 'set_custom_library_paths')
    lab = 'BaseEditor.set_custom_library_paths'
    ALL = P('*' + f.node.args.vararg.arg)
    ps = c.walk(f, k, any_iteration=True, no_raise=QUIET | {'exists', 'isdir', 'is_dir'}, pure=PURE | {'exists', 'isdir'})
    attr = 'custom_lib_paths'
    for r in ps:
        if r.outcome.kind != 'return':
            c.bad(R5, lab, f'the paths are refused: {show(r.outcome.value)}', r)
            continue
        w = [e for e in r.events if e.kind == 'write' and e.path[0] == 'attr' and e.path[2] == attr]
        adds = [e for e in r.events if e.kind == 'call' and e.name in ('append', 'extend') and e.recv is not None and e.recv[0] == 'attr' and e.recv[2] == attr]
        clears = [e for e in r.events if e.kind == 'call' and e.name == 'clear' and e.recv is not None and e.recv[0] == 'attr' and e.recv[2] == attr]
        c.require(w or clears, R5, lab, 'the paths set before are kept', r)
        if clears and not w:
            c.bad(R5, lab, 'the list is emptied in place, which may be the list of another class', r)
        if not w:
            continue
        if len(w) > 1 or w[0].value not in (('list', ()), ('call', 'list', ())) or [e for e in adds if e.name != 'append']:
            raise Unknown('another form of building the list')
        c.require(all(e.n > w[0].n for e in adds), R5, lab, 'paths given are dropped again', r)
        its = [e for e in r.events if e.kind == 'iter']
        if not its:
            continue
        paths_ = [('elem', e.value) for e in its]
        one = ('elem', ALL) if ('elem', ALL) in paths_ else ('elem', ('star', ALL))
        if one not in paths_:
            raise Unknown(show(its[0].value))
        more = ('elem', one)
        for what, first, x in (('a path', '/lib', '/lib'), ('a path of the home folder', '~/lib', '~/lib'), ('a list of paths', ['/lib'], '/lib'), ('a list with a path of the home folder', ['~/lib'], '~/lib')):
            this = more if isinstance(first, list) else one
            if (more in paths_) != isinstance(first, list):
                continue
            for exists in (True, False):
                env = {**base_env(), one: first, more: x}
                full = x.replace('~', '/home/u')
                home = ('mcall', OSP, 'expanduser', (this,))
                env[home] = full
                for y in (this, home):
                    good = exists and not (y == this and x.startswith('~'))
                    for t in ('exists', 'isdir'):
                        env[('mcall', OSP, t, (y,))] = good
                if not feasible(r.events, env):
                    continue
                got = []
                try:
                    got = [evaluate(e.args[0], env) for e in adds]
                except Unknown:
                    raise
                want = [full] if exists else []
                c.require(got == want, R5, lab, f'{what} that ' + ('exists' if exists else 'does not exist') + f': {got} is added instead of {want}', r)


def simulator(c, R6):
    k = c.p.cls('BaseEditor')
    f = c.p.lookup(k, 'prepare_for_simulator')
    lab = 'BaseEditor.prepare_for_simulator'
    S = P(f.arg_names()[-1])
    op = {'get_default_library_paths'}
    for r in c.walk(f, k, opaque=op, no_raise=QUIET | op):
        none = holds(facts_at(r), ('isnone', S))
        if r.outcome.kind == 'raise':
            c.require(none, R6, lab, 'a simulator is refused', r)
            continue
        c.require(not none, R6, lab, 'no simulator is taken for one', r)
        w = [e for e in r.events if e.kind == 'write' and e.path[0] == 'attr' and e.path[2] == 'simulator_lib_paths']
        src = res_of(r, w[-1].value) if w else None
        c.require(src is not None and src.name == 'get_default_library_paths' and src.recv == S, R6, lab, 'the library paths of the simulator are not taken', r)
