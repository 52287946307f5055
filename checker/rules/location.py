"""Where simulators and their libraries are (P18)."""
import shlex
from .util import *
from .raw_data import iscall
from .raw_steps import lab_
from .server import paths

SIMF = 'spicelib/sim/simulator.py'
CLS = ('cls',)
EXE = A(CLS, 'spice_exe')
NAME = A(CLS, 'process_name')
LIBS = A(CLS, '_default_lib_paths')
PLATFORM = ('attr', ('global', 'sys'), 'platform')
USER = 'fred'
HOME = '/home/fred'


class World:
    """a file system: existing files and folders, programs on PATH"""

    def __init__(self, files=(), dirs=(), on_path=(), platform='linux'):
        self.files, self.dirs, self.on_path, self.platform = set(files), set(dirs), set(on_path), platform

    def _p(self, recv, a):
        x = recv if isinstance(recv, pathlib.PurePath) else a[0] if a else None
        if isinstance(x, pathlib.PurePath):
            x = x.as_posix()
        if not isinstance(x, str):
            raise Unknown
        return x

    def calls(self):
        def split(recv, a, kw):
            if len(a) == 1 and not kw and recv is Unknown:
                return shlex.split(a[0])
            raise Unknown

        def expandvars(recv, a, kw):
            return a[0].replace('${USER}', USER).replace('$USER', USER)

        def expanduser(recv, a, kw):
            x = self._p(recv, a)
            y = HOME + x[1:] if x == '~' or x.startswith('~/') else x
            return pathlib.PurePosixPath(y) if isinstance(recv, pathlib.PurePath) else y

        def getenv(recv, a, kw):
            if a[0] in ('USER', 'USERNAME', 'LOGNAME'):
                return USER
            raise Unknown
        x = {
            'exists': lambda r, a, kw: self._p(r, a) in self.files | self.dirs,
            'isfile': lambda r, a, kw: self._p(r, a) in self.files,
            'is_file': lambda r, a, kw: self._p(r, a) in self.files,
            'isdir': lambda r, a, kw: self._p(r, a) in self.dirs,
            'is_dir': lambda r, a, kw: self._p(r, a) in self.dirs,
            'which': lambda r, a, kw: '/usr/bin/' + self._p(None, a) if self._p(None, a) in self.on_path else None,
            'split': split, 'expandvars': expandvars, 'expanduser': expanduser, 'getenv': getenv,
            'PureWindowsPath': lambda r, a, kw: pathlib.PureWindowsPath(*a),
        }
        return x


def run(ps, world, env):
    env = dict(env)
    env[PLATFORM] = world.platform
    return simulated(ps, env, world.calls())


def last(r, path):
    w = [e for e in r.events if e.kind == 'write' and e.path == path]
    return w[-1].value if w else None


PW = pathlib.PurePosixPath
# given, the world, the process name given, expected spice_exe and process_name (None: refused)
CREATE = [
    (PW('/opt/ng/ngspice'), World(files=['/opt/ng/ngspice']), None, ['/opt/ng/ngspice'], 'ngspice'),
    (PW('/opt/ng/ngspice'), World(files=['/opt/ng/ngspice']), 'ng', ['/opt/ng/ngspice'], 'ng'),
    (PW('ngspice'), World(on_path=['ngspice']), None, ['ngspice'], 'ngspice'),
    (PW('/opt/ng/ngspice'), World(files=['/opt/ng/other']), None, None, None),
    (PW('/opt/my sim/ng.exe'), World(files=['/opt/my sim/ng.exe'], platform='darwin'), None, ['/opt/my sim/ng.exe'], 'ng'),
    ('/opt/my sim/ngspice', World(files=['/opt/my sim/ngspice']), None, ['/opt/my sim/ngspice'], 'ngspice'),
    ('/opt/my sim/ngspice', World(files=['/opt/my sim/ngspice']), 'ng', ['/opt/my sim/ngspice'], 'ng'),
    ('wine /opt/lt/LTspice.exe', World(on_path=['wine'], files=['/opt/lt/LTspice.exe']), None, ['wine', '/opt/lt/LTspice.exe'], 'wine'),
    ('wine /opt/lt/LTspice.exe', World(on_path=['wine'], files=['/opt/lt/LTspice.exe']), 'LTspice.exe', ['wine', '/opt/lt/LTspice.exe'], 'LTspice.exe'),
    ('/usr/bin/wine64 -x /opt/lt/LTspice.exe', World(files=['/usr/bin/wine64', '/opt/lt/LTspice.exe'], platform='darwin'), None, ['/usr/bin/wine64', '-x', '/opt/lt/LTspice.exe'], 'wine-preloader'),
    ('wine "/opt/my sim/LTspice.exe"', World(on_path=['wine']), None, ['wine', '/opt/my sim/LTspice.exe'], 'wine'),
    ('nowine /opt/lt/LTspice.exe', World(files=['/opt/lt/LTspice.exe']), None, None, None),
    ('/nowhere/ngspice', World(files=['/opt/ng/ngspice'], on_path=['ngspice']), None, None, None),
    ('ngspice', World(on_path=['ngspice']), None, ['ngspice'], 'ngspice'),
    ('C:\\Program Files\\LT\\LTspice.exe', World(files=['C:/Program Files/LT/LTspice.exe'], platform='win32'), None, ['C:/Program Files/LT/LTspice.exe'], 'LTspice.exe'),
    ('C:\\LT\\LTspice.exe', World(files=['C:/LT/LTspice.exe'], platform='win32'), 'lt', ['C:/LT/LTspice.exe'], 'lt'),
    ('C:\\LT\\LTspice.exe', World(platform='win32'), None, None, None),
    ('', World(files=['/opt/ng/ngspice']), None, None, None),
]
NAMES = [('/opt/ng/ngspice', 'linux', 'ngspice'), ('/opt/lt/LTspice.exe', 'win32', 'LTspice.exe'), ('/opt/lt/LTspice.exe', 'darwin', 'LTspice'), ('/usr/local/bin/wine64', 'darwin', 'wine-preloader'),
         ('/usr/bin/wine', 'linux', 'wine'), ('', 'linux', ''), ('', 'darwin', '')]
AVAILABLE = [([], World(), False), (['/opt/ng/ngspice'], World(files=['/opt/ng/ngspice']), True), (['ngspice'], World(on_path=['ngspice']), True), (['/opt/ng/ngspice'], World(), False), (['ngspice'], World(), False),
             (['wine', '/opt/lt/LTspice.exe'], World(on_path=['wine']), True), (['wine', '/opt/lt/LTspice.exe'], World(files=['/opt/lt/LTspice.exe']), False), (['/usr/bin/wine', '/opt/x.exe'], World(files=['/usr/bin/wine', '/opt/x.exe']), True)]
W = '/home/fred/.wine/drive_c/'
WEXE = W + 'LT/LTspice.exe'
EXPAND = [
    ('C:/mydir', WEXE, World(dirs=[W + 'mydir']), W + 'mydir'),
    ('c:/mydir/sub', WEXE, World(dirs=[W + 'mydir/sub']), W + 'mydir/sub'),
    ('~/mydir', WEXE, World(dirs=[W + 'users/fred/mydir', HOME + '/mydir']), W + 'users/fred/mydir'),
    ('~/mydir', WEXE, World(dirs=[W + 'users/fred/mydir'], platform='darwin'), W + 'users/fred/mydir'),
    ('C:/mydir', WEXE, World(dirs=[W + 'mydir'], platform='darwin'), W + 'mydir'),
    ('C:/mydir', WEXE, World(dirs=['C:/mydir']), None),
    ('C:/mydir', WEXE, World(files=[W + 'mydir']), None),
    ('~/mydir', WEXE, World(dirs=[HOME + '/mydir']), None),
    ('/opt/lib', WEXE, World(dirs=['/opt/lib']), '/opt/lib'),
    ('~/lib', '/opt/ng/ngspice', World(dirs=[HOME + '/lib']), HOME + '/lib'),
    ('~/lib', None, World(dirs=[HOME + '/lib']), HOME + '/lib'),
    ('~/lib', None, World(dirs=['/lib', '~/lib']), None),
    ('/opt/lib', None, World(dirs=['/opt/lib']), '/opt/lib'),
    ('/opt/lib', None, World(files=['/opt/lib']), None),
    ('/opt/lib', None, World(), None),
    ('C:/mydir', 'C:/LT/LTspice.exe', World(dirs=['C:/mydir'], platform='win32'), 'C:/mydir'),
    ('C:/mydir', 'X:/drive_c/LTspice.exe', World(dirs=['C:/mydir'], platform='win32'), 'C:/mydir'),
    ('~/mydir', 'C:/LT/LTspice.exe', World(dirs=[HOME + '/mydir'], platform='win32'), HOME + '/mydir'),
]
LIB = [([], World(), None), (['/opt/ng/ngspice'], World(files=['/opt/ng/ngspice']), '/opt/ng/ngspice'), (['wine', WEXE], World(files=[WEXE, 'wine']), WEXE), (['ngspice'], World(on_path=['ngspice']), None), (['wine', WEXE], World(on_path=['wine']), None),
       (['wine', WEXE], World(files=[WEXE]), WEXE), (['/usr/bin/wine', WEXE], World(files=['/usr/bin/wine']), None)]


@prop('P18', 'The simulator used is the one that was named, with its own libraries',
      'Simulator.create_from() given a Path, or a string naming an existing file (which may contain spaces), sets spice_exe to that one path; a string with backslashes that does not exist as it is written is taken as one '
      'Windows path and kept in posix form; any other string is split into its parts as a shell would, the loader first. It is accepted only if the first part exists or is found on the PATH; otherwise FileNotFoundError is '
      'raised and spice_exe and process_name stay as they were. The process name is the one given, else the file name of the first part (on macOS without extension, and wine-preloader for wine). is_available() tells whether the first '
      'part of spice_exe exists or is on the PATH. get_default_library_paths() returns, in order, the default library folders that exist, looked up relative to the last part of spice_exe if that exists. '
      'expand_and_check_local_dir() maps C:/ and ~ into the wine drive (users/<USER>) when the executable is in one and the platform is Linux or macOS, expands ~ otherwise, and returns the folder only if it exists and is a folder, else None. '
      'No path is put together from parts of which a later one is absolute, which would drop the earlier ones.',
      ['inputs', 'configurations'],
      'any executable, loader, platform and file system, for every simulator class',
      'The tests never configure a simulator, and run on one platform without any simulator or wine installed.',
      [SIMF, 'spicelib/simulators/ltspice_simulator.py', 'spicelib/simulators/qspice_simulator.py', 'spicelib/simulators/ngspice_simulator.py', 'spicelib/simulators/xyce_simulator.py'],
      [dict(name='create_from', where=SIMF + ':Simulator.create_from'), dict(name='libraries', where=SIMF + ':Simulator.get_default_library_paths, expand_and_check_local_dir'), dict(name='search', where=SIMF + ':Simulator.is_available')],
      'All paths of the functions are enumerated; their conditions and results are decided by constant propagation for representative executables, platforms and sets of existing files, and compared with what the property says.',
      'path enumeration with constant propagation over a model of the file system; lint of path joins',
      'All paths; the inputs are representatives of the cases distinguished in the property.', ['os.path, pathlib, shlex and shutil.which behave as documented'])
def p18(c: Ctx):
    R1 = c.rule('P18.create', 'create_from takes over exactly the executable and the process name that were given', len(CREATE))
    R2 = c.rule('P18.name', 'the process name follows from the executable and the platform', len(NAMES))
    R3 = c.rule('P18.available', 'a simulator is available if its first part exists or is on the PATH', len(AVAILABLE))
    R4 = c.rule('P18.expand', 'library folders are mapped into the wine drive and checked', len(EXPAND))
    R5 = c.rule('P18.libs', 'all default library folders that exist are listed, in order', 5)
    R6 = c.rule('P18.join', 'no path is joined with an absolute part', 3)
    k = c.p.cls('Simulator')
    with c.attempt('create_from'):
        lab = lab_(k, 'create_from')
        ps = list(paths(c, k, 'create_from'))
        for given, world, pn, exe, name in CREATE:
            for r, w, sure in run(ps, world, {P('path_to_exe'): given, P('process_name'): pn}):
                if not sure:
                    continue
                if sure == BREAKS:
                    c.bad(R1, lab, f'{given!r} raises an exception', r)
                    continue
                what = f'{given!r} ' + (f'with process name {pn!r} ' if pn else '') + f'on {world.platform} '
                if exe is None:
                    c.require(r.outcome.kind == 'raise' and 'FileNotFoundError' in str(r.outcome.value) and not any(e.kind in ('write', 'aug', 'setitem') and e.path in (EXE, NAME) for e in r.events), R1, lab,
                              what + 'is not refused although it does not exist', r)
                    continue
                if r.outcome.kind != 'return':
                    c.bad(R1, lab, what + 'is refused although it exists', r)
                    continue
                c.require(r.outcome.value == CLS, R1, lab, 'the class is not returned', r)
                for path, want in ((EXE, exe), (NAME, name)):
                    v = last(r, path)
                    if v is None:
                        c.bad(R1, lab, what + f'does not set {path[2]}', r)
                        continue
                    try:
                        got = evaluate(v, w)
                    except Missing:
                        c.bad(R1, lab, what + f'breaks setting {path[2]}', r)
                        continue
                    except Unknown:
                        continue
                    c.require(got == want, R1, lab, what + f'sets {path[2]} to {got!r} instead of {want!r}', r)
    with c.attempt('guess_process_name'):
        lab = lab_(k, 'guess_process_name')
        ps = list(paths(c, k, 'guess_process_name'))
        arg0 = P(c.p.lookup(k, 'guess_process_name').arg_names()[-1])
        for given, platform, want in NAMES:
            decide(c, R2, lab, ps, World(platform=platform), {arg0: given}, want, f'{given!r} on {platform}')
    with c.attempt('is_available'):
        lab = lab_(k, 'is_available')
        ps = list(paths(c, k, 'is_available'))
        for exe, world, want in AVAILABLE:
            decide(c, R3, lab, ps, world, {EXE: exe}, want, f'spice_exe {exe}', as_bool=True)
    with c.attempt('expand_and_check_local_dir'):
        f = c.p.lookup(k, 'expand_and_check_local_dir')
        lab = lab_(k, 'expand_and_check_local_dir')
        ps = list(paths(c, k, 'expand_and_check_local_dir'))
        a = [P(n) for n in f.arg_names() if n not in ('self', 'cls')]
        for path, exe, world, want in EXPAND:
            decide(c, R4, lab, ps, world, {a[0]: path, a[1]: exe}, want, f'{path} with {exe} on {world.platform}')
    with c.attempt('get_default_library_paths'):
        lab = lab_(k, 'get_default_library_paths')
        ps = list(paths(c, k, 'get_default_library_paths', opaque={'expand_and_check_local_dir'}))
        for r in ps:
            if r.outcome.kind != 'return':
                c.bad(R5, lab, 'the folders are not returned', r)
                continue
            es = built(r, r.outcome.value)
            if r.outcome.value == NONE:
                c.bad(R5, lab, 'nothing is returned', r)
            if not es:
                if es == []:
                    c.require(any(e.kind == 'loop0' and whole(e.value) == LIBS for e in r.events), R5, lab, 'an empty list is returned although there are default folders', r)
                continue
            for e in es:
                while whole(e.src)[0] == 'comp' and len(whole(e.src)[2]) == len(whole(e.src)[3]) == 1:
                    g = whole(e.src)
                    if e.elt == ('elem', g):
                        e.elt = g[2][0]
                    e.facts = [(replace(l, ('elem', g), g[2][0]), p) for l, p in e.facts] + [(l, True) for l in g[3][0][1]]
                    e.src = g[3][0][0]
                c.require(whole(e.src) == LIBS, R5, lab, f'the folders come from {show(e.src)}', r)
                made = [x for x in r.events if iscall(x, 'expand_and_check_local_dir')]
                ex = [x for x in made if x.args and x.args[0][0] == 'elem' and whole(x.args[0][1]) == LIBS]
                if e.elt is not None and e.elt[0] == 'res':
                    c.require(any(e.elt[1] == x.n for x in ex), R5, lab, 'a folder is listed that is not the expanded one', r)
                for x in ex:
                    t = e.fact(('isnone', ('res', x.n, x.name)))
                    if t is None:
                        b = e.fact(('res', x.n, x.name))
                        t = None if b is None else not b
                    if t is None:
                        c.require(not e.added, R5, lab, 'a folder is listed without regard to its existence', r)
                    else:
                        c.require(e.added == (t is False), R5, lab, 'a folder that exists is not listed' if not e.added else 'a folder that does not exist is listed', r)
        for exe, world, want in LIB:
            for r, w, sure in run(ps, world, {EXE: exe, LIBS: ['C:/a', 'C:/b']}):
                if not certain_but(r, w):
                    continue
                for x in r.events:
                    if iscall(x, 'expand_and_check_local_dir'):
                        v = arg_(x, 1, 'exe_path')
                        try:
                            got = evaluate(v, w) if v is not None else None
                        except Unknown:
                            continue
                        c.require(got == want, R5, lab, f'with spice_exe {exe} the folders are looked up relative to {got!r} instead of {want!r}', r)
    with c.attempt('joins'):
        for m in c.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('join', 'joinpath') and (dotted(n.func) or '') in ('os.path.join', 'path.join') or \
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'joinpath':
                    rest = n.args[1:] if n.func.attr == 'join' else n.args
                    bad = [a for a in rest if _absolute(a)]
                    lab = f'{m.rel}:{n.lineno}'
                    c.require(not bad, R6, lab.rsplit(':', 1)[0], f'{ast.unparse(n)} drops what is before the absolute part')


def _absolute(a):
    if isinstance(a, ast.JoinedStr) and a.values:
        a = a.values[0]
    return isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value[:1] in ('/', '\\')


def arg_(e, i, name):
    return e.arg(i, name)


def certain_but(r, env):
    """the path is taken for sure apart from the answers of expand_and_check_local_dir"""
    for e in r.events:
        if e.kind == 'assume':
            try:
                if bool(evaluate(e.lit, env)) != e.pol:
                    return False
            except Unknown:
                if not any(s[0] == 'res' and s[2] == 'expand_and_check_local_dir' for s in subvalues(e.lit)):
                    return False
    return True


def decide(c, rule, lab, ps, world, env, want, what, as_bool=False):
    for r, w, sure in run(ps, world, env):
        if not sure:
            continue
        if r.outcome.kind == 'raise' or sure == BREAKS:
            c.bad(rule, lab, what + ' raises an exception', r)
            continue
        if r.outcome.kind != 'return':
            continue
        try:
            got = evaluate(r.outcome.value, w)
        except Missing:
            c.bad(rule, lab, what + ' raises an exception', r)
            continue
        except Unknown:
            continue
        if isinstance(got, pathlib.PurePath):
            got = str(got)
        if as_bool:
            got = bool(got)
        c.require(got == want, rule, lab, what + f' gives {got!r} instead of {want!r}', r)
