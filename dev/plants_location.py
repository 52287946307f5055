PRE = '''
import sys, os, stat, logging
from pathlib import Path
os.chdir(sys.argv[1])
logging.disable(logging.CRITICAL)
from spicelib.sim.simulator import Simulator
class Sim(Simulator):
    spice_exe = []
    process_name = ''
    @classmethod
    def run(cls, *a, **k): return 0
    @classmethod
    def valid_switch(cls, *a): return []
def exe(p):
    p = Path(p); p.parent.mkdir(parents=True, exist_ok=True); p.write_text('#!/bin/sh\\n'); p.chmod(0o755)
    return p.absolute().as_posix()
'''
S = 'sim/simulator.py'
PLANTS = [
dict(id='p18_loader_library', property='P18', edits=[(S, "            if os.path.exists(cls.spice_exe[-1]):", "            if os.path.exists(cls.spice_exe[0]):")],
  needs='a simulator run through a loader found on the PATH', breaks='the libraries of the simulator under wine are not found any more',
  demo=PRE + '''
x = exe('root/drive_c/lt/sim.exe')
Path('root/drive_c/lib').mkdir()
Sim.spice_exe = ['wine-of-that-name', x]
Sim._default_lib_paths = ['C:/lib', 'C:/none']
assert Sim.get_default_library_paths() == [os.path.abspath('root/drive_c/lib')], Sim.get_default_library_paths()
'''),
dict(id='p18_quoted_parts', property='P18', edits=[(S, "                exe_parts = shlex.split(path_to_exe)", "                exe_parts = path_to_exe.split()")],
  needs='a loader given together with a quoted path that has a space', breaks='the path of the simulator is torn apart at its space',
  demo=PRE + '''
w = exe('wine'); x = exe('my sim/sim.exe')
Sim.create_from(w + ' "' + x + '"')
assert Sim.spice_exe == [w, x], Sim.spice_exe
'''),
dict(id='p18_windows_path', property='P18', edits=[(S, "            if '\\\\' in path_to_exe:", "            if '\\\\' in path_to_exe and ' ' not in path_to_exe:")],
  needs='a Windows path with a space in it', breaks='it is split at the space and its backslashes are dropped',
  demo=PRE + '''
exe('C:/Program Files/LT/lt.exe')
Sim.create_from('C:\\\\Program Files\\\\LT\\\\lt.exe')
assert Sim.spice_exe == ['C:/Program Files/LT/lt.exe'] and Sim.process_name == 'lt.exe', Sim.spice_exe
'''),
dict(id='p18_available_loader', property='P18', edits=[(S, "            if shutil.which(cls.spice_exe[0]):\n                return True", "            if shutil.which(cls.spice_exe[-1]):\n                return True")],
  needs='a loader found on the PATH', breaks='the simulator counts as not available (or as available without its loader)',
  demo=PRE + '''
exe('bin/myloader'); os.environ['PATH'] = os.path.abspath('bin') + os.pathsep + os.environ['PATH']
Sim.spice_exe = ['myloader', '/nowhere/sim.exe']
assert Sim.is_available() is True
Sim.spice_exe = ['noloader', 'myloader']
assert not Sim.is_available()
'''),
dict(id='p18_wine_home', property='P18', edits=[(S, 'os.path.expandvars("${USER}" + path[1:])', 'os.path.expanduser("~" + path[1:]).rsplit("/", 1)[-1]')],
  needs='a library folder in the home directory of the user, with the simulator under wine', breaks='only the last part of the folder is kept',
  demo=PRE + '''
os.environ['USER'] = 'fred'
x = exe('root/drive_c/lt/sim.exe')
Path('root/drive_c/users/fred/Documents/lib').mkdir(parents=True)
got = Simulator.expand_and_check_local_dir('~/Documents/lib', x)
assert got == os.path.abspath('root/drive_c/users/fred/Documents/lib'), got
'''),
]
