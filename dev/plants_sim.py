PRE = '''
import sys, os, time, threading, logging
from pathlib import Path
os.chdir(sys.argv[1])
logging.disable(logging.CRITICAL)
from spicelib.sim.simulator import Simulator
from spicelib.sim.sim_runner import SimRunner
class Fake(Simulator):
    raw_extension = '.raw'
    spice_exe = ['fake']
    process_name = 'nothing-of-that-name'
    hook = staticmethod(lambda f: 0)
    seen = []
    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, **kw):
        cls.seen.append((netlist_file, cmd_line_switches, timeout, kw))
        f = Path(netlist_file)
        f.with_suffix('.log').write_text('log')
        f.with_suffix('.raw').write_text('raw')
        return cls.hook(f)
    @classmethod
    def valid_switch(cls, switch, path=''):
        return [switch]
Path('c.net').write_text('* c\\nR1 a 0 1k\\n.end\\n')
'''
R = 'sim/sim_runner.py'; T = 'sim/run_task.py'
PLANTS = [
dict(id='p01_count_negative', property='P01', edits=[(R, "        if t.retcode == 0:\n            self._okSim += 1\n        else:", "        if t.retcode == 0:\n            self._okSim += 1\n        elif t.retcode > 0:")],
  needs='a blocking run of a simulation that ends with an exception', breaks='a simulation that raised is counted neither as successful nor as failed',
  demo=PRE + '''
def boom(f): raise RuntimeError('x')
Fake.hook = staticmethod(boom)
r = SimRunner(simulator=Fake, parallel_sims=9)
r.run_now('c.net')
print(len(r.completed_tasks), r.okSim, r.failSim)
assert len(r.completed_tasks) == 1 and r.okSim == 0 and r.failSim == 1
'''),
dict(id='p02_limit_snapshot', property='P02', edits=[(R, "            if (wait_resource is False) or (self.active_threads() < self.parallel_sims):",
  "            if (wait_resource is False) or (len(self.completed_tasks) + self.parallel_sims > self._runno - 1):")],
  needs='a submission that gives up waiting (or run numbers ahead of completions), then slots becoming free', breaks='slots are computed from run numbers, so a run that was refused keeps a slot forever and submissions later starve',
  demo=PRE + '''
ev = threading.Event()
def hook(f):
    ev.wait(20); return 0
Fake.hook = staticmethod(hook)
r = SimRunner(simulator=Fake, parallel_sims=1)
a = r.run('c.net')
b = r.run('c.net', timeout=-2)     # no slot: refused
assert b is None, b
ev.set(); a.join()
c = r.run('c.net', timeout=0.5)      # the slot is free again
assert c is not None, 'free slot not used'
c.join()
'''),
dict(id='p03_edits_shared', property='P03', edits=[(T, "        self._edits = copy(netlist_updates)", "        self._edits = netlist_updates if len(netlist_updates) > 8 else copy(netlist_updates)")],
  needs='more than eight recorded edits before the run, and a further edit afterwards', breaks='the task shares the editor\'s record of edits, so later edits change the record of a run already submitted',
  demo=PRE + '''
from spicelib.editor.spice_editor import SpiceEditor
Path('d.net').write_text('* c\\n' + ''.join(f'R{i} a 0 1k\\n' for i in range(12)) + '.end\\n')
n = SpiceEditor('d.net')
r = SimRunner(simulator=Fake)
for i in range(10): n[f'R{i}'].value = '2k'
t = r.run(n); t.join()
k = len(t.edits)
n['R11'].value = '5k'
print(k, len(t.edits))
assert len(t.edits) == k
'''),
dict(id='p04_fail_log_lost', property='P04', edits=[(T, "            if self.log_file.exists():\n                self.log_file = self.log_file.replace(self.log_file.with_suffix('.fail'))",
   "            fail_file = self.log_file.with_suffix('.fail')\n            if self.log_file.exists() and not fail_file.exists():\n                self.log_file = self.log_file.replace(fail_file)")],
  needs='a failing run whose .fail file exists already from an earlier session', breaks='the log of the failed run is not set aside and stays under the .log name when an older .fail file is present',
  demo=PRE + '''
Fake.hook = staticmethod(lambda f: 1)
Path('c_1.fail').write_text('old')
r = SimRunner(simulator=Fake)
t = r.run('c.net'); t.join()
print(t.log_file)
assert t.log_file.name == 'c_1.fail' and t.log_file.read_text() == 'log'
'''),
dict(id='p05_callback_without_log', property='P05', edits=[(T, "            if self.raw_file.exists() and self.log_file.exists():", "            if self.raw_file.exists() or self.log_file.exists():")],
  needs='a simulator that returns zero but leaves no raw file', breaks='the callback is called for a run without raw file',
  demo=PRE + '''
def hook(f):
    f.with_suffix('.raw').unlink(); return 0
Fake.hook = staticmethod(hook)
called = []
r = SimRunner(simulator=Fake)
t = r.run('c.net', callback=lambda raw, log: called.append(raw)); t.join()
assert not called, called
'''),
dict(id='p06_timeout_zero_cwd', property='P06', edits=[('simulators/ngspice_simulator.py', "error = run_function(cmd_run, timeout=timeout, stdout=outfile, stderr=subprocess.STDOUT, cwd=cwd)", "error = run_function(cmd_run, timeout=timeout, stdout=outfile, stderr=subprocess.STDOUT)")],
  needs='ngspice run with exe_log=True and a working directory', breaks='the working directory is not passed when the console output goes to a log file',
  demo=PRE + '''
import spicelib.simulators.ngspice_simulator as m
got = []
m.run_function = lambda cmd, **k: got.append(k) or 0
class N(m.NGspiceSimulator):
    spice_exe = [sys.executable]
N.run(Path('c.net').absolute(), [], 5, cwd=sys.argv[1], exe_log=True)
assert got[0].get('cwd') == sys.argv[1], got
'''),
dict(id='p07_prefix_match', property='P07', edits=[('simulators/ltspice_simulator.py', "            switches = [switch.replace('<path>', path) for switch in switches]\n            return switches", "            if path:\n                switches = [switch.replace('<path>', path) for switch in switches]\n            return switches")],
  needs='a switch asked for without a path, whose result the caller then extends', breaks='the row of the switch table itself is handed out, so a caller changing it changes all later runs',
  demo=PRE + '''
from spicelib.simulators.ltspice_simulator import LTspice
a = LTspice.valid_switch('-alt'); a.append('-x')
b = LTspice.valid_switch('-alt')
print(b); assert b == ['-alt'], b
'''),
dict(id='p08_iter_skip_before_wait', property='P08', edits=[(R, "                if self.match_conditions(task):\n                    if task.retcode == 0:", "                if self.match_conditions(task):\n                    if task.retcode == 0 and task.raw_file.exists():")],
  needs='a raw file removed (e.g. by the callback) before the results are iterated', breaks='a completed successful run is skipped in the iteration when its raw file was already consumed',
  demo=PRE + '''
r = SimRunner(simulator=Fake)
t = r.run('c.net', callback=lambda raw, log: raw.unlink() or 'done'); t.join()
res = list(r)
print(res); assert len(res) == 1
'''),
dict(id='p09_cleanup_op_glob', property='P09', edits=[(R, """                for ext in ('.log.raw', '.op.raw', '.db'):
                    self._del_file_ext_if_exists(netlistfile, ext)
""", """                for ext in ('.log.raw', '.op.raw', '.db'):
                    self._del_file_ext_if_exists(netlistfile, ext)
                for leftover in netlistfile.parent.glob(netlistfile.stem + '*.db'):
                    self._del_file_if_exists(leftover)
""")],
  needs='a run whose number is the beginning of the number of another run (c_1 and c_10) or a file of the caller with such a name', breaks='cleaning up run c_1 also deletes files of c_10 and files of the caller that start like it',
  demo=PRE + '''
Path('out').mkdir()
Path('out/c_1_results.db').write_text('mine')
r = SimRunner(simulator=Fake, output_folder='out')
r.run('c.net').join()
r.cleanup_files()
assert Path('out/c_1_results.db').exists()
'''),
]
