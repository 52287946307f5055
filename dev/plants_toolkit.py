PRE = '''
import sys, os, logging, re
os.chdir(sys.argv[1])
logging.disable(logging.CRITICAL)
from spicelib.sim.tookit.montecarlo import Montecarlo
from spicelib.sim.tookit.worst_case import WorstCaseAnalysis
from spicelib.sim.tookit.quick_sensitivity_analysis import QuickSensitivityAnalysis
from spicelib.sim.tookit.fast_worst_case import FastWorstCaseAnalysis
from spicelib.log.logfile_data import LogfileData
from spicelib.editor.spice_editor import SpiceEditor
NET = """* circuit
V1 in 0 10
R1 in out 1k
R2 out 0 3k
C1 out 0 1u
.param gain=2
.tran 1
.end
"""
class LTspice: pass
class Qspice: pass
class Task:
    def __init__(self, no, text, args, run):
        self.runno, self.text, self.args, self.retcode, self.simulator, self.run = no, text, args, 0, LTspice, run
    def get_results(self): return ('result', self.runno)
    def value(self, ref):
        return float(re.search(r'(?im)^%s +\\S+ +\\S+ +(\\S+)' % ref, self.text).group(1))
class Runner:
    def __init__(self, sim=LTspice):
        self.simulator, self.tasks, self.waited = sim, [], 0
    def run(self, netlist, **kw):
        netlist.save_netlist('now.net')
        self.tasks.append(Task(len(self.tasks), open('now.net').read(), kw, None))
        return self.tasks[-1]
    def wait_completion(self, *a, **k):
        self.waited = len(self.tasks)
        return True
    def cleanup_files(self): pass
def make(cls, sim=LTspice, net=NET):
    open('c.net', 'w').write(net)
    r = Runner(sim)
    return cls(SpiceEditor('c.net'), r), r
'''
S = 'sim/tookit/sim_analysis.py'; T = 'sim/tookit/tolerance_deviations.py'; M = 'sim/tookit/montecarlo.py'; W = 'sim/tookit/worst_case.py'; Q = 'sim/tookit/quick_sensitivity_analysis.py'; F = 'sim/tookit/fast_worst_case.py'
PLANTS = [
dict(id='p30_stale_step', property='P30', edits=[(T, '        self.editor.remove_instruction(".step param run -1 %d 1" % self.last_run_number)  # removes this instruction\n', '        if not self.simulations:  # otherwise an earlier execution removed it\n            self.editor.remove_instruction(".step param run -1 %d 1" % self.last_run_number)\n')],
  needs='a second execution after the netlist was reset', breaks='the .step of the testbench stays in the netlist together with the one of the block',
  demo=PRE + '''
for n, per in ((9, 4), (9, 20)):
    m, r = make(Montecarlo)
    m.set_tolerance('R', 0.1)
    m.prepare_testbench(num_runs=n)
    m.run_testbench(runs_per_sim=per)
    m.reset_netlist()
    m.prepare_testbench(num_runs=n)
    m.run_testbench(runs_per_sim=per)
    for t in r.tasks:
        assert len(re.findall(r'(?im)^\\.step param run', t.text)) == 1, (n, per, t.text)
'''),
dict(id='p30_last_block', property='P30', edits=[(T, '            if last_no > self.last_run_number:\n                last_no = self.last_run_number\n', '            if last_no > self.last_run_number > sim_no:\n                last_no = self.last_run_number - (sim_no >= 0 and runs_per_sim % 2)\n')],
  needs='an odd size of blocks that does not divide the number of runs', breaks='the last run is not simulated',
  demo=PRE + '''
for n in range(1, 24):
    for per in range(2, 9):
        m, r = make(Montecarlo)
        m.set_tolerance('R', 0.1)
        m.prepare_testbench(num_runs=n)
        m.run_testbench(runs_per_sim=per)
        runs = []
        for t in r.tasks:
            a, b = re.search(r'(?im)^.step param run (-?\\d+) (\\d+) 1', t.text).groups()
            runs += range(int(a), int(b) + 1)
        assert runs == list(range(-1, n + 1)), (n, per, runs)
'''),
dict(id='p46_reset_order', property='P46', edits=[(M, '            self._reset_netlist()  # reset the netlist\n            self.play_instructions()  # play the instructions\n', '            if run == 0 or self.device_deviations:\n                self._reset_netlist()  # reset the netlist\n            self.play_instructions()  # play the instructions\n')],
  needs='tolerances given for prefixes only, and several runs', breaks='the values of a run are taken around those of the run before instead of the nominal ones',
  demo=PRE + '''
import random
class R:
    def uniform(self, a, b): return b
    def gauss(self, m, s): return m + s
random.Random = R
m, r = make(Montecarlo)
m.set_tolerance('R', 0.1)
m.set_component_value('R2', 2000)
m.run_analysis(num_runs=4)
for t in r.tasks:
    assert '1100' in t.text and '2200' in t.text, t.text
'''),
dict(id='p46_parameter_unplayed', property='P46', edits=[(S, "            elif instruction[0] == 'set_parameter':\n                self.editor.set_parameter(instruction[1], instruction[2])\n", "            elif instruction[0] == 'set_parameter':\n                if instruction != self.received_instructions[0]:\n                    self.editor.set_parameter(instruction[1], instruction[2])\n")],
  needs='set_parameter() as the first instruction', breaks='the first instruction is not played when it sets a parameter',
  demo=PRE + '''
for first in (True, False):
    m, r = make(Montecarlo)
    m.set_tolerance('R', 0.1)
    if not first:
        m.set_component_value('R2', 2000)
    m.set_parameter('gain', 7)
    m.save_netlist('x.net')
    assert re.search("gain= *7", open('x.net').read())
'''),
dict(id='p47_index', property='P47', edits=[(W, "                if ref not in self.device_deviations:\n                    if self._set_component_deviation(ref, index):\n                        index += 1\n", "                if ref not in self.device_deviations:\n                    self._set_component_deviation(ref, index)\n            index = len(self.elements_analysed)\n")],
  needs='two components of a prefix with a default tolerance', breaks='components of a prefix share one bit of the run: combinations are missing',
  demo=PRE + '''
m, r = make(WorstCaseAnalysis)
m.set_tolerance('R', 0.1)
m.set_tolerance('C1', 0.2)
m.prepare_testbench()
m.save_netlist('x.net')
idx = [int(x) for x in re.findall(r'\\{wc\\([^,]*,[^,]*,(\\d+)\\)', open('x.net').read())]
assert sorted(idx) == [0, 1, 2], idx
assert m.last_run_number == 7
'''),
dict(id='p47_sigma', property='P47', edits=[(M, '            elif dev.distribution == \'normal\':\n                new_val = f"{random.Random().gauss((dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6):g}"', '            elif dev.distribution == \'normal\':\n                new_val = f"{random.Random().gauss(value, (dev.max_val - dev.min_val) / 6):g}"')],
  needs='a nominal value that is not the mean of minimum and maximum', breaks='normally distributed values lie around the nominal value instead of the mean of minimum and maximum',
  demo=PRE + '''
import random
class R:
    def uniform(self, a, b): return (a + b) / 2
    def gauss(self, m, s): return m + 3 * s
random.Random = R
m, r = make(Montecarlo)
m.set_deviation('R1', 900, 1500, 'normal')
m.run_analysis(num_runs=2)
for t in r.tasks:
    assert '1500' in t.text, t.text
'''),
dict(id='p48_sparse_update', property='P48', edits=[(W, "                if bit_updated & 1:\n", "                if bit_updated & 1 and (bit_index < 2 or run & (run - 1) == 0):\n")],
  needs='three elements or more', breaks='an element is not set back when its bit changes: combinations are simulated twice and others never',
  demo=PRE + """
NET4 = NET.replace('C1 out 0 1u', 'R3 out 0 5k\\nR4 out 0 7k')
m, r = make(WorstCaseAnalysis, net=NET4)
m.set_tolerance('R', 0.1)
m.run_analysis()
got = {tuple(re.search(r'(?im)^%s \\S+ \\S+ (\\S+)' % x, t.text).group(1) for x in ('R1', 'R2', 'R3', 'R4')) for t in r.tasks[1:]}
assert len(r.tasks) == 17 and len(got) == 16, (len(r.tasks), len(got))
"""),
dict(id='p48_leftover', property='P48', edits=[(Q, "                        new_val = dev.min_val if bit_setting & (1 << bit_index) else val\n", "                        new_val = dev.min_val if bit_setting >> bit_index else val\n"), (Q, "            last_bit_setting = bit_setting\n", "            last_bit_setting = bit_setting if run else 1\n")],
  needs='elements with minimum and maximum', breaks='elements of earlier runs keep their extreme',
  demo=PRE + """
NET4 = NET.replace('C1 out 0 1u', 'R3 out 0 5k\\nR4 out 0 7k')
m, r = make(QuickSensitivityAnalysis, net=NET4)
for x in ('R1', 'R2', 'R3', 'R4'):
    m.set_deviation(x, 111, 99999)
m.read_logfiles = lambda: type('L', (), dict(dataset=dict(runm=[])))()
m.run_analysis()
for i, t in enumerate(r.tasks):
    low = [x for x in ('R1', 'R2', 'R3', 'R4') if re.search(r'(?im)^%s \\S+ \\S+ 111' % x, t.text)]
    assert low == [f'R{i}'] * (i > 0), (i, low)
"""),
dict(id='p48_prefix_twice', property='P48', edits=[(W, "        for prefix in self.default_tolerance:\n            for ref in self.get_components(prefix):\n                if ref not in self.device_deviations:\n                    check_and_add_component(ref)\n\n        _logger", "        for prefix in self.default_tolerance:\n            for ref in self.get_components(prefix):\n                if ref not in self.elements_analysed[:1]:\n                    check_and_add_component(ref)\n\n        _logger")],
  needs='two components with a deviation of their own', breaks='components with a deviation of their own are collected twice, and half of the runs are repetitions',
  demo=PRE + """
m, r = make(WorstCaseAnalysis)
m.set_tolerance('R1', 0.1)
m.set_tolerance('R2', 0.2)
m.run_analysis()
assert m.elements_analysed == ['R1', 'R2'] and len(r.tasks) == 5, (m.elements_analysed, len(r.tasks))
"""),
dict(id='p48_mc_param', property='P48', edits=[(M, "                new_val = self._get_sim_value(val, dev)\n                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_parameter(param, new_val)\n", "                if run == 0 or dev.typ == DeviationType.tolerance:\n                    new_val = self._get_sim_value(val, dev)\n                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_parameter(param, new_val)\n")],
  needs='two parameters with a deviation and several runs', breaks='after the first run a parameter gets the value drawn for the element before it',
  demo=PRE + """
m, r = make(Montecarlo, net=NET.replace('.param gain=2', '.param gain=2\\n.param offs=30'))
m.set_parameter_deviation('gain', 1, 3)
m.set_parameter_deviation('offs', 20, 40)
m.run_analysis(num_runs=5)
for t in r.tasks:
    g, o = (float(re.search(r'(?im)%s *= *(\\S+)' % x, t.text).group(1)) for x in ('gain', 'offs'))
    assert 1 <= g <= 3 and 20 <= o <= 40, (g, o)
"""),
]
