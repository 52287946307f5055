PRE = '''
import sys, os, logging, csv
from pathlib import Path
os.chdir(sys.argv[1])
logging.disable(logging.CRITICAL)
from spicelib.sim.sim_stepping import SimStepper
from spicelib.utils.sweep_iterators import sweep, sweep_n, sweep_log, sweep_log_n
class Editor:
    def __init__(self):
        self.now = {}
    def get_component_value(self, ref):
        return '1k'
    def set_parameter(self, n, v): self.now['p', n] = v
    def set_parameters(self, **kw):
        for n, v in kw.items(): self.set_parameter(n, v)
    def set_component_value(self, n, v): self.now['c', n] = v
    def set_component_values(self, **kw):
        for n, v in kw.items(): self.set_component_value(n, v)
    def set_element_model(self, n, v): self.now['m', n] = v
class Task:
    def __init__(self, no, name):
        self.runno, self.netlist_file = no, Path(name or f'n_{no}.net')
class Runner:
    def __init__(self):
        self.runs, self.args, self.waited, self.runno, self.refuse = [], [], 0, 0, ()
    def run(self, netlist, *, wait_resource=True, callback=None, callback_args=None, switches=None, timeout=None, run_filename=None, exe_log=False):
        self.runno += 1
        if self.runno in self.refuse:
            return None
        self.runs.append(dict(netlist.now))
        self.args.append((callback, callback_args, switches, timeout, run_filename, exe_log))
        return Task(self.runno, run_filename)
    def wait_completion(self, *a, **k):
        self.waited = len(self.runs)
        return True
'''
S = 'sim/sim_stepping.py'; W = 'utils/sweep_iterators.py'
PLANTS = [
dict(id='p29_restart_values', property='P29', edits=[(S, "                    iterators[iter_no] = iter(self.iter_list[iter_no].iter)\n                    iter_no -= 1\n                    continue", "                    iter_no -= 1\n                    if iter_no >= 0:\n                        iterators[-1] = iter(self.iter_list[-1].iter)\n                    continue")],
  needs='three sweeps or more', breaks='the middle sweeps are not started again: combinations are missing',
  demo=PRE + '''
for dims in ((2,), (2, 3), (2, 3, 2), (2, 2, 2, 2)):
    e, r = Editor(), Runner()
    s = SimStepper(e, r)
    n = 1
    for i, d in enumerate(dims):
        s.add_param_sweep(f'x{i}', list(range(d)))
        n *= d
    s.run_all()
    got = {tuple(sorted(x.items())) for x in r.runs}
    assert len(r.runs) == n == len(got), (dims, len(r.runs), len(got))
'''),
dict(id='p29_model_value', property='P29', edits=[(S, "                elif self.iter_list[iter_no].what == 'model':\n                    self.editor.set_element_model(self.iter_list[iter_no].elem, value)", "                elif self.iter_list[iter_no].what == 'model':\n                    if value != self.current_values.get(self.iter_list[0].elem):\n                        self.editor.set_element_model(self.iter_list[0].elem, value)")],
  needs='a model sweep that is not the first one added', breaks='the model is set on the element of another sweep',
  demo=PRE + '''
e, r = Editor(), Runner()
s = SimStepper(e, r)
s.add_value_sweep('R1', ['1k', '2k'])
s.add_model_sweep('Q1', ['A', 'B'])
s.run_all()
assert [(x['c', 'R1'], x.get(('m', 'Q1'))) for x in r.runs] == [(a, b) for a in ('1k', '2k') for b in 'AB'], r.runs
'''),
dict(id='p29_shared_info', property='P29', edits=[(S, "                sim_info = self.current_values.copy()\n                sim_info['netlist'] = task.netlist_file.name\n                self.sim_info[task.runno] = sim_info", "                self.current_values['netlist'] = task.netlist_file.name\n                self.sim_info[self.runner.runno - 1 if run_filename else task.runno] = dict(self.current_values)")],
  needs='a filenamer', breaks='sim_info is stored under the number of another run',
  demo=PRE + '''
e, r = Editor(), Runner()
s = SimStepper(e, r)
s.add_param_sweep('a', [1, 2, 3])
s.run_all(filenamer=lambda **kw: 'f_%s.net' % kw['a'])
assert {k: (v['a'], v['netlist']) for k, v in s.sim_info.items()} == {1: (1, 'f_1.net'), 2: (2, 'f_2.net'), 3: (3, 'f_3.net')}, s.sim_info
'''),
dict(id='p29_run_arguments', property='P29', edits=[(S, "            task = self.runner.run(self.editor, callback=callback, callback_args=callback_args,\n                                   switches=switches, timeout=timeout, run_filename=run_filename, exe_log=exe_log)",
   "            options = dict(callback=callback, callback_args=callback_args, switches=switches, timeout=timeout,\n                           run_filename=run_filename, exe_log=exe_log)\n            if callback is None:\n                del options['timeout']\n            task = self.runner.run(self.editor, **options)")],
  needs='run_all() with a timeout and without callback', breaks='the timeout given is ignored',
  demo=PRE + '''
e, r = Editor(), Runner()
s = SimStepper(e, r)
s.add_param_sweep('a', [1, 2])
s.run_all(timeout=7, switches=['-x'], exe_log=True)
s.run_all(timeout=8, callback=print, callback_args=(1,))
assert [a[:4] + a[5:] for a in r.args] == 2 * [(None, None, ['-x'], 7, True)] + 2 * [(print, (1,), None, 8, False)], r.args
'''),
dict(id='p29_direct_models', property='P29', edits=[(S, "        self.editor.set_element_model(element, model)\n        self.current_values[element] = model", "        self.editor.set_element_model(element, model)\n        self.current_values.setdefault(element, model)")],
  needs='a model set twice', breaks='the file names and the table of runs have the first model, the runs the second one',
  demo=PRE + '''
e, r = Editor(), Runner()
s = SimStepper(e, r)
s.add_param_sweep('a', [1])
s.set_element_model('D1', 'A'); s.run_all()
s.set_element_model('D1', 'B'); s.run_all()
assert [v['D1'] for v in s.sim_info.values()] == ['A', 'B'], s.sim_info
'''),
dict(id='p45_negative_step', property='P45', edits=[(W, "        if self.step < 0 and self.start < self.stop:\n            # The sign of the step determines whether it counts up or down.\n            self.start, self.stop = self.stop, self.start", "        if self.step < 0 and self.start and self.start < self.stop:\n            # The sign of the step determines whether it counts up or down.\n            self.start, self.stop = self.stop, self.start")],
  needs='a negative step with start below stop and start at 0', breaks='the sweep has no points at all',
  demo=PRE + '''
assert list(sweep(2, 8, -2)) == [8, 6, 4, 2]
assert list(sweep(4, step=-2)) == [4, 2, 0], list(sweep(4, step=-2))
'''),
dict(id='p45_second_time', property='P45', edits=[(W, "    def __iter__(self):\n        super().__iter__()\n        self.val = self. start\n        return self", "    def __iter__(self):\n        if self.finished:\n            self.val = self.start\n        return super().__iter__()")],
  needs='a logarithmic sweep whose first iteration was left before its end', breaks='the next iteration goes on in the middle',
  demo=PRE + '''
s = sweep_log(1, 1000, 10)
assert list(s) == [1, 10, 100, 1000]
assert list(s) == [1, 10, 100, 1000]
for x in s:
    if x >= 10:
        break
assert list(s) == [1, 10, 100, 1000], list(s)
'''),
dict(id='p45_n_points', property='P45', edits=[(W, "    return sweep(start, stop, (stop-start)/(N-1))", "    return sweep(start, stop, (stop-start)/max(N-1, 2))")],
  needs='a sweep of two points', breaks='sweep_n(a, b, 2) gives three points',
  demo=PRE + '''
assert len(list(sweep_n(0.3, 1.1, 5))) == 5
assert list(sweep_n(1, 3, 3)) == [1, 2, 3]
assert list(sweep_n(1, 3, 2)) == [1, 3], list(sweep_n(1, 3, 2))
'''),
]
