import importlib.util, os
sp = importlib.util.spec_from_file_location('pt', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants_toolkit.py'))
pt = importlib.util.module_from_spec(sp); sp.loader.exec_module(pt)
PRE = pt.PRE
T, S, W, Q = ('sim/tookit/%s.py' % x for x in ('tolerance_deviations', 'sim_analysis', 'worst_case', 'quick_sensitivity_analysis'))
PLANTS = [
dict(id='p50_own_tolerance_zero', property='P50', edits=[(T, "            if ref in self.editor.get_components(ref[0]):", "            if new_tolerance and ref in self.editor.get_components(ref[0]):")],
  needs='a component that is to be kept exact (tolerance 0) while its prefix has a tolerance', breaks='the tolerance 0 of the component is ignored and it gets the one of its prefix',
  demo=PRE + '''
mc, _ = make(Montecarlo)
mc.set_tolerance('R', 0.1)
mc.set_tolerance('R1', 0)
val, dev = mc.get_component_value_deviation_type('R1')
assert dev.tolerance == 0 and dev.is_not_valid(), dev
assert mc.get_component_value_deviation_type('R2')[1].tolerance == 0.1
'''),
dict(id='p50_distribution_of_dict', property='P50', edits=[(T, "            self.set_tolerance(ref, tol, distribution)", "            self.set_tolerance(ref, tol, distribution if len(ref) > 1 else 'uniform')")],
  needs='set_tolerances() with a prefix and a distribution other than uniform', breaks='the tolerance of the prefix is uniform',
  demo=PRE + '''
mc, _ = make(Montecarlo)
mc.set_tolerances({'R': 0.1, 'C1': 0.2}, 'normal')
assert mc.get_component_value_deviation_type('C1')[1].distribution == 'normal'
assert mc.get_component_value_deviation_type('R1')[1].distribution == 'normal'
'''),
dict(id='p50_swapped_bounds', property='P50', edits=[(T, "        return self.min_val == self.max_val or self.typ == DeviationType.none", "        return self.min_val >= self.max_val and self.typ != DeviationType.tolerance or self.min_val == self.max_val or self.typ == DeviationType.none")],
  needs='a deviation whose first bound is the greater one', breaks='it is taken as no deviation at all and the component is left out',
  demo=PRE + '''
from spicelib.sim.tookit.tolerance_deviations import ComponentDeviation
assert not ComponentDeviation.from_min_max(3, 2).is_not_valid()
assert ComponentDeviation.from_min_max(2, 2).is_not_valid()
'''),
dict(id='p49_shared_lists', property='P49', edits=[(S, "                self.log_data.dataset[param] = log_data.dataset[param][:]", "                self.log_data.dataset[param] = log_data.dataset[param]")],
  needs='the logs of two runs added, the first of which is looked at afterwards', breaks='the values of the second run are also added to the log of the first',
  demo=PRE + '''
mc, _ = make(Montecarlo)
a = LogfileData({'run': [0]}, {'v': [1.0]})
b = LogfileData({'run': [1]}, {'v': [2.0]})
mc.add_log_data(a); mc.add_log_data(b)
assert a.dataset['v'] == [1.0], a.dataset
assert mc.log_data.dataset['v'] == [1.0, 2.0] and mc.log_data.step_count == 2
'''),
dict(id='p49_failed_run_first', property='P49', edits=[(S, "            if sim is None:\n                continue\n", "            if sim is None:\n                break\n")],
  needs='a run that could not be started before others that were', breaks='the logs of the runs after it are not read',
  demo=PRE + '''
mc, _ = make(Montecarlo)
logs = {'a': LogfileData({'run': [0]}, {'v': [1.0]}), 'b': LogfileData({'run': [1]}, {'v': [2.0]})}
mc.simulations = ['a', None, 'b']
mc.read_logfile = lambda s: logs[s]
mc.analysis_executed = True
d = mc.read_logfiles()
assert d.dataset['v'] == [1.0, 2.0], d.dataset
'''),
dict(id='p49_number_by_count', property='P49', edits=[(T, "run_start = self.log_data.stepset['run'][-1] + 1 if len(self.log_data.stepset) > 0 else 0", "run_start = len(self.log_data.stepset['run']) if len(self.log_data.stepset) > 0 else 0")],
  needs='logs added after runs that do not start at 0', breaks='the new runs get numbers that were already given',
  demo=PRE + '''
mc, _ = make(Montecarlo)
class R: retcode = 0
mc.add_log_data(LogfileData({'run': [-1, 0, 1]}, {'v': [1.0, 2.0, 3.0]}))
new = LogfileData({}, {'v': [4.0]})
mc.read_logfile = lambda t: new
mc.add_log(R())
assert mc.log_data.stepset['run'] == [-1, 0, 1, 2], mc.log_data.stepset
'''),
dict(id='p51_run_pairs', property='P51', edits=[(W, "                    if run & bit_updated == 0:", "                    if run < bit_updated:")],
  needs='a worst case of two or more elements', breaks='only some of the pairs of runs that differ in an element are compared',
  demo=PRE + '''
wc, _ = make(WorstCaseAnalysis)
wc.analysis_executed = True
wc.elements_analysed = ['R1', 'R2']
wc.last_run_number = 3
log = LogfileData({'run': [0, 1, 2, 3]}, {'v': [10.0, 12.0, 15.0, 21.0]})
wc.read_logfiles = lambda: log
s = wc.make_sensitivity_analysis('v')
assert abs(s['R1'][0] - 400 / 11) < 1e-6 and abs(s['R2'][0] - 700 / 11) < 1e-6, s
'''),
dict(id='p51_missing_results', property='P51', edits=[(W, "        elif len(meas_data) != len(self.simulations):", "        elif len(meas_data) > len(self.simulations):")],
  needs='a simulation that gave no measure', breaks='extremes are given although they are not those of all simulations',
  demo=PRE + '''
wc, _ = make(WorstCaseAnalysis)
wc.analysis_executed = True
wc.simulations = [1, 2, 3]
log = LogfileData({'run': [0, 1]}, {'v': [10.0, 12.0]})
wc.read_logfiles = lambda: log
assert wc.get_min_max_measure_value('v') is None
wc.simulations = [1, 2]
assert wc.get_min_max_measure_value('v') == (10.0, 12.0)
'''),
dict(id='p51_partial_total', property='P51', edits=[(Q, "            total_error = sum(error_data)", "            total_error = sum(error_data[:len(self.device_deviations) or None])")],
  needs='elements with own deviations together with others that have the one of their prefix', breaks='the shares are in percent of a part of the total only',
  demo=PRE + '''
qs, _ = make(QuickSensitivityAnalysis)
qs.set_tolerance('R1', 0.1); qs.set_tolerance('C', 0.1)
qs.analysis_executed = True
qs.elements_analysed = ['R1', 'C1']
log = LogfileData({'run': [-1, 0, 1]}, {'v': [10.0, 13.0, 9.0]})
qs.read_logfiles = lambda: log
s = qs.get_sensitivity_data('*', 'v')
assert abs(s['R1'] - 75) < 1e-6 and abs(s['C1'] - 25) < 1e-6, s
'''),
]
