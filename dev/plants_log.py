PRE = '''
import sys, os, logging
from pathlib import Path
os.chdir(sys.argv[1])
logging.disable(logging.CRITICAL)
from spicelib.log.ltsteps import LTSpiceLogReader, LTSpiceExport, reformat_LTSpice_export
from spicelib.log.logfile_data import LogfileData, try_convert_value, LTComplex
from spicelib.log.qspice_log_reader import QspiceLogReader
from spicelib.log.semi_dev_op_reader import opLogReader
def log(text, **kw):
    Path('t.log').write_text(text)
    return LTSpiceLogReader('t.log', encoding='utf-8', **kw)
'''
L = 'log/logfile_data.py'; T = 'log/ltsteps.py'; Q = 'log/qspice_log_reader.py'; O = 'log/semi_dev_op_reader.py'
PLANTS = [
dict(id='p23_empty_conditions', property='P23', edits=[(L, "            if current_set is None:\n                # initialises", "            if not current_set:\n                # initialises")],
  needs='two conditions of which the first is never satisfied', breaks='steps that satisfy only the last condition are given',
  demo=PRE + '''
d = LogfileData({'a': [1, 2], 'b': [5, 6]}, {'m': [10, 20]})
assert d.steps_with_conditions(a=9, b=6) == []
assert d.steps_with_conditions(a=2, b=6) == [1]
'''),
dict(id='p23_ambiguous', property='P23', edits=[(L, "                if len(step) == 1:\n                    step = step[0]", "                if len(step) >= 1:\n                    step = step[0]")],
  needs='conditions that several steps satisfy', breaks='the value of one of several steps is given instead of an IndexError',
  demo=PRE + '''
d = LogfileData({'a': [1, 1, 3]}, {'m': [10, 20, 30]})
assert d.get_measure_value('M', a=3) == 30
try:
    d.get_measure_value('m', a=1)
except IndexError:
    sys.exit(0)
sys.exit('a value is given although two steps satisfy the condition')
'''),
dict(id='p24_fourier_step', property='P24', edits=[(T, "                    if signal in self.fourier:\n                        self.fourier[signal].append(fourier_data)\n                    else:", "                    if signal in self.fourier and self.step_count:\n                        self.fourier[signal].append(fourier_data)\n                    else:")],
  needs='two Fourier tables of one signal in a log without steps', breaks='the first table is lost',
  demo=PRE + '''
h = 'Harmonic\\tF\\tC\\tN\\tP\\tN\\n Number\\n 1\\t1e3\\t1\\t1\\t0\\t0\\nTotal Harmonic Distortion: 1.5%\\n\\n'
d = log('Circuit: x\\nN-Period=1\\nFourier components of V(a)\\nDC component:1\\n' + h + 'N-Period=all\\nFourier components of V(a)\\nDC component:2\\n' + h)
assert [f.dc_component for f in d.fourier['V(a)']] == [1, 2], d.fourier
'''),
dict(id='p24_header_shift', property='P24', edits=[(Q, "                    headers = None\n                    token1", "                    if not self.has_steps():\n                        headers = None\n                    token1")],
  needs='a QSPICE run with steps and two measurements', breaks='the values of the second measurement are stored under the first',
  demo=PRE + '''
q = object.__new__(QspiceLogReader)
LogfileData.__init__(q, {'a': [1, 2]})
q.encoding = 'utf-8'
Path('t.meas').write_text('.meas tran m1 avg v(a)\\n0 10\\n1 20\\n.meas tran m2 avg v(b)\\n0 30\\n1 40\\n')
q.parse_meas_file('t.meas')
assert q.dataset['m1'] == [10, 20] and q.dataset['m2'] == [30, 40], q.dataset
'''),
dict(id='p42_step_columns', property='P42', edits=[(L, "                step_data = [self.stepset[param][index] for param in self.stepset.keys()]", "                step_data = [self.stepset[param][index] for param in sorted(self.stepset.keys())]")],
  needs='several step variables that are not in alphabetical order', breaks='the values of the step variables are exported under the header of another one',
  demo=PRE + '''
LogfileData({'b': [1, 2], 'a': [5, 6]}, {'m': [10, 20]}).export_data('o.tsv')
assert Path('o.tsv').read_text().split() == 'step b a m 1 1 5 10 2 2 6 20'.split(), Path('o.tsv').read_text()
'''),
dict(id='p42_fourier_step', property='P42', edits=[(T, "                                if analysis.step == step_no:\n                                    fout.write('\\t'.join(step_values)", "                                if analysis.step <= step_no:\n                                    fout.write('\\t'.join(step_values)")],
  needs='a stepped log with Fourier tables', breaks='Fourier tables are also exported with the values of later steps',
  demo=PRE + '''
h = 'Harmonic\\tF\\tC\\tN\\tP\\tN\\n Number\\n 1\\t1e3\\t1\\t1\\t0\\t0\\nTotal Harmonic Distortion: 1.5%\\n\\n'
one = 'N-Period=1\\nFourier components of V(a)\\nDC component:@\\n' + h
d = log('Circuit: x\\n.step a=1\\n' + one.replace('@', '1') + '.step a=2\\n' + one.replace('@', '2') + 'Measurement: m\\n step\\tx\\n1\\t10\\n2\\t20\\n')
d.export_data('o.tsv')
t = [l.split('\\t')[:4] for l in Path('o_fourier.txt').read_text().splitlines()]
t = t[:t.index([''])]
assert [(l[0], l[3]) for l in t[1:]] == [('1', '1.0'), ('2', '2.0')], t
'''),
dict(id='p43_column', property='P43', edits=[(O, "                        devices = cols[1:]\n                        n_devices = len(devices)", "                        devices = sorted(cols[1:])\n                        n_devices = len(devices)")],
  needs='devices that are not in alphabetical order', breaks='values are stored with the device of another column',
  demo=PRE + '''
Path('op.log').write_text('Circuit: x\\nSemiconductor Device Operating Points:\\n  --- Diodes ---\\nName:  d2 d1\\nId: 1.5 2.5\\n')
r = opLogReader('op.log')
assert r['diodes']['d2']['Id'] == 1.5 and r['diodes']['d1']['Id'] == 2.5, r
'''),
]
