R = 'scripts/raw_convert.py'
L = 'scripts/ltsteps.py'
PRE = '''
import os, sys, tempfile, runpy, io, contextlib
os.chdir(sys.argv[1])
from spicelib.raw.raw_write import RawWrite, Trace
import numpy as np
def tool(name, *args):
    out = io.StringIO()
    sys.argv = [name, *args]
    code = 0
    with contextlib.redirect_stdout(out):
        try:
            runpy.run_module('spicelib.scripts.' + name, run_name='__main__')
        except SystemExit as e:
            code = e.code
    return code, out.getvalue()
LOG = """Circuit: * x

.step r=1
.step r=2

Measurement: vmax
  step\\tMAX(v)\\tFROM\\tTO
     1\\t1.5\\t0\\t1
     2\\t2.5\\t0\\t1

"""
'''
RAW = '''
def raw(name, **cols):
    w = RawWrite(plot_name='Transient Analysis', fastacces=False)
    w.add_trace(Trace('time', np.array(cols.pop('time'))))
    for k, v in cols.items():
        w.add_trace(Trace(k, np.array(v, dtype=float)))
    w.save(name)
'''
PLANTS = [
dict(id='p53_current_first', property='P53', edits=[(R, "                if 'V(' + trace + ')' in raw_traces:\n", "                if 'V(' + trace + ')' in raw_traces and not 'I(' + trace + ')' in raw_traces:\n")],
  needs='a node with the name of a component, asked for without V() or I()', breaks='the current is output instead of the voltage',
  demo=PRE + RAW + '''
raw('x.raw', time=[0.0, 1.0, 2.0], **{'V(out)': [1, 2, 3], 'V(r1)': [4, 5, 6], 'I(r1)': [7, 8, 9]})
code, out = tool('raw_convert', 'x.raw', 'out', 'r1', '-s', ';')
assert 'V(out);V(r1)' in out or 'V(r1)' in out.split('Reading')[1], out
'''),
dict(id='p53_repeated_axis', property='P53', edits=[(R, "        data_size = len(data[data.__iter__().__next__()])", "        data_size = len(set(data[data.__iter__().__next__()]))")],
  needs='a raw file whose axis has the same value twice, as that of stepped simulations', breaks='the last points are not output',
  demo=PRE + RAW + '''
raw('x.raw', time=[0.0, 1.0, 1.0, 2.0], **{'V(out)': [1, 2, 3, 4]})
code, out = tool('raw_convert', 'x.raw', '-s', ';')
assert len([l for l in out.splitlines() if l[:1].isdigit()]) == 4, out
'''),
dict(id='p53_newest_of_any', property='P53', edits=[(L, "            if date > newer_date and valid_extension(f):\n                newer_date = date\n                filename = f", "            if date > newer_date:\n                newer_date = date\n                filename = f if valid_extension(f) else filename")],
  needs='a file of another kind older than the newest log, but newer than others, listed before or after it', breaks='a log older than any other file is not taken',
  demo=PRE + '''
for n, t in (('a.log', 100), ('b.net', 300)):
    open(n, 'w').write(LOG)
    os.utime(n, (t, t))
os.listdir = lambda *a: ['b.net', 'a.log']
code, out = tool('ltsteps')
assert os.path.exists('a.tlog'), (code, out)
'''),
dict(id='p53_dotted_mout', property='P53', edits=[(L, "            log_file = filename[:-len('mout')] + 'log'", "            log_file = filename.split('.')[0] + '.log'")],
  needs='a .mout file with another dot in its name', breaks='the steps of its log are not used',
  demo=PRE + '''
open('run.1.log', 'w').write("Circuit: * x\\n\\n.step r=1\\n.step r=2\\n\\n")
open('run.1.mout', 'w').write("Measurement: vmax\\n  step\\tMAX(v)\\tFROM\\tTO\\n     1\\t1.5\\t0\\t1\\n     2\\t2.5\\t0\\t1\\n\\n")
code, out = tool('ltsteps', 'run.1.mout')
got = open('run.1.tmout').read()
assert 'r' in got.split('\\n')[0].split('\\t'), got
'''),
]
