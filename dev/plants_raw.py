PRE = '''
import sys, os, logging, struct
from pathlib import Path
R = os.getcwd()
os.chdir(sys.argv[1])
logging.disable(logging.CRITICAL)
import numpy as np
from spicelib import RawRead, RawWrite, Trace
from spicelib.raw.raw_classes import Axis, TraceRead, SpiceReadException
def head(names, n, flags, plot='Transient Analysis', kind='Binary:', types=None):
    types = types or ['time'] + ['voltage'] * (len(names) - 1)
    return ('Title: * t\\nDate: Thu Jan 01 00:00:00 1970\\nPlotname: %s\\nFlags: %s\\nNo. Variables: %d\\nNo. Points: %d\\nOffset: 0.0\\nCommand: Linear Technology Corporation LTspice XVII\\nVariables:\\n' % (plot, flags, len(names), n)
        + ''.join('\\t%d\\t%s\\t%s\\n' % (i, a, t) for i, (a, t) in enumerate(zip(names, types))) + kind + '\\n')
def raw(name, names, cols, flags='real forward', enc='utf_16_le', fmt='d' + 'f' * 20, **kw):
    n = len(cols[0])
    b = head(names, n, flags, **kw).encode(enc)
    if 'fastaccess' in flags:
        for c, f in zip(cols, fmt):
            b += b''.join(struct.pack('<' + f, x) for x in c)
    else:
        for i in range(n):
            for c, f in zip(cols, fmt):
                b += struct.pack('<' + f, c[i])
    Path(name).write_bytes(b)
    return name
def stepped(vals, name='time'):
    a = Axis(name, 'time', len(vals), 'double', np.array(vals, dtype=float))
    n = sum(1 for v in vals if v == vals[0])
    a.set_steps([{'p': i} for i in range(n)])
    t = TraceRead('v', 'voltage', len(vals), a, 'double', np.arange(len(vals), dtype=float) ** 2)
    return a, t
'''
RC = 'raw/raw_classes.py'; PD = 'raw/plot_data.py'; RR = 'raw/raw_read.py'; RW = 'raw/raw_write.py'
PLANTS = [
dict(id='p21_single_point_step', property='P21', edits=[(RC, '''                k += 1
            i += 1

        if k''', '''                k += 1
                i += 1  # the first point of a step is never the start of the next one
            i += 1

        if k''')],
  needs='a step that consists of one single point', breaks='a step of one point swallows the start of the step behind it',
  demo=PRE + '''
a, t = stepped([0, 1, 2, 0, 0, 3])
assert list(a.step_offsets) == [0, 3, 4], a.step_offsets
assert list(t.get_wave(2)) == [16, 25]
'''),
dict(id='p21_interp_last', property='P21', edits=[(RC, "            last_item = self.get_len(step) - 1\n", "            last_item = len(self.data) - 1 - offset\n")],
  needs='a fractional position at or behind the last point of a step that is not the last step', breaks='get_point_at of a position at the last point of a step interpolates with the first point of the next step',
  demo=PRE + '''
a, t = stepped([0, 1, 2, 0, 1, 2])
a.get_position = lambda x, s=0: np.float64(2.5)
try:
    v = t.get_point_at(2.5, 0)
except IndexError:
    v = None
assert v is None, v
'''),
dict(id='p20_fast_skip', property='P20', edits=[(PD, "                                _logger.debug(f\"Binary data read successfully. Data shape: {data.shape}\")\n                        previous_data_size += data_size", "                                _logger.debug(f\"Binary data read successfully. Data shape: {data.shape}\")\n                            previous_data_size += data_size")],
  needs='a fast access file of which only a trace that is not the first one is read', breaks='traces that are not read are not skipped: another trace is read in place of the one asked for', demo=PRE + """
raw('a.raw', ['time', 'V(a)', 'V(b)'], [[0, 1, 2], [3, 4, 5], [6, 7, 8]], flags='real forward fastaccess')
r = RawRead('a.raw', traces_to_read='V(b)')
assert list(r.get_wave('V(b)')) == [6, 7, 8], list(r.get_wave('V(b)'))
"""),
dict(id='p20_ascii_axis_step', property='P20', edits=[(PD, "                    record_size = sum([np.dtype(t.dtype).itemsize for t in self._trace_info])\n                    raw_file.seek(self._fpos_data)  # Move", "                    record_size = np.dtype(read_dtypes).itemsize if list_of_traces else sum([np.dtype(t.dtype).itemsize for t in self._trace_info[1:]])\n                    raw_file.seek(self._fpos_data)  # Move")],
  needs='a normal access file of which only the axis is read', breaks='reading nothing but the axis takes too few bytes', demo=PRE + """
raw('a.raw', ['time', 'V(a)', 'V(b)'], [[0, 1, 2], [3, 4, 5], [6, 7, 8]])
r = RawRead('a.raw', traces_to_read='')
assert list(r.get_axis()) == [0, 1, 2]
r = RawRead('a.raw', traces_to_read=[])
assert list(r.get_axis()) == [0, 1, 2]
"""),
dict(id='p22_short_read', property='P22', edits=[(PD, "        if len(data) < num_bytes:\n", "        if not data and num_bytes:\n")],
  needs='a file that was cut off within its data, read as a whole', breaks='a truncated file is not refused', demo=PRE + """
raw('a.raw', ['time', 'V(a)', 'V(b)'], [[0, 1, 2], [3, 4, 5], [6, 7, 8]])
b = Path('a.raw').read_bytes()
Path('a.raw').write_bytes(b[:-16])
try:
    RawRead('a.raw', traces_to_read='*')
except SpiceReadException:
    pass
except Exception as e:
    raise SystemExit('%s: %s' % (type(e).__name__, e))
else:
    raise SystemExit('accepted')
"""),
dict(id='p22_point_sequence', property='P22', edits=[(PD, "                    if point != int(s_point):\n", "                    if point > int(s_point):\n")],
  needs='an ASCII file in which a point is missing', breaks='the points behind the missing one are taken for the points before them', demo=PRE + """
t = head(['time', 'V(a)'], 3, 'real forward', kind='Values:') + '0\\t0.0\\n\\t1.0\\n2\\t2.0\\n\\t3.0\\n3\\t4.0\\n\\t5.0\\n'
Path('a.raw').write_bytes(t.encode('utf_8'))
try:
    r = RawRead('a.raw')
except SpiceReadException:
    pass
else:
    raise SystemExit('accepted %s' % list(r.get_wave('V(a)')))
"""),
dict(id='p40_prefix', property='P40', edits=[(PD, "                    if trace_ref_lower == trace_info.name.casefold():  # The", "                    if trace_info.name.casefold().startswith(trace_ref_lower):  # The")],
  needs='a name in other case than in the file or an incomplete name, of a trace that was not read before', breaks='an incomplete name gives the first trace that starts like it', demo=PRE + """
raw('a.raw', ['time', 'V(a)', 'V(b)'], [[0, 1, 2], [3, 4, 5], [6, 7, 8]])
r = RawRead('a.raw', traces_to_read=None)
assert list(r.get_wave('v(B)')) == [6, 7, 8]
try:
    t = r.get_trace('v')
except IndexError:
    pass
else:
    raise SystemExit('%s for v' % t.name)
"""),
dict(id='p40_axis_step', property='P40', edits=[(RR, "        return self._plots[0].get_time_axis(step)", "        return self._plots[0].get_time_axis()")],
  needs='a stepped transient of which the time axis of a later step is asked for', breaks='get_time_axis gives the axis of the first step for every step', demo=PRE + """
raw('a.raw', ['time', 'V(a)'], [[0, 1, 2, 0, 1.5], [3, 4, 5, 6, 7]], flags='real forward stepped')
Path('a.log').write_text('Circuit: * t\\n.step r=1\\n.step r=2\\n')
r = RawRead('a.raw')
assert len(r.get_steps()) == 2
assert list(r.get_time_axis(1)) == [0, 1.5], list(r.get_time_axis(1))
"""),
dict(id='p19_stepped_fast', property='P19', edits=[(RW, "        if self.flag_fastaccess:\n            flags.append('fastaccess')", "        elif self.flag_fastaccess:\n            flags.append('fastaccess')")],
  needs='a written file that is marked as stepped, in fast access layout', breaks='a stepped file does not say that it is written trace by trace and is read point by point', demo=PRE + """
w = RawWrite(fastacces=True)
w.flag_stepped = True
for n, d, t in (('time', [0., 1., 2.], 'time'), ('V(a)', [3., 4., 5.], 'voltage'), ('V(b)', [6., 7., 8.], 'voltage')):
    w.add_trace(Trace(n, np.array(d), t, 'double' if n == 'time' else 'real'))
w.save('a.raw')
b = Path('a.raw').read_bytes()
i = b.index('Binary:'.encode('utf_16_le'))
assert ('fastaccess' in b[:i].decode('utf_16_le')) == (b[i + 16:i + 16 + 24] == struct.pack('<3d', 0, 1, 2))
"""),
dict(id='p19_name_type', property='P19', edits=[(RW, "f\"No. Points: {len(self._traces[0]):12}\\n\"", "f\"No. Points: {len(self._traces[-1]):12}\\n\""), (RW, "            if len(self._traces[0]) != len(trace):", "            if len(self._traces[0]) > len(trace):")],
  needs='a trace with more points than the first one', breaks='a trace that is longer than the axis is accepted and written', demo=PRE + """
w = RawWrite(fastacces=True)
w.add_trace(Trace('time', np.array([0., 1., 2.]), 'time', 'double'))
try:
    w.add_trace(Trace('V(a)', np.array([3., 4., 5., 6.]), 'voltage', 'real'))
except IndexError:
    pass
else:
    raise SystemExit('accepted')
"""),
dict(id='p41_all_steps_for_zero', property='P41', edits=[(PD, "        elif step == -1:\n            steps_to_read = self.get_steps(**kwargs)", "        elif step == -1 or kwargs:\n            steps_to_read = self.get_steps(**kwargs)")],
  needs='a step number together with keyword arguments', breaks='keyword arguments make export() ignore the step that is asked for', demo=PRE + """
raw('a.raw', ['time', 'V(a)'], [[0, 1, 2, 0, 1.5], [3, 4, 5, 6, 7]], flags='real forward stepped')
Path('a.log').write_text('Circuit: * t\\n.step r=1\\n.step r=2\\n')
d = RawRead('a.raw').export(['V(a)'], 1, r=1)
assert list(d['V(a)']) == [6, 7], list(d['V(a)'])
"""),
]
