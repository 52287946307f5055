PRE = '''
import sys, os, io, time, threading, logging, zipfile
from pathlib import Path
os.chdir(sys.argv[1])
logging.disable(logging.CRITICAL)
from xmlrpc.client import Binary
from spicelib.client_server.sim_client import SimClient
from spicelib.client_server.sim_server import SimServer
from spicelib.client_server.srv_sim_runner import ServerSimRunner, zip_files
from spicelib.client_server import sim_client
from spicelib.sim.simulator import Simulator
class Proxy:
    """stands for the RPC proxy of the client"""
    def __init__(self, *a):
        self.sent, self.done, self.n, self.closed = [], [], 0, False
    def start_session(self):
        return 'me'
    def run(self, sid, name, data):
        self.n += 1
        self.sent.append((sid, name, data))
        return self.n
    def add_sources(self, sid, data):
        self.sent.append((sid, None, data))
        return True
    def status(self, sid):
        return list(self.done)
    def get_files(self, sid, no):
        self.done.remove(no)
        return f'r_{no}.zip', Binary(b'data%d' % no)
    def close_session(self, sid):
        return True
sim_client.xmlrpc.client.ServerProxy = Proxy
class Manager(ServerSimRunner):
    """a manager that is not started"""
    def add_simulation(self, netlist, **kw):
        return -1
def server(folder='out'):
    Path(folder).mkdir(exist_ok=True)
    s = object.__new__(SimServer)
    s.output_folder = folder
    s.sessions = {}
    s.simulation_manager = Manager(simulator=Simulator, output_folder=folder)
    return s
def done(s, no):
    d = {'runno': no, 'retcode': 0, 'start': 1, 'stop': 2}
    for k, e in (('circuit', '.net'), ('raw', '.raw'), ('log', '.log'), ('zipfile', '.zip')):
        d[k] = Path(s.output_folder) / f'c_{no}{e}'
        d[k].write_text(f'{k}{no}')
    s.simulation_manager.completed_tasks.append(d)
    return d
Path('c.net').write_text('* c\\nR1 a 0 1k\\n.end\\n')
'''
C = 'client_server/sim_client.py'; S = 'client_server/sim_server.py'; R = 'client_server/srv_sim_runner.py'
PLANTS = [
dict(id='p25_dependency_folder', property='P25', edits=[(C, "                            zip_file.write(dep, dep_path.name)", "                            zip_file.write(dep, dep_path.as_posix())")],
  needs='a dependency in another folder than the working directory', breaks='the dependency is extracted into a subfolder on the server, where the netlist does not find it',
  demo=PRE + '''
Path('lib').mkdir(exist_ok=True); Path('lib/m.lib').write_text('* m')
Path('n.lib').write_text('* n')
c = SimClient('http://localhost', 1)
assert c.run('c.net', dependencies=['n.lib', 'lib/m.lib']) == 1
sid, name, data = c.server.sent[0]
names = sorted(zipfile.ZipFile(io.BytesIO(data)).namelist())
print(names)
assert names == ['c.net', 'm.lib', 'n.lib']
'''),
dict(id='p25_zip_other_folder', property='P25', edits=[(R, "            zip_filename = log_filename.with_suffix('.zip')", "            zip_filename = log_filename.parent / (log_filename.stem + '.zip')"),
  (R, "        if isinstance(raw_filename, Path) and raw_filename.exists():\n            zip_file.write(raw_filename)\n        if isinstance(log_filename, Path) and log_filename.exists():\n            zip_file.write(log_filename)",
  "        for result in (raw_filename, log_filename):\n            if isinstance(result, Path) and result.exists():\n                zip_file.write(result)\n                if not result.with_suffix('.fail').exists():\n                    break")],
  needs='a simulation that leaves a raw file and a log file', breaks='the log file is not archived when there is a raw file',
  demo=PRE + '''
for n in ('a.raw', 'a.log', 'b.log'):
    Path(n).write_text(n)
z = zip_files(Path('b.raw'), Path('b.log'))
assert zipfile.ZipFile(z).namelist() == ['b.log']
z = zip_files(Path('a.raw'), Path('a.log'))
assert sorted(zipfile.ZipFile(z).namelist()) == ['a.log', 'a.raw'], zipfile.ZipFile(z).namelist()
'''),
dict(id='p26_foreign_results', property='P26', edits=[(S, "        if runno in self.sessions[session_id]:\n            for task_info", "        if session_id in self.sessions and any(runno in runs for runs in self.sessions.values()):\n            for task_info")],
  needs='two sessions, one asking for the run number of the other', breaks='the results of another session are given away and erased',
  demo=PRE + '''
s = server()
a, b = s.start_session(), s.start_session()
s.sessions[a].append(1); s.sessions[b].append(2)
done(s, 1); done(s, 2)
name, data = s.get_files(a, 2)
assert name == '' and data.data == b'', name
name, data = s.get_files(b, 2)
assert name == 'c_2.zip' and data.data == b'zipfile2'
'''),
dict(id='p26_close_gives_up', property='P26', edits=[(S, "                _logger.error(f\"Closing session {session_id}: error erasing files for run {runno}: {e}\")", "                _logger.error(f\"Closing session {session_id}: error erasing files for run {runno}: {e}\")\n                break")],
  needs='a session with several runs, erasing the files of the first of which fails', breaks='the files of the other runs of the session stay on the server for ever',
  demo=PRE + '''
s = server()
a = s.start_session()
s.sessions[a] += [1, 2]
d1 = done(s, 1); d2 = done(s, 2)
d1['log'] = 'not a path'
assert s.close_session(a) is True
assert not d2['raw'].exists() and a not in s.sessions
'''),
dict(id='p27_locked_file', property='P27', edits=[(R, "                        _logger.error(f\"Error deleting file {f}: {e}\")", "                        _logger.error(f\"Error deleting file {f}: {e}\")\n                        return")],
  needs='a result file that cannot be deleted', breaks='the task is never forgotten and its other files are kept, so the cleanup at the end of the server loops for ever',
  demo=PRE + '''
s = server()
d1, d2 = done(s, 1), done(s, 2)
d1['log'].unlink(); d1['log'].mkdir()      # unlink() fails for it
s.simulation_manager.erase_files_of_runno(1)
assert [t['runno'] for t in s.simulation_manager.completed_tasks] == [2]
assert not d1['zipfile'].exists() and d2['zipfile'].exists()
'''),
dict(id='p28_stop_open_sessions', property='P28', edits=[(S, "        self.simulation_manager.stop()", "        if not self.sessions:\n            self.simulation_manager.stop()")],
  needs='a server that is stopped while a session is open', breaks='the manager thread goes on for ever and the process does not end',
  demo=PRE + '''
s = server()
class Rpc:
    def shutdown(self): self.down = True
s.server = Rpc(); s.server_thread = threading.Thread(target=print)
s.start_session()
assert s.running()
assert s.stop_server() is True
assert not s.running(), 'the manager was not stopped'
'''),
dict(id='p44_iteration_ends', property='P44', edits=[(C, "        while len(self.started_jobs) > 0:", "        while len(self.started_jobs) > self.completed_jobs:")],
  needs='several jobs whose data is fetched while iterating', breaks='the iteration ends while jobs are still left',
  demo=PRE + '''
c = SimClient('http://localhost', 1)
c.minimum_time_between_server_calls = 0
for i in range(3):
    c.run('c.net')
c.server.done += [2, 1, 3]
got = []
for no in c:
    got.append(no)
    p = c.get_runno_data(no)
    assert p.read_bytes() == b'data%d' % no
assert sorted(got) == [1, 2, 3], got
'''),
dict(id='p44_nested_folder', property='P44', edits=[(C, "            store_path = job.file_dir / zip_filename", "            store_path = Path(job.file_dir.name) / zip_filename")],
  needs='a netlist in a folder below another one', breaks='the results are stored in a folder of the working directory instead of the one of the netlist',
  demo=PRE + '''
Path('p/q').mkdir(parents=True, exist_ok=True); Path('p/q/c.net').write_text('* c\\n.end\\n')
c = SimClient('http://localhost', 1)
c.minimum_time_between_server_calls = 0
c.run('c.net'); c.run('p/q/c.net')
c.server.done += [1, 2]
for no in c:
    p = c.get_runno_data(no)
    assert p is not None and p.exists()
assert Path('r_1.zip').exists() and Path('p/q/r_2.zip').exists()
'''),
]
