C = 'client_server/sim_client.py'; S = 'client_server/sim_server.py'; R = 'client_server/srv_sim_runner.py'; SR = 'sim/sim_runner.py'
MUT = [
 ('P25', C, "            run_id = int(self.server.run(self.session_id, circuit_name, zip_data))", "            run_id = int(self.server.run(circuit_name, self.session_id, zip_data))"),
 ('P25', C, "self.server.get_files(self.session_id, runno)", "self.server.get_files(runno)"),
 ('P25', C, "                        if dep_path.exists():\n                            zip_file.write(dep, dep_path.name)", "                        if dep_path.exists():\n                            zip_file.write(dep)"),
 ('P25', C, "                zip_file.write(circuit, circuit_name)", "                zip_file.write(circuit)"),
 ('P25', C, "                        if dep_path.exists():\n                            zip_file.write(dep, dep_path.name)", "                        zip_file.write(dep, dep_path.name)"),
 ('P25', C, "            # Reset the buffer position to the start\n            zip_buffer.seek(0)\n\n            # Read", "            # Read"),
 ('P25', C, "            with open(store_path, 'wb') as f:", "            with open(store_path, 'ab') as f:"),
 ('P25', S, "        _logger.info(f\"Session {session_id} closed\")\n        return True", "        _logger.info(f\"Session {session_id} closed\")\n        return"),
 ('P25', S, "        my_circuit_name = Path(self.output_folder) / circuit_name", "        my_circuit_name = Path(circuit_name)"),
 ('P25', S, "                zip_file.extractall(self.output_folder)", "                zip_file.extractall()"),
 ('P25', R, "            zip_file.write(raw_filename)\n        if isinstance", "            zip_file.write(raw_filename)\n        elif isinstance"),
 ('P26', S, "            if runno in self.sessions[session_id]:\n                _logger.debug(f\"Server: status", "            if any(runno in x for x in self.sessions.values()):\n                _logger.debug(f\"Server: status"),
 ('P26', S, "                ret.append(runno)  #", "                ret.append(len(ret))  #"),
 ('P26', S, "        if runno in self.sessions[session_id]:\n            for task_info", "        if session_id in self.sessions:\n            for task_info"),
 ('P26', S, "                if runno == task_info['runno']:", "                if runno <= task_info['runno']:"),
 ('P26', S, "        if runno != -1:\n            self.sessions", "        if runno != 0:\n            self.sessions"),
 ('P26', S, "        if not self.add_sources(session_id, zip_data):\n            return -1\n", "        self.add_sources(session_id, zip_data)\n"),
 ('P26', S, "        for runno in self.sessions[session_id]:\n            _logger", "        for runno in sum(self.sessions.values(), []):\n            _logger"),
 ('P26', S, "        del self.sessions[session_id]\n", "        self.sessions.clear()\n"),
 ('P26', S, "            except Exception as e:\n                _logger.error(f\"Closing session", "            except KeyError as e:\n                _logger.error(f\"Closing session"),
 ('P26', S, "        session_id = str(uuid.uuid4())  #", "        session_id = str(len(self.sessions))  #"),
 ('P27', R, "                task = self.runner.completed_tasks.pop(0)", "                task = self.runner.completed_tasks[0]"),
 ('P27', R, "                    'raw': task.raw_file,", "                    'raw': task.log_file,"),
 ('P27', R, "        self.runner.wait_completion()\n        self.runner.cleanup_files()", "        self.runner.cleanup_files()\n        self.runner.wait_completion()"),
 ('P27', R, "        self.cleanup_completed()  # and", "        # and"),
 ('P27', R, "('circuit', 'log', 'raw', 'zipfile')", "('circuit', 'log', 'raw')"),
 ('P27', R, "                    except Exception as e:\n                        _logger.error(f\"Error del", "                    except PermissionError as e:\n                        _logger.error(f\"Error del"),
 ('P27', R, "            if task_info['runno'] == runno:", "            if task_info['runno'] >= runno:"),
 ('P27', R, "                self._erase_files_and_info(i)\n                break", "                self._erase_files_and_info(0)\n                break"),
 ('P27', R, "callback=zip_files, callback_on_error=True)", "callback=zip_files)"),
 ('P27', R, "            return task.runno\n", "            return self.runner.runno\n"),
 ('P27', R, "        del self.completed_tasks[pos]\n", "        if len(self.completed_tasks) > 1:\n            del self.completed_tasks[pos]\n"),
 ('P27', S, "                    zip = zip_file.open('rb')", "                    self.simulation_manager.erase_files_of_runno(runno)\n                    zip = zip_file.open('rb')"),
 ('P28', S, "            threading.Thread(target=self.server.shutdown, name=\"ServerShutdownThread\").start()", "            t = threading.Thread(target=self.server.shutdown, name=\"ServerShutdownThread\")\n            t.start()\n            t.join()"),
 ('P28', S, "        self.simulation_manager.stop()\n        if", "        if"),
 ('P28', SR, "        with self._update_lock:", "        with threading.Lock():"),
 ('P44', C, "            if run_id != -1:  #", "            if run_id:  #"),
 ('P44', C, "file_dir=circuit_path.parent)", "file_dir=circuit_path)"),
 ('P44', C, "                self.stored_jobs[runno] = self.started_jobs.pop(runno)", "                self.stored_jobs[runno] = self.started_jobs[runno]"),
 ('P44', C, "        while len(self.started_jobs) > 0:", "        while len(self.started_jobs) > 0 and len(self.stored_jobs) == 0:"),
 ('P44', C, "        job = self.stored_jobs.pop(runno)", "        job = self.stored_jobs[runno]"),
 ('P44', C, "        if runno not in self.stored_jobs:", "        if runno not in self.stored_jobs and runno not in self.started_jobs:"),
 ('P44', C, "        if zip_filename != '':", "        if zip_filename != 'x':"),
]
BEN = [('all',) + t for t in [
 (S, """        ret = []
        for task_info in self.simulation_manager.completed_tasks:
            runno = task_info['runno']
            if runno in self.sessions[session_id]:
                _logger.debug(f"Server: status({session_id}) will return task {task_info}")
                ret.append(runno)  # transfers the dictionary from the simulation_manager completed task
                # to the return dictionary 
""", """        mine = self.sessions[session_id]
        done = self.simulation_manager.completed_tasks
        ret = [t['runno'] for t in done if t['runno'] in mine]
"""),
 (S, """        ret = []
        for task_info in self.simulation_manager.completed_tasks:
            runno = task_info['runno']
            if runno in self.sessions[session_id]:
                _logger.debug(f"Server: status({session_id}) will return task {task_info}")
                ret.append(runno)  # transfers the dictionary from the simulation_manager completed task
                # to the return dictionary 
""", """        completed = {t['runno'] for t in self.simulation_manager.completed_tasks}
        ret = [runno for runno in self.sessions[session_id] if runno in completed]
"""),
 (S, """        ret = []
        for task_info in self.simulation_manager.completed_tasks:
            runno = task_info['runno']
            if runno in self.sessions[session_id]:
""", """        ret = []
        for task_info in self.simulation_manager.completed_tasks:
            runno = task_info['runno']
            if runno not in self.sessions[session_id]:
                continue
            if True:
"""),
 (S, """                    zip = zip_file.open('rb')
                    # Read the zip file from the buffer and send it to the server
                    zip_data = zip.read()
                    zip.close()
""", """                    zip_data = zip_file.read_bytes()
"""),
 (S, """                    zip = zip_file.open('rb')
                    # Read the zip file from the buffer and send it to the server
                    zip_data = zip.read()
                    zip.close()
""", """                    with open(zip_file, 'rb') as stream:
                        zip_data = stream.read()
"""),
 (S, """        if runno in self.sessions[session_id]:
            for task_info in self.simulation_manager.completed_tasks:
                if runno == task_info['runno']:
                    # Create a buffer to store the zip file in memory
                    zip_file = task_info['zipfile']
                    if not zip_file:
                        _logger.error(f"Server: get_files({session_id}, {runno}) no zip file found. Probably crashed.")
                        continue
                    zip = zip_file.open('rb')
                    # Read the zip file from the buffer and send it to the server
                    zip_data = zip.read()
                    zip.close()
                    self.simulation_manager.erase_files_of_runno(runno)
                    _logger.debug(f"Server: get_files({session_id}, {runno}) returns zip file name {zip_file.name}")
                    return zip_file.name, Binary(zip_data)
""", """        if runno not in self.sessions[session_id]:
            return "", Binary(b'')
        for task_info in self.simulation_manager.completed_tasks:
            if task_info['runno'] != runno:
                continue
            archive = task_info['zipfile']
            if archive:
                content = self._content(archive)
                self.simulation_manager.erase_files_of_runno(runno)
                return archive.name, Binary(content)
""", """    def close_session(self,""", """    @staticmethod
    def _content(path):
        with path.open('rb') as f:
            return f.read()

    def close_session(self,"""),
 (S, """        for runno in self.sessions[session_id]:
            _logger.info(f"Closing session {session_id}, erasing all files associated with run {runno}")
            try:
                self.simulation_manager.erase_files_of_runno(runno)
            except Exception as e:
                _logger.error(f"Closing session {session_id}: error erasing files for run {runno}: {e}")
        del self.sessions[session_id]
""", """        runs = self.sessions.pop(session_id)
        for runno in runs:
            self._erase_quietly(session_id, runno)
""", """    def stop_server(self)""", """    def _erase_quietly(self, session_id, runno):
        try:
            self.simulation_manager.erase_files_of_runno(runno)
        except Exception as e:
            _logger.error(f"Closing session {session_id}: error erasing files for run {runno}: {e}")

    def stop_server(self)"""),
 (S, """        if not self.add_sources(session_id, zip_data):
            return -1

        my_circuit_name""", """        if session_id not in self.sessions or not self.add_sources(session_id, zip_data):
            return -1

        my_circuit_name"""),
 (S, """        if runno != -1:
            self.sessions[session_id].append(runno)
        return runno""", """        if runno == -1:
            return -1
        self.sessions[session_id] += [runno]
        return runno"""),
 (S, """        session_id = str(uuid.uuid4())  # Needs to be a string, otherwise the rpc client can't handle it
        _logger.info(f"Server: Starting session {session_id}")
        self.sessions[session_id] = []
        return session_id""", """        session_id = uuid.uuid4().hex
        self.sessions[session_id] = list()
        return session_id"""),
 (S, """        if threading.current_thread() is self.server_thread:
            # Called by a client. shutdown() waits for the server loop, which is waiting for this call to end
            threading.Thread(target=self.server.shutdown, name="ServerShutdownThread").start()
        else:
            self.server.shutdown()
""", """        in_server = threading.current_thread() is self.server_thread
        if not in_server:
            self.server.shutdown()
        else:
            stopper = threading.Thread(target=self.server.shutdown, daemon=True)
            stopper.start()
"""),
 (R, """            while len(self.runner.completed_tasks) > 0:
                task = self.runner.completed_tasks.pop(0)
                zip_filename = task.callback_return
                self.completed_tasks.append({
                    'runno': task.runno,
                    'retcode': task.retcode,
                    'circuit': task.netlist_file,
                    'raw': task.raw_file,
                    'log': task.log_file,
                    'zipfile': zip_filename,
                    'start': task.start_time,
                    'stop': task.stop_time,
                })
""", """            while self.runner.completed_tasks:
                task = self.runner.completed_tasks.pop(0)
                self.completed_tasks.append(self._info(task))
""", """    def stop(self):""", """    @staticmethod
    def _info(task):
        info = dict(runno=task.runno, retcode=task.retcode, circuit=task.netlist_file)
        info['raw'] = task.raw_file
        info['log'] = task.log_file
        info['zipfile'] = task.callback_return
        info['start'], info['stop'] = task.start_time, task.stop_time
        return info

    def stop(self):"""),
 (R, """        while True:
            self.runner.update_completed()
""", """        running = True
        while running:
            self.runner.update_completed()
""", """            if self._stop_requested is True:
                break
""", """            if self._stop_requested:
                running = False
"""),
 (R, "        self._stop_requested = False  # Thread", "        self._stop_event = threading.Event()  # Thread", "            if self._stop_requested is True:", "            if self._stop_event.is_set():",
  "        self._stop_requested = True", "        self._stop_event.set()", "        return self._stop_requested is False", "        return not self._stop_event.is_set()"),
 (R, """        for i, task_info in enumerate(self.completed_tasks):
            if task_info['runno'] == runno:
                self._erase_files_and_info(i)
                break
""", """        for i in range(len(self.completed_tasks)):
            if self.completed_tasks[i]['runno'] == runno:
                self._erase_files_and_info(i)
                return
"""),
 (R, """        task = self.completed_tasks[pos]
        for filename in ('circuit', 'log', 'raw', 'zipfile'):
            if filename in task:
                f = task[filename]
                if f is not None and f.exists():
                    _logger.debug(f"deleting file {f}")
                    try:
                        f.unlink()
                        _logger.debug(f"deleted file {f}")
                    except Exception as e:
                        _logger.error(f"Error deleting file {f}: {e}")
        del self.completed_tasks[pos]
""", """        task = self.completed_tasks.pop(pos)
        for filename in ('zipfile', 'circuit', 'log', 'raw'):
            f = task.get(filename)
            if f is None or not f.exists():
                continue
            try:
                f.unlink()
            except OSError as e:
                _logger.error(f"Error deleting file {f}: {e}")
"""),
 (R, """        while len(self.completed_tasks):
            self._erase_files_and_info(0)
""", """        while self.completed_tasks:
            self._erase_files_and_info(len(self.completed_tasks) - 1)
"""),
 (R, """        zip_filename = raw_filename.with_suffix('.zip')
    else:
        if isinstance(log_filename, Path) and log_filename.exists():
            zip_filename = log_filename.with_suffix('.zip')
            
    if zip_filename is None:
        _logger.warning("No files are available for zipping. Returning None.")
        return None

    with zipfile.ZipFile(zip_filename, 'w', zipfile.ZIP_DEFLATED) as zip_file:
        if isinstance(raw_filename, Path) and raw_filename.exists():
            zip_file.write(raw_filename)
        if isinstance(log_filename, Path) and log_filename.exists():
            zip_file.write(log_filename)
""", """        zip_filename = raw_filename.with_suffix('.zip')
    elif isinstance(log_filename, Path) and log_filename.exists():
        zip_filename = log_filename.with_suffix('.zip')
    else:
        _logger.warning("No files are available for zipping. Returning None.")
        return None

    with zipfile.ZipFile(zip_filename, 'w', zipfile.ZIP_DEFLATED) as zip_file:
        for name in (raw_filename, log_filename):
            if isinstance(name, Path) and name.exists():
                zip_file.write(name)
"""),
 (R, """    zip_filename = None
    if isinstance(raw_filename, Path) and raw_filename.exists():
        zip_filename = raw_filename.with_suffix('.zip')
    else:
        if isinstance(log_filename, Path) and log_filename.exists():
            zip_filename = log_filename.with_suffix('.zip')
            
    if zip_filename is None:
        _logger.warning("No files are available for zipping. Returning None.")
        return None

    with zipfile.ZipFile(zip_filename, 'w', zipfile.ZIP_DEFLATED) as zip_file:
        if isinstance(raw_filename, Path) and raw_filename.exists():
            zip_file.write(raw_filename)
        if isinstance(log_filename, Path) and log_filename.exists():
            zip_file.write(log_filename)
""", """    files = [f for f in (raw_filename, log_filename) if isinstance(f, Path) and f.exists()]
    if not files:
        return None
    zip_filename = files[0].with_suffix('.zip')
    with zipfile.ZipFile(zip_filename, 'w', zipfile.ZIP_DEFLATED) as zip_file:
        for f in files:
            zip_file.write(f)
"""),
 (R, """        if task is None:
            _logger.error(f"Failed to start task {netlist}")
            return -1
        else:
            _logger.info(f"Started task {netlist} with job_id{task.runno}")
            return task.runno
""", """        return -1 if task is None else task.runno
"""),
 (SR, """        with self._update_lock:
""", """        lock = self._update_lock
        with lock:
"""),
 (C, """            # Create a buffer to store the zip file in memory
            zip_buffer = io.BytesIO()

            # Create the zip file in memory
            with zipfile.ZipFile(zip_buffer, 'w', zipfile.ZIP_DEFLATED) as zip_file:
                zip_file.write(circuit, circuit_name)  # Makes sure it writes it to the root of the zipfile
                if dependencies is not None:
                    for dep in dependencies:
                        dep_path = Path(dep)
                        if dep_path.exists():
                            zip_file.write(dep, dep_path.name)

            # Reset the buffer position to the start
            zip_buffer.seek(0)

            # Read the zip file from the buffer and send it to the server
            zip_data = zip_buffer.read()
""", """            zip_data = self._pack(circuit, circuit_name, dependencies or [])
""", """    def get_runno_data(""", """    @staticmethod
    def _pack(circuit, name, dependencies):
        buffer = io.BytesIO()
        with zipfile.ZipFile(buffer, 'w', zipfile.ZIP_DEFLATED) as archive:
            archive.write(circuit, arcname=name)
            for dep in map(Path, dependencies):
                if not dep.exists():
                    continue
                archive.write(dep, dep.name)
        return buffer.getvalue()

    def get_runno_data("""),
 (C, """        if os.path.exists(circuit):
            # Create""", """        if circuit_path.exists():
            # Create"""),
 (C, """            if run_id != -1:  # -1 means that the server didn't start the simulation
                job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
                self.started_jobs[run_id] = job_info
            return run_id
""", """            if run_id == -1:
                return -1
            self.started_jobs[run_id] = JobInformation(run_id, circuit_path.parent)
            return run_id
"""),
 (C, """        zip_filename, zipdata = self.server.get_files(self.session_id, runno)  # type: ignore
        job = self.stored_jobs.pop(runno)  # Removes it from stored jobs
        self.completed_jobs += 1
        if zip_filename != '':
            store_path = job.file_dir / zip_filename
            with open(store_path, 'wb') as f:
                f.write(zipdata.data)  # type: ignore
            return store_path
        else:
            return None
""", """        answer = self.server.get_files(self.session_id, runno)  # type: ignore
        job = self.stored_jobs[runno]
        del self.stored_jobs[runno]
        self.completed_jobs += 1
        if not answer[0]:
            return None
        store_path = job.file_dir / answer[0]
        store_path.write_bytes(answer[1].data)
        return store_path
"""),
 (C, """            status: list[int] = [runno for runno in self.server.status(self.session_id)  # type: ignore
                                 if runno in self.started_jobs]  # without those that were not yet transferred
            if len(status) > 0:
                runno = status.pop(0)
                self.stored_jobs[runno] = self.started_jobs.pop(runno)  # Job is taken out of the started jobs list and
                # is added to the stored jobs
                return runno
            else:
                now""", """            for runno in self.server.status(self.session_id):
                if runno in self.started_jobs:
                    job = self.started_jobs.pop(runno)
                    self.stored_jobs[runno] = job
                    return runno
            else:
                now"""),
 (C, """            status: list[int] = [runno for runno in self.server.status(self.session_id)  # type: ignore
                                 if runno in self.started_jobs]  # without those that were not yet transferred
            if len(status) > 0:
                runno = status.pop(0)
""", """            done = self.server.status(self.session_id)
            runno = next((no for no in done if no in self.started_jobs), None)
            if runno is not None:
"""),
 (C, "        while len(self.started_jobs) > 0:\n", "        while self.started_jobs:\n"),
]]
