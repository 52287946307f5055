CLI, SRV, RUN, SIM, SCR = 'client_server/sim_client.py', 'client_server/sim_server.py', 'client_server/srv_sim_runner.py', 'sim/sim_runner.py', 'scripts/run_server.py'
MUT = [('P31',) + t for t in [
    (SRV, 'ServerSimRunner(parallel_sims=parallel_sims, timeout=timeout', 'ServerSimRunner(timeout=timeout'),
    (SRV, 'ServerSimRunner(parallel_sims=parallel_sims, timeout=timeout', 'ServerSimRunner(parallel_sims=parallel_sims, timeout=300'),
    (SRV, 'output_folder=output_folder, simulator=simulator)', 'simulator=simulator)'),
    (SRV, '(host, port)', "('localhost', port)"),
    (SRV, 'self.simulation_manager.start()', 'pass'),
    (SRV, 'self.server_thread.start()', 'pass'),
    (SRV, 'self.server.register_instance(self)', 'self.server.register_instance(self.simulation_manager)'),
    (RUN, 'SimRunner(simulator=simulator, parallel_sims=parallel_sims, timeout=timeout', 'SimRunner(simulator=simulator, parallel_sims=4, timeout=timeout'),
    (RUN, 'verbose=verbose, output_folder=output_folder)', 'verbose=verbose)'),
    (SIM, 'self.parallel_sims = parallel_sims', 'self.parallel_sims = 4'),
    (SIM, 'self.timeout = timeout', 'self.timeout = 600.0'),
    (SIM, 'self.cwd = Path(cwd)', 'self.cwd = Path(output_folder)'),
    (SIM, 'self.output_folder.mkdir()', 'pass'),
    (SIM, 'if not self.cwd.exists():', 'if self.cwd.exists():'),
    (SIM, 'self.simulator = simulator', 'self.simulator = Simulator'),
    (SIM, 'elif issubclass(simulator, Simulator):', 'elif not issubclass(simulator, Simulator):'),
    (SCR, 'port=args.port, timeout=args.timeout', 'port=args.port, timeout=args.port'),
    (SCR, 'parallel_sims=args.parallel, output', 'parallel_sims=1, output'),
    (SCR, ', host=args.host', ''),
    (SCR, 'simulator = NGspiceSimulator', 'simulator = XyceSimulator', '        from spicelib.simulators.ngspice_simulator import NGspiceSimulator\n', '        from spicelib.simulators.xyce_simulator import XyceSimulator\n'),
    (SCR, 'if kill_server_requested:', 'if not kill_server_requested:'),
    (CLI, "f'{host_address}:{port}'", "f'{host_address}:9000'"),
    (CLI, 'self.session_id = self.server.start_session()', "self.session_id = 'x'; self.server.start_session()"),
]]
BEN = [('all',) + t for t in [
    (SRV, '''ServerSimRunner(parallel_sims=parallel_sims, timeout=timeout, verbose=False,
                                                  output_folder=output_folder, simulator=simulator)''', 'ServerSimRunner(parallel_sims, timeout, False, output_folder, simulator)'),
    (SRV, 'self.server = SimpleXMLRPCServer((host, port),', 'address = (host, port)\n        self.server = SimpleXMLRPCServer(address,'),
    (SRV, 'self.server_thread = threading.Thread(target=self.server.serve_forever, name="ServerThread")\n        self.server_thread.start()',
     'thread = threading.Thread(name="ServerThread", target=self.server.serve_forever)\n        thread.start()\n        self.server_thread = thread'),
    (SIM, '''            if not isinstance(output_folder, Path):
                self.output_folder = Path(output_folder)
            else:
                self.output_folder = output_folder
            if not self.output_folder.exists():
                self.output_folder.mkdir()
''', '''            folder = output_folder if isinstance(output_folder, Path) else Path(output_folder)
            if not folder.exists():
                folder.mkdir()
            self.output_folder = folder
'''),
    (SIM, '''            if not isinstance(cwd, Path):
                self.cwd = Path(cwd)
            else:
                self.cwd = cwd
            if not self.cwd.exists():
                self.cwd.mkdir()
        else:
            self.cwd = None
''', '''            self.cwd = self._folder(cwd)
        else:
            self.cwd = None
''', '    def __del__(self):\n        """Class Destructor', '''    @staticmethod
    def _folder(path):
        path = Path(path)
        if not path.exists():
            path.mkdir()
        return path

    def __del__(self):
        """Class Destructor'''),
    (SIM, '''        elif issubclass(simulator, Simulator):
            self.simulator = simulator
        else:
            raise TypeError("Invalid simulator type.")''', '''        if not issubclass(simulator, Simulator):
            raise TypeError("Invalid simulator type.")
        self.simulator = simulator'''),
    (SCR, '''    while server.running():
        time.sleep(0.2)
        # Check whether relevant signal was received
        if kill_server_requested:
            server.stop_server()
            break
''', '''    while server.running():
        time.sleep(0.2)
        if not kill_server_requested:
            continue
        server.stop_server()
        break
'''),
    (CLI, "self.server = xmlrpc.client.ServerProxy(f'{host_address}:{port}')", "url = '{}:{}'.format(host_address, port)\n        self.server = xmlrpc.client.ServerProxy(url)"),
    (CLI, '''                now = time.time()
                delta = self.minimum_time_between_server_calls - (now - self._last_server_call)
                if delta > 0:
                    time.sleep(delta)  # Go asleep for a sec
                self._last_server_call = now
''', '''                now = time.time()
                elapsed = now - self._last_server_call
                self._last_server_call = now
                if elapsed < self.minimum_time_between_server_calls:
                    time.sleep(self.minimum_time_between_server_calls - elapsed)
'''),
    (CLI, '''                now = time.time()
                delta = self.minimum_time_between_server_calls - (now - self._last_server_call)
                if delta > 0:
                    time.sleep(delta)  # Go asleep for a sec
                self._last_server_call = now
''', '''                self._wait_a_bit()
''', '    def close_session(self):', '''    def _wait_a_bit(self):
        now = time.time()
        time.sleep(max(0, self.minimum_time_between_server_calls - now + self._last_server_call))
        self._last_server_call = now

    def close_session(self):'''),
    (SRV, '''        answer = False
        with zipfile.ZipFile(zip_buffer, 'r') as zip_file:
            for name in zip_file.namelist():
                _logger.debug(f"Server: Writing {name} to zip file")
            if len(zip_file.namelist()) >= 0:
                zip_file.extractall(self.output_folder)
                answer = True
        return answer
''', '''        with zipfile.ZipFile(zip_buffer, 'r') as zip_file:
            zip_file.extractall(self.output_folder)
        return True
'''),
    (RUN, '''            if filename in task:
                f = task[filename]
                if f is not None and f.exists():
''', '''            f = task.get(filename)
            if f is not None:
                if f.exists():
'''),
    (RUN, '''        while len(self.completed_tasks):
            self._erase_files_and_info(0)
''', '''        while self.completed_tasks:
            self._erase_files_and_info(-1)
'''),
    (RUN, '''            while len(self.runner.completed_tasks) > 0:
                task = self.runner.completed_tasks.pop(0)
''', '''            while self.runner.completed_tasks:
                task = self.runner.completed_tasks.pop()
'''),
]]
