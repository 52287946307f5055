R='sim/sim_runner.py'; T='sim/run_task.py'; NG='simulators/ngspice_simulator.py'; LT='simulators/ltspice_simulator.py'; QS='simulators/qspice_simulator.py'; XY='simulators/xyce_simulator.py'; S='sim/simulator.py'
MUT=[
('P01',R,"                    task = self.active_tasks.pop(i)\n                    self.completed_tasks.append(task)","                    task = self.active_tasks.pop(i)\n                    if task.retcode >= 0:\n                        self.completed_tasks.append(task)"),
('P01',R,"                self.active_tasks.append(t)\n                t.start()","                t.start()\n                if wait_resource:\n                    self.active_tasks.append(t)"),
('P01',R,"        if t.retcode == 0:\n            self._okSim += 1","        if t.retcode >= 0:\n            self._okSim += 1"),
('P02',R,"(self.active_threads() < self.parallel_sims)","(self.active_threads() <= self.parallel_sims)"),
('P02',R,"(self.active_threads() < self.parallel_sims)","(len(self.completed_tasks) < self.parallel_sims)"),
('P03',R,'return "%s_%i%s" % (netlist.stem, self._runno, netlist.suffix)','return "%s_%i%s" % (netlist.stem, self._runno % 1000, netlist.suffix)'),
('P03',R,"        self._runno += 1  # Incrementing internal simulation number\n","","            run_netlist_file = self._on_output_folder(run_filename)\n            netlist.save_netlist(run_netlist_file)\n","            run_netlist_file = self._on_output_folder(run_filename)\n            netlist.save_netlist(run_netlist_file)\n            self._runno += 1\n"),
('P03',T,"self._edits = copy(netlist_updates)","self._edits = netlist_updates"),
('P04',T,"            self.retcode = -2\n","            pass\n"),
('P04',T,"self.log_file = self.log_file.replace(self.log_file.with_suffix('.fail'))","self.log_file.replace(self.log_file.with_suffix('.fail'))"),
('P04',T,"        except Exception as e:\n            self.exception_text","        except OSError as e:\n            self.exception_text"),
('P04',T,"if self.is_alive() or self.start_time is None:  # running","if self.start_time is None:  # running"),
('P05',T,"if self.callback and (self.callback_on_error or not some_error):","if self.callback and (self.callback_on_error or self.retcode == 0):"),
('P05',T,"                    proc.start()\n                    self.callback_return = proc.queue.get()\n                    proc.join()","                    proc.start()\n                    proc.join()\n                    self.callback_return = proc.queue.get()"),
('P05',R,"{param: callback_args[pos - 2] for","{param: callback_args[pos - 1] for"),
('P05',T,"            except Exception:\n                error = traceback.format_exc()","            except Exception:\n                self.retcode = -3\n                error = traceback.format_exc()"),
('P06',NG,"error = run_function(cmd_run, timeout=timeout, stdout=outfile, stderr=subprocess.STDOUT, cwd=cwd)","error = run_function(cmd_run, stdout=outfile, stderr=subprocess.STDOUT, cwd=cwd)"),
('P06',LT,"cmd_run = cls.spice_exe + ['-Run'] + ['-b'] + ['Z:' + netlist_file.as_posix()] + cmd_line_switches","cmd_run = cls.spice_exe\n                cmd_run += ['-Run'] + ['-b'] + ['Z:' + netlist_file.as_posix()] + cmd_line_switches"),
('P06',XY,"+ ['-r'] + [rawfile]","+ ['-r'] + [logfile]"),
('P06',QS,"[netlist_file.as_posix()] + cmd_line_switches","[netlist_file.as_posix()]"),
('P06',S,"    return result.returncode","    return 0 if result.stdout else result.returncode"),
('P06',S,"subprocess.run(command, timeout=timeout, stdout=stdout, stderr=stderr, cwd=cwd)","subprocess.run(command, timeout=timeout, stdout=stdout, stderr=stderr)"),
('P06',T,"self.timeout, cwd=self.cwd, exe_log=self.exe_log)","cwd=self.cwd, exe_log=self.exe_log)"),
('P06',R,"        if timeout is None:\n            timeout = self.timeout\n\n        t0","        timeout = timeout or self.timeout\n\n        t0"),
('P06',XY,"            cmd_line_switches = [cmd_line_switches]","            cmd_line_switches = cmd_line_switches.split()"),
('P07',LT,"            switches = [switch.replace('<path>', path) for switch in switches]\n","            if path:\n                switches = [switch.replace('<path>', path) for switch in switches]\n"),
('P07',QS,"'-Meyer'    : ['-Meyer']","'-Meyer'    : ['-meyer ']"),
('P07',XY,"                    if parameter in ('ignore'","                    if parameter not in ('ignore'"),
('P07',XY,"            raise ValueError(f\"Invalid Switch '{switch}'\")","            _logger.warning('bad')"),
('P07',NG,"            if len(switch_list) == 2:\n                param_token = switch_list[1]\n                if param_token == '<FILE>' or param_token == '<TERM>' or","            if len(switch_list) == 2:\n                param_token = switch_list[1]\n                if param_token == '<FILE>' or"),
('P08',R,"        while len(self.active_tasks) > 0:\n            completed","        while len(self.active_tasks) > self.parallel_sims:\n            completed"),
('P08',R,"        return self._failSim == 0\n\n    @staticmethod","        return self._okSim > 0\n\n    @staticmethod"),
('P09',R,"            self._del_file_if_exists","            self._del_file_if_exists(Path(self.output_folder)); self._del_file_if_exists"),
]
BEN=[
('P06',NG,"cmd_run = cls.spice_exe + cmd_line_switches + extra_switches + ['-b'] + ['-o'] + [logfile] + ['-r'] + [rawfile] + [netlist_file.as_posix()]","cmd_run = [*cls.spice_exe, *cmd_line_switches, *extra_switches]\n        cmd_run.extend(['-b', '-o', logfile])\n        cmd_run += ['-r', rawfile]\n        cmd_run.append(netlist_file.as_posix())"),
('P06',XY,"        if exe_log:\n            log_exe_file = netlist_file.with_suffix('.exe.log')\n            with open(log_exe_file, \"w\") as outfile:\n                error = run_function(cmd_run, timeout=timeout, stdout=outfile, stderr=subprocess.STDOUT, cwd=cwd)\n        else:        \n            error = run_function(cmd_run, timeout=timeout, stdout=stdout, stderr=stderr, cwd=cwd)\n        return error","        return cls._launch(netlist_file, cmd_run, timeout, stdout, stderr, cwd, exe_log)\n\n    @staticmethod\n    def _launch(nf, cmd, timeout, stdout, stderr, cwd, exe_log):\n        options = dict(timeout=timeout, cwd=cwd)\n        if not exe_log:\n            return run_function(cmd, stdout=stdout, stderr=stderr, timeout=timeout, cwd=cwd)\n        target = nf.with_suffix('.exe.log')\n        with open(target, 'w') as handle:\n            return run_function(cmd, timeout=timeout, stdout=handle, stderr=subprocess.STDOUT, cwd=cwd)"),
('P07',LT,"        if switch in cls.ltspice_args:\n            switches = cls.ltspice_args[switch]\n            switches = [switch.replace('<path>', path) for switch in switches]\n            return switches\n        else:\n            raise ValueError(f\"Invalid Switch '{switch}'\")","        if switch not in cls.ltspice_args:\n            raise ValueError(f\"Invalid Switch '{switch}'\")\n        result = []\n        for token in cls.ltspice_args[switch]:\n            result.append(token.replace('<path>', path))\n        return result"),
('P07',XY,"        if switch in cls.xyce_args:\n            switch_list = cls.xyce_args[switch]","        switch_list = cls.xyce_args.get(switch)\n        if switch_list is not None:"),
('P04,P05',T,"        some_error = False\n\n        # Cleanup everything\n        if self.retcode == 0:\n            self.raw_file = self.netlist_file.with_suffix(self.simulator.raw_extension)\n            if self.raw_file.exists() and self.log_file.exists():\n                # simulation successful\n                self.print_info(_logger.info, \"Simulation Successful. Time elapsed: %s\" % sim_time)\n            else:\n                self.print_info(_logger.error, \"Simulation Raw file or Log file were not found\")\n                some_error = True\n        else:\n","        some_error = self._classify(sim_time)\n        if self.retcode != 0:\n", "    def get_results(self)", "    def _classify(self, sim_time):\n        if self.retcode != 0:\n            return False\n        self.raw_file = self.netlist_file.with_suffix(self.simulator.raw_extension)\n        if not self.raw_file.exists() or not self.log_file.exists():\n            self.print_info(_logger.error, 'not found')\n            return True\n        self.print_info(_logger.info, 'ok')\n        return False\n\n    def get_results(self)"),
('P01,P02,P08',R,"            i = 0\n            while i < len(self.active_tasks):\n                if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:\n                    # running or not yet started\n                    i += 1\n                else:\n                    if self.active_tasks[i].retcode == 0:\n                        self._okSim += 1\n                    else:\n                        # simulation failed\n                        self._failSim += 1\n                    task = self.active_tasks.pop(i)\n                    self.completed_tasks.append(task)","            for task in list(self.active_tasks):\n                if task.is_alive() or task.start_time is None:\n                    continue\n                if task.retcode == 0:\n                    self._okSim += 1\n                else:\n                    self._failSim += 1\n                self.active_tasks.remove(task)\n                self.completed_tasks.append(task)"),
]
