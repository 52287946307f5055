R='sim/sim_runner.py';T='sim/run_task.py';A='editor/asc_editor.py';C='editor/spice_components.py';S='editor/spice_subcircuit.py';P='raw/plot_data.py';W='raw/raw_classes.py'
Q='simulators/qspice_simulator.py'
MUT=[]
BEN=[
('all',R,"        # Harmonize the netlist into a Path object pointing to a netlist file on the right output folder\n        if isinstance(netlist, BaseEditor):\n            if run_filename is None:\n                run_filename = self._run_file_name(netlist.circuit_file)\n",
 "        if isinstance(netlist, BaseEditor):\n            source = netlist.circuit_file\n            run_filename = self._run_file_name(source) if run_filename is None else run_filename\n"),
('all',R,"            if isinstance(netlist, str):\n                netlist = Path(netlist)\n            run_netlist_file = self._to_output_folder(netlist, copy=True, new_name=run_filename)\n",
 "            return self._to_output_folder(Path(netlist), copy=True, new_name=run_filename)\n"),
('all',R,"        while len(self.active_tasks) > 0:\n            completed = len(self.completed_tasks)\n            sleep(1)\n            self.update_completed()\n",
 "        while True:\n            if not self.active_tasks:\n                break\n            completed = len(self.completed_tasks)\n            sleep(1)\n            self.update_completed()\n"),
('all',R,"            if stop_time is not None:  # This can happen if timeout was set as none everywhere\n                if time.time() > stop_time:\n                    if abort_all_on_timeout:\n                        self.kill_all_spice()\n                    return False\n",
 "            expired = stop_time is not None and time.time() > stop_time\n            if not expired:\n                continue\n            if abort_all_on_timeout:\n                self.kill_all_spice()\n            return False\n"),
('all',R,"        if timeout is not None:\n            stop_time = time.time() + timeout\n        else:\n            stop_time = None\n        while","        stop_time = None if timeout is None else time.time() + timeout\n        while"),
('all',R,"                if alarm is None:\n                    alarm = stop\n                elif stop > alarm:\n                    alarm = stop\n","                alarm = stop if alarm is None else max(alarm, stop)\n"),
('all',R,"            if netlistfile.suffix == '.net' or netlistfile.suffix == '.asc':\n","            if netlistfile.suffix in ('.net', '.asc'):\n"),
('all',R,"            self._del_file_if_exists(netlistfile)  # Delete the netlist file if still exists\n            self._del_file_if_exists(task.log_file)  # Delete the log file if was created\n            self._del_file_if_exists(netlistfile.with_suffix('.exe.log'))  # Delete the log file if was created\n            self._del_file_if_exists(task.raw_file)  # Delete the raw file if was created\n",
 "            for created in (netlistfile, task.log_file, netlistfile.with_suffix('.exe.log'), task.raw_file):\n                self._del_file_if_exists(created)\n"),
('all',R,"        if workfile is not None and workfile.exists():\n            _logger.info(\"Deleting...\" + workfile.name)\n            workfile.unlink()\n","        if workfile is None:\n            return\n        if workfile.exists():\n            _logger.info(\"Deleting...\" + workfile.name)\n            workfile.unlink()\n"),
('all',R,"        self.completed_tasks.append(t)\n        if t.retcode == 0:\n            self._okSim += 1\n        else:\n            # simulation failed\n            self._failSim += 1\n        return t.raw_file, t.log_file","        if t.retcode != 0:\n            self._failSim += 1\n        else:\n            self._okSim += 1\n        self.completed_tasks.append(t)\n        results = t.raw_file, t.log_file\n        return results"),
('all',T,"        if self.is_alive() or self.start_time is None:  # running or not yet started\n            return None\n\n        if self.callback:\n            return self.callback_return  # callback_return is guaranteed to be set correctly by `run()`\n        else:\n            return self.raw_file, self.log_file\n","        finished = not self.is_alive() and self.start_time is not None\n        if not finished:\n            return None\n        return self.callback_return if self.callback else (self.raw_file, self.log_file)\n"),
('all',A,"            params = self.get_parameters(as_dicts=True)\n            if key in params:\n                # I only have","            params = self.get_parameters(as_dicts=True)\n            known = key in params\n            if known:\n                # I only have"),
('all',A,"                    if value_str is None:\n                        continue  # there's nothing to remove\n                    else:\n                        if key in LTSPICE_PARAMETERS:\n                            # known parameter, set the value\n                            self.attributes[key] = value_str\n                            _logger.info(f\"Component {self.reference} updated with parameter {key}:{value_str}\")\n                            update_type = UpdateType.UpdateComponentParameter\n                        else:\n","                    if value_str is None:\n                        continue  # there's nothing to remove\n                    elif key in LTSPICE_PARAMETERS:\n                            self.attributes[key] = value_str\n                            _logger.info(f\"Component {self.reference} updated with parameter {key}:{value_str}\")\n                            update_type = UpdateType.UpdateComponentParameter\n                    else:\n"),
('all',A,"            if value is None:\n                value_str = None\n            elif isinstance(value, str):\n                value_str = value.strip()\n            else:\n                value_str = format_eng(value)\n            params","            value_str = self._text_of(value)\n            params","    def set_parameter(self, key: str, value: float | int | str | None) -> None:","    @staticmethod\n    def _text_of(value):\n        if value is None:\n            return None\n        return value.strip() if isinstance(value, str) else format_eng(value)\n\n    def set_parameter(self, key: str, value: float | int | str | None) -> None:"),
('all',C,"        count = stream.write(self.reference)\n        for port in self.ports:\n            count += stream.write(f\" {port}\")\n","        count = stream.write(self.reference)\n        for node in self.port_list():\n            count += stream.write(\" \" + node)\n"),
('all',C,"        if self._obj:\n            # try to rewrite the line preserving formatting\n            return self.rewrite_lines(stream)\n\n        # Write a line from the stored attributes\n        count","        if self._obj:\n            return self.rewrite_lines(stream)\n        return self._write_new_line(stream)\n\n    def _write_new_line(self, stream: io.StringIO) -> int:\n        count"),
('all',C,"    line = line[:start] + section + line[end:]\n    line = line.strip()\n    return line\n","    before, after = line[:start], line[end:]\n    return (before + section + after).strip()\n"),
('all',S,"        ref_upped = reference.upper()\n        if SUBCKT_DIVIDER in ref_upped:\n            if ref_upped[0] != 'X':  # It needs be contained in a sub-circuit declaration\n                raise ComponentNotFoundError(\"Only subcircuits can have components inside.\")\n            else:\n                # In this case the sub-circuit needs to be copied so that is copy is modified.\n                # A copy is created for each instance of a sub-circuit.\n                subckt_ref, sub_ref = ref_upped.split(SUBCKT_DIVIDER, 1)\n                subcircuit_instance : SpiceCircuitInstance = self.get_component(subckt_ref) # pyright: ignore[reportAssignmentType]\n                component_type = subcircuit_instance.get_component(sub_ref)\n                return component_type # pyright: ignore[reportReturnType] # Component is converted to SpiceComponent\n",
 "        ref_upped = reference.upper()\n        if SUBCKT_DIVIDER in ref_upped:\n            if not ref_upped.startswith('X'):\n                raise ComponentNotFoundError(\"Only subcircuits can have components inside.\")\n            subckt_ref, _, sub_ref = ref_upped.partition(SUBCKT_DIVIDER)\n            return self.get_component(subckt_ref).get_component(sub_ref)\n"),
('all',S,"                if isinstance(component, SpiceCircuit):\n                    name = component.name()\n                    if name.upper() == ref_upped:\n                        return component\n                elif isinstance(component, SpiceComponent):\n                    if component.reference.upper() == ref_upped:\n                        # if isinstance(component, SpiceCircuitInstance):\n                        #     # Need to check whether a shadow exists\n                        #     pass\n\n                        return component\n",
 "                if isinstance(component, SpiceCircuit):\n                    own = component.name()\n                elif isinstance(component, SpiceComponent):\n                    own = component.reference\n                else:\n                    continue\n                if own.upper() == ref_upped:\n                    return component\n"),
('all',P,"            for line in log:\n                if line.startswith(\".step\"):\n                    step_dict = {}\n                    for tok in line[6:-1].split(' '):\n                        if '=' not in tok:\n                            continue\n                        key, value = tok.split('=')\n                        step_dict[key] = try_convert_value(value)\n","            for line in log:\n                if line.startswith(\".step\"):\n                    step_dict = {}\n                    assignments = [tok.split('=') for tok in line[6:-1].split(' ') if '=' in tok]\n                    for key, value in assignments:\n                        step_dict[key] = try_convert_value(value)\n"),
('all',P,"        if not self._has_axis:\n            # If there is no axis, the length is the number of points\n            return self._nPoints\n        else:\n","        if self._has_axis is False:\n            return self._nPoints\n        if True:\n"),
('all',W,"        if self.axis is None:\n            if n != 0:\n                return self.data[n]\n            else:\n                return self.data[step]  # This is for the case of stepped operation point simulation.\n        else:\n            return self.data[self.axis.step_offset(step) + n]\n","        if self.axis is not None:\n            start = self.axis.step_offset(step)\n            return self.data[start + n]\n        return self.data[n if n != 0 else step]\n"),
('all',Q,"        cmd_run = cls.spice_exe + ['-o', log_file] + [netlist_file.as_posix()] + cmd_line_switches\n","        cmd_run = [*cls.spice_exe, '-o', log_file, netlist_file.as_posix(), *cmd_line_switches]\n"),
]
TD='sim/tookit/tolerance_deviations.py';MC='sim/tookit/montecarlo.py';QS='sim/tookit/quick_sensitivity_analysis.py';ST='sim/sim_stepping.py'
BEN += [
('all',TD,"        if ref in self.devices_with_deviation_allowed:  # Only the prefix is given\n            self.default_tolerance[ref] = ComponentDeviation.from_tolerance(new_tolerance, distribution)\n        else:\n            if ref in self.editor.get_components(ref[0]):\n                self.device_deviations[ref] = ComponentDeviation.from_tolerance(new_tolerance, distribution)\n",
 "        deviation = ComponentDeviation.from_tolerance(new_tolerance, distribution)\n        if ref in self.devices_with_deviation_allowed:\n            self.default_tolerance[ref] = deviation\n        elif ref in self.editor.get_components(ref[0]):\n            self.device_deviations[ref] = deviation\n"),
('all',TD,"        if ref in self.device_deviations:\n            return value, self.device_deviations[ref]\n        elif ref[0] in self.default_tolerance:\n            return value, self.default_tolerance[ref[0]]\n        else:\n            return value, ComponentDeviation.none()\n",
 "        deviation = self.device_deviations.get(ref)\n        if deviation is None:\n            deviation = self.default_tolerance.get(ref[0])\n        if deviation is None:\n            deviation = ComponentDeviation.none()\n        return value, deviation\n"),
('all',TD,"            last_no = sim_no + runs_per_sim - 1\n            if last_no > self.last_run_number:\n                last_no = self.last_run_number\n","            last_no = min(sim_no + runs_per_sim - 1, self.last_run_number)\n"),
('all',TD,"        for sim_no in range(-1, self.last_run_number + 1, runs_per_sim):\n            last_no","        sim_no = -1 - runs_per_sim\n        while sim_no + runs_per_sim <= self.last_run_number:\n            sim_no += runs_per_sim\n            last_no"),
('all',TD,"        if not self.testbench_prepared:\n            super()._reset_netlist()\n            self.play_instructions()\n            self.prepare_testbench()\n        else:\n            self.play_instructions()\n","        if self.testbench_prepared:\n            self.play_instructions()\n        else:\n            super()._reset_netlist()\n            self.play_instructions()\n            self.prepare_testbench()\n"),
('all',TD,"        if run_task.retcode != 0:\n            return None\n\n        log_results = self.read_logfile(run_task)\n        if log_results is None:\n            return None\n","        log_results = self.read_logfile(run_task) if run_task.retcode == 0 else None\n        if log_results is None:\n            return None\n"),
('all',TD,"            if 'run' in log_results.dataset and len(log_results.dataset['run']) > 0:\n                if isinstance(log_results.dataset['run'][0], LTComplex):\n                    log_results.stepset = {'run': [round(val.real) for val in log_results.dataset['run']]}\n                else:\n                    log_results.stepset = {'run': log_results.dataset['run']}\n",
 "            runs = log_results.dataset.get('run')\n            if runs:\n                if isinstance(runs[0], LTComplex):\n                    runs = [round(val.real) for val in runs]\n                log_results.stepset = {'run': runs}\n"),
('all',MC,"            callback_rets = []\n            for rt in self.simulations:\n                callback_rets.append(rt.get_results())\n            self.simulation_results['callback_returns'] = callback_rets\n","            self.simulation_results['callback_returns'] = [rt.get_results() for rt in self.simulations]\n"),
('all',MC,"                new_val = self._get_sim_value(val, dev)\n                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_component_value(ref, new_val)  # update the value\n            # Preparing","                new_val = self._get_sim_value(val, dev)\n                if new_val == val:\n                    continue\n                self.editor.set_component_value(ref, new_val)\n            # Preparing"),
('all',MC,"        new_val = value\n        if dev.typ == DeviationType.tolerance:\n            if dev.distribution == 'uniform':\n                new_val = f\"{random.Random().uniform(value * (1- dev.tolerance), value * (1 + dev.tolerance)):g}\"\n",
 "        new_val = value\n        rng = random.Random()\n        if dev.typ == DeviationType.tolerance:\n            if dev.distribution == 'uniform':\n                spread = value * dev.tolerance\n                new_val = f\"{rng.uniform(value - spread, value + spread):g}\"\n"),
('all',MC,"        self.last_run_number = kwargs.get('num_runs', self.last_run_number if self.last_run_number != 0 else 1000)\n","        if 'num_runs' in kwargs:\n            self.last_run_number = kwargs['num_runs']\n        elif self.last_run_number == 0:\n            self.last_run_number = 1000\n"),
('all',MC,"        for run in range(num_runs):\n            self._reset_netlist()  # reset the netlist\n            self.play_instructions()  # play the instructions\n            # Preparing the variation on components\n            for ref in self.get_components('*'):\n                val, dev = self.get_component_value_deviation_type(ref)  # get there present value\n                new_val = self._get_sim_value(val, dev)\n                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_component_value(ref, new_val)  # update the value\n",
 "        for run in range(num_runs):\n            self._reset_netlist()\n            self.play_instructions()\n            self._vary_components()\n","    def run_analysis(self,","    def _vary_components(self):\n        for ref in self.get_components('*'):\n            val, dev = self.get_component_value_deviation_type(ref)\n            new_val = self._get_sim_value(val, dev)\n            if new_val != val:\n                self.editor.set_component_value(ref, new_val)\n\n    def run_analysis(self,"),
('all',QS,"            error_data = []\n            for idx in range(len(self.elements_analysed)):\n                step_data = log_data.get_measure_value(measure, run=idx)\n                error_data.append(abs(step_data - nominal_data))\n","            error_data = [abs(log_data.get_measure_value(measure, run=idx) - nominal_data) for idx in range(len(self.elements_analysed))]\n"),
('all',QS,"            if ref == '*':\n                return {ref: error_data[idx] / total_error * 100 if total_error != 0 else 0\n                        for idx, ref in enumerate(self.elements_analysed)}\n            else:\n                idx = self.elements_analysed.index(ref)\n                return error_data[idx] / total_error * 100 if total_error != 0 else 0\n",
 "            shares = [100 * error / total_error if total_error != 0 else 0 for error in error_data]\n            if ref == '*':\n                return dict(zip(self.elements_analysed, shares))\n            return shares[self.elements_analysed.index(ref)]\n"),
('all',QS,"                    if dev.typ == DeviationType.tolerance:\n                        new_val = val * (1 + dev.tolerance) if bit_setting & (1 << bit_index) else val\n                    elif dev.typ == DeviationType.minmax:\n                        new_val = dev.min_val if bit_setting & (1 << bit_index) else val\n",
 "                    is_set = bit_setting & (1 << bit_index)\n                    if not is_set:\n                        new_val = val\n                    elif dev.typ == DeviationType.tolerance:\n                        new_val = val * (1 + dev.tolerance)\n                    elif dev.typ == DeviationType.minmax:\n                        new_val = dev.min_val\n"),
('all',QS,"        def check_and_add_component(ref1: str):\n            val1, dev1 = self.get_component_value_deviation_type(ref1)  # get there present value\n            if dev1.is_not_valid():\n                return\n            worst_case_elements[ref1] = val1, dev1, 'component'\n            self.elements_analysed.append(ref1)\n","        def check_and_add_component(ref1: str):\n            val1, dev1 = self.get_component_value_deviation_type(ref1)\n            if not dev1.is_not_valid():\n                self.elements_analysed.append(ref1)\n                worst_case_elements[ref1] = (val1, dev1, 'component')\n"),
('all',ST,"        total = 1\n        for step in self.iter_list:\n            l = len(step)\n            if l:\n                total *= l\n            else:\n                _logger.debug(f\"'{step}' is empty.\")\n        return total\n","        total = 1\n        for size in map(len, self.iter_list):\n            if size > 0:\n                total = total * size\n        return total\n"),
('all',ST,"        self.editor.set_parameter(param, value)\n        self.current_values[param] = value\n","        self.editor.set_parameter(param, value)\n        self.current_values.update({param: value})\n"),
('all',ST,"        self.iter_list.append(StepInfo(\"component\", comp, iterable))\n","        step = StepInfo(\"component\", comp, iterable)\n        self.iter_list.append(step)\n"),
]
CL='client_server/sim_client.py';SV='client_server/sim_server.py';SF='editor/spice_file.py';LD='log/logfile_data.py';QL='log/qspice_log_reader.py';NG='simulators/ngspice_simulator.py'
BEN += [
('all',CL,"        if zip_filename != '':\n            store_path = job.file_dir / zip_filename\n            with open(store_path, 'wb') as f:\n                f.write(zipdata.data)  # type: ignore\n            return store_path\n        else:\n            return None\n",
 "        if not zip_filename:\n            return None\n        return self._store(job.file_dir / zip_filename, zipdata.data)\n\n    @staticmethod\n    def _store(store_path, content):\n        with open(store_path, 'wb') as f:\n            f.write(content)\n        return store_path\n"),
('all',SV,"        answer = False\n        with zipfile.ZipFile(zip_buffer, 'r') as zip_file:\n            for name in zip_file.namelist():\n                _logger.debug(f\"Server: Writing {name} to zip file\")\n            if len(zip_file.namelist()) >= 0:\n                zip_file.extractall(self.output_folder)\n                answer = True\n        return answer\n",
 "        with zipfile.ZipFile(zip_buffer, 'r') as zip_file:\n            names = zip_file.namelist()\n            _logger.debug(f\"Server: Writing {names} to zip file\")\n            zip_file.extractall(self.output_folder)\n        return True\n"),
('all',A,"            instruction = self.directives[i].text\n            if regex.match(instruction) is not None:\n                if self.begin_update() == UpdatePermission.Deny:\n                    raise PermissionError(f\"Removal of instruction {instruction} denied\")\n                instr_removed = True\n                del self.directives[i]\n",
 "            directive = self.directives[i]\n            instruction = directive.text\n            if regex.match(instruction):\n                permission = self.begin_update()\n                if permission == UpdatePermission.Deny:\n                    raise PermissionError(f\"Removal of instruction {instruction} denied\")\n                self.directives.pop(i)\n                instr_removed = True\n"),
('all',SF,"            i = 0\n            while i < len(self.netlist):\n                line = self.netlist[i]\n                if isinstance(line, Primitive) and _is_unique_instruction(line.obj):\n                    self.netlist[i] = Primitive(netlist=self, obj=instruction)\n                    if permission == UpdatePermission.Inform:\n                        self.end_update(\"INSTRUCTION\", instruction.strip(), UpdateType.UpdateInstruction)\n                    return\n                else:\n                    i += 1\n",
 "            for i, line in enumerate(self.netlist):\n                if not isinstance(line, Primitive) or not _is_unique_instruction(line.obj):\n                    continue\n                self.netlist[i] = Primitive(netlist=self, obj=instruction)\n                if permission == UpdatePermission.Inform:\n                    self.end_update(\"INSTRUCTION\", instruction.strip(), UpdateType.UpdateInstruction)\n                return\n"),
('all',S,"            if isinstance(primitive, SpiceCircuit):\n                clone.netlist.append(primitive.clone(clone))\n            elif isinstance(primitive, SpiceComponent):\n                clone.netlist.append(primitive.clone(clone))\n            elif isinstance(primitive, Primitive):\n                # this also keeps the control sections and the include files as such\n                clone.netlist.append(type(primitive)(netlist=clone, obj=primitive.obj))\n            else:\n                clone.netlist.append(primitive)\n",
 "            if isinstance(primitive, (SpiceCircuit, SpiceComponent)):\n                copied = primitive.clone(clone)\n            elif isinstance(primitive, Primitive):\n                copied = type(primitive)(netlist=clone, obj=primitive.obj)\n            else:\n                copied = primitive\n            clone.netlist.append(copied)\n"),
('all',S,"            if isinstance(primitive, str):\n                stream.write(primitive)\n            elif isinstance(primitive, IncludeFile):\n                if primitive.editor is None:\n                    raise RuntimeError(\n                        f\"Cannot write unresolved include file: {primitive.obj!r}\"\n                    )\n                primitive.editor.write_lines(stream)\n            elif isinstance(primitive, (SpiceComponent, SpiceCircuit, ControlEditor)):\n                primitive.write_lines(stream)\n",
 "            if isinstance(primitive, (SpiceComponent, SpiceCircuit, ControlEditor)):\n                primitive.write_lines(stream)\n            elif isinstance(primitive, IncludeFile):\n                if primitive.editor is None:\n                    raise RuntimeError(\n                        f\"Cannot write unresolved include file: {primitive.obj!r}\"\n                    )\n                primitive.editor.write_lines(stream)\n            elif isinstance(primitive, str):\n                stream.write(primitive)\n"),
('all',LD,"        for m in self.dataset.keys():\n            if m.lower() == measure.lower():\n                measure = m\n                break\n        else:\n            raise IndexError(\"Measurement \\\"%s\\\" not found\" % measure)\n\n        if step is None:\n            if kwargs:\n",
 "        candidates = [m for m in self.dataset if m.lower() == measure.lower()]\n        if not candidates:\n            raise IndexError(\"Measurement \\\"%s\\\" not found\" % measure)\n        measure = candidates[0]\n\n        if step is None:\n            if kwargs:\n"),
('all',LD,"                step = self.steps_with_conditions(**kwargs)\n                if len(step) == 1:\n                    step = step[0]\n                    return self.dataset[measure][step]\n                else:\n                    raise IndexError(\"Not sufficient conditions to identify a single step\")\n","                matching = self.steps_with_conditions(**kwargs)\n                if len(matching) != 1:\n                    raise IndexError(\"Not sufficient conditions to identify a single step\")\n                return self.dataset[measure][matching[0]]\n"),
('all',LD,"        v = try_convert_value(value)\n        # returns the positions where there is match\n        return [i for i, a in enumerate(condition_set) if a == v]\n","        v = try_convert_value(value)\n        positions = []\n        for i in range(len(condition_set)):\n            if condition_set[i] == v:\n                positions.append(i)\n        return positions\n"),
('all',W,"            i = int(pos)\n            last_item = self.get_len(step) - 1\n            if i < last_item:\n                f = pos - i\n                return self.data[offset + i] + f * (self.data[offset + i + 1] - self.data[offset + i])\n","            i = int(pos)\n            last_item = self.get_len(step) - 1\n            if i < last_item:\n                left, right = self.data[offset + i], self.data[offset + i + 1]\n                f = pos - i\n                return left * (1 - f) + right * f\n"),
('all',W,"                frac = (t - timex[i - 1]) / (timex[i] - timex[i - 1])\n                return i - 1 + frac\n","                before = timex[i - 1]\n                return (i - 1) + (t - before) / (x - before)\n"),
('all',T,"        try:\n            self.retcode = self.simulator.run(self.netlist_file.absolute().as_posix(), self.switches,\n                                              self.timeout, cwd=self.cwd, exe_log=self.exe_log)\n        except Exception as e:\n","        netlist = self.netlist_file.absolute().as_posix()\n        options = {'cwd': self.cwd, 'exe_log': self.exe_log}\n        try:\n            self.retcode = self.simulator.run(netlist, self.switches, self.timeout, **options)\n        except Exception as e:\n"),
('all',T,"                if self.callback_args is not None:\n                    return_or_process = self.callback(self.raw_file, self.log_file, **self.callback_args)\n                else:\n                    return_or_process = self.callback(self.raw_file, self.log_file)\n","                extra = {} if self.callback_args is None else self.callback_args\n                return_or_process = self.callback(self.raw_file, self.log_file, **extra)\n"),
('all',T,"            else:\n                if isinstance(return_or_process, ProcessCallback):\n                    proc = return_or_process\n                    proc.start()\n                    self.callback_return = proc.queue.get()\n                    proc.join()\n                else:\n                    self.callback_return = return_or_process\n","            else:\n                self.callback_return = self._result_of(return_or_process)\n","    def get_results(self)","    @staticmethod\n    def _result_of(returned):\n        if not isinstance(returned, ProcessCallback):\n            return returned\n        returned.start()\n        result = returned.queue.get()\n        returned.join()\n        return result\n\n    def get_results(self)"),
('all',R,"                    if self.active_tasks[i].retcode == 0:\n                        self._okSim += 1\n                    else:\n                        # simulation failed\n                        self._failSim += 1\n                    task = self.active_tasks.pop(i)\n                    self.completed_tasks.append(task)","                    task = self.active_tasks.pop(i)\n                    self.completed_tasks.append(task)\n                    if task.retcode == 0:\n                        self._okSim += 1\n                    else:\n                        self._failSim += 1"),
('all',R,"                if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:\n                    # running or not yet started\n                    i += 1\n                else:\n                    if self.active_tasks[i].retcode == 0:\n                        self._okSim += 1\n                    else:\n                        # simulation failed\n                        self._failSim += 1\n                    task = self.active_tasks.pop(i)\n                    self.completed_tasks.append(task)","                task = self.active_tasks[i]\n                if task.is_alive() or task.start_time is None:\n                    i += 1\n                    continue\n                del self.active_tasks[i]\n                self._count(task)\n                self.completed_tasks.append(task)\n","    def kill_all_ltspice(self):","    def _count(self, task):\n        if task.retcode == 0:\n            self._okSim += 1\n        else:\n            self._failSim += 1\n\n    def kill_all_ltspice(self):"),
('all',NG,"                param_token = switch_list[1]\n                if param_token == '<FILE>' or param_token == '<TERM>' or (param_token == 'var_value' and '=' in parameter):\n                    ret = [switch_list[0], parameter]\n                else:\n","                option, param_token = switch_list\n                accepted = param_token in ('<FILE>', '<TERM>') or (param_token == 'var_value' and '=' in parameter)\n                if accepted:\n                    ret = [option, parameter]\n                else:\n"),
('all',QL,"            line = fin.readline()\n            while line:\n                match = meas_regex.match(line)\n                if match:\n                    headers = None","            for line in fin:\n                match = meas_regex.match(line)\n                if match:\n                    headers = None","                            self.dataset[title.lower()].append(values[k])\n                line = fin.readline()\n","                            self.dataset[title.lower()].append(values[k])\n"),
('all',QL,"                        for k, title in enumerate(headers):\n                            self.dataset[title.lower()].append(values[k])\n","                        for title, number in zip(headers, values):\n                            self.dataset[title.lower()].append(number)\n"),
('all',S,"        if isinstance(value, (int, float)):\n            value_str = format_eng(value)\n        elif isinstance(value, complex):\n            value_str = format_eng(value.real) + \"+\" + format_eng(value.imag) + \"j\"\n        else:\n            value_str = value\n\n        param_line, match","        value_str = self._text_of_value(value)\n\n        param_line, match","    def set_component_value(self, reference: str, value: ValueType) -> None:","    @staticmethod\n    def _text_of_value(value):\n        if isinstance(value, complex):\n            return format_eng(value.real) + \"+\" + format_eng(value.imag) + \"j\"\n        return format_eng(value) if isinstance(value, (int, float)) else value\n\n    def set_component_value(self, reference: str, value: ValueType) -> None:"),
]
