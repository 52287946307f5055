S = 'sim/sim_stepping.py'; W = 'utils/sweep_iterators.py'
RUN = """            task = self.runner.run(self.editor, callback=callback, callback_args=callback_args,
                                   switches=switches, timeout=timeout, run_filename=run_filename, exe_log=exe_log)
"""
MUT = [
 ('P29', S, "                    iterators[iter_no] = iter(self.iter_list[iter_no].iter)\n", ""),
 ('P29', S, "                    iterators[iter_no] = iter(self.iter_list[iter_no].iter)\n", "                    iterators[iter_no] = iter(self.iter_list[0].iter)\n"),
 ('P29', S, "            iter_no = len(self.iter_list) - 1  # Resets", "            iter_no = 0  # Resets"),
 ('P29', S, "            iter_no = len(self.iter_list) - 1  # Resets", "            iter_no = len(self.iter_list)  # Resets"),
 ('P29', S, "            if iter_no < 0:\n                break", "            if iter_no <= 0:\n                break"),
 ('P29', S, "while 0 <= iter_no < len(self.iter_list):", "while 0 <= iter_no < len(self.iter_list) - 1:"),
 ('P29', S, "        iter_no = 0\n        iterators", "        iter_no = 1\n        iterators"),
 ('P29', S, "                    self.editor.set_component_value(self.iter_list[iter_no].elem, value)", "                    self.editor.set_parameter(self.iter_list[iter_no].elem, value)"),
 ('P29', S, "                    self.editor.set_element_model(self.iter_list[iter_no].elem, value)", "                    self.editor.set_element_model(self.iter_list[0].elem, value)"),
 ('P29', S, "                    self.editor.set_parameter(self.iter_list[iter_no].elem, value)", "                    pass"),
 ('P29', S, "                self.current_values[self.iter_list[iter_no].elem] = value\n", ""),
 ('P29', S, "                self.current_values[self.iter_list[iter_no].elem] = value\n", "                self.current_values[self.iter_list[iter_no].what] = value\n"),
 ('P29', S, "sim_info = self.current_values.copy()", "sim_info = self.current_values"),
 ('P29', S, "self.sim_info[task.runno] = sim_info", "self.sim_info[self.runner.runno] = sim_info"),
 ('P29', S, "sim_info['netlist'] = task.netlist_file.name", "sim_info['netlist'] = run_filename"),
 ('P29', S, "callback_args=callback_args,\n", "\n"),
 ('P29', S, "switches=switches, timeout=timeout,", "switches=switches,"),
 ('P29', S, "switches=switches, timeout=timeout,", "timeout=timeout,"),
 ('P29', S, "run_filename=run_filename, exe_log=exe_log)", "run_filename=run_filename)"),
 ('P29', S, "run_filename=run_filename, exe_log=exe_log)", "exe_log=exe_log)"),
 ('P29', S, "self.runner.run(self.editor,", "self.runner.run(self.editor.netlist_file,"),
 ('P29', S, "        if wait_completion:\n            # Now", "        if callback is None:\n            # Now"),
 ('P29', S, "        if wait_completion:\n            # Now", "        if not wait_completion:\n            # Now"),
 ('P29', S, "StepInfo(\"model\", comp, iterable)", "StepInfo(\"component\", comp, iterable)"),
 ('P29', S, "StepInfo(\"param\", param, iterable)", "StepInfo(\"component\", param, iterable)"),
 ('P29', S, "self.iter_list.append(StepInfo(\"param\", param, iterable))", "self.iter_list.insert(0, StepInfo(\"param\", param, iterable))"),
 ('P29', S, "self.iter = list(iterable)", "self.iter = iterable"),
 ('P29', S, "self.iter = list(iterable)", "self.iter = set(iterable)"),
 ('P29', S, "        self.editor.set_parameter(param, value)\n        self.current_values[param] = value", "        self.editor.set_parameter(param, value)"),
 ('P29', S, "        self.current_values[device] = value", "        self.current_values[value] = device"),
 ('P29', S, "        self.editor.set_element_model(element, model)\n        self.current_values[element] = model", "        self.current_values[element] = model"),
 ('P29', S, "        self.editor.set_component_values(**kwargs)", "        self.editor.set_parameters(**kwargs)"),
 ('P29', S, "                total *= l", "                total += l"),
 ('P29', S, "                total *= l", "                total = l"),
 ('P29', S, "        total = 1\n", "        total = 0\n"),
 ('P29', S, "list(dict.fromkeys(name for runno in rows for name in self.sim_info[runno]))", "list(self.sim_info[rows[0]])"),
 ('P29', S, "delimiter=delimiter,\n", "delimiter=',',\n"),
 ('P29', S, "                row_data_with_id.update(self.sim_info[runno])", "                row_data_with_id.update(self.current_values)"),
 ('P29', S, "                row_data_with_id.update(self.sim_info[runno])", "                row_data_with_id.update(self.sim_info[rows[-1]])"),
 ('P29', S, "            # Write the header\n            writer.writeheader()\n\n", ""),
 ('P29', S, "run_filename = filenamer(**self.current_values) if filenamer else None", "run_filename = None"),
 ('P29', S, "                    iter_no -= 1\n                    continue", "                    iter_no = 0\n                    continue"),
 ('P29', S, "                iter_no += 1\n            if", "                iter_no += 2\n            if"),
 ('P29', S, RUN, RUN + "            task = self.runner.run(self.editor)\n"),
 ('P45', W, "limit = self.stop + 1e-6 * self.step", "limit = self.stop"),
 ('P45', W, "limit = self.stop + 1e-6 * self.step", "limit = self.stop - 1e-6 * self.step"),
 ('P45', W, "limit = self.stop + 1e-6 * self.step", "limit = self.stop + self.step"),
 ('P45', W, "limit = self.stop + 1e-6 * self.step", "limit = self.stop + 1e-6 * abs(self.step)"),
 ('P45', W, "(self.step > 0 and val <= limit) or (self.step < 0 and val >= limit)", "(self.step > 0 and val <= limit) or (self.step < 0 and val <= limit)"),
 ('P45', W, "(self.step > 0 and val <= limit) or (self.step < 0 and val >= limit)", "(self.step > 0 and val <= limit) or (self.step < 0 and val > self.stop)"),
 ('P45', W, "        self.niter += 1\n        limit", "        self.start = val\n        limit"),
 ('P45', W, "val = self.start + self.niter * self.step", "val = self.start + (self.niter + 1) * self.step"),
 ('P45', W, "        # Resets the interator\n        self.niter = 0\n", ""),
 ('P45', W, "            self.step = - self.step  # In this case invert the sigh", "            self.start, self.stop = self.stop, self.start"),
 ('P45', W, "            self.start, self.stop = self.stop, self.start\n        elif self.step > 0", "            self.step = -self.step\n        elif self.step > 0"),
 ('P45', W, "self.step > 0 and self.stop < self.start", "self.step > 1 and self.stop < self.start"),
 ('P45', W, "(stop-start)/(N-1)", "(stop-start)/N"),
 ('P45', W, "(stop-start)/(N-1)", "abs(stop-start)/N"),
 ('P45', W, "(stop-start)/(N-1)", "(start-stop)/(N-1)"),
 ('P45', W, "limit = self.stop * self.step ** 1e-6", "limit = self.stop"),
 ('P45', W, "limit = self.stop * self.step ** 1e-6", "limit = self.stop * self.step"),
 ('P45', W, "self.step = 1/self.step", "self.step = -self.step"),
 ('P45', W, "self.start < self.stop and self.step < 1", "self.start < self.stop and self.step < 0"),
 ('P45', W, "        self.val = self.start\n\n", "        self.val = self.start * self.step\n\n"),
 ('P45', W, "        self.val = self. start\n", ""),
 ('P45', W, "            start = 1\n", "            start = 0.1\n"),
 ('P45', W, "math.log(stop / start) / (number_of_elements - 1)", "math.log(stop / start) / number_of_elements"),
 ('P45', W, "math.log(stop / start) / (number_of_elements - 1)", "math.log(start / stop) / (number_of_elements - 1)"),
 ('P45', W, "if self.niter < self.stop:", "if self.niter <= self.stop:"),
 ('P45', W, "if self.niter < self.stop:", "if self.niter < self.stop - 1:"),
 ('P45', W, "val = self.start * (self.step ** self.niter)", "val = self.start * (self.niter ** self.step)"),
 ('P45', W, "    def __iter__(self):\n        super().__iter__()\n        self.niter = 0\n        return self\n\n    def __next__(self):\n        if self", "    def __next__(self):\n        if self"),
 ('P45', W, "math.exp(math.log(stop / start) /", "math.exp(abs(math.log(stop / start)) /"),
]
BEN = [('all',) + x for x in [
 (W, "(self.step > 0 and val <= limit) or (self.step < 0 and val >= limit)", "(val - limit) * self.step <= 0"),
 (W, "        if (self.step > 0 and val <= limit) or (self.step < 0 and val >= limit):\n            return val\n        else:\n            self.finished = True\n            raise StopIteration", "        if self.step > 0:\n            end = val > limit\n        else:\n            end = val < limit\n        if end:\n            self.finished = True\n            raise StopIteration\n        return val"),
 (W, "        val = self.start + self.niter * self.step\n        self.niter += 1\n        limit = self.stop + 1e-6 * self.step", "        val = self.step * self.niter + self.start\n        self.niter = self.niter + 1\n        tol = self.step * 1e-9\n        limit = tol + self.stop"),
 (W, "            self.start, self.stop = self.stop, self.start\n        elif self.step > 0", "            tmp = self.start\n            self.start = self.stop\n            self.stop = tmp\n        elif self.step > 0"),
 (W, "        if self.step < 0 and self.start < self.stop:", "        if self.start < self.stop and not self.step >= 0:"),
 (W, "(stop-start)/(N-1)", "-(start - stop) / (N - 1)"),
 (W, "(stop-start)/(N-1)", "abs(stop - start) / (N - 1)"),
 (W, "math.exp(math.log(stop / start) / (number_of_elements - 1))", "(stop / start) ** (1 / (number_of_elements - 1))"),
 (W, "math.exp(math.log(stop / start) / (number_of_elements - 1))", "math.exp((math.log(stop) - math.log(start)) / (number_of_elements - 1))"),
 (W, "        if self.niter < self.stop:\n            val = self.start * (self.step ** self.niter)\n            self.niter += 1\n            return val\n        else:\n            self.finished = True\n            raise StopIteration", "        if self.niter >= self.stop:\n            self.finished = True\n            raise StopIteration\n        val = self.start * self.step ** self.niter\n        self.niter += 1\n        return val"),
 (W, "if self.niter < self.stop:", "if self.niter + 1 <= self.stop:"),
 (W, "        limit = self.stop * self.step ** 1e-6", "        limit = self.stop * pow(self.step, 1e-9)"),
 (W, "        val = self.val  # Store previous value\n        self.val *= self.step  # Calculate the next item", "        val = self.val\n        self.val = val * self.step"),
 (W, "        if (self.start < self.stop and val <= limit) or \\\n           (self.start > self.stop and val >= limit):", "        if (self.step > 1 and val <= limit) or (self.step < 1 and val >= limit):"),
 (W, "self.step = 1/self.step", "self.step = self.step ** -1"),
 (W, "        if stop is None:\n            self.stop = start\n            self.start = 0\n        else:\n            self.start = start\n            self.stop = stop", "        if stop is None:\n            start, stop = 0, start\n        self.start = start\n        self.stop = stop"),
 (S, "                if self.iter_list[iter_no].what == 'param':\n                    self.editor.set_parameter(self.iter_list[iter_no].elem, value)\n                elif self.iter_list[iter_no].what == 'component':\n                    self.editor.set_component_value(self.iter_list[iter_no].elem, value)\n                elif self.iter_list[iter_no].what == 'model':\n                    self.editor.set_element_model(self.iter_list[iter_no].elem, value)\n",
     "                step = self.iter_list[iter_no]\n                if step.what == 'param':\n                    self.editor.set_parameter(step.elem, value)\n                elif step.what == 'component':\n                    self.editor.set_component_value(step.elem, value)\n                elif step.what == 'model':\n                    self.editor.set_element_model(step.elem, value)\n"),
 (S, "value = iterators[iter_no].__next__()", "value = next(iterators[iter_no])"),
 (S, "iterators = [iter(step.iter) for step in self.iter_list]", "iterators = []\n        for step in self.iter_list:\n            iterators.append(iter(step.iter))"),
 (S, "            run_filename = filenamer(**self.current_values) if filenamer else None\n", "            if filenamer is not None:\n                run_filename = filenamer(**self.current_values)\n            else:\n                run_filename = None\n"),
 (S, "            if task and task.netlist_file:\n                sim_info = self.current_values.copy()\n                sim_info['netlist'] = task.netlist_file.name\n                self.sim_info[task.runno] = sim_info", "            if task and task.netlist_file:\n                self.sim_info[task.runno] = {**self.current_values, 'netlist': task.netlist_file.name}"),
 (S, "                sim_info = self.current_values.copy()", "                sim_info = dict(self.current_values)"),
 (S, "            if iter_no < 0:\n                break", "            if iter_no == -1:\n                break"),
 (S, "                    self.editor.set_parameter(self.iter_list[iter_no].elem, value)\n                elif", "                    self._set(self.iter_list[iter_no], value)\n                elif", "    def total_number_of_simulations(self):", "    def _set(self, step, value):\n        self.editor.set_parameter(step.elem, value)\n\n    def total_number_of_simulations(self):"),
 (S, "            l = len(step)\n            if l:\n                total *= l\n            else:\n                _logger.debug(f\"'{step}' is empty.\")", "            if not len(step):\n                _logger.debug(f\"'{step}' is empty.\")\n                continue\n            total = total * len(step)"),
 (S, "        rows = [runno for runno in self.sim_info]\n        rows.sort()\n", "        rows = sorted(self.sim_info)\n"),
 (S, "                row_data_with_id = {'runno': runno}\n                row_data_with_id.update(self.sim_info[runno])\n                writer.writerow(row_data_with_id)", "                writer.writerow({'runno': runno, **self.sim_info[runno]})"),
 (S, "        fieldnames = ['runno'] + list(dict.fromkeys(name for runno in rows for name in self.sim_info[runno]))", "        names = {}\n        for runno in rows:\n            names.update(self.sim_info[runno])\n        fieldnames = ['runno'] + list(names)"),
 (S, "        self.editor.set_parameters(**kwargs)\n        self.current_values.update(**kwargs)", "        for name, value in kwargs.items():\n            self.set_parameter(name, value)"),
 (S, "        self.editor.set_parameters(**kwargs)\n        self.current_values.update(**kwargs)", "        self.current_values.update(kwargs)\n        self.editor.set_parameters(**kwargs)"),
 (S, "self.iter = list(iterable)", "self.iter = tuple(iterable)"),
 (S, "self.iter = list(iterable)", "self.iter = [*iterable]"),
 (S, "        _ = self.editor.get_component_value(comp)\n        self.iter_list.append(StepInfo(\"component\", comp, iterable))", "        self._add('component', comp, iterable)", "    def add_value_sweep", "    def _add(self, what, comp, iterable):\n        _ = self.editor.get_component_value(comp)\n        self.iter_list.append(StepInfo(what, comp, iterable))\n\n    def add_value_sweep"),
]]
