W = 'sim/tookit/worst_case.py'; Q = 'sim/tookit/quick_sensitivity_analysis.py'; M = 'sim/tookit/montecarlo.py'; F = 'sim/tookit/fast_worst_case.py'
MUT = []
for f in (W, Q):
    MUT += [
    ('P48', f, "            worst_case_elements[ref1] = val1, dev1, 'component'\n            self.elements_analysed.append(ref1)", "            if ref1 not in self.elements_analysed and val1:\n                worst_case_elements[ref1] = val1, dev1, 'component'\n            self.elements_analysed.append(ref1)\n            self.elements_analysed.append(ref1)"),
    ('P48', f, "                if ref not in self.device_deviations:\n                    check_and_add_component(ref)\n\n        ", "                check_and_add_component(ref)\n\n        "),
    ('P48', f, "if dev.typ == DeviationType.tolerance or dev.typ == DeviationType.minmax:\n                worst_case", "if dev.typ == DeviationType.tolerance:\n                worst_case"),
    ('P48', f, "worst_case_elements[ref] = val, dev, 'parameter'", "worst_case_elements[ref] = val, dev, 'component'"),
    ('P48', f, "            if dev1.is_not_valid():\n                return\n            worst", "            worst"),
    ('P48', f, "                bit_index += 1\n\n", "                bit_index += 2\n\n") if f == W else ('P48', f, "                bit_updated >>= 1\n                bit_index += 1\n", "                bit_updated >>= 1\n                bit_index += 2\n"),
    ('P48', f, "                    elif typ == 'parameter':\n                        self.editor.set_parameter(ref, new_val)", "                    elif typ == 'parameter':\n                        self.editor.set_component_value(ref, new_val)"),
    ('P48', f, "        self.runner.wait_completion()\n\n        if callback", "        if callback"),
    ('P48', f, "        self.editor.set_parameter('run', -1)" + ("  # This is" if f == W else "  # in case the step is commented.\n        self.editor.add_instruction(\".meas"), "        self.editor.set_parameter('run', 0)" + ("  # This is" if f == W else "\n        self.editor.add_instruction(\".meas")),
    ('P48', f, "            self.editor.set_parameter('run', run)\n", ""),
    ('P48', f, "callback_rets.append(rt.get_results())", "callback_rets.insert(0, rt.get_results())"),
    ('P48', f, "            self.simulation_results['callback_returns'] = callback_rets\n        self.analysis_executed = True", "            self.simulation_results['callback_returns'] = callback_rets\n            self.analysis_executed = True"),
    ('P48', f, "        self.clear_simulation_data()\n        self.elements_analysed.clear()", "        self.elements_analysed.clear()"),
    ('P48', f, "        for ref in self.parameter_deviations:\n            val, dev = self.get_parameter_value_deviation_type(ref)\n            if dev.typ == DeviationType.tolerance or dev.typ == DeviationType.minmax:\n                worst_case_elements[ref] = val, dev, 'parameter'\n                self.elements_analysed.append(ref)\n", ""),
    ]
MUT += [
('P48', W, "last_run = self.last_run_number  # Sets all valid bits to 1", "last_run = 0"),
('P48', W, "            last_run = run\n", ""),
('P48', W, "new_val = dev.min_val if run & (1 << bit_index) else dev.max_val", "new_val = dev.min_val if run & bit_index else dev.max_val"),
('P48', W, "new_val = val * (1 - dev.tolerance) if run & (1 << bit_index) else val * (1 + dev.tolerance)", "new_val = val * (1 - dev.tolerance) if run & (1 << bit_index) else val"),
('P48', W, "for run in range(0, run_count):", "for run in range(1, run_count):"),
('P48', W, "for run in range(0, run_count):", "for run in range(0, self.last_run_number):"),
('P48', W, "run_count = 2**len(self.elements_analysed)", "run_count = 2*len(self.elements_analysed)"),
('P48', W, "            self.run(wait_resource=True,\n                     callback=callback, callback_args=callback_args,\n                     switches=switches, timeout=timeout, exe_log=exe_log)\n            last_run = run", "            self.run(wait_resource=True,\n                     callback=callback, callback_args=callback_args,\n                     switches=switches, exe_log=exe_log)\n            last_run = run"),
('P48', W, "                if bit_updated & 1:", "                if bit_updated & 1 and bit_index < run:"),
('P48', W, "bit_updated = run ^ last_run", "bit_updated = run & ~last_run"),
('P48', W, "bit_updated = run ^ last_run", "bit_updated = run"),
('P48', W, "        self.run(wait_resource=True,\n                 callback=callback, callback_args=callback_args,\n                 switches=switches, timeout=timeout, exe_log=exe_log)\n        self.runner", "        self.runner"),
('P48', Q, "            last_bit_setting = bit_setting\n", ""),
('P48', Q, "bit_setting = (2 ** run)", "bit_setting = (2 * run)"),
('P48', Q, "bit_updated = bit_setting ^ last_bit_setting", "bit_updated = bit_setting"),
('P48', Q, "new_val = val * (1 + dev.tolerance) if bit_setting & (1 << bit_index) else val", "new_val = val * (1 + dev.tolerance)"),
('P48', Q, "new_val = dev.min_val if bit_setting & (1 << bit_index) else val", "new_val = dev.min_val if bit_setting & (1 << bit_index) else dev.max_val"),
('P48', Q, "for run in range(last_run_number):", "for run in range(last_run_number - 1):"),
('P48', Q, "for run in range(last_run_number):", "for run in range(1, last_run_number + 1):"),
('P48', Q, "            self.run(wait_resource=True,\n                     callback=callback, callback_args=callback_args,\n                     switches=switches, timeout=timeout, exe_log=exe_log)\n            last_bit", "            self.run(wait_resource=True,\n                     callback=callback, callback_args=callback_args,\n                     timeout=timeout, exe_log=exe_log)\n            last_bit"),
('P48', M, "        for run in range(num_runs):", "        for run in range(1, num_runs):"),
('P48', M, "                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_parameter(param, new_val)", "                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_component_value(param, new_val)"),
('P48', M, "                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_component_value(ref, new_val)  # update the value\n            # Prep", "                if dev.distribution == 'uniform':  # Only update the value if it has changed\n                    self.editor.set_component_value(ref, new_val)  # update the value\n            # Prep"),
('P48', M, "            for param in self.parameter_deviations:\n                val, dev = self.get_parameter_value_deviation_type(param)\n                new_val = self._get_sim_value(val, dev)\n                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_parameter(param, new_val)\n", ""),
('P48', M, "callback_rets.append(rt.get_results())", "callback_rets.append(self.simulations[0].get_results())"),
('P48', M, "        self.runner.wait_completion()\n        if callback", "        if callback"),
('P48', M, "switches=switches, timeout=timeout, exe_log=exe_log)", "switches=switches, timeout=timeout)"),
]
BEN = [
('all', W, "            bit_updated = run ^ last_run\n            bit_index = 0\n            while bit_updated != 0:\n                if bit_updated & 1:\n", "            changed = run ^ last_run\n            for bit_index in range(len(self.elements_analysed)):\n                if changed >> bit_index & 1:\n",
 "                bit_updated >>= 1\n                bit_index += 1\n\n", "\n"),
('all', W, "            bit_updated = run ^ last_run\n            bit_index = 0\n            while bit_updated != 0:\n                if bit_updated & 1:\n", "            changed = run ^ last_run\n            for bit_index, ref in enumerate(self.elements_analysed):\n                if changed & (1 << bit_index):\n",
 "                bit_updated >>= 1\n                bit_index += 1\n\n", "\n", "                    ref = self.elements_analysed[bit_index]\n", ""),
('all', W, "            bit_updated = run ^ last_run\n            bit_index = 0\n            while bit_updated != 0:\n                if bit_updated & 1:\n", "            for bit_index, ref in enumerate(self.elements_analysed):\n                if True:\n",
 "                bit_updated >>= 1\n                bit_index += 1\n\n", "\n", "                    ref = self.elements_analysed[bit_index]\n", ""),
('all', W, "                bit_updated >>= 1\n                bit_index += 1\n\n", "                bit_index += 1\n                bit_updated //= 2\n\n"),
('all', W, "new_val = val * (1 - dev.tolerance) if run & (1 << bit_index) else val * (1 + dev.tolerance)", "is_low = bool((run >> bit_index) & 1)\n                        factor = 1 - dev.tolerance if is_low else 1 + dev.tolerance\n                        new_val = factor * val"),
('all', W, "        last_run = self.last_run_number  # Sets all valid bits to 1", "        last_run = run_count - 1"),
('all', W, "        for run in range(0, run_count):", "        for run in range(run_count):"),
('all', W, "                    if typ == 'component':\n                        self.editor.set_component_value(ref, new_val)  # update the value\n                    elif typ == 'parameter':\n                        self.editor.set_parameter(ref, new_val)\n                    else:\n                        _logger.warning(\"Unknown type\")\n", "                    self._set_element(ref, new_val, typ)\n",
 "    def get_min_max_measure_value(", "    def _set_element(self, ref, new_val, typ):\n        if typ == 'component':\n            self.editor.set_component_value(ref, new_val)\n        elif typ == 'parameter':\n            self.editor.set_parameter(ref, new_val)\n        else:\n            _logger.warning(\"Unknown type\")\n\n    def get_min_max_measure_value("),
('all', W, "        if callback is not None:\n            callback_rets = []\n            for rt in self.simulations:\n                callback_rets.append(rt.get_results())\n            self.simulation_results['callback_returns'] = callback_rets\n", "        if callback is not None:\n            self.simulation_results['callback_returns'] = [rt.get_results() for rt in self.simulations]\n"),
('all', W, "            worst_case_elements[ref1] = val1, dev1, 'component'\n            self.elements_analysed.append(ref1)", "            self.elements_analysed.append(ref1)\n            worst_case_elements[ref1] = (val1, dev1, 'component')"),
('all', W, "                if ref not in self.device_deviations:\n                    check_and_add_component(ref)\n\n        _log", "                if ref in self.device_deviations:\n                    continue\n                check_and_add_component(ref)\n\n        _log"),
('all', W, "        def check_and_add_component(ref1: str):\n            val1, dev1 = self.get_component_value_deviation_type(ref1)  # get there present value\n            if dev1.is_not_valid():\n                return\n            worst_case_elements[ref1] = val1, dev1, 'component'\n            self.elements_analysed.append(ref1)\n\n        for ref in self.device_deviations:\n            check_and_add_component(ref)\n", "        for ref in self.device_deviations:\n            self._add_component(worst_case_elements, ref)\n",
 "                if ref not in self.device_deviations:\n                    check_and_add_component(ref)\n", "                if ref not in self.device_deviations:\n                    self._add_component(worst_case_elements, ref)\n",
 "    def get_min_max_measure_value(", "    def _add_component(self, elements, ref):\n        val, dev = self.get_component_value_deviation_type(ref)\n        if not dev.is_not_valid():\n            elements[ref] = val, dev, 'component'\n            self.elements_analysed.append(ref)\n\n    def get_min_max_measure_value("),
('all', W, "            if dev.typ == DeviationType.tolerance or dev.typ == DeviationType.minmax:\n                worst", "            if dev.typ in (DeviationType.tolerance, DeviationType.minmax):\n                worst"),
('all', W, "            if dev.typ == DeviationType.tolerance or dev.typ == DeviationType.minmax:\n                worst", "            if dev.typ != DeviationType.none:\n                worst"),
('all', Q, "            bit_setting = (2 ** run)", "            bit_setting = 1 << run"),
('all', Q, "            print(\"bit updated: %d\" % bit_updated)\n", "", "                    print(f\"{ref} = {new_val}\")\n", ""),
('all', Q, "        last_run_number = len(self.elements_analysed)\n        if last_run_number > 4096", "        last_run_number = len(worst_case_elements)\n        if last_run_number > 4096"),
('all', Q, "        for run in range(last_run_number):\n            # Preparing the variation on components, but only on the ones that have changed\n            bit_setting = (2 ** run)\n            bit_updated = bit_setting ^ last_bit_setting\n            bit_index = 0\n            print(\"bit updated: %d\" % bit_updated)\n            while bit_updated != 0:\n                if bit_updated & 1:\n", "        for run in range(last_run_number):\n            bit_setting = (2 ** run)\n            for bit_index in range(run + 1):\n                if bit_index >= run - 1:\n",
 "                bit_updated >>= 1\n                bit_index += 1\n", ""),
('all', M, "            for param in self.parameter_deviations:\n                val, dev = self.get_parameter_value_deviation_type(param)\n                new_val = self._get_sim_value(val, dev)\n                if new_val != val:  # Only update the value if it has changed\n                    self.editor.set_parameter(param, new_val)\n", "            for param, _ in self.parameter_deviations.items():\n                val, dev = self.get_parameter_value_deviation_type(param)\n                drawn = self._get_sim_value(val, dev)\n                if drawn == val:\n                    continue\n                self.editor.set_parameter(param, drawn)\n"),
('all', M, "            rt = self.run(wait_resource=True,", "            self.run(wait_resource=True,"),
('all', M, "        for run in range(num_runs):", "        for _ in range(0, num_runs):"),
]
