T = 'sim/tookit/tolerance_deviations.py'
S = 'sim/tookit/sim_analysis.py'
Q = 'sim/tookit/quick_sensitivity_analysis.py'
W = 'sim/tookit/worst_case.py'
MUT = [('P50',) + t for t in [
    (T, 'if ref in self.devices_with_deviation_allowed:  # Only', 'if ref[0] in self.devices_with_deviation_allowed:  # Only'),
    (T, 'self.default_tolerance[ref] = ComponentDeviation.from_tolerance(new_tolerance, distribution)', 'self.default_tolerance[ref] = ComponentDeviation.from_tolerance(new_tolerance)'),
    (T, 'self.device_deviations[ref] = ComponentDeviation.from_tolerance(new_tolerance, distribution)', 'self.device_deviations[ref] = ComponentDeviation.from_tolerance(new_tolerance)'),
    (T, 'self.set_tolerance(ref, tol, distribution)', 'self.set_tolerance(ref, tol)'),
    (T, 'if ref in self.editor.get_components(ref[0]):', 'if ref[0] in self.devices_with_deviation_allowed:'),
    (T, 'if ref in self.editor.get_components(ref[0]):', 'if ref not in self.device_deviations and ref in self.editor.get_components(ref[0]):'),
    (T, 'return cls(min_val, max_val, DeviationType.minmax, distribution)', 'return cls(max_val, min_val, DeviationType.minmax, distribution)'),
    (T, 'return cls(min_val, max_val, DeviationType.minmax, distribution)', 'return cls(min_val, max_val, DeviationType.minmax)'),
    (T, 'self.parameter_deviations[ref] = ', 'self.device_deviations[ref] = '),
    (T, 'return self.min_val == self.max_val or', 'return self.min_val >= self.max_val or'),
    (T, 'return self.min_val == self.max_val or', 'return self.min_val == self.max_val and'),
    (T, 'if ref in self.device_deviations:\n            return value, self.device_deviations[ref]\n        elif ref[0] in self.default_tolerance:\n            return value, self.default_tolerance[ref[0]]',
     'if ref[0] in self.default_tolerance:\n            return value, self.default_tolerance[ref[0]]\n        elif ref in self.device_deviations:\n            return value, self.device_deviations[ref]'),
    (T, 'accept_invalid=False).clean()', 'accept_invalid=True).clean()'),
    (T, 'except ValueError:\n            return value, ComponentDeviation.none()', 'except TypeError:\n            return value, ComponentDeviation.none()'),
    (T, 'cmp[0] in self.devices_with_deviation_allowed)', 'cmp in self.devices_with_deviation_allowed)'),
    (T, 'self.parameter_deviations.clear()\n', 'pass\n'),
    (T, 'self.device_deviations.clear()\n', 'pass\n'),
    (T, 'return cls(tolerance, -tolerance, DeviationType.tolerance, distribution)', 'return cls(tolerance, tolerance, DeviationType.tolerance, distribution)'),
    (T, '        self.simulation_results.clear()\n', ''),
    (T, '        super().clear_simulation_data()\n', ''),
    (T, "if prefix == '*':", "if prefix == '':"),
]] + [('P49',) + t for t in [
    (S, 'self.log_data.step_count += log_data.step_count', 'self.log_data.step_count = log_data.step_count'),
    (S, 'self.log_data.step_count += log_data.step_count', 'pass'),
    (S, 'self.log_data.stepset[param] = log_data.stepset[param][:]', 'self.log_data.stepset[param] = log_data.stepset[param]'),
    (S, 'self.log_data.stepset[param].extend(log_data.stepset[param])', 'self.log_data.stepset[param] = log_data.stepset[param][:]'),
    (S, 'self.log_data.dataset[param].extend(log_data.dataset[param][:])', 'self.log_data.dataset[param].extend(log_data.dataset[param][1:])'),
    (S, 'self.log_data.dataset[param].extend(log_data.dataset[param][:])', 'self.log_data.dataset[param].append(log_data.dataset[param][:])'),
    (S, 'if param not in self.log_data.dataset:', 'if param not in self.log_data.stepset:'),
    (S, 'for sim in self.simulations:\n            if sim is None:\n                continue\n', 'for sim in self.simulations:\n            if sim is None:\n                break\n'),
    (S, 'for sim in self.simulations:\n            if sim is None', 'for sim in reversed(self.simulations):\n            if sim is None'),
    (S, 'for sim in self.simulations:\n            if sim is None', 'for sim in self.simulations[1:]:\n            if sim is None'),
    (S, '        self.log_data = LogfileData()  # Clears the log data\n', ''),
    (S, 'LogReader = QspiceLogReader', 'LogReader = LTSpiceLogReader'),
    (S, 'except FileNotFoundError:', 'except PermissionError:'),
    (S, 'except EncodingDetectError:', 'except UnicodeError:'),
    (S, 'LogReader(run_task.log_file)', 'LogReader(run_task.raw_file)'),
    (T, 'self.analysis_executed is False and self.testbench_executed is False', 'self.analysis_executed is False or self.testbench_executed is False'),
    (T, "if 'log_data' in self.simulation_results:", "if self.simulation_results:"),
    (T, "        self.simulation_results['log_data'] = self.log_data\n", ''),
    (T, "round(val.real) for val in self.log_data.dataset['runm']", "int(val.real) for val in self.log_data.dataset['runm']"),
    (T, "self.log_data.stepset = {'run': list(range(len(any_meas)))}", "self.log_data.stepset = {'run': list(range(1, len(any_meas) + 1))}"),
    (T, "self.log_data.step_count = len(self.log_data.stepset['run'])", "self.log_data.step_count = len(self.log_data.dataset)"),
    (T, "if 'runm' in self.log_data.dataset and", "if 'run' in self.log_data.dataset and"),
    (T, 'if run_task.retcode != 0:', 'if run_task.retcode > 0:'),
    (T, "self.log_data.stepset['run'][-1] + 1 if", "self.log_data.stepset['run'][-1] if"),
    (T, "self.log_data.stepset['run'][-1] + 1 if", "self.log_data.step_count if"),
    (T, '        self.add_log_data(log_results)\n        return log_results', '        return log_results'),
    (T, '        self.add_log_data(log_results)\n        return log_results', '        self.add_log_data(log_results)'),
    (T, "list(range(run_start, run_start + len(any_meas)))", "list(range(run_start, len(any_meas)))"),
    (T, "            log_results.step_count = len(log_results.stepset['run'])\n", ''),
]] + [('P51',) + t for t in [
    (Q, 'run=-1)\n            error_data', 'run=0)\n            error_data'),
    (Q, 'step_data = log_data.get_measure_value(measure, run=idx)', 'step_data = log_data.get_measure_value(measure, run=idx + 1)'),
    (Q, 'abs(step_data - nominal_data)', '(step_data - nominal_data)'),
    (Q, 'return error_data[idx] / total_error * 100 if', 'return error_data[idx] / total_error if'),
    (Q, 'total_error = sum(error_data)', 'total_error = max(error_data)'),
    (Q, 'self.testbench_prepared and self.testbench_executed or self.analysis_executed', 'self.testbench_prepared or self.testbench_executed or self.analysis_executed'),
    (W, 'range(self.last_run_number + 1)]', 'range(self.last_run_number)]'),
    (W, 'if run & bit_updated == 0:', 'if run & bit_updated != 0:'),
    (W, 'if run & bit_updated == 0:', 'if run <= bit_updated:'),
    (W, 'wc_data[run | bit_updated]', 'wc_data[run ^ 1]'),
    (W, 'variance = sum([(diff - mean) ** 2 for diff in diffs]) / len(diffs)', 'variance = sum([diff ** 2 for diff in diffs]) / len(diffs)'),
    (W, 'std_div = variance ** 0.5', 'std_div = variance'),
    (W, 'total = sum(sens[0] for sens in sensitivities.values())', 'total = sum(sens[1] for sens in sensitivities.values())'),
    (W, 'answer[ref] = (sens / total * 100, sigma / total * 100) if total != 0', 'answer[ref] = (sens / total * 100, sigma / sens * 100) if total != 0'),
    (W, 'return min(meas_data), max(meas_data)', 'return max(meas_data), min(meas_data)'),
    (W, 'elif len(meas_data) != len(self.simulations):', 'elif len(meas_data) == 0:'),
    (W, 'bit_updated = 1 << bit_index\n                diffs', 'bit_updated = 2 << bit_index\n                diffs'),
]]
BEN = [('all',) + t for t in [
    (T, '''        if ref in self.devices_with_deviation_allowed:  # Only the prefix is given
            self.default_tolerance[ref] = ComponentDeviation.from_tolerance(new_tolerance, distribution)
        else:
            if ref in self.editor.get_components(ref[0]):
                self.device_deviations[ref] = ComponentDeviation.from_tolerance(new_tolerance, distribution)
''', '''        deviation = ComponentDeviation.from_tolerance(new_tolerance, distribution)
        if ref in self.devices_with_deviation_allowed:
            self.default_tolerance[ref] = deviation
            return
        known = self.editor.get_components(ref[0])
        if ref in known:
            self.device_deviations.update({ref: deviation})
'''),
    (T, '        for ref, tol in new_tolerances.items():\n            self.set_tolerance(ref, tol, distribution)', '        for ref in new_tolerances:\n            self.set_tolerance(ref, new_tolerances[ref], distribution=distribution)'),
    (T, '''        try:
            value = to_float(value, accept_invalid=False).clean()  # clean the original representation
        except ValueError:
            return value, ComponentDeviation.none()
        if ref in self.device_deviations:
            return value, self.device_deviations[ref]
        elif ref[0] in self.default_tolerance:
            return value, self.default_tolerance[ref[0]]
        else:
            return value, ComponentDeviation.none()
''', '''        try:
            number = to_float(value, accept_invalid=False)
        except (ValueError, TypeError):
            return value, ComponentDeviation.none()
        return number.clean(), self._deviation_of(ref)

    def _deviation_of(self, ref: str) -> ComponentDeviation:
        if ref in self.device_deviations:
            return self.device_deviations[ref]
        return self.default_tolerance.get(ref[0]) or ComponentDeviation.none()
'''),
    (T, "            return (cmp for cmp in self.editor.get_components() if cmp[0] in self.devices_with_deviation_allowed)", "            allowed = self.devices_with_deviation_allowed\n            return [cmp for cmp in self.editor.get_components('*') if cmp[:1] in allowed]"),
    (T, '        return self.min_val == self.max_val or self.typ == DeviationType.none', '        if self.typ == DeviationType.none:\n            return True\n        return not self.min_val != self.max_val'),
    (T, '        self.device_deviations.clear()\n        self.parameter_deviations.clear()\n        self.testbench', '        self.device_deviations = {}\n        self.parameter_deviations = {}\n        self.testbench'),
    (T, '        return cls(tolerance, -tolerance, DeviationType.tolerance, distribution)', '        return cls(min_val=tolerance, max_val=-tolerance, distribution=distribution)'),
    (S, '''        for param in log_data.stepset:
            if param not in self.log_data.stepset:
                self.log_data.stepset[param] = log_data.stepset[param][:]
            else:
                self.log_data.stepset[param].extend(log_data.stepset[param])
''', '''        for param, values in log_data.stepset.items():
            if param in self.log_data.stepset:
                self.log_data.stepset[param] += values
            else:
                self.log_data.stepset[param] = list(values)
'''),
    (S, '''        for param in log_data.stepset:
            if param not in self.log_data.stepset:
                self.log_data.stepset[param] = log_data.stepset[param][:]
            else:
                self.log_data.stepset[param].extend(log_data.stepset[param])
        for param in log_data.dataset:
            if param not in self.log_data.dataset:
                self.log_data.dataset[param] = log_data.dataset[param][:]
            else:
                self.log_data.dataset[param].extend(log_data.dataset[param][:])
''', '''        self._extend(self.log_data.stepset, log_data.stepset)
        self._extend(self.log_data.dataset, log_data.dataset)
''', '    def read_logfiles(self) -> LogfileData:', '''    @staticmethod
    def _extend(to, new):
        for name, values in new.items():
            to.setdefault(name, []).extend(values)

    def read_logfiles(self) -> LogfileData:'''),
    (S, '''            if sim is None:
                continue

            log_results = self.read_logfile(sim)
            self.add_log_data(log_results)
''', '''            if sim is not None:
                self.add_log_data(self.read_logfile(sim))
'''),
    (S, '''        if run_task.simulator.__name__ == "LTspice":
            LogReader = LTSpiceLogReader
        elif run_task.simulator.__name__ == "Qspice":
            LogReader = QspiceLogReader
        else:
            raise ValueError("Unknown simulator type")

        try:
            log_results = LogReader(run_task.log_file)
        except FileNotFoundError:
            _logger.warning("Log file not found: %s", run_task.log_file)
            return None
        except EncodingDetectError:
            _logger.warning("Log file %s couldn't be read", run_task.log_file)
            return None
        return log_results
''', '''        name = run_task.simulator.__name__
        if name not in ("LTspice", "Qspice"):
            raise ValueError("Unknown simulator type")
        reader = LTSpiceLogReader if name == "LTspice" else QspiceLogReader
        try:
            return reader(run_task.log_file)
        except (FileNotFoundError, EncodingDetectError):
            _logger.warning("Log file %s couldn't be read", run_task.log_file)
        return None
'''),
    (T, '''        if len(self.log_data.stepset) == 0:
            if 'runm' in self.log_data.dataset and len(self.log_data.dataset['runm']) > 0:
                if isinstance(self.log_data.dataset['runm'][0], LTComplex):
                    self.log_data.stepset = {'run': [round(val.real) for val in self.log_data.dataset['runm']]}
                else:
                    self.log_data.stepset = {'run': self.log_data.dataset['runm']}
''', '''        if not self.log_data.stepset:
            runs = self.log_data.dataset.get('runm')
            if runs:
                if isinstance(runs[0], LTComplex):
                    runs = [round(val.real) for val in runs]
                self.log_data.stepset = {'run': runs}
'''),
    (T, '''        if run_task.retcode != 0:
            return None

        log_results = self.read_logfile(run_task)
        if log_results is None:
            return None
''', '''        log_results = self.read_logfile(run_task) if run_task.retcode == 0 else None
        if log_results is None:
            return None
'''),
    (Q, '''            error_data = []
            for idx in range(len(self.elements_analysed)):
                step_data = log_data.get_measure_value(measure, run=idx)
                error_data.append(abs(step_data - nominal_data))
''', '''            error_data = [abs(log_data.get_measure_value(measure, run=idx) - nominal_data) for idx in range(len(self.elements_analysed))]
'''),
    (Q, '''                return {ref: error_data[idx] / total_error * 100 if total_error != 0 else 0
                        for idx, ref in enumerate(self.elements_analysed)}
''', '''                shares = {}
                for idx, element in enumerate(self.elements_analysed):
                    shares[element] = 100 * error_data[idx] / total_error if total_error else 0
                return shares
'''),
    (Q, '''            for idx in range(len(self.elements_analysed)):
                step_data = log''', '''            for idx, _ in enumerate(self.elements_analysed):
                step_data = log'''),
    (W, '''                for run in range(len(wc_data)):
                    if run & bit_updated == 0:
                        diffs.append(abs(wc_data[run] - wc_data[run | bit_updated]))
''', '''                for run in range(len(wc_data)):
                    if run & bit_updated:
                        continue
                    diffs.append(abs(wc_data[run + bit_updated] - wc_data[run]))
'''),
    (W, '''                diffs = []
                for run in range(len(wc_data)):
                    if run & bit_updated == 0:
                        diffs.append(abs(wc_data[run] - wc_data[run | bit_updated]))
''', '''                diffs = [abs(wc_data[run] - wc_data[run | bit_updated]) for run in range(len(wc_data)) if not run & bit_updated]
'''),
    (W, '''            for ref_ in self.elements_analysed:
                idx = self.elements_analysed.index(ref_)
                sensitivities[ref_] = diff_for_a_ref(wc_data, idx)
''', '''            for idx, ref_ in enumerate(self.elements_analysed):
                sensitivities[ref_] = diff_for_a_ref(wc_data, idx)
'''),
    (W, '''                answer = {}
                for ref, (sens, sigma) in sensitivities.items():
                    answer[ref] = (sens / total * 100, sigma / total * 100) if total != 0 else (0, 0)
                return answer
''', '''                return {name: (sens / total * 100, sigma / total * 100) if total != 0 else (0, 0) for name, (sens, sigma) in sensitivities.items()}
'''),
    (W, '''            return min(meas_data), max(meas_data)
''', '''            ordered = sorted(meas_data)
            return ordered[0], ordered[-1]
'''),
]]
