L='log/logfile_data.py'
MUT=[
('P23',L,"        param = param.lower()\n        if param in self.stepset","        if param in self.stepset"),
('P23',L,"        key = key.lower()\n","        key = key.upper()\n"),
('P23',L,"            condition_set = self.dataset[param]\n        else","            condition_set = self.dataset[param][1:]\n        else"),
('P23',L,"enumerate(condition_set) if a == v]","enumerate(condition_set, 1) if a == v]"),
('P23',L,"[i for i, a in enumerate(condition_set) if a == v]","[i for i, a in enumerate(condition_set) if a != v]"),
('P23',L,"v = try_convert_value(value)","v = value"),
('P23',L,"[i for i, a in enumerate(condition_set) if a == v]","[a for i, a in enumerate(condition_set) if a == v]"),
('P23',L,"[v for v in current_set if v in condition_set]","[v for v in current_set if v not in condition_set]"),
('P23',L,"            if current_set is None:\n                # initialises the list","            if not current_set:\n                # initialises the list"),
('P23',L,"current_set = [v for v in current_set if v in condition_set]","current_set = condition_set"),
('P23',L,"current_set = [v for v in current_set if v in condition_set]","current_set = current_set + condition_set"),
('P23',L,"            if m.lower() == measure.lower():","            if m == measure:"),
('P23',L,"            if m.lower() == measure.lower():","            if m.lower().startswith(measure.lower()):"),
('P23',L,"                if len(step) == 1:\n","                if len(step) >= 1:\n"),
('P23',L,"            elif len(self.dataset[measure]) == 1:\n","            elif len(self.dataset[measure]) >= 1:\n"),
('P23',L,"                    return self.dataset[measure][step]\n                else","                    return self.dataset[measure][0]\n                else"),
('P23',L,"            if isinstance(step, (slice, int)):\n                return self.dataset[measure][step]","            if isinstance(step, (slice, int)):\n                return self.dataset[measure][step - 1]"),
('P23',L,"        measure = measure.lower()\n        if steps is None","        if steps is None"),
('P23',L,"return [self.dataset[measure][step] for step in steps]","return [self.dataset[measure][step] for step in sorted(steps)]"),
('P23',L,"return [self.dataset[measure][step] for step in steps]","return [v for step, v in enumerate(self.dataset[measure]) if step in steps]"),
('P23',L,"return [self.dataset[measure][step] for step in steps]","return [self.dataset[measure][step] for step in steps if step]"),
('P23',L,"            return self.dataset[measure]  # Returns everything","            return self.stepset[measure]  # Returns everything"),
('P23',L,"return max(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))","return max(self.get_measure_values_at_steps(measure, None))"),
('P23',L,"return max(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))","return max(self.get_measure_values_at_steps(measure, steps))"),
('P23',L,"return min(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))","return max(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))"),
('P23',L,"return sum(values) / len(values)","return sum(values) / len(self.dataset[measure.lower()])"),
('P23',L,"        values = self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps)","        values = self.get_measure_values_at_steps(measure, steps or None)"),
]
BEN=[
('P23',L,"        return [i for i, a in enumerate(condition_set) if a == v]","        found = []\n        for i in range(len(condition_set)):\n            if condition_set[i] == v:\n                found.append(i)\n        return found"),
('P23',L,"        for m in self.dataset.keys():\n            if m.lower() == measure.lower():\n                measure = m\n                break\n        else:","        wanted = measure.lower()\n        names = [m for m in self.dataset if m.lower() == wanted]\n        if names:\n            measure = names[0]\n        else:"),
('P23',L,"                current_set = [v for v in current_set if v in condition_set]","                both = []\n                for v in current_set:\n                    if v in condition_set:\n                        both.append(v)\n                current_set = both"),
('P23',L,"        return max(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))","        if isinstance(steps, int):\n            steps = [steps]\n        return max(self.get_measure_values_at_steps(measure, steps))"),
('P23',L,"            return [self.dataset[measure][step] for step in steps]","            values = self.dataset[measure]\n            res = []\n            for step in steps:\n                res.append(values[step])\n            return res"),
('P23',L,"        return sum(values) / len(values)","        total = sum(values)\n        n = len(values)\n        return total / n"),
('P23',L,"        if key in self.stepset:\n            return self.stepset[key]\n        if key in self.dataset:\n            return self.dataset[key]  # This will raise an Index Error if not found here.\n","        for table in (self.stepset, self.dataset):\n            if key in table:\n                return table[key]\n"),
('P23',L,"            if current_set is None:\n                # initialises the list\n                current_set = condition_set\n            else:\n                # makes the intersection between the lists\n                current_set = [v for v in current_set if v in condition_set]","            current_set = condition_set if current_set is None else [v for v in current_set if v in condition_set]"),
]
T='log/ltsteps.py'; Q='log/qspice_log_reader.py'
MUT+=[
('P24',T,"                        ll = self.stepset.get(lhs, None)\n                        if ll:\n                            ll.append(rhs)\n                        else:\n                            self.stepset[lhs] = [rhs]","                        self.stepset[lhs] = [rhs]"),
('P24',T,"                        lhs = lhs.lower()\n                        ll","                        ll"),
('P24',T,"                        rhs = try_convert_value(rhs)\n",""),
('P24',T,"                        rhs = try_convert_value(rhs)\n","                        rhs = try_convert_value(lhs)\n"),
('P24',T,"                    if valid_step: self.step_count += 1","                    if not valid_step: self.step_count += 1"),
('P24',T,"                        valid_step = True\n","                        valid_step = True\n                        self.step_count += 1\n"),
('P24',T,"                    if valid_step: self.step_count += 1","                    self.step_count += 1"),
('P24',T,"                    if valid_step: self.step_count += 1","                    pass"),
('P24',Q,"                    self.step_count += 1\n                    step","                    step"),
('P24',Q,"                        if ll:\n                            ll.append(rhs)","                        if not ll:\n                            ll.append(rhs)"),
('P24',Q,"lhs = lhs.lower()","lhs = lhs.upper()"),
('P24',Q,"lhs, rhs = tok.split(\"=\")","rhs, lhs = tok.split(\"=\")"),
('P24',T,"                for k, title in enumerate(headers):\n                    self.dataset[title.lower()] = [measure[k] for measure in measurements]\n\n","                for k, title in enumerate(headers):\n                    self.dataset[title.lower()] = [measure[0] for measure in measurements]\n\n"),
('P24',T,"            if len(measurements):\n                self.measure_count += len(measurements)\n                for k, title in enumerate(headers):\n                    self.dataset[title.lower()] = [measure[k] for measure in measurements]\n\n",""),
('P24',T,"                for k, title in enumerate(headers):\n                    self.dataset[title.lower()] = [measure[k] for measure in measurements]\n\n","                for k, title in enumerate(headers):\n                    self.dataset[title] = [measure[k] for measure in measurements]\n\n"),
('P24',T,"                for k, title in enumerate(headers):\n                    self.dataset[title.lower()] = [measure[k] for measure in measurements]\n\n","                for k, title in enumerate(headers, 1):\n                    self.dataset[title.lower()] = [measure[k] for measure in measurements]\n\n"),
('P24',T,"                                self.dataset[title.lower()] = [measure[k] for measure in measurements]\n","                                self.dataset[title.lower()] = [measure[k] for measure in measurements[1:]]\n"),
('P24',T,"                            headers = [dataname] + tokens[2:]\n                            measurements = []","                            headers = [dataname] + tokens[2:]","                        headers = []\n                        measurements = []\n","                        headers = []\n"),
('P24',T,"headers = [dataname] + tokens[2:]","headers = [dataname] + tokens[1:]"),
('P24',T,"meas = tokens[1:]  # remove","meas = tokens[2:]  # remove"),
('P24',T,"measurements = [match.group('value'), match.group('from'), match.group('to')]","measurements = [match.group('value'), match.group('to'), match.group('from')]"),
('P24',T,"measurements = [match.group('value'), match.group('at')]","measurements = [match.group('at'), match.group('value')]"),
('P24',T,"                                try_convert_value(measurements[k])]","                                measurements[k]]"),
('P24',T,"harmonics, self.step_count - 1)","harmonics, self.step_count)"),
('P24',T,"dc_component, phd, thd, harmonics,","dc_component, thd, phd, harmonics,"),
('P24',T,"                    if signal in self.fourier:\n                        self.fourier[signal].append(fourier_data)\n                    else:\n                        self.fourier[signal] = [fourier_data]","                    self.fourier[signal] = [fourier_data]"),
('P24',T,"fourier_component = float(tokens[2])","fourier_component = float(tokens[3])"),
('P24',T,"normalized_phase = float(tokens[5].rstrip('°'))","normalized_phase = float(tokens[4].rstrip('°'))"),
('P24',Q,"self.dataset[title.lower()].append(values[k])","self.dataset[title.lower()].append(values[0])"),
('P24',Q,"self.dataset[title.lower()].append(values[k])","self.dataset[title.lower()] = [values[k]]"),
('P24',Q,"                    headers = None\n                    token1","                    token1"),
('P24',Q,"                        sim_type = token2\n                        meas_name = token1","                        sim_type = token1\n                        meas_name = token2"),
('P24',L,"        ans = int(value)\n    except ValueError:\n        try:\n            ans = float(value)","        ans = float(value)\n    except ValueError:\n        try:\n            ans = int(value)"),
('P24',L,"                ans = value.strip()  #","                ans = value  #"),
('P24',L,"mag = 10 ** (mag / 20)","mag = 10 ** (mag / 10)"),
('P24',L,"mag * math.cos(math.pi * ph / 180), mag * math.sin(math.pi * ph / 180)","mag * math.sin(math.pi * ph / 180), mag * math.cos(math.pi * ph / 180)"),
('P24',L,"if match.group('degrees') is None:","if match.group('dB') is None:"),
]
BEN+=[
('P24',T,"                        ll = self.stepset.get(lhs, None)\n                        if ll:\n                            ll.append(rhs)\n                        else:\n                            self.stepset[lhs] = [rhs]","                        self.stepset.setdefault(lhs, []).append(rhs)"),
('P24',T,"                        ll = self.stepset.get(lhs, None)\n                        if ll:\n                            ll.append(rhs)\n                        else:\n                            self.stepset[lhs] = [rhs]","                        if lhs not in self.stepset:\n                            self.stepset[lhs] = [rhs]\n                        else:\n                            self.stepset[lhs].append(rhs)"),
('P24',T,"                    for tok in tokens[1:]:\n                        # Some log files have a .step line without assignments\n                        if \"=\" not in tok: \n                            continue\n                        valid_step = True\n","                    assignments = [tok for tok in tokens[1:] if '=' in tok]\n                    valid_step = len(assignments) > 0\n                    for tok in assignments:\n"),
('P24',T,"                    for tok in tokens[1:]:\n                        # Some log files have a .step line without assignments\n                        if \"=\" not in tok: \n                            continue\n                        valid_step = True\n","                    valid_step = any('=' in tok for tok in tokens[1:])\n                    for tok in tokens[1:]:\n                        if '=' not in tok:\n                            continue\n"),
('P24',T,"                for k, title in enumerate(headers):\n                    self.dataset[title.lower()] = [measure[k] for measure in measurements]\n\n","                self._store(headers, measurements)\n\n","    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None):\n        \"\"\"Aside","    def _store(self, names, rows):\n        for k, title in enumerate(names):\n            self.dataset[title.lower()] = [row[k] for row in rows]\n\n    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None):\n        \"\"\"Aside"),
('P24',T,"                for k, title in enumerate(headers):\n                    self.dataset[title.lower()] = [measure[k] for measure in measurements]\n\n","                for k in range(len(headers)):\n                    self.dataset[headers[k].lower()] = [measure[k] for measure in measurements]\n\n"),
('P24',T,"                        lhs, rhs = tok.split(\"=\")\n","                        parts = tok.split('=')\n                        lhs = parts[0]\n                        rhs = parts[1]\n"),
('P24',T,"                    if signal in self.fourier:\n                        self.fourier[signal].append(fourier_data)\n                    else:\n                        self.fourier[signal] = [fourier_data]","                    if signal not in self.fourier:\n                        self.fourier[signal] = []\n                    self.fourier[signal].append(fourier_data)"),
('P24',Q,"                        ll = self.stepset.get(lhs, None)\n                        if ll:\n                            ll.append(rhs)\n                        else:\n                            self.stepset[lhs] = [rhs]","                        values = self.stepset.get(lhs)\n                        if values is not None:\n                            values.append(rhs)\n                        else:\n                            self.stepset[lhs] = [rhs]"),
('P24',Q,"                        for k, title in enumerate(headers):\n                            self.dataset[title.lower()].append(values[k])","                        for title, value in zip(headers, values):\n                            self.dataset[title.lower()].append(value)"),
('P24',L,"        ans = int(value)\n    except ValueError:\n        try:\n            ans = float(value)\n        except ValueError:\n            try:\n                ans = LTComplex(value)\n            except ValueError:\n                ans = value.strip()  # Removes the leading trailing spaces\n    return ans","        return int(value)\n    except ValueError:\n        pass\n    try:\n        return float(value)\n    except ValueError:\n        pass\n    try:\n        return LTComplex(value)\n    except ValueError:\n        return value.strip()"),
('P24',L,"    try:\n        ans = int(value)\n    except ValueError:\n        try:\n            ans = float(value)\n        except ValueError:\n            try:\n                ans = LTComplex(value)\n            except ValueError:\n                ans = value.strip()  # Removes the leading trailing spaces\n    return ans","    if True:\n        for kind in (int, float, LTComplex):\n            try:\n                return kind(value)\n            except ValueError:\n                continue\n        return value.strip()"),
('P24',L,"return super().__new__(self, mag * math.cos(math.pi * ph / 180), mag * math.sin(math.pi * ph / 180))","angle = math.radians(ph)\n                return super().__new__(self, mag * math.cos(angle), mag * math.sin(angle))"),
('P24',T,"        harmonic_number = int(tokens[0])\n        frequency = float(tokens[1])\n","        number, freq = tokens[:2]\n        harmonic_number = int(number)\n        frequency = float(freq)\n"),
('P24',T,"                fin.readline()\n                    # Read Harmonics table","                fin.readline()  # header\n                    # Read Harmonics table","phd, thd, harmonics, self.step_count - 1)","phd=phd, thd=thd, harmonics=harmonics, step=self.step_count - 1)"),
]
MUT+=[
('P42',L,'fout.write("%d" % (index + 1))','fout.write("%d" % index)'),
('P42',L,"meas_data = [self.dataset[param][index] for param in self.dataset.keys()]","meas_data = [self.dataset[param][-1] for param in self.dataset.keys()]"),
('P42',L,"step_data = [self.stepset[param][index] for param in self.stepset.keys()]","step_data = [self.stepset[param][0] for param in self.stepset.keys()]"),
('P42',L,"                    fout.write(value_separator + f'{tok}')","                    fout.write('\\t' + f'{tok}')"),
('P42',L,"        fout.write(line_terminator)  # Finished","        fout.write('\\n')  # Finished"),
('P42',L,"        if append_with_line_prefix is None:\n            mode","        if append_with_line_prefix:\n            mode"),
('P42',L,"            for s in step_data:\n                if isinstance(s, list):\n                    for x in s:\n                        fout.write(value_separator + f'{x}')\n                        columns_writen += 1\n                else:\n                    fout.write(value_separator + f'{s}')\n                    columns_writen += 1\n\n            for tok in meas_data:","            for tok in meas_data + step_data:"),
('P42',L,"{name: list(values) for name, values in step_set.items()}","step_set.copy()"),
('P42',L,"{name: list(values) for name, values in step_set.items()}","{name: values for name, values in step_set.items()}"),
('P42',L,"OrderedDict((name, list(values)) for name, values in dataset.items())","dataset.copy()"),
('P42',L,"OrderedDict((name, list(values)) for name, values in dataset.items())","OrderedDict(dataset)"),
('P42',L,"self.step_count = max((len(values) for values in self.stepset.values()), default=0)","self.step_count = len(self.stepset)"),
('P42',T,"                                if analysis.step == step_no:\n                                    fout.write('\\t'.join(step_values)","                                if analysis.step <= step_no:\n                                    fout.write('\\t'.join(step_values)"),
('P42',T,"                                if analysis.step == step_no:\n                                    step_values","                                if True:\n                                    step_values"),
('P42',T,"                                           f\"{harmonic.fourier_component}\\t\"\n                                           f\"{harmonic.normalized_component}\\t\"\n","                                           f\"{harmonic.normalized_component}\\t\"\n                                           f\"{harmonic.fourier_component}\\t\"\n"),
('P42',T,"                                               f\"{analysis.phd}\\t\"\n                                               f\"{analysis.thd}\\n\")","                                               f\"{analysis.thd}\\t\"\n                                               f\"{analysis.phd}\\n\")"),
('P42',T,"                if self.step_count > 0:\n                    fout.write(\"\\t\".join(self.stepset.keys()) + \"\\t\")\n                fout.write(\"Signal\\tN-Periods\\tHarmonic","                fout.write(\"\\t\".join(self.stepset.keys()) + \"\\t\")\n                fout.write(\"Signal\\tN-Periods\\tHarmonic"),
('P42',T,"self.dataset[self.headers[i].lower()].append(try_convert_value(values[i]))","self.dataset[self.headers[i].lower()].append(try_convert_value(values[0]))"),
('P42',T,"self.dataset[self.headers[i].lower()].append(try_convert_value(values[i]))","self.dataset[self.headers[i].lower()].append(values[i])"),
('P42',T,"                        curr_dic[key] = try_convert_value(value)","                        curr_dic[value] = try_convert_value(key)"),
('P42',T,"curr_dic['runno'] = run_no","curr_dic['runno'] = step"),
('P42',T,"self.headers = file_header.rstrip('\\r\\n').split('\\t')","self.headers = file_header.split('\\t')"),
('P42',T,"                        go_header = False  # This is executed only once\n                        for key in curr_dic:\n                            self.dataset[key.lower()] = []","                        for key in curr_dic:\n                            self.dataset[key.lower()] = []","                    if go_header:\n                        for key","                    if True:\n                        for key"),
('P42',T,"self.dataset = {key.lower(): [] for key in self.headers}","self.dataset = {}"),
('P42',T,r'regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)\s*$")',r'regx = re.compile(r"Step Information: ([\w=\d\. -]+) +\((?:Run|Step): (\d*)/\d*\)\s*$")'),
('P42',T,'fout.write(f"{run_no}\\t{param_values}\\t{line}")','fout.write(f"{param_values}\\t{run_no}\\t{line}")'),
('P42',T,"params.append(param.split('=')[1])","params.append(param.split('=')[0])"),
('P42',T,'                param_values = "\\t".join(params)\n\n                if go_header:\n','                if go_header:\n                    param_values = "\\t".join(params)\n'),
('P42',T,"            if go_header:  # There are no steps in this file\n                fout.write(f\"Run\\t\\t{headers}\")\n                go_header = False\n",""),
('P42',T,'                step, run_no = match.groups()\n                params','                step, run = match.groups()\n                params'),
]
BEN+=[
('P42',L,"                step_data = [self.stepset[param][index] for param in self.stepset.keys()]","                step_data = [values[index] for values in self.stepset.values()]"),
('P42',L,"            meas_data = [self.dataset[param][index] for param in self.dataset.keys()]","            meas_data = []\n            for param in self.dataset:\n                meas_data.append(self.dataset[param][index])"),
('P42',L,'fout.write("%d" % (index + 1))',"fout.write(f'{index + 1}')"),
('P42',L,'        for index in range(data_size):\n','        for row in range(1, data_size + 1):\n            index = row - 1\n'),
('P42',L,"        if append_with_line_prefix is None:\n            mode = 'w'  # rewrites the file\n        else:\n            mode = 'a'  # Appends an existing file","        mode = 'w' if append_with_line_prefix is None else 'a'"),
('P42',L,"{name: list(values) for name, values in step_set.items()}","{name: values[:] for name, values in step_set.items()}"),
('P42',L,"self.step_count = max((len(values) for values in self.stepset.values()), default=0)","self.step_count = 0\n        for values in self.stepset.values():\n            self.step_count = max(self.step_count, len(values))"),
('P42',L,"        if step_set is None:\n            self.stepset = {}\n        else:\n            self.stepset = {name: list(values) for name, values in step_set.items()}","        self.stepset = {name: list(values) for name, values in (step_set or {}).items()}"),
('P42',T,"                        for step_no in range(self.step_count):\n                            step_values = [f\"{self.stepset[step][step_no]}\" for step in self.stepset]\n                            for analysis in self.fourier[signal]:\n                                if analysis.step == step_no:\n","                        for step_no in range(self.step_count):\n                            step_values = [str(self.stepset[step][step_no]) for step in self.stepset]\n                            for analysis in self.fourier[signal]:\n                                if step_no == analysis.step:\n"),
('P42',T,"                for i in range(len(values)):\n                    self.dataset[self.headers[i].lower()].append(try_convert_value(values[i]))","                for i, value in enumerate(values):\n                    self.dataset[self.headers[i].lower()].append(try_convert_value(value))"),
('P42',T,"                for i in range(len(values)):\n                    self.dataset[self.headers[i].lower()].append(try_convert_value(values[i]))","                for header, value in zip(self.headers, values):\n                    self.dataset[header.lower()].append(try_convert_value(value))"),
('P42',T,"                for key in curr_dic:\n                    self.dataset[key.lower()].append(curr_dic[key])","                for key, value in curr_dic.items():\n                    self.dataset[key.lower()].append(value)"),
('P42',T,'                params = []\n                for param in step.split():\n                    params.append(param.split(\'=\')[1])\n                param_values = "\\t".join(params)\n','                param_values = "\\t".join(param.split(\'=\')[1] for param in step.split())\n'),
('P42',T,'            fout.write(f"{run_no}\\t{param_values}\\t{line}")',"            fout.write(str(run_no) + '\\t' + param_values + '\\t' + line)"),
('P42',T,'                        key, value = param.split(\'=\')\n                        curr_dic[key]','                        key, _, value = param.partition(\'=\')\n                        curr_dic[key]'),
]
O='log/semi_dev_op_reader.py'
MUT+=[
('P43',O,"[devices[i]][param] = value","[devices[i - 1]][param] = value"),
('P43',O,"[devices[i]][param] = value","[devices[0]][param] = value"),
('P43',O,"enumerate(cols[1:]):\n                                try","enumerate(cols[1:], 1):\n                                try"),
('P43',O,"                        devices = cols[1:]","                        devices = cols"),
('P43',O,"dataset[where.lower()][devices[i]]","dataset[where][devices[i]]"),
('P43',O,"param = cols[0].rstrip(':')","param = cols[0]"),
('P43',O,"param = cols[0].rstrip(':')","param = cols[1].rstrip(':')"),
('P43',O," and len(cols) == (n_devices + 1):",":"),
('P43',O," and len(cols) == (n_devices + 1):"," and len(cols) <= (n_devices + 1):"),
('P43',O,"                                try:\n                                    value = float(val)\n                                except ValueError:\n                                    value = val","                                value = val"),
('P43',O,"(cols[0].endswith(\":\") or cols[0] == 'Gmb')","cols[0].endswith(\":\")"),
]
BEN+=[
('P43',O,"                            for i, val in enumerate(cols[1:]):\n","                            for i in range(n_devices):\n                                val = cols[i + 1]\n"),
('P43',O,"                            for i, val in enumerate(cols[1:]):\n","                            for dev, val in zip(devices, cols[1:]):\n","dataset[where.lower()][devices[i]][param]","dataset[where.lower()][dev][param]"),
('P43',O,"                                dataset[where.lower()][devices[i]][param] = value","                                section = dataset[where.lower()]\n                                section[devices[i]][param] = value"),
('P43',O,"                                try:\n                                    value = float(val)\n                                except ValueError:\n                                    value = val\n                                dataset[where.lower()][devices[i]][param] = value","                                dataset[where.lower()][devices[i]][param] = _number(val)","def opLogReader","def _number(val):\n    try:\n        return float(val)\n    except ValueError:\n        return val\n\n\ndef opLogReader"),
('P43',O,"cols[0].rstrip(':')","cols[0].strip(':')"),
('P43',O,"                    if cols[0] == \"Name:\":\n                        devices = cols[1:]\n                        n_devices = len(devices)","                    if cols[0] == \"Name:\":\n                        n_devices = len(cols) - 1\n                        devices = cols[1:]"),
]
