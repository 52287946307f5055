RC='raw/raw_classes.py'; PD='raw/plot_data.py'; RR='raw/raw_read.py'; RW='raw/raw_write.py'
MUT=[
('P20',PD,"                                _logger.debug(f\"Binary data read successfully. Data shape: {data.shape}\")\n                        previous_data_size += data_size","                                _logger.debug(f\"Binary data read successfully. Data shape: {data.shape}\")\n                            previous_data_size += data_size"),
('P20',PD,"                        previous_data_size += data_size\n                        data = np.frombuffer","                        data = np.frombuffer"),
('P20',PD,"data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints","data_size = np.dtype(self._trace_info[0].dtype).itemsize * self._nPoints"),
('P20',PD,"data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints","data_size = 8 * self._nPoints"),
('P20',PD,"                        if i == 0 and self._has_axis:\n                            pass  # the axis was already read, it shall not be replaced by a trace\n                        elif trace_info.name in list_of_traces:\n                            # read","                        if trace_info.name in list_of_traces:\n                            # read"),
('P20',PD,"                        if i == 0 and self._has_axis:\n                            pass","                        if i == 0 and self._has_axis:\n                            continue"),
('P20',PD,"                        elif i == 0 and self._has_axis:\n                            pass  # the axis was already read, it shall not be replaced by a trace\n",""),
('P20',PD,"                            read_dtypes.append((trace_info.name, 'V' + str(np.dtype(trace_info.dtype).itemsize)))","                            read_dtypes.append((trace_info.name, 'V8'))"),
('P20',PD,"                        if i == 0 and self._has_axis and (self._axis is None):\n                            # Always read the axis first, if it exists and was not read before\n                            read_dtypes","                        if i == 0 and self._has_axis and trace_info.name in list_of_traces:\n                            # Always read the axis first, if it exists and was not read before\n                            read_dtypes"),
('P20',PD,"                        # Set the steps if they exist\n                        if self._steps is not None:\n                            self._axis.set_steps(self._steps)\n\n                    for","                    for"),
('P20',PD,"                            # Set the steps if they exist\n                            if self._steps is not None:\n                                self._axis.set_steps(self._steps)\n                        elif i","                        elif i"),
('P20',PD,"record_size = sum([np.dtype(t.dtype).itemsize for t in self._trace_info])\n                    raw_file","record_size = sum([np.dtype(t.dtype).itemsize for t in self._trace_info[1:]])\n                    raw_file"),
('P20',PD,"raw_file.seek(self._fpos_data + self._nPoints * record_size)","raw_file.seek(self._nPoints * record_size)"),
('P20',PD,"raw_file.seek(self._fpos_data + self._nPoints * record_size)","raw_file.seek(self._fpos_data + (self._nPoints - 1) * record_size)"),
('P20',PD,"raw_file.seek(self._fpos_data)  #","raw_file.seek(0)  #"),
('P20',PD,"                            trace_data = data[trace_info.name]\n                            num_type = inv_dtype_map[trace_info.dtype]\n                            # Now","                            trace_data = data[self._trace_info[0].name]\n                            num_type = inv_dtype_map[trace_info.dtype]\n                            # Now"),
('P20',PD,"        always_double = dialect != 'ltspice'","        always_double = dialect == 'qspice'"),
('P20',PD,"        frequency_double = dialect == 'qspice'","        frequency_double = dialect != 'ltspice'"),
('P20',PD,"elif \"double\" in self._raw_params['Flags'].lower():","elif False:"),
('P20',PD,"            if ivar == 0:  #","            if ivar <= 1:  #"),
('P20',PD,"                if numerical_type == 'real':\n                    # only","                if numerical_type == 'real' and self._has_axis:\n                    # only"),
('P20',PD," or self._raw_params['Plotname'].lower() == 'ac analysis':",":"),
('P20',PD,"('operating point', 'transfer function', 'integrated noise')","('operating point', 'transfer function')"),
('P20',PD,"    'real': 'f'\n","    'real': 'd'\n"),
('P20',PD,"complex(float(v[0]), float(v[1]))","complex(float(v[1]), float(v[0]))"),
('P20',PD,"                    self._read_traces[var.name].data[point] = float(value)\n                var_index += 1","                    self._read_traces[var.name].data[point] = float(value)\n                    var_index += 1"),
('P20',PD,"                if len(line) == 0:\n                    continue  # skip empty lines","                if len(line) == 0:\n                    var_index += 1\n                    continue  # skip empty lines"),
('P20',PD,"            var_index = 0\n            while","            var_index = 1\n            while"),
('P20',PD,"        for point in range(self._nPoints):\n            var","        for point in range(1, self._nPoints):\n            var"),
('P20',PD,"data[point] = float(value)","data[point - 1] = float(value)"),
('P20',PD,"            if trace_info.name == self._trace_info[0].name and self._has_axis:","            if trace_info.name == self._trace_info[0].name:"),
('P20',PD,"                autodetected_dialect = 'ngspice'","                autodetected_dialect = 'ltspice'"),
('P20',PD,"Trying to read it anyway.\")\n","Trying to read it anyway.\")\n                dialect = autodetected_dialect\n"),
('P20',PD,"                        trace = Axis(trace_info.name, trace_info.var_type, self._nPoints, num_type, data)\n                        self._axis = trace","                        trace = Axis(trace_info.name, trace_info.var_type, self._nPoints, num_type, data)"),
('P20',PD,"for i, trace_info in enumerate(self._trace_info[start_index:], start_index):","for i, trace_info in enumerate(self._trace_info[1:], 1):"),
('P20',PD,"for i, trace_info in enumerate(self._trace_info[start_index:], start_index):","for i, trace_info in enumerate(self._trace_info, start_index):"),
('P20',PD,"                                  inv_dtype_map[trace_info.dtype],\n                                  trace_data)\n                self._read_traces[trace_info.name] = trace","                                  inv_dtype_map[trace_info.dtype],\n                                  trace_data)\n                self._read_traces.setdefault(trace_info.name, trace)"),
('P20',PD,"            trace_data = np.zeros(self._nPoints, dtype=trace_info.dtype)","            trace_data = np.zeros(self._nPoints)"),
]
BEN=[
# offsets computed with a helper
('P20',PD,"                        previous_data_size += data_size\n                else:","                        previous_data_size = data_size + previous_data_size\n                else:"),
('P20',PD,"""                        data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints
                        if i""","""                        data_size = self._data_size(trace_info)
                        if i""","""    def read_trace_data(""","""    def _data_size(self, info):
        item = np.dtype(info.dtype)
        return self._nPoints * item.itemsize

    def read_trace_data("""),
('P20',PD,"""                    previous_data_size = 0
""","""                    previous_data_size = self._fpos_data
""","""                            raw_file.seek(self._fpos_data + previous_data_size)  # Move to the beginning of the data section
                            raw""","""                            raw_file.seek(previous_data_size)
                            raw""","""                        raw_file.seek(self._fpos_data + previous_data_size)  # Move""","""                        raw_file.seek(previous_data_size)  # Move"""),
('P20',PD,"""                        if i == 0 and self._has_axis and (self._axis is None):
                            # Always read the axis first, if it exists and was not read before
                            read_dtypes.append((trace_info.name, trace_info.dtype))
                        elif trace_info.name in list_of_traces:
                            read_dtypes.append((trace_info.name, trace_info.dtype))
                        else:
                            # void num_type, to skip this trace
                            read_dtypes.append((trace_info.name, 'V' + str(np.dtype(trace_info.dtype).itemsize)))""","""                        needed = trace_info.name in list_of_traces
                        if self._axis is None and self._has_axis and i == 0:
                            needed = True
                        field_type = trace_info.dtype
                        if not needed:
                            field_type = f'V{np.dtype(field_type).itemsize}'
                        read_dtypes.append((trace_info.name, field_type))"""),
('P20',PD,"""                            trace_data = data[trace_info.name]
                            num_type = inv_dtype_map[trace_info.dtype]
                            # Now create the trace
                            trace = TraceRead(trace_info.name, trace_info.var_type, self._nPoints, self._axis, num_type, trace_data)
                            self._read_traces[trace_info.name] = trace""","""                            self._add_trace(trace_info, data[trace_info.name])""","""    def read_trace_data(""","""    def _add_trace(self, info, values):
        num_type = inv_dtype_map[info.dtype]
        trace = TraceRead(info.name, info.var_type, self._nPoints, axis=self._axis, numerical_type=num_type, data=values)
        self._read_traces[info.name] = trace
        return trace

    def read_trace_data(""","""                            if self._verbose:
                                _logger.debug(f"Trace '{trace.name}' read successfully. Data type: {trace_info.dtype}, First 5 values: {trace.data[:5]}")
            elif""","""            elif"""),
('P20',PD,"""        for point in range(self._nPoints):
            var_index = 0
            while var_index < len(self._trace_info):
                line = self._read_ascii_line(raw_file)
                if len(line) == 0:
                    raise SpiceReadException(
                        f"Invalid RAW file. Plot nr. {self._plot_nr}: Invalid data: end of file encountered too early")
                line = line.strip()
                if len(line) == 0:
                    continue  # skip empty lines
""","""        for point in range(self._nPoints):
            for var_index, var in enumerate(self._trace_info):
                line = ''
                while not line:
                    line = self._read_ascii_line(raw_file)
                    if len(line) == 0:
                        raise SpiceReadException(
                            f"Invalid RAW file. Plot nr. {self._plot_nr}: Invalid data: end of file encountered too early")
                    line = line.strip()
""","""                var = self._trace_info[var_index]
""","","""                var_index += 1
        # Rem""","""        # Rem"""),
('P20',PD,"""                if var.dtype == 'complex':
                    v = value.split(',')
                    if len(v) != 2:""","""                if var.dtype == 'complex':
                    v = value.split(',')
                    if 2 != len(v):""","""complex(float(v[0]), float(v[1]))""","""complex(*[float(x) for x in v])"""),
('P20',PD,"""                if numerical_type == 'real':
                    # only ltspice gets here, in non AC
                    axis_numerical_type = 'double'  # LTSpice uses double for the first variable in .OP
                elif numerical_type == 'complex' and frequency_double:
                    axis_numerical_type = 'double'  # QSPICE uses double for frequency for .AC files
                else:
                    axis_numerical_type = numerical_type
                trace_info = TraceInfo(name, dtype_map[axis_numerical_type], var_type)
            else:
                trace_info = TraceInfo(name, dtype_map[numerical_type], var_type)
            self._trace_info.append(trace_info)""","""                if numerical_type == 'real' or (frequency_double and numerical_type == 'complex'):
                    this_type = 'double'
                else:
                    this_type = numerical_type
            else:
                this_type = numerical_type
            self._trace_info.append(TraceInfo(name=name, dtype=dtype_map[this_type], var_type=var_type))"""),
('P20',PD,"""        if 'complex' in self._raw_params['Flags'].lower() or self._raw_params['Plotname'].lower() == 'ac analysis':
            numerical_type = 'complex'
        else:
            if always_double:  # qspice, ngspice and xyce use doubles for everything outside of AC
                numerical_type = 'double'
            elif "double" in self._raw_params['Flags'].lower():  # LTspice: .options numdgt = 7 sets this flag for double precision
                numerical_type = 'double'
            else:
                numerical_type = 'real'""","""        flags = self._raw_params['Flags'].lower()
        numerical_type = 'real'
        if always_double or "double" in flags:
            numerical_type = 'double'
        if self._raw_params['Plotname'].lower() == 'ac analysis' or 'complex' in flags:
            numerical_type = 'complex'"""),
('P20',PD,"""            record_size = sum([np.dtype(t.dtype).itemsize for t in self._trace_info])
            raw_file.seek(self._fpos_data + self._nPoints * record_size)""","""            raw_file.seek(self._nPoints * self._record_size() + self._fpos_data)""","""    def read_trace_data(""","""    def _record_size(self):
        return sum(np.dtype(t.dtype).itemsize for t in self._trace_info)

    def read_trace_data(""","""                    record_size = sum([np.dtype(t.dtype).itemsize for t in self._trace_info])
""","""                    record_size = self._record_size()
"""),
]

MUT += [
('P22',PD,"        if len(data) < num_bytes:","        if not data:"),
('P22',PD,"        if len(data) < num_bytes:","        if len(data) < num_bytes - 1:"),
('P22',PD,"            raise SpiceReadException(\"Invalid RAW file. Not enough data in the binary section.\")\n        return data","            _logger.warning(\"Not enough data in the binary section.\")\n        return data"),
('P22',PD,"        data = raw_file.read(num_bytes)\n        if len(data) < num_bytes:\n            raise SpiceReadException(\"Invalid RAW file. Not enough data in the binary section.\")\n        return data","        data = raw_file.read(num_bytes)\n        if len(data) < num_bytes:\n            data = data + bytes(num_bytes - len(data))\n        return data"),
('P22',PD,"                if len(line) == 0:\n                    raise SpiceReadException(\n                        f\"Invalid RAW file. Plot nr. {self._plot_nr}: Invalid data: end of file encountered too early\")\n","                if len(line) == 0:\n                    return\n"),
('P22',PD,"                    if point != int(s_point):","                    if point > int(s_point):"),
('P22',PD,"                    if point != int(s_point):\n                        raise","                    if point != int(s_point) and point == 0:\n                        raise"),
('P22',PD,"                    if len(v) != 2:","                    if len(v) < 2:"),
('P22',PD,"        if self._nPoints == 0 or self._nVariables == 0:","        if self._nPoints == 0 and self._nVariables == 0:"),
('P22',PD,"        if self._nPoints == 0 or self._nVariables == 0:","        if self._nVariables == 0:"),
('P22',PD,"            if len(line_elmts) < 3:","            if len(line_elmts) < 2:"),
('P22',PD,"        if not dialect:\n            raise SpiceReadException(f\"Invalid RAW file. Plot nr. {self._plot_nr}: file dialect is not specified and could not be auto detected.\")","        if not dialect:\n            _logger.warning('no dialect')"),
('P22',PD,"        if bytes_remaining < MIN_BYTES_IN_FILE:\n            _logger.warning(f\"Plot nr {self._plot_nr}: Not enough bytes remaining in file. The plot does not exist or is incomplete.\")\n            raise","        if bytes_remaining < MIN_BYTES_IN_FILE:\n            _logger.warning(f\"Plot nr {self._plot_nr}: Not enough bytes remaining in file. The plot does not exist or is incomplete.\")\n            if bytes_remaining == 0: raise"),
('P22',PD,"    if line == 'Title:' or line == '\\nTitle':\n        answer = 'utf_8'","    if line == 'Title:' or line == '\\nTitle':\n        answer = 'utf_16_le'"),
('P22',PD,"            raise SpiceReadException(\"Invalid RAW file. Unrecognized encoding.\")","            answer = 'utf_8'"),
('P22',RR,"                if dialect not in ('ltspice', 'qspice', 'ngspice', 'xyce'):","                if dialect not in ('ltspice', 'qspice', 'ngspice'):"),
('P22',RR,"                dialect = dialect.lower()\n",""),
('P22',PD,"                raise NotImplementedError(\"Only binary and value RAW files are supported at the moment.\")","                _logger.error(\"Only binary and value RAW files are supported at the moment.\")"),
('P40',PD,"                if trace_ref_lower == trace_name.casefold():  # The trace","                if trace_name.casefold().startswith(trace_ref_lower):  # The trace"),
('P40',PD,"                    return self._read_traces[trace_name]\n            # not","                    return self._read_traces[trace_ref]\n            # not") if False else
('P40',PD,"                    if trace_ref_lower == trace_info.name.casefold():","                    if trace_ref_lower in trace_info.name.casefold():"),
('P40',PD,"                for index, trace_info in enumerate(self._trace_info):\n                    if trace_ref_lower","                for index, trace_info in enumerate(self._trace_info[1:]):\n                    if trace_ref_lower"),
('P40',PD,"                else:\n                    index = -1","                else:\n                    index = 0"),
('P40',PD,"            if index >= 0:\n","            if index > 0:\n"),
('P40',PD,"                self.read_trace_data([trace_info.name])\n                return self._read_traces","                return self._read_traces"),
('P40',PD,"                if trace_ref_lower == alias.casefold():","                if alias.casefold().endswith(trace_ref_lower):"),
('P40',PD,"            for alias in self._aliases:\n                if trace_ref_lower == alias.casefold():\n                    return self._compute_alias(alias)\n",""),
('P40',PD,"            if trace_ref < 0 or trace_ref >= len(self._trace_info):","            if trace_ref < 0 or trace_ref > len(self._trace_info):"),
('P40',PD,"            if trace_ref < 0 or trace_ref >= len(self._trace_info):","            if trace_ref >= len(self._trace_info):"),
('P40',PD,"            if trace_ref < 0 or trace_ref >= len(self._trace_info):","            if trace_ref <= 0 or trace_ref >= len(self._trace_info):"),
('P40',PD,"            trace_info = self._trace_info[trace_ref]\n","            trace_info = self._trace_info[trace_ref - 1]\n"),
('P40',PD,"            return trace.get_wave(step)\n        else","            return trace.get_wave(0)\n        else"),
('P40',PD,"            axis = self.get_trace(0)\n            assert isinstance(axis, Axis), \"This RAW file does not have an axis.\"\n            return axis.get_wave(step)","            axis = self.get_trace(0)\n            assert isinstance(axis, Axis), \"This RAW file does not have an axis.\"\n            return axis.get_wave()"),
('P40',PD,"            return axis.get_len(step)","            return self._nPoints"),
('P40',RR,"        return self._plots[0].get_wave(trace_ref, step)","        return self._plots[0].get_wave(trace_ref)"),
('P40',RR,"        return self._plots[0].get_trace(trace_ref)","        return self._plots[-1].get_trace(trace_ref)"),
('P40',RR,"        return self._plots[0].flags","        return self._plots[-1].flags"),
('P40',RR,"        return self._plots[0].has_axis","        return True"),
]
BEN += [
('P22',PD,"        if len(data) < num_bytes:","        if num_bytes > len(data):"),
('P22',PD,"        if len(data) < num_bytes:","        if len(data) != num_bytes:"),
('P22',PD,"        data = raw_file.read(num_bytes)\n        if len(data) < num_bytes:\n            raise SpiceReadException(\"Invalid RAW file. Not enough data in the binary section.\")\n        return data","        data = raw_file.read(num_bytes)\n        if len(data) == num_bytes:\n            return data\n        raise SpiceReadException(\"Invalid RAW file. Not enough data in the binary section.\")"),
('P22',PD,"                if len(line) == 0:\n                    raise SpiceReadException(","                if line == '':\n                    raise SpiceReadException("),
('P22',PD,"                if len(line) == 0:\n                    raise SpiceReadException(","                if not line:\n                    raise SpiceReadException("),
('P22',PD,"                    if point != int(s_point):","                    read_point = int(s_point)\n                    if read_point != point:"),
('P22',PD,"        if self._nPoints == 0 or self._nVariables == 0:","        if not (self._nPoints and self._nVariables):"),
('P22',PD,"        if self._nPoints == 0 or self._nVariables == 0:","        if self._nPoints < 1 or self._nVariables < 1:"),
('P22',PD,"        self._nPoints = int(self._raw_params['No. Points'], 10)\n        self._nVariables = int(self._raw_params['No. Variables'], 10)\n        if self._nPoints == 0 or self._nVariables == 0:","        n_points = int(self._raw_params['No. Points'], 10)\n        n_vars = int(self._raw_params['No. Variables'], 10)\n        self._nPoints = n_points\n        self._nVariables = n_vars\n        if n_points == 0 or n_vars == 0:"),
('P22',PD,"            if len(line_elmts) < 3:","            if not len(line_elmts) >= 3:"),
('P22',PD,"            if len(line_elmts) < 3:","            if len(line_elmts) <= 2:"),
('P22',PD,"        if not dialect:\n            raise","        if dialect is None or dialect == '':\n            raise"),
('P22',PD,"    if line == 'Title:' or line == '\\nTitle':\n        answer = 'utf_8'","    if line in ('Title:', '\\nTitle'):\n        answer = 'utf_8'"),
('P22',RR,"                if dialect not in ('ltspice', 'qspice', 'ngspice', 'xyce'):","                known = ['ltspice', 'qspice', 'ngspice', 'xyce']\n                if not dialect in known:"),
('P22',PD,"                    v = value.split(',')\n                    if len(v) != 2:","                    v = value.split(',')\n                    if not len(v) == 2:"),
('P40',PD,"            for trace_name in self._read_traces:\n                if trace_ref_lower == trace_name.casefold():  # The trace names are case-insensitive\n                    # assert isinstance(trace, DataSet)\n                    return self._read_traces[trace_name]","            for trace_name, trace in self._read_traces.items():\n                if trace_ref_lower == trace_name.casefold():\n                    return trace"),
('P40',PD,"                for index, trace_info in enumerate(self._trace_info):\n                    if trace_ref_lower == trace_info.name.casefold():  # The trace names are case-insensitive\n                        break\n                else:\n                    index = -1","                index = -1\n                for idx, trace_info in enumerate(self._trace_info):\n                    if trace_ref_lower == trace_info.name.casefold():\n                        index = idx\n                        break"),
('P40',PD,"            try:\n                index = self.raw_params['Variables'].index(trace_ref)\n            except ValueError:\n                for index, trace_info in enumerate(self._trace_info):\n                    if trace_ref_lower == trace_info.name.casefold():  # The trace names are case-insensitive\n                        break\n                else:\n                    index = -1\n            if index >= 0:\n                # need to read it from file\n                trace_info = self._trace_info[index]\n                self.read_trace_data([trace_info.name])\n                return self._read_traces[trace_info.name]","            for trace_info in self._trace_info:\n                if trace_ref_lower == trace_info.name.casefold():\n                    self.read_trace_data([trace_info.name])\n                    return self._read_traces[trace_info.name]"),
('P40',PD,"            if trace_ref < 0 or trace_ref >= len(self._trace_info):","            if not 0 <= trace_ref < len(self._trace_info):"),
('P40',PD,"            if trace_ref < 0 or trace_ref >= len(self._trace_info):","            if trace_ref not in range(len(self._trace_info)):"),
('P40',PD,"            trace_info = self._trace_info[trace_ref]\n            return self.get_trace(trace_info.name)  # Recursion with a string","            return self.get_trace(self.raw_params['Variables'][trace_ref])"),
('P40',PD,"        if isinstance(trace_ref, str):\n            if trace_ref in","        if not isinstance(trace_ref, str):\n            if trace_ref < 0 or trace_ref >= len(self._trace_info):\n                raise IndexError('out of range')\n            return self.get_trace(self._trace_info[trace_ref].name)\n        else:\n            if trace_ref in") if False else
('P40',PD,"        trace = self.get_trace(trace_ref)\n        if isinstance(trace, Axis) or isinstance(trace, TraceRead):\n            return trace.get_wave(step)\n        else:","        trace = self[trace_ref]\n        if isinstance(trace, (Axis, TraceRead)):\n            return trace.get_wave(step=step)\n        else:"),
('P40',PD,"            axis = self.get_trace(0)\n            assert isinstance(axis, Axis), \"This RAW file does not have an axis.\"\n            return axis.get_wave(step)","            return self.get_wave(0, step)"),
('P40',RR,"        if len(self._plots) == 0:\n            return np.ndarray([])\n        return self._plots[0].get_wave(trace_ref, step)","        if not self._plots:\n            return np.ndarray([])\n        plot = self._plots[0]\n        return plot.get_wave(trace_ref, step=step)"),
]

MUT += [
('P19',RW,"f\"No. Variables: {len(self._traces)}\\n\"","f\"No. Variables: {len(self._traces) - 1}\\n\""),
('P19',RW,"{len(self._traces[0]):12}","{len(self._traces):12}"),
('P19',RW,"\\t{i}\\t{trace.name}\\t{trace.whattype}","\\t{i}\\t{trace.whattype}\\t{trace.name}"),
('P19',RW,"        for i, trace in enumerate(self._traces):\n            f.write(f\"\\t","        for i, trace in enumerate(sorted(self._traces, key=lambda t: t.name)):\n            f.write(f\"\\t"),
('P19',RW,"        if self.flag_fastaccess:\n            for index","        if not self.flag_fastaccess:\n            for index"),
('P19',RW,"        if self.flag_fastaccess:\n            flags.append('fastaccess')","        if self.flag_fastaccess and not self.flag_stepped:\n            flags.append('fastaccess')"),
('P19',RW,"        elif index == 0 or self._is_double():","        elif self._is_double():"),
('P19',RW,"        elif index == 0 or self._is_double():","        elif index == 0:"),
('P19',RW,"        if self.flag_numtype == 'real' and self._is_double():\n            flags.append('double')\n",""),
('P19',RW,"            return complex128","            return complex64"),
('P19',RW,"            for i in range(len(self._traces[0])):\n                for column in columns:","            for i in range(1, len(self._traces[0])):\n                for column in columns:"),
('P19',RW,"            for i in range(len(self._traces[0])):\n                for column in columns:\n                    total_bytes += f.write(column[i].tobytes())","            for column in columns:\n                for i in range(len(self._traces[0])):\n                    total_bytes += f.write(column[i].tobytes())"),
('P19',RW,"                f.write(trace.data.astype(self._trace_dtype(index)).tobytes())","                f.write(trace.data.tobytes())"),
('P19',RW,"            for index, trace in enumerate(self._traces):\n                f.write","            for index, trace in enumerate(self._traces[1:], 1):\n                f.write"),
('P19',RW,"        if len(self._imported_data):\n            self._consolidate()\n        f = open(filename, 'wb')","        f = open(filename, 'wb')"),
('P19',RW,"        f.write(\"Binary:\\n\".encode(self.encoding))","        f.write(\"Binary:\\n\".encode('utf_8'))"),
('P19',RW,"            if len(self._traces[0]) != len(trace):","            if len(self._traces[0]) < len(trace):"),
('P19',RW,"            if len(self._traces[0]) != len(trace):\n                raise IndexError(\"The trace needs to be the same size as trace 0\")","            pass"),
('P19',RW,"        f.write(f\"Plotname: {self.plot_name}\\n\".encode(self.encoding))\n",""),
]
BEN += [
('P19',RW,"        f = open(filename, 'wb')\n","        nr_traces = len(self._traces)\n        f = open(filename, 'wb')\n","f\"No. Variables: {len(self._traces)}\\n\"","f\"No. Variables: {nr_traces}\\n\""),
('P19',RW,"        f = open(filename, 'wb')\n","        def put(text):\n            f.write(text.encode(self.encoding))\n\n        f = open(filename, 'wb')\n","f.write(\"Variables:\\n\".encode(self.encoding))","put(\"Variables:\\n\")","f.write(\"Binary:\\n\".encode(self.encoding))","put(\"Binary:\\n\")"),
('P19',RW,"        f.write(\"Title: * spicelib RawWrite\\n\".encode(self.encoding))\n        f.write(f\"Date: {strftime('%a %b %d %H:%M:%S %Y')}\\n\".encode(self.encoding))\n        f.write(f\"Plotname: {self.plot_name}\\n\".encode(self.encoding))\n","        header = \"Title: * spicelib RawWrite\\n\"\n        header += f\"Date: {strftime('%a %b %d %H:%M:%S %Y')}\\n\"\n        header += \"Plotname: \" + self.plot_name + \"\\n\"\n        f.write(header.encode(self.encoding))\n"),
('P19',RW,"        if self.flag_fastaccess:\n            for index, trace in enumerate(self._traces):\n                f.write(trace.data.astype(self._trace_dtype(index)).tobytes())\n        else:\n            columns = [trace.data.astype(self._trace_dtype(index)) for index, trace in enumerate(self._traces)]\n","        columns = [trace.data.astype(self._trace_dtype(index)) for index, trace in enumerate(self._traces)]\n        if self.flag_fastaccess:\n            for column in columns:\n                f.write(column.tobytes())\n        else:\n"),
('P19',RW,"        f = open(filename, 'wb')\n","        with open(filename, 'wb') as f:\n            self._write_to(f)\n\n    def _write_to(self, f):\n        total_bytes = 0\n","                    total_bytes += f.write(column[i].tobytes())\n        f.close()\n","                    total_bytes += f.write(column[i].tobytes())\n"),
('P19',RW,"            for i in range(len(self._traces[0])):\n                for column in columns:\n                    total_bytes += f.write(column[i].tobytes())","            f.write(b''.join(column[i].tobytes() for i in range(len(self._traces[0])) for column in columns))"),
('P19',RW,"            for i in range(len(self._traces[0])):\n","            nr_points = len(self._traces[0].data)\n            for i in range(nr_points):\n"),
('P19',RW,"        if self.flag_numtype == 'complex':\n            return complex128\n        elif index == 0 or self._is_double():\n            return float64\n        else:\n            return float32","        if self.flag_numtype == 'complex':\n            return complex128\n        if index > 0 and not self._is_double():\n            return float32\n        return float64"),
('P19',RW,"        if len(self._traces) == 0:\n            if trace.whattype == 'time':","        first = not self._traces\n        if first:\n            if trace.whattype == 'time':"),
('P19',RW,"            if len(self._traces[0]) != len(trace):","            if not len(trace) == len(self._traces[0].data):"),
('P19',RW,"        f.write(\"Variables:\\n\".encode(self.encoding))\n        for i, trace in enumerate(self._traces):\n            f.write(f\"\\t{i}\\t{trace.name}\\t{trace.whattype}\\n\".encode(self.encoding))","        f.write((\"Variables:\\n\" + ''.join(f\"\\t{i}\\t{t.name}\\t{t.whattype}\\n\" for i, t in enumerate(self._traces))).encode(self.encoding))"),
]

MUT += [
('P19',RW,"                data = trace.get_wave(from_step)","                data = trace.get_wave()"),
('P19',RW,"other.get_axis(from_step), oaxis.whattype","other.get_axis(), oaxis.whattype"),
('P19',RW,"        from_step = kwargs.get('step', 0)","        from_step = kwargs.get('step', 1)"),
('P19',RW,"imported_trace.axis.get_wave(step), new_axis","imported_trace.axis.get_wave(0), new_axis"),
('P20',PD,"            if self._axis is not None and self._steps is not None:\n                self._axis.set_steps(self._steps)\n\n        if self._verbose","            if self._axis is not None and self._steps is None:\n                self._axis.set_steps(self._steps)\n\n        if self._verbose"),
('P20',PD,"                raw_file.seek(cursor)  # go back to the beginning of the line\n                break","                raw_file.seek(cursor)  # go back to the beginning of the line"),
('P20',PD,"        if self._encoding == 'utf_16_le' and len(line) > 0:\n            line += raw_file.read(1)","        if self._encoding == 'utf_16_le' and len(line) > 1:\n            pass"),
('P20',PD,"            if len(line) == 0:\n                break  # end of file\n            if len(line.strip()) != 0:","            if len(line.strip()) != 0:"),
]
BEN += [
('P19',RW,"        from_step = kwargs.get('step', 0)","        from_step = kwargs.pop('step', 0) if False else kwargs.get('step', 0)"),
('P19',RW,"                data = trace.get_wave(from_step)\n                self._traces.append(Trace(new_name, data,","                self._traces.append(Trace(new_name, trace.get_wave(step=from_step),"),
('P20',PD,"        line = raw_file.readline()\n        if self._encoding == 'utf_16_le' and len(line) > 0:\n            line += raw_file.read(1)  # readline() stops at the first byte of the line terminator\n        return line.decode(encoding=self._encoding, errors='ignore')","        raw_line = raw_file.readline()\n        if raw_line and self._encoding == 'utf_16_le':\n            raw_line = raw_line + raw_file.read(1)\n        return raw_line.decode(encoding=self._encoding, errors='ignore')"),
('P20',PD,"            if len(line) == 0:\n                break  # end of file\n            if len(line.strip()) != 0:\n                raw_file.seek(cursor)  # go back to the beginning of the line\n                break","            if not line:\n                break  # end of file\n            if line.strip():\n                raw_file.seek(cursor)\n                break"),
]

MUT += [
('P41',PD,"            columns = list(columns)  # the list","            pass  # the list"),
('P41',PD,"                wave = self.get_wave(col, step)\n                if not","                wave = self.get_wave(col)\n                if not"),
('P41',PD,"np.concatenate((data[col], wave))","np.concatenate((wave, data[col]))"),
('P41',PD,"                    data[col] = np.concatenate((data[col], wave))","                    data[col] = wave"),
('P41',PD,"                if not self._has_axis and self._steps is not None:\n","                if self._steps is not None:\n"),
('P41',PD,"wave = wave[step:step + 1]","wave = wave[step:]"),
('P41',PD,"wave = wave[step:step + 1]","pass"),
('P41',PD,"            if self._has_axis and self._trace_info[0].name not in columns:","            if not self._has_axis and self._trace_info[0].name not in columns:"),
('P41',PD,"            steps_to_read = self.get_steps(**kwargs)  #","            steps_to_read = self.get_steps()  #"),
('P41',PD,"            steps_to_read = [step]  #","            steps_to_read = [0]  #"),
('P41',PD,"        elif step == -1:\n","        elif step <= 0:\n"),
('P41',PD,"            for col in columns:\n                wave","            for col in columns[1:]:\n                wave"),
('P41',PD,"            df = self.to_dataframe(columns=columns, step=step)\n            df.to_csv","            df = self.to_dataframe(columns=columns)\n            df.to_csv"),
('P41',PD,"        data = self.export(columns=columns, step=step, **kwargs)","        data = self.export(step=step, **kwargs)"),
]
BEN += [
('P41',PD,"            columns = list(columns)  # the list of the caller shall not be changed\n            if self._has_axis and self._trace_info[0].name not in columns:  # If axis is not in the list, add it\n                columns.insert(0, self._trace_info[0].name)","            if self._has_axis and self._trace_info[0].name not in columns:\n                columns = [self._trace_info[0].name] + list(columns)"),
('P41',PD,"        if isinstance(step, list):\n            steps_to_read = step  # If a list of steps is given, use it\n        elif step == -1:\n            steps_to_read = self.get_steps(**kwargs)  # If no step is given, read all steps\n        else:\n            steps_to_read = [step]  # If a single step is given, pass it as a list\n","        steps_to_read = self._steps_to_read(step, **kwargs)\n","    def to_dataframe(self, columns","    def _steps_to_read(self, step, **kwargs):\n        if isinstance(step, list):\n            return step\n        if step != -1:\n            return [step]\n        return self.get_steps(**kwargs)\n\n    def to_dataframe(self, columns"),
('P41',PD,"                if col not in data:\n                    data[col] = wave\n                else:\n                    data[col] = np.concatenate((data[col], wave))","                if col in data:\n                    wave = np.concatenate((data[col], wave))\n                data[col] = wave"),
('P41',PD,"        for step in steps_to_read:\n            for col in columns:\n                wave","        for stepnr in steps_to_read:\n            step = stepnr\n            for name in columns:\n                col = name\n                wave"),
('P41',PD,"        data = self.export(columns=columns, step=step, **kwargs)\n        return pd.DataFrame(data, **kwargs)","        return pd.DataFrame(self.export(columns, step, **kwargs), **kwargs)"),
]
