R = 'scripts/raw_convert.py'
L = 'scripts/ltsteps.py'
MUT = [('P53',) + t for t in [
    (R, "data = raw_data.export(columns=columns)", "data = raw_data.export()"),
    (R, "raw_data.to_csv(options.output, columns=columns, separator", "raw_data.to_csv(options.output, separator"),
    (R, "raw_data.to_excel(options.output, columns=columns, index=False)", "raw_data.to_excel(options.output, index=False)"),
    (R, "raw_data.to_csv(options.output, columns=columns, separator=options.separator, index=False)", "raw_data.to_csv(options.output, columns=columns, index=False)"),
    (R, "separator=options.separator, index=False)", "separator=options.separator)"),
    (R, "        traces = args[1:]\n", "        traces = args[1:2]\n"),
    (R, "        traces = args[1:]\n", "        traces = args\n"),
    (R, "    elif len(args) < 2:\n", "    elif len(args) < 3:\n"),
    (R, "found_traces.append('V(' + trace + ')')", "found_traces.append(trace)"),
    (R, "found_traces.append('I(' + trace + ')')", "found_traces.append('V(' + trace + ')')"),
    (R, "if 'I(' + trace + ')' in raw_traces:", "if 'V(' + trace + ')' in raw_traces:"),
    (R, "            if trace in raw_traces:\n", "            if trace.upper() in raw_traces:\n"),
    (R, "            if trace in raw_traces:\n                found_traces.append(trace)\n            else:", "            if trace in raw_traces:\n                found_traces.append(trace)\n            if True:"),
    (R, "            exit(1)\n        print(\"Reading traces: \", found_traces)", "        print(\"Reading traces: \", found_traces)"),
    (R, "        exit(1)\n    elif len(args) < 2", "        exit(0)\n    elif len(args) < 2"),
    (R, "        raw_data = RawRead(rawfile, verbose=False, dialect=options.dialect)", "        raw_data = RawRead(rawfile, traces, verbose=False, dialect=options.dialect)"),
    (R, "        raw_data = RawRead(rawfile, verbose=False, dialect=options.dialect)", "        raw_data = RawRead(rawfile, verbose=False, dialect='ltspice')"),
    (R, "        text = options.separator.join(data.keys()) + '\\n'", "        text = '\\t'.join(data.keys()) + '\\n'"),
    (R, "        text = options.separator.join(data.keys()) + '\\n'", "        text = options.separator.join(data.keys())"),
    (R, "[str(data[col][i]) for col in data.keys()]", "[str(data[col][i - 1]) for col in data.keys()]"),
    (R, "        for i in range(data_size):\n", "        for i in range(1, data_size):\n"),
    (R, "for col in data.keys()]) + '\\n'", "for col in data.keys()])"),
    (R, "        if options.output.endswith(\".csv\"):", "        if options.output.endswith(\".xlsx\"):"),
    (R, "            parser.print_help()\n            exit(1)\n    exit(0)", "            parser.print_help()\n    exit(0)"),
    (R, "        if options.clipboard:\n", "        if not options.clipboard:\n"),
    (L, "fname_out = filename[:-len('txt')] + 'tsv'", "fname_out = filename[:-len('txt')] + 'txt'"),
    (L, "fname_out = filename[:-len('log')] + 'tlog'", "fname_out = filename.replace('log', 'tlog')", ),
    (L, "            data.split_complex_values_on_datasets()\n            data.export_data(fname_out)\n        elif", "            data.export_data(fname_out)\n        elif"),
    (L, "data = LTSpiceLogReader(filename, step_set=steps.stepset)\n                data.stepset = steps.stepset", "data = LTSpiceLogReader(filename)\n                data.stepset = steps.stepset"),
    (L, "log_file = filename[:-len('mout')] + 'log'", "log_file = filename + '.log'"),
    (L, "            if os.path.exists(log_file):\n", "            if not os.path.exists(log_file):\n"),
    (L, "reformat_LTSpice_export(filename, fname_out)", "reformat_LTSpice_export(fname_out, filename)"),
    (L, "            if date > newer_date and valid_extension(f):", "            if date > newer_date or valid_extension(f):"),
    (L, "            if date > newer_date and valid_extension(f):", "            if date < newer_date and valid_extension(f):"),
    (L, "                newer_date = date\n", ""),
    (L, "                filename = f\n", "                filename = filename or f\n"),
    (L, "            if date > newer_date and valid_extension(f):\n                newer_date = date\n                filename = f", "            if date > newer_date:\n                newer_date = date\n                if valid_extension(f):\n                    filename = f"),
    (L, "or filename.endswith('.mout')", ""),
]]
BEN = [
    ('all', R, "        data = raw_data.export(columns=columns)\n\n", "        data = raw_data.export(columns)\n"),
    ('all', R, "        found_traces = []\n        for trace in traces:\n            if trace in raw_traces:\n                found_traces.append(trace)\n            else:\n", "        found_traces = []\n        for wanted in traces:\n            trace = wanted\n            if trace in raw_traces:\n                found_traces.append(trace)\n                continue\n            else:\n"),
    ('all', R, "'V(' + trace + ')' in raw_traces", "f'V({trace})' in raw_traces", "found_traces.append('V(' + trace + ')')", "found_traces += [f'V({trace})']"),
    ('all', R, "        data_size = len(data[data.__iter__().__next__()])\n        for i in range(data_size):\n            text += options.separator.join([str(data[col][i]) for col in data.keys()]) + '\\n'\n",
     "        data_size = len(data[next(iter(data))])\n        for i in range(data_size):\n            line = options.separator.join(str(data[col][i]) for col in data)\n            text = text + line + '\\n'\n"),
    ('all', R, "        text = options.separator.join(data.keys()) + '\\n'\n        data_size = len(data[data.__iter__().__next__()])\n        for i in range(data_size):\n            text += options.separator.join([str(data[col][i]) for col in data.keys()]) + '\\n'\n",
     "        sep = options.separator\n        lines = [sep.join(data)]\n        lines.extend(sep.join(str(x) for x in row) for row in zip(*data.values()))\n        text = '\\n'.join(lines) + '\\n'\n"),
    ('all', R, "    if options.output is None:\n        data = raw", "    output = options.output\n    if output is None:\n        data = raw"),
    ('all', R, "        if len(found_traces) == 0:", "        if not found_traces:"),
    ('all', L, "            data.export_data(fname_out)\n            data.export_data(fname_out)\n", "            data.export_data(fname_out)\n"),
    ('all', L, "        return filename.endswith('.txt') or filename.endswith('.log') or filename.endswith('.mout')", "        return filename.endswith(('.txt', '.log', '.mout'))"),
    ('all', L, "            date = os.path.getmtime(f)\n            if date > newer_date and valid_extension(f):\n", "            if not valid_extension(f):\n                continue\n            date = os.path.getmtime(f)\n            if newer_date < date:\n"),
    ('all', L, "fname_out = filename[:-len('log')] + 'tlog'", "fname_out = filename.removesuffix('log') + 'tlog'"),
    ('all', L, "    fname_out = None\n    if filename.endswith('.txt'):\n        fname_out = filename[:-len('txt')] + 'tsv'\n    elif filename.endswith('.log'):\n        fname_out = filename[:-len('log')] + 'tlog'\n    elif filename.endswith('.mout'):\n        fname_out = filename[:-len('mout')] + 'tmout'\n    else:\n        print(\"Error in file type\")\n        print(\"This tool only supports the following extensions :'.txt','.log','.mout'\")\n        exit(-1)\n",
     "    base, ext = os.path.splitext(filename)\n    fname_out = base + {'.txt': '.tsv', '.log': '.tlog', '.mout': '.tmout'}[ext]\n"),
]
