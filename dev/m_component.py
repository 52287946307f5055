F = 'editor/spice_components.py'
OLD = "            start, stop = (min(position, old_length) for position in match.span(attr))\n            offset = len(new_line) - old_length  # how far what was already replaced has moved the rest of the line\n"
INS = "                    new_line = _insert_section(new_line, start + offset, stop + offset, new_ref)\n"
INN = "                    new_line = _insert_section(new_line, start + offset, stop + offset, new_nodes_str)\n"
INP = "                        new_line = _insert_section(new_line, start + offset, stop + offset, new_params_str)\n"
INV = "                        new_line = _insert_section(new_line, start + offset, stop + offset, new_attr_value)\n"
MUT = [
    ('P55', F, OLD, "            start, stop = match.span(attr)\n            offset = len(new_line) - old_length\n"),
    ('P55', F, OLD, "            start, stop = (min(position, old_length) for position in match.span(attr))\n            offset = 0\n"),
    ('P55', F, "offset = len(new_line) - old_length", "offset = old_length - len(new_line)"),
    ('P55', F, "        new_line = new_line.rstrip()\n        old_length", "        old_length"),
    ('P55', F, INN, INN.replace("start + offset", "start")),
    ('P55', F, INV, INV.replace("stop + offset", "stop")),
    ('P55', F, INP, INP.replace("stop + offset", "stop")),
    ('P55', F, "match = regex.match(new_line)\n        if match is None:\n            raise UnrecognizedSyntaxError(self._obj, regex.pattern)\n        info = match.groupdict()\n        new_line", "match = regex.match(self._obj)\n        if match is None:\n            raise UnrecognizedSyntaxError(self._obj, regex.pattern)\n        info = match.groupdict()\n        new_line"),
    ('P55', F, "                    if '§' in info[attr]:\n                        new_ref = self.reference[0] + '§' + self.reference[1:]\n                    else:\n                        new_ref = self.reference", "                    new_ref = self.reference"),
    ('P55', F, "new_ref = self.reference[0] + '§' + self.reference[1:]", "new_ref = '§' + self.reference"),
    ('P55', F, "if self.reference != old_ref:", "if len(self.reference) != len(old_ref):"),
    ('P55', F, "if old_nodes_str != new_nodes_str:", "if len(old_nodes_str) != len(new_nodes_str):"),
    ('P55', F, "                    if self.params[key] != old_params[key]:\n                        differences = True\n                        break\n", ""),
    ('P55', F, "                    if key not in old_params:\n                        differences = True\n                        break\n", "                    if key not in old_params:\n                        continue\n"),
    ('P55', F, "                        if key not in self.params:\n                            differences = True\n                            break\n", "                        if key not in self.params:\n                            break\n"),
    ('P55', F, "value_str = ','.join(str(v) for v in value)", "value_str = ' '.join(str(v) for v in value)"),
    ('P55', F, "value_str = ','.join(str(v) for v in value)", "value_str = str(value[0])"),
    ('P55', F, 'new_params.append(f"{key}={value_str}")', 'new_params.append(f"{key} {value_str}")'),
    ('P55', F, "new_line = new_line[:comment_index].rstrip() + ' ' + new_params_str + ' ' + new_line[comment_index:]", "new_line = new_line[:comment_index].rstrip() + ' ' + new_params_str"),
    ('P55', F, "                        comment_index = new_line.find(';')\n                        if comment_index != -1:", "                        comment_index = new_line.find(';')\n                        if comment_index == -2:"),
    ('P55', F, "                            new_line += ' ' + new_params_str", "                            new_line += new_params_str"),
    ('P55', F, "                    elif new_params_str:\n", "                    elif new_params_str or not self.params:\n"),
    ('P55', F, "new_line = new_line[:start + offset] + new_line[stop + offset:].rstrip()", "new_line = new_line[:start + offset].rstrip()"),
    ('P55', F, "new_line = new_line[:start + offset] + new_line[stop + offset:].rstrip()", "new_line = new_line[:start] + new_line[stop:].rstrip()"),
    ('P55', F, "                    if isinstance(new_attr_value, (float, int)):\n                        new_attr_value = format_eng(new_attr_value)\n", "                    new_attr_value = str(new_attr_value)\n"),
    ('P55', F, "if old_attr_value != new_attr_value:", "if old_attr_value and old_attr_value != new_attr_value:"),
    ('P55', F, INV + "                        update_done = True\n", INV),
    ('P55', F, INN + "                    update_done = True\n", INN),
    ('P55', F, "            new_line = self.obj or \"\"\n", "            new_line = \"\"\n"),
    ('P55', F, "            new_line += END_LINE_TERM\n        stream", "            pass\n        stream"),
    ('P55', F, "            return self.rewrite_lines(stream)\n", "            pass\n"),
    ('P55', F, "            count += stream.write(f\" {port}\")\n", "            count += 1\n"),
    ('P55', F, "        if 'value' in self._attributes:\n            count += stream.write(f\" {self.value_str}\")\n", ""),
    ('P55', F, "                chars = stream.write(f\" {key}={value}\")", "                chars = stream.write(f\" {key}\")"),
    ('P55', F, "            if start == -1 and stop == -1 and attr not in self._attributes:\n                continue", "            if start == -1 and stop == -1:\n                continue"),
]
BEN = [
    ('all', F, OLD, "            start, stop = match.span(attr)\n            start, stop = min(start, old_length), min(stop, old_length)\n            offset = len(new_line) - old_length\n"),
    ('all', F, "            offset = len(new_line) - old_length  # how", "            moved = len(new_line) - old_length\n            offset = moved  # how"),
    ('all', F, "                differences = False\n                for key in self.params:\n                    if key not in old_params:\n                        differences = True\n                        break\n                    if self.params[key] != old_params[key]:\n                        differences = True\n                        break\n                else:\n                    for key in old_params:\n                        if key not in self.params:\n                            differences = True\n                            break\n                if differences:\n", "                if self.params != old_params:\n"),
    ('all', F, "                    if key not in old_params:\n                        differences = True\n                        break\n                    if self.params[key] != old_params[key]:\n", "                    if key not in old_params or self.params[key] != old_params[key]:\n"),
    ('all', F, "                        if isinstance(value, list):\n                            value_str = ','.join(str(v) for v in value)\n                        else:\n                            value_str = str(value)\n                        new_params.append", "                        value_str = ','.join(str(v) for v in value) if isinstance(value, list) else str(value)\n                        new_params.append"),
    ('all', F, "        else:\n            new_line += END_LINE_TERM\n        stream.write(new_line)", "        else:\n            new_line = new_line + END_LINE_TERM\n        stream.write(new_line)"),
    ('all', F, "                    new_params = []\n                    for key, value in self.params.items():\n                        if isinstance(value, list):\n                            value_str = ','.join(str(v) for v in value)\n                        else:\n                            value_str = str(value)\n                        new_params.append(f\"{key}={value_str}\")\n                    new_params_str = ' '.join(new_params)\n",
     "                    new_params_str = ' '.join(f\"{key}={','.join(str(v) for v in value) if isinstance(value, list) else value}\" for key, value in self.params.items())\n"),
    ('all', F, INV, "                        begin, end = start + offset, stop + offset\n                        new_line = _insert_section(new_line, begin, end, new_attr_value)\n"),
    ('all', F, "                    if '§' in info[attr]:\n                        new_ref = self.reference[0] + '§' + self.reference[1:]\n                    else:\n                        new_ref = self.reference\n", "                    new_ref = self.reference\n                    if '§' in info[attr]:\n                        new_ref = new_ref[0] + '§' + new_ref[1:]\n"),
    ('all', F, "                else:\n                    pass  # attribute not present, do nothing\n", ""),
]
