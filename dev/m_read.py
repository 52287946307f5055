SC='editor/spice_subcircuit.py'; SF='editor/spice_file.py'
MUT=[
('P17',SC,"            current_line += char + stream.readline()\n            yield current_line\n            current_line = ''\n            continue\n        current_line","            current_line += char\n            stream.readline()\n            yield current_line\n            current_line = ''\n            continue\n        current_line"),
('P17',SC,"                elif next_char == '\\n' and char == '\\r' or (next_char == '\\r' and char == '\\n'):\n","                elif next_char == '\\n' and char == '\\r' or (next_char == '\\n' and char == '\\n'):\n                    next_char = None\n"),
('P17',SC,"                    yield (current_line + char)","                    yield current_line"),
('P17',SC,"            if not (braces_stack or in_quotes):","            if not in_quotes:"),
('P17',SC,"            if current_line:\n                yield current_line\n            break","            break"),
('P17',SC,"                if next_char == '+':\n","                if next_char in '+*':\n"),
('P17',SC,"        elif char == '*' and (not current_line.strip())","        elif char == '*'"),
('P17',SC,"cmd in ('.END', '.ENDS')","cmd.startswith('.END')"),
('P17',SC,"cmd in ('.END', '.ENDS')","cmd == '.END'"),
('P17',SC,"cmd == '.CONTROL'","cmd.startswith('.CO')"),
('P17',SC,"if cmd == 'X':\n                    component = SpiceCircuitInstance","if cmd == 'X' and '{' not in line:\n                    component = SpiceCircuitInstance"),
('P17',SC,"                self.netlist[-1] += line","                pass"),
('P17',SC,"                sub_circuit.netlist.append(primitive)\n                finished = sub","                finished = sub"),
('P17',SC,"            self._obj += line.rstrip() + END_LINE_TERM\n            if line.strip().upper().startswith('.ENDC'):\n                return True","            if line.strip().upper().startswith('.ENDC'):\n                return True\n            self._obj += line.rstrip() + END_LINE_TERM"),
('P17',SC,"line.strip().upper().startswith('.ENDC')","line.strip().startswith('.endc')"),
('P17',SC,"return line[i:j].upper()","return line[i:j]"),
('P17',SF,"if cmd == '*':","if cmd == '*' and not line.startswith(';'):"),
('P17',SC,"                elif ch in '#;*\\n\\r':","                elif ch in '#;*+\\n\\r':"),
('P17',SC,"                self.netlist.append(line)\n            else","                self.netlist.insert(0, line)\n            else"),
]
BEN=[
('P17',SC,"cmd in ('.END', '.ENDS')","cmd == '.END' or cmd == '.ENDS'"),
('P17',SC,"""                if cmd == 'X':
                    component = SpiceCircuitInstance(netlist=self, obj=line)
                else:
                    component = SpiceComponent(netlist=self, obj=line)
                self.netlist.append(component)""","""                kind = SpiceCircuitInstance if cmd == 'X' else SpiceComponent
                self.netlist.append(kind(netlist=self, obj=line))"""),
('P17',SC,"""                finished = sub_circuit._add_lines(line_iter)
                if finished:
                    self.netlist.append(sub_circuit)
                else:
                    return False
            elif cmd == '.CONTROL'""","""                if not sub_circuit._add_lines(line_iter):
                    return False
                self.netlist.append(sub_circuit)
            elif cmd == '.CONTROL'"""),
('P17',SC,"""        if next_char is not None:
            char = next_char
            next_char = None
        else:
            char = stream.read(1)
        if not char:
            if current_line:
                yield current_line
            break""","""        char = stream.read(1) if next_char is None else next_char
        next_char = None
        if char == '':
            if current_line:
                yield current_line
            return"""),
('P17',SC,"        current_line += char\n","        current_line = current_line + char\n"),
('P17',SC,"""            current_line += char + stream.readline()
            yield current_line
            current_line = ''
            continue
        current_line""","""            rest = stream.readline()
            yield current_line + char + rest
            current_line = ''
            continue
        current_line"""),
('P17',SC,"""def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
    current_line = ''
    braces_stack = []""","""def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
    braces_stack = []
    current_line = str()"""),
('P17',SC,"""    for line in line_iter:
            self._obj""","""    for line in line_iter:
            self._obj"""),
]
BEN.pop()
