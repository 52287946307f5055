E='editor/'; SF=E+'spice_file.py'; SC=E+'spice_subcircuit.py'; AE=E+'asc_editor.py'; QE=E+'qsch_editor.py'; SU=E+'spice_utils.py'
MUT=[
('P15',SU,"('.AC', '.DC', '.TRAN', '.NOISE', '.TF')","('.AC', '.DC', '.TRAN', '.NOISE')"),
('P15',SF,"                    return\n","                    break\n"),
('P15',SF,"self.netlist[i] = Primitive(netlist=self, obj=instruction)","self.netlist[0] = Primitive(netlist=self, obj=instruction)"),
('P15',SF,"                if isinstance(line, Primitive) and _is_unique_instruction(line.obj):","                if isinstance(line, Primitive) and get_line_command(line.obj) == cmd:"),
('P15',AE,"                if directive.type == TextTypeEnum.COMMENT:","                if directive.type == TextTypeEnum.DIRECTIVE:"),
('P15',AE,"directive_command = directive_text.split()[0].upper()","directive_command = directive_text.split()[0]"),
('P15',AE,"                    self.directives[i].text = instruction","                    self.directives[i].text = directive_text"),
('P15',AE,"set_command = instruction.split()[0].upper()","set_command = instruction.split()[0]"),
('P15',QE,"                if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it\n                    continue\n                text: str","                text: str"),
('P15',SC,"        if _is_unique_instruction(cmd):\n","        if _is_unique_instruction(cmd) and self.parent is None:\n"),
('P38',SC,"                elif cmd in ('.END', '.ENDS'):","                elif cmd == '.ENDS':"),
('P38',SC,"                if cmd == '.BACKANNO':\n                    return line_no","                if cmd == '.BACKANNO':\n                    insert_line = line_no"),
('P38',SC,"            line_no = self.netlist.index(comp) + 1","            line_no = self.netlist.index(comp) + 2"),
('P38',SC,"        insert_line = len(self.netlist)\n","        insert_line = len(self.netlist) - 1\n"),
('P38',SF,"        self.netlist.insert(line, primitive)","        self.netlist.append(primitive)",),
('P38',SC,"        self.netlist.insert(line_no, component)","        self.netlist[line_no] = component"),
('P38',SC,"comp = self.get_component(kwargs['insert_after'])","comp = self.get_component(kwargs['insert_before'])"),
]
BEN=[
('P15,P10,P11,P38',SF,"""            i = 0
            while i < len(self.netlist):
                line = self.netlist[i]
                if isinstance(line, Primitive) and _is_unique_instruction(line.obj):""","""            for i, line in enumerate(self.netlist):
                if isinstance(line, Primitive) and _is_unique_instruction(line.obj):""","""                else:
                    i += 1
""",""),
('P15,P10,P11',AE,"self.directives[i].text = instruction","directive.text = instruction"),
('P15,P10,P11',AE,"""        if set_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
            # Before adding new instruction, if it is a unique instruction, we just replace it
            i = 0
            while i < len(self.directives):
                directive = self.directives[i]
                if directive.type == TextTypeEnum.COMMENT:
                    i += 1
                    continue  # this is a comment
""","""        if self._is_analysis(set_command):
            for directive in self.directives:
                if directive.type != TextTypeEnum.DIRECTIVE:
                    continue  # this is a comment
""","self.directives[i].text = instruction","directive.text = instruction","                    return  # Job done, can exit this method\n                i += 1\n","                    return  # Job done, can exit this method\n",
"if directive_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:","if self._is_analysis(directive_command):",
"    def add_instruction(self, instruction: str) -> None:","    @staticmethod\n    def _is_analysis(command):\n        return command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS\n\n    def add_instruction(self, instruction: str) -> None:"),
('P38',SC,"""        for line_no, line in enumerate(self.netlist):
            if type(line) is Primitive:
                cmd = get_line_command(line)
                if cmd == '.BACKANNO':
                    return line_no
                elif cmd in ('.END', '.ENDS'):
                    insert_line = line_no
        return insert_line""","""        for line_no, line in enumerate(self.netlist):
            if type(line) is not Primitive:
                continue
            if get_line_command(line) in ('.BACKANNO', '.END', '.ENDS'):
                insert_line = line_no
                break
        return insert_line"""),
('P38',SC,"            line_no = self.netlist.index(comp) + 1","            line_no = 1 + self.netlist.index(comp)"),
('P38,P10,P11',SC,"        if 'insert_before' in kwargs:\n            comp = self.get_component(kwargs['insert_before'])\n            line_no = self.netlist.index(comp)","        neighbour = kwargs.get('insert_before')\n        if 'insert_before' in kwargs:\n            line_no = self.netlist.index(self.get_component(neighbour))"),
]
