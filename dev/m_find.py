E='editor/'; SF=E+'spice_file.py'; SC=E+'spice_subcircuit.py'; BS=E+'base_schematic.py'; AE=E+'asc_editor.py'; QE=E+'qsch_editor.py'; CO=E+'spice_components.py'
MUT=[
('P16',SF,"i = 0\n        for line in self.netlist:","i = 0\n        for line in self.netlist[:-1]:"),
('P16',SF,"while i < len(self.netlist):\n            line = self.netlist[i]\n            if isinstance(line, Primitive):","while i < len(self.netlist) - 1:\n            line = self.netlist[i]\n            if isinstance(line, Primitive):"),
('P16',AE,"instr_removed = False\n        i = 0","instr_removed = False\n        i = 1"),
('P15',AE,"i = 0\n            while","i = 1\n            while"),

('P16',SC,"                    if component.reference.upper() == ref_upped:","                    if component.reference.upper().startswith(ref_upped):"),
('P16',SC,"                    if component.reference.upper() == ref_upped:","                    if component.reference == ref_upped:"),
('P16',SC,"                    if component.reference.upper() == ref_upped:\n                        return component","                    if component.reference.upper() == ref_upped:\n                        return component\n                    elif component.reference.upper() > ref_upped:\n                        break"),
('P16',SC,"            raise ComponentNotFoundError(error_msg)","            return None"),
('P16',BS,'            if ref not in sub_circuit.components:','            if not sub_circuit.components:'),
('P16',SC,"                if match.group('name').upper() == param_name_upped:","                if match.group('name').upper().endswith(param_name_upped):"),
('P16',SC,"                if match.group('name').upper() == param_name_upped:","                if match.group('name') == param_name_upped:"),
('P16',AE,"            if directive.type == TextTypeEnum.COMMENT:\n                continue\n            if directive.text.upper().startswith('.PARAM')","            if directive.text.upper().startswith('.PARAM')"),
('P16',QE,"                if match.group('name').upper() == param_name_upped:","                if param_name_upped in match.group('name').upper():"),
('P16',SC,"        line = self.netlist.index(self.get_component(designator))\n        del self.netlist[line]","        line = self.netlist.index(self.get_component(designator))\n        del self.netlist[line:line + 2]"),
('P16',QE,"    self.schematic.items.remove(comp_tag)","    self.schematic.items.remove(comp_tag) if len(comp_tag.items) else None"),
('P16',SC,"                del self.netlist[i]\n                instr_removed","                del self.netlist[i]\n                i += 1\n                instr_removed"),
('P16',AE,"                del self.directives[i]\n                self.end_update(\"INSTRUCTION\", instruction, UpdateType.DeleteInstruction)","                del self.directives[i]\n                i += 1\n                self.end_update(\"INSTRUCTION\", instruction, UpdateType.DeleteInstruction)"),
('P16',QE,"                instr_removed = True\n","                instr_removed = True\n                break\n"),
('P16',SF,"                return True\n            i += 1","                return True\n                i += 1"),
('P16',SC,"                    return True\n            i += 1\n        _logger","                    return True\n                i += 1\n        _logger"),
('P16',SC,"        elif value is not None:\n","        else:\n"),
('P39',SC,"line[:match.start()] + line[match.end():]","line[:match.start()] + line[match.end('value') + 1:]"),
('P39',SC,"start, stop = match.span('value')\n                if isinstance","start, stop = match.span()\n                if isinstance"),
('P39',AE,"directive.text = f\"{directive.text[:start]}{value_str}{directive.text[stop:]}\"","directive.text = f\"{directive.text[:start]}{value_str}\""),
('P39',QE,"            start += offset\n            stop += offset\n            text = text","            start += offset\n            text = text"),
('P39',CO,"    line = line[:start] + section + line[end:]","    line = line[:start] + section + line[end + 1:]"),
('P39',QE,"            text = text[:start] + value_str + text[stop:]","            text = text[:start] + value_str + ' '"),
]
BEN=[
('P16,P10,P11',SC,"""        i = 0
        instr_removed = False
        while i < len(self.netlist):
            line = self.netlist[i]
            if isinstance(line, Primitive):
                line = line.obj
            if isinstance(line, str) and (match := regex.match(line)):
                del self.netlist[i]
                instr_removed = True
""","""        instr_removed = False
        for item in list(self.netlist):
            line = item.obj if isinstance(item, Primitive) else item
            if isinstance(line, str) and (match := regex.match(line)):
                self.netlist.remove(item)
                instr_removed = True
""","""                _logger.info(f'Instruction "{line}" removed')
            else:
                i += 1
""","""                _logger.info(f'Instruction "{line}" removed')
"""),
('P16,P10,P11',AE,"""        if instr_removed:
            self.canvas_updated = True
            return True
        else:
            msg = f'Instructions matching "{search_pattern}" not found'
            _logger.error(msg)
            return False""","""        if not instr_removed:
            _logger.error(f'Instructions matching "{search_pattern}" not found')
            return False
        self.canvas_updated = True
        return instr_removed"""),
('P16,P10,P11',SF,"""        i = 0
        for line in self.netlist:
            if isinstance(line, Primitive) and line.obj.strip() == instruction.strip():
                del self.netlist[i]""","""        wanted = instruction.strip()
        for i, line in enumerate(self.netlist):
            if isinstance(line, Primitive) and line.obj.strip() == wanted:
                self.netlist.pop(i)""","""                return True
            i += 1
""","""                return True
"""),
('P39,P16,P10,P11',AE,"directive.text = f\"{directive.text[:start]}{value_str}{directive.text[stop:]}\"","before, after = directive.text[:start], directive.text[stop:]\n            directive.text = before + value_str + after"),
('P39',SC,"line[:match.start()] + line[match.end():]","''.join((line[:match.start(0)], line[match.end(0):]))"),
('P39',QE,"            start += offset\n            stop += offset\n            text = text[:start] + value_str + text[stop:]","            text = text[:offset + start] + value_str + text[offset + stop:]"),
('P16',AE,"""        for directive in self.directives:
            if directive.type == TextTypeEnum.COMMENT:
                continue
            if directive.text.upper().startswith('.PARAM'):""","""        for directive in self.directives:
            if directive.type != TextTypeEnum.COMMENT and directive.text.upper().startswith('.PARAM'):"""),
('P16,P10,P11',SC,"        line = self.netlist.index(self.get_component(designator))\n        del self.netlist[line]","        self.netlist.remove(self.get_component(designator))"),
]
