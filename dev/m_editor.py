E='editor/'; SF=E+'spice_file.py'; SC=E+'spice_subcircuit.py'; BS=E+'base_schematic.py'; BE=E+'base_editor.py'; BC=E+'base_subcircuit.py'; AE=E+'asc_editor.py'; QE=E+'qsch_editor.py'; LU=E+'ltspice_utils.py'; UP=E+'updates.py'; CO=E+'spice_components.py'; PR=E+'primitives.py'
MUT=[
('P12',SC,"        self.netlist.clear()\n","        self.netlist = self.netlist[:0] if not self.netlist_updates else self.netlist\n"),
('P12',BS,"        self.ports.clear()\n",""),
('P12',BS,"        self.labels.clear()\n","        if self.wires:\n            self.labels.clear()\n"),
('P12',SF,"        self.netlist_updates.clear()\n","","@"+BE,"        self.netlist_updates.clear()\n",""),
('P12',SF,"        self.update_permission = UpdatePermission.Inform\n","        self.update_permission = UpdatePermission.Quiet\n"),
('P12',AE,"        self.update_permission = UpdatePermission.Inform\n",""),
('P12',AE,"        super().reset_netlist()","        if self.updated():\n            super().reset_netlist()"),
('P13',AE,'asc.write(f"WIRE {wire.V1.X} {wire.V1.Y} {wire.V2.X} {wire.V2.Y}"','asc.write(f"WIRE {wire.V1.X} {wire.V1.Y} {wire.V2.Y} {wire.V2.X}"'),
('P13',AE,'asc.write(f"FLAG {flag.coord.X} {flag.coord.Y} {flag.text}" + END_LINE_TERM)','asc.write(f"FLAG {flag.coord.X} {flag.coord.Y} {flag.text}" + END_LINE_TERM if flag.text != "0" else "")'),
('P13',AE,'            for shape in self.shapes:','            for shape in self.shapes[:100]:'),
('P13',AE,'                asc.write(f"{shape.name} Normal {points}{line_style}" + END_LINE_TERM)','                asc.write(f"{shape.name} Normal {points}" + END_LINE_TERM)'),
('P13',AE,'                if directive.type == TextTypeEnum.DIRECTIVE:','                if directive.type != TextTypeEnum.COMMENT and directive.size > 0:'),
('P13',AE,"                    v1 = Point(int(x1), int(y1))","                    v1 = Point(int(y1), int(x1))"),
('P13',AE,"                    posX = value.coord.X","                    posX = value.coord.Y"),
('P13',AE,"range(2, 9, 2)","range(2, 8, 2)"),
('P13',AE,"                        line.style.pattern = line_elements[6]","                        line.style.pattern = line_elements[5]"),
('P13',AE,"                if not attr.startswith('_'):","                if not attr.startswith('_') and attr != 'Prefix':"),
('P13',LU,"        text.verticalAlignment = VerAlign.TOP","        text.verticalAlignment = VerAlign.BOTTOM"),
('P13',LU,"        ans = 'Bottom'","        ans = 'Top'"),
('P13',LU,"        text.angle = ERotation.R90","        text.angle = ERotation.R270"),
('P13',LU,"'M180': ERotation.M180","'M180': ERotation.M0"),
('P13',SF,"f = open(run_netlist_file, 'w', encoding=self.encoding)","f = open(run_netlist_file, 'w')"),
('P13',SC,"                stream.write(primitive)","                stream.write(primitive) if primitive.strip() else None"),
('P13',SC,"                if get_line_command(line) in ('.END', '.ENDS'):","                if get_line_command(line) == '.END':"),
('P13',SC,"                        sub.write_lines(stream)\n                stream","                        sub.write_lines(stream)\n                        break\n                stream"),
('P13',QE,"«{' '.join(self.tokens)}\\n","«{' '.join(self.tokens[:12])}\\n"),
('P13',QE,"                for c in QSCH_HEADER:","                for c in QSCH_HEADER[:3]:"),
('P13',QE,"        if self.updated() or qsch_filename_p != self._circuit_filepath:","        if self.updated() or not qsch_filename_p.exists():"),
]
BEN=[
('P13',AE,'            for wire in self.wires:\n                asc.write(f"WIRE {wire.V1.X} {wire.V1.Y} {wire.V2.X} {wire.V2.Y}" + END_LINE_TERM)','            self._save_wires(asc)','    def reset_netlist(self','    def _save_wires(self, out):\n        for w in self.wires:\n            a, b = w.V1, w.V2\n            out.write("WIRE " + str(a.X) + f" {a.Y} {b.X} {b.Y}" + END_LINE_TERM)\n\n    def reset_netlist(self'),
('P13',AE,"                if directive.type == TextTypeEnum.DIRECTIVE:\n                    directive_type = '!'\n                else:\n                    directive_type = ';'  # Otherwise assume it is a comment\n","                directive_type = '!' if directive.type == TextTypeEnum.DIRECTIVE else ';'\n"),
('P13',SC,"        for primitive in self.netlist:\n            if isinstance(primitive, str):\n                stream.write(primitive)\n            elif","        for primitive in self.netlist:\n            if isinstance(primitive, str):\n                stream.write(primitive)\n                continue\n            if"),
('P12',SF,"        SpiceCircuit.reset_netlist(self)\n        BaseEditor.reset_netlist(self)\n        self.netlist_updates.clear()\n        self.update_permission = UpdatePermission.Initializing\n","        self._forget()\n","    def save_as(self","    def _forget(self):\n        BaseEditor.reset_netlist(self)\n        SpiceCircuit.reset_netlist(self)\n        self.netlist_updates.clear()\n        self.update_permission = UpdatePermission.Initializing\n\n    def save_as(self"),
('P12',BS,"        self.ports.clear()\n        self.lines.clear()\n        self.shapes.clear()\n","        for container in (self.ports, self.lines, self.shapes):\n            container.clear()\n"),
('P12,P13',AE,"                elif line.startswith(\"WIRE\"):\n                    tag, x1, y1, x2, y2 = line.split()\n                    v1 = Point(int(x1), int(y1))\n                    v2 = Point(int(x2), int(y2))\n                    wire = Line(v1, v2)\n                    self.wires.append(wire)","                elif line.startswith(\"WIRE\"):\n                    tokens = line.split()\n                    x1, y1, x2, y2 = [int(t) for t in tokens[1:]]\n                    self.wires.append(Line(Point(x1, y1), Point(x2, y2)))"),
]
SI=E+'spice_subcircuit_instance.py'
MUT+=[
('P14',SC,"                clone.netlist.append(primitive.clone(clone))\n            elif isinstance(primitive, SpiceComponent)","                clone.netlist.append(primitive)\n            elif isinstance(primitive, SpiceComponent)"),
('P14',SC,"            elif isinstance(primitive, SpiceComponent):\n                clone.netlist.append(primitive.clone(clone))","            elif isinstance(primitive, SpiceComponent):\n                clone.netlist.append(primitive.clone())"),
('P14',PR,"        newone._attributes = copy.deepcopy(self._attributes)","        newone._attributes = copy.copy(self._attributes)"),
('P14',SI,"self._subcircuit.clone(self, new_name=new_name)","self._subcircuit.clone(self._netlist, new_name=new_name)"),
('P14',SI,"new_name = self.value_str + '_' + self.reference","new_name = self.value_str + '_copy'"),
('P14',SI,"        return self.shadow_subcircuit is not None and self.shadow_subcircuit._modified","        return self.shadow_subcircuit is not None"),
('P14',SI,"            self.shadow_subcircuit = None\n        if self.shadow","            pass\n        if self.shadow"),
('P14',SI,"        super().set_value(value)\n        self._subcircuit = None\n        self.shadow_subcircuit = None\n","        super().set_value(value)\n        self._subcircuit = None\n"),
('P14',SI,"                Component.set_value(self, name)","                pass"),
('P14',"editor/base_subcircuit.py","return self.subcircuit.get_component_value(element)","return (self._subcircuit or self.subcircuit).get_component_value(element)"),
('P14',SC,"                modified.append(subckt.shadow_subcircuit)","                modified.append(subckt.shadow_subcircuit)\n                break"),
('P14',SC,"clone.netlist.append(type(primitive)(netlist=clone, obj=primitive.obj))","clone.netlist.append(primitive)"),
]
BEN+=[
('P14',SC,"            if isinstance(primitive, SpiceCircuit):\n                clone.netlist.append(primitive.clone(clone))\n            elif isinstance(primitive, SpiceComponent):\n                clone.netlist.append(primitive.clone(clone))\n","            if isinstance(primitive, (SpiceCircuit, SpiceComponent)):\n                twin = primitive.clone(clone)\n                clone.netlist.append(twin)\n"),
('P14',SC,"        modified = []\n        for subckt in self.netlist:\n            if isinstance(subckt, SpiceCircuitInstance) and subckt.was_modified:\n                modified.append(subckt.shadow_subcircuit)\n        return modified","        return [x.shadow_subcircuit for x in self.netlist if isinstance(x, SpiceCircuitInstance) and x.was_modified]"),
('P14',SI,"            new_name = self.value_str + '_' + self.reference\n            self.shadow_subcircuit = self._subcircuit.clone(self, new_name=new_name)","            copy_name = f'{self.value_str}_{self.reference}'\n            twin = self._subcircuit.clone(self, new_name=copy_name)\n            self.shadow_subcircuit = twin"),
('P14',SI,"        return self.shadow_subcircuit is not None and self.shadow_subcircuit._modified","        if self.shadow_subcircuit is None:\n            return False\n        return self.shadow_subcircuit._modified"),
]
