T = 'sim/tookit/'
S, D, M, W, Q, F = (T + x + '.py' for x in ('sim_analysis', 'tolerance_deviations', 'montecarlo', 'worst_case', 'quick_sensitivity_analysis', 'fast_worst_case'))
LOOP = """        for sim_no in range(-1, self.last_run_number + 1, runs_per_sim):
            last_no = sim_no + runs_per_sim - 1
            if last_no > self.last_run_number:
                last_no = self.last_run_number

            run_stepping = f".step param run {sim_no} {last_no} 1"
            self.editor.add_instruction(run_stepping)
            sim = self.runner.run(self.editor, wait_resource=wait_resource, callback=callback,
                                  callback_args=callback_args, switches=switches, timeout=timeout,
                                  run_filename=run_filename, exe_log=exe_log)
            self.simulations.append(sim)
            self.editor.remove_instruction(run_stepping)
"""
PLAY = """        for instruction in self.received_instructions[self.instructions_added:]:
            if instruction[0] == 'set_component_value':
                self.editor.set_component_value(instruction[1], instruction[2])
            elif instruction[0] == 'set_element_model':
                self.editor.set_element_model(instruction[1], instruction[2])
            elif instruction[0] == 'set_parameter':
                self.editor.set_parameter(instruction[1], instruction[2])
            elif instruction[0] == 'add_instruction':
                self.editor.add_instruction(instruction[1])
            elif instruction[0] == 'remove_instruction':
                self.editor.remove_instruction(instruction[1])
            elif instruction[0] == 'remove_Xinstruction':
                self.editor.remove_Xinstruction(instruction[1])
            else:
                raise ValueError("Unknown instruction")
"""
MUT = [
 ('P30', D, "            last_no = sim_no + runs_per_sim - 1\n", "            last_no = sim_no + runs_per_sim\n"),
 ('P30', D, "range(-1, self.last_run_number + 1, runs_per_sim)", "range(-1, self.last_run_number, runs_per_sim)"),
 ('P30', D, "range(-1, self.last_run_number + 1, runs_per_sim)", "range(0, self.last_run_number + 1, runs_per_sim)"),
 ('P30', D, "range(-1, self.last_run_number + 1, runs_per_sim)", "range(-1, self.last_run_number + 1, runs_per_sim - 1)"),
 ('P30', D, "last_no > self.last_run_number:\n                last_no = self.last_run_number\n", "last_no > self.last_run_number + 1:\n                last_no = self.last_run_number\n"),
 ('P30', D, "last_no > self.last_run_number:\n                last_no = self.last_run_number\n", "last_no > self.last_run_number:\n                last_no = self.last_run_number - 1\n"),
 ('P30', D, "            self.simulations.append(sim)\n            self.editor.remove_instruction(run_stepping)\n", "            self.simulations.append(sim)\n"),
 ('P30', D, "            self.editor.remove_instruction(run_stepping)\n", "            self.editor.remove_instruction('.step param run')\n"),
 ('P30', D, '        self.editor.remove_instruction(".step param run -1 %d 1" % self.last_run_number)  # removes this instruction\n', ''),
 ('P30', D, 'remove_instruction(".step param run -1 %d 1"', 'remove_instruction(".step param run 0 %d 1"'),
 ('P30', M, 'add_instruction(".step param run -1 %d 1"', 'add_instruction(".step param run -1 %d"'),
 ('P30', W, 'add_instruction(".step param run -1 %d 1"', 'add_instruction(".STEP param run -1 %d 1"'),
 ('P30', Q, 'add_instruction(".step param run -1 %d 1" % self.last_run_number)', 'add_instruction(".step param run -1 %d 1" % no)'),
 ('P30', W, "        self.testbench_prepared = True", "        self.testbench_executed = True"),
 ('P30', D, "total_number_of_runs = self.last_run_number + 2 ", "total_number_of_runs = self.last_run_number + 1 "),
 ('P30', D, "while total_number_of_runs % runs_per_sim == 1:", "while total_number_of_runs % runs_per_sim == 0:"),
 ('P30', D, "        while total_number_of_runs % runs_per_sim == 1:  # Avoid orphan runs\n            runs_per_sim += 1\n", ""),
 ('P30', D, "while total_number_of_runs % runs_per_sim == 1:", "if total_number_of_runs % runs_per_sim == 1:"),
 ('P30', D, "timeout=timeout,\n                                  run_filename=run_filename, exe_log=exe_log)\n            self.simulations", "timeout=timeout,\n                                  exe_log=exe_log)\n            self.simulations"),
 ('P30', D, "callback_args=callback_args, switches=switches, timeout=timeout,\n                                  run_filename=run_filename, exe_log=exe_log)\n            self", "switches=switches, timeout=timeout,\n                                  run_filename=run_filename, exe_log=exe_log)\n            self"),
 ('P30', D, "wait_resource=wait_resource, callback=callback,\n                                  callback", "wait_resource=True, callback=callback,\n                                  callback"),
 ('P30', D, "            self.simulations.append(sim)\n            self.editor", "            if sim_no >= 0:\n                self.simulations.append(sim)\n            self.editor"),
 ('P30', D, "        self.clear_simulation_data()\n        # calculate", "        # calculate"),
 ('P30', D, "        self.simulation_results.clear()\n        self.analysis", "        self.analysis"),
 ('P30', D, "        super().clear_simulation_data()\n", ""),
 ('P30', D, "        self.runner.wait_completion()\n        self.testbench_executed = True\n", "        self.testbench_executed = True\n"),
 ('P30', D, "            self.editor.remove_instruction(run_stepping)\n        self.runner.wait_completion()\n", "            self.editor.remove_instruction(run_stepping)\n            self.runner.wait_completion()\n"),
 ('P30', D, "        self.testbench_executed = True\n        if callback", "        if callback"),
 ('P30', D, "(sim.get_results() if sim is not None else None for sim in self.simulations)", "(sim.get_results() for sim in self.simulations)"),
 ('P30', D, "(sim.get_results() if sim is not None else None for sim in self.simulations)", "(sim for sim in self.simulations)"),
 ('P30', D, "        if callback is not None:\n            return (sim.g", "        if callback is None:\n            return (sim.g"),
 ('P30', D, "            super()._reset_netlist()\n            self.play_instructions()\n            self.prepare", "            self.play_instructions()\n            self.prepare"),
 ('P30', D, "            super()._reset_netlist()\n            self.play_instructions()\n            self.prepare", "            super().reset_netlist()\n            self.play_instructions()\n            self.prepare"),
 ('P30', D, "            super()._reset_netlist()\n            self.play_instructions()\n            self.prepare_testbench()", "            self.prepare_testbench()\n            super()._reset_netlist()\n            self.play_instructions()"),
 ('P30', D, "        else:\n            self.play_instructions()\n        self.editor", "        self.editor"),
 ('P30', D, "        if not self.testbench_prepared:\n            super()._reset", "        if self.testbench_prepared:\n            super()._reset"),
 # P46
 ('P46', S, "('set_element_model', ref, new_model)", "('set_component_value', ref, new_model)"),
 ('P46', S, "('set_parameter', ref, new_value)", "('set_parameter', new_value, ref)"),
 ('P46', S, "        self.received_instructions.append(('remove_Xinstruction', search_pattern))", "        self.received_instructions.insert(0, ('remove_Xinstruction', search_pattern))"),
 ('P46', S, "        self.received_instructions.append(('remove_instruction', instruction))", "        self.editor.remove_instruction(instruction)"),
 ('P46', S, "self.editor.set_element_model(instruction[1], instruction[2])", "self.editor.set_component_value(instruction[1], instruction[2])"),
 ('P46', S, "self.editor.set_parameter(instruction[1], instruction[2])", "self.editor.set_parameter(instruction[1], instruction[1])"),
 ('P46', S, "self.editor.set_parameter(instruction[1], instruction[2])", "self.set_parameter(instruction[1], instruction[2])"),
 ('P46', S, "            elif instruction[0] == 'remove_instruction':\n                self.editor.remove_instruction(instruction[1])\n", ""),
 ('P46', S, "                self.editor.remove_instruction(instruction[1])\n", "                pass\n"),
 ('P46', S, "in self.received_instructions[self.instructions_added:]:", "in self.received_instructions:"),
 ('P46', S, "in self.received_instructions[self.instructions_added:]:", "in reversed(self.received_instructions[self.instructions_added:]):"),
 ('P46', S, "in self.received_instructions[self.instructions_added:]:", "in self.received_instructions[self.instructions_added + 1:]:"),
 ('P46', S, "in self.received_instructions[self.instructions_added:]:", "in self.received_instructions[self.instructions_added:-1]:"),
 ('P46', S, "        self.instructions_added = len(self.received_instructions)\n", ""),
 ('P46', S, "        self.instructions_added = len(self.received_instructions)\n", "        self.instructions_added = True\n"),
 ('P46', S, "        self.instructions_added = len(self.received_instructions)\n", "        self.instructions_added = len(self.received_instructions) - 1\n"),
 ('P46', S, "    def play_instructions(self):\n", "    def play_instructions(self):\n        if self.instructions_added:\n            return\n"),
 ('P46', S, "        self.editor.reset_netlist()\n        self.instructions_added = 0", "        self.editor.reset_netlist()"),
 ('P46', S, "        self.editor.reset_netlist()\n        self.instructions_added = 0", "        self.instructions_added = 0"),
 ('P46', S, "        self._reset_netlist()\n        self.received_instructions.clear()", "        self._reset_netlist()"),
 ('P46', S, "        self.editor.reset_netlist()\n        self.instructions_added = 0", "        self.editor.reset_netlist()\n        self.received_instructions.clear()\n        self.instructions_added = 0"),
 ('P46', D, "        super()._reset_netlist()\n        self.testbench_prepared = False", "        super()._reset_netlist()"),
 ('P46', D, "        super()._reset_netlist()\n        self.testbench_prepared = False", "        self.testbench_prepared = False"),
 ('P46', S, "        self.play_instructions()\n        self.editor.save", "        self.editor.save"),
 ('P46', S, "        self.play_instructions()\n        self.editor.save_netlist(filename)", "        self.editor.save_netlist(filename)\n        self.play_instructions()"),
 ('P46', D, "        if not self.testbench_prepared:\n            self.prepare_testbench()\n        super().save", "        super().save"),
 ('P46', D, "        if not self.testbench_prepared:\n            self.prepare_testbench()\n        super().save", "        self.prepare_testbench()\n        super().save"),
 ('P46', M, "            self._reset_netlist()  # reset the netlist\n", ""),
 ('P46', M, "        for run in range(num_runs):\n            self._reset_netlist()  # reset the netlist\n            self.play", "        self._reset_netlist()\n        for run in range(num_runs):\n            self.play"),
 ('P46', M, "            self.play_instructions()  # play the instructions\n", ""),
 ('P46', M, "            self._reset_netlist()  # reset the netlist\n", "            self.reset_netlist()  # reset the netlist\n"),
 ('P46', W, "        self._reset_netlist()  # so", "        self.reset_netlist()  # so"),
 ('P46', W, "        self._reset_netlist()  # so that the nominal values are read below\n        self.play_instructions()  # play the instructions\n", "", "        self.editor.set_parameter('run', -1)  # This", "        self._reset_netlist()\n        self.play_instructions()\n        self.editor.set_parameter('run', -1)  # This"),
 ('P46', Q, "        self._reset_netlist()  # so that the nominal values are read below\n        self.play_instructions()  # play the instructions\n", "        self.play_instructions()\n        self._reset_netlist()\n"),
 ('P46', F, "        self.cleanup_files()\n        self._reset_netlist()", "        self.cleanup_files()\n        self.reset_netlist()"),
 ('P46', F, "                self.editor.set_parameter(ref, new_val)", "                self.set_parameter(ref, new_val)"),
 ('P46', W, "        if new_val != val:\n            self.editor.set_component_value(ref, new_val)", "        if new_val != val:\n            self.set_component_value(ref, new_val)"),
 ('P46', M, "        self.play_instructions()  # the deviations apply to the values set by the user\n", ""),
 ('P46', Q, "        self.play_instructions()  # the deviations apply to the values set by the user\n", "", "        self.last_run_number = no - 1\n", "        self.play_instructions()\n        self.last_run_number = no - 1\n"),
 # P47
 ('P47', M, "if(run<0, nom, mc(nom,tol))", "if(run<0, nom, mc(nom,tol/2))"),
 ('P47', M, "if(run<0, nom, mc(nom,tol))", "if(run<=0, mc(nom,tol), nom)"),
 ('P47', M, ".func utol(nom,tol) if(run<0, nom, mc(nom,tol))", ".func utol(nom) if(run<0, nom, mc(nom,tol))"),
 ('P47', M, "if(run<0, nom, nom*(1+gauss(tol/3)))\")\n\n            if min_max_uni_func:\n                self.editor.add_instruction(\".func urng(nom,mean,df2) if(run<0, nom, mean+flat", "if(run<0, nom, nom*(1+gauss(tol/6)))\")\n\n            if min_max_uni_func:\n                self.editor.add_instruction(\".func urng(nom,mean,df2) if(run<0, nom, mean+flat"),
 ('P47', M, "mean+flat(df2)", "mean+flat(2*df2)"),
 ('P47', M, "mean+flat(df2)", "nom+flat(df2)"),
 ('P47', M, "mean+flat(df2)", "mean+flat(df2"),
 ('P47', M, "nom*(1+tol*(2*random()-1))", "nom*(1+tol*(random()-1))"),
 ('P47', M, "mean+df2*(2*random()-1)", "mean+df6*(2*random()-1)"),
 ('P47', M, '"{utol(%s,%s)}"', '"{utol(%s)}" if False else "{utol(%s,%s/100)}"'),
 ('P47', M, "            val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 2)\n", "            val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val))\n"),
 ('P47', M, "val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)", "val, dev.max_val - dev.min_val, (dev.max_val - dev.min_val) / 6)"),
 ('P47', M, "(val, (dev.max_val+dev.min_val)/2, (dev.max_val-dev.min_val)/6)", "(val, (dev.max_val+dev.min_val)/2, (dev.max_val-dev.min_val)/2)"),
 ('P47', M, "(val, (dev.max_val+dev.min_val)/2, (dev.max_val-dev.min_val)/6)\n                    min_max_norm_func = True", "(val, (dev.max_val+dev.min_val)/2, (dev.max_val-dev.min_val)/6)\n                    min_max_uni_func = True"),
 ('P47', M, '"{ntol(%s,%s)}" % (val, tolstr)\n                    tol_norm_func = True', '"{ntol(%s,%s)}" % (val, tolstr)'),
 ('P47', M, "        self.elements_analysed.clear()\n        for ref in self.get_components('*'):\n            val, dev = self.get_component_value_deviation_type(ref)  # get there present value\n            new_val = val\n            if dev.typ == DeviationType.tolerance:\n                tolstr", "        for ref in self.get_components('*'):\n            val, dev = self.get_component_value_deviation_type(ref)  # get there present value\n            new_val = val\n            if dev.typ == DeviationType.tolerance:\n                tolstr"),
 ('P47', M, "for ref in self.get_components('*'):\n            val, dev = self.get_component_value_deviation_type(ref)  # get there present value\n            new_val = val\n            if dev.typ == DeviationType.tolerance:\n                tolstr", "for ref in self.device_deviations:\n            val, dev = self.get_component_value_deviation_type(ref)  # get there present value\n            new_val = val\n            if dev.typ == DeviationType.tolerance:\n                tolstr"),
 ('P47', M, "value * (1- dev.tolerance)", "value - dev.tolerance"),
 ('P47', M, "gauss(0, dev.tolerance / 3)", "gauss(0, dev.tolerance)"),
 ('P47', M, "gauss(0, dev.tolerance / 3)", "gauss(1, dev.tolerance / 3)"),
 ('P47', M, "uniform(dev.min_val, dev.max_val)", "uniform(0, dev.max_val)"),
 ('P47', M, "gauss((dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)", "gauss(value, (dev.max_val - dev.min_val) / 6)"),
 ('P47', W, "floor(run/(2**idx))-2*floor(run/(2**(idx+1)))", "floor(run/(2**idx))-floor(run/(2**(idx+1)))"),
 ('P47', W, "nom*(1+tol*(2*binary(run,idx)-1))", "nom*(1+tol*(binary(run,idx)))"),
 ('P47', W, "if(binary(run,idx),max,min)", "if(binary(run,idx),max,nom)"),
 ('P47', W, '"{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calc', '"{wc1(%s,%g,%g)}" % (val, dev.min_val, dev.max_val)  # calc'),
 ('P47', W, '"{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calc', '"{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.min_val, index)  # calc'),
 ('P47', W, "self.last_run_number = 2**index - 1", "self.last_run_number = 2**index"),
 ('P47', W, "            if self._set_component_deviation(ref, index):\n                index += 1\n        for ref in self.parameter", "            self._set_component_deviation(ref, index)\n            index += 1\n        for ref in self.parameter"),
 ('P47', W, "            index += 1\n            self.elements_analysed.append(ref)", "            self.elements_analysed.append(ref)"),
 ('P47', W, "            index += 1\n            self.elements_analysed.append(ref)", "            index += 1"),
 ('P47', W, "        index = 0\n", "        index = 1\n"),
 ('P47', W, "            self.editor.set_component_value(ref, new_val)  # update the value\n            self.elements_analysed.append(ref)\n        return True", "            self.editor.set_component_value(ref, new_val)  # update the value\n        return True"),
 ('P47', Q, "nom*if(run==idx,1+tol,1)", "nom*if(run==idx,tol,1)"),
 ('P47', Q, "nom*if(run==idx,1-tol,1)", "nom*if(run==idx,1+tol,1)"),
 ('P47', Q, "if(run==idx,val,nom)", "if(run<idx,val,nom)"),
 ('P47', Q, "dev.min_val if use_min else dev.max_val", "dev.max_val if use_min else dev.min_val"),
 ('P47', Q, "        self.last_run_number = no - 1", "        self.last_run_number = no"),
 ('P47', Q, "                self.elements_analysed.append(comp)\n                no += 1", "                self.elements_analysed.append(comp)\n            no += 1"),
 ('P47', Q, 'self.editor.add_instruction(".func sammx(nom,val,idx) if(run==idx,val,nom)")', 'self.editor.add_instruction(".func samx(nom,val,idx) if(run==idx,val,nom)")')
]
BEN = [('all',) + x for x in [
 (D, "            if last_no > self.last_run_number:\n                last_no = self.last_run_number\n", "            last_no = min(last_no, self.last_run_number)\n"),
 (D, "            last_no = sim_no + runs_per_sim - 1\n            if last_no > self.last_run_number:\n                last_no = self.last_run_number\n", "            next_no = sim_no + runs_per_sim\n            if next_no > self.last_run_number + 1:\n                next_no = self.last_run_number + 1\n            last_no = next_no - 1\n"),
 (D, 'f".step param run {sim_no} {last_no} 1"', '".step param run %d %d 1" % (sim_no, last_no)'),
 (D, 'f".step param run {sim_no} {last_no} 1"', '".step param run {} {} 1".format(sim_no, last_no)'),
 (D, LOOP, """        for sim_no in range(-1, self.last_run_number + 1, runs_per_sim):
            last_no = min(sim_no + runs_per_sim, self.last_run_number + 1) - 1
            self._run_block(f".step param run {sim_no} {last_no} 1", wait_resource=wait_resource, callback=callback,
                                  callback_args=callback_args, switches=switches, timeout=timeout,
                                  run_filename=run_filename, exe_log=exe_log)
""", "    def add_log(self", """    def _run_block(self, stepping, **kwargs):
        self.editor.add_instruction(stepping)
        self.simulations.append(self.runner.run(self.editor, **kwargs))
        self.editor.remove_instruction(stepping)

    def add_log(self"""),
 (D, '".step param run -1 %d 1" % self.last_run_number', 'f".step param run -1 {self.last_run_number} 1"'),
 (D, "        if callback is not None:\n            return (sim.get_results() if sim is not None else None for sim in self.simulations)\n        return None", "        if callback is None:\n            return None\n        return (None if sim is None else sim.get_results() for sim in self.simulations)"),
 (D, "            return (sim.get_results() if sim is not None else None for sim in self.simulations)", "            results = []\n            for sim in self.simulations:\n                results.append(sim.get_results() if sim is not None else None)\n            return results"),
 (D, "        if not self.testbench_prepared:\n            super()._reset_netlist()\n            self.play_instructions()\n            self.prepare_testbench()\n        else:\n            self.play_instructions()\n", "        if self.testbench_prepared:\n            self.play_instructions()\n        else:\n            self._reset_netlist()\n            self.prepare_testbench()\n"),
 (D, "        self.clear_simulation_data()\n        # calculate", "        self.simulations.clear()\n        self.simulation_results = {}\n        self.analysis_executed = False\n        # calculate"),
 (D, "        while total_number_of_runs % runs_per_sim == 1:  # Avoid orphan runs\n            runs_per_sim += 1\n", "        while True:\n            if total_number_of_runs % runs_per_sim != 1:\n                break\n            runs_per_sim += 1\n"),
 (D, "self.last_run_number + 2  # the", "2 + self.last_run_number  # the"),
 (W, '".step param run -1 %d 1" % self.last_run_number', 'f".step param run -1 {self.last_run_number} 1"'),
 (W, "        self.last_run_number = 2**index - 1\n", "        last = 2**index - 1\n        self.last_run_number = last\n", "% self.last_run_number)\n        self.editor.set_parameter('run', -1)  # in", "% last)\n        self.editor.set_parameter('run', -1)  # in"),
 (S, PLAY, "        for instruction in self.received_instructions[self.instructions_added:]:\n            getattr(self.editor, instruction[0])(*instruction[1:])\n"),
 (S, PLAY, PLAY.replace("            if instruction[0] ==", "            what, args = instruction[0], instruction[1:]\n            if what ==").replace("elif instruction[0] ==", "elif what ==").replace("(instruction[1], instruction[2])", "(*args)").replace("(instruction[1])", "(args[0])")),
 (S, PLAY, PLAY.replace("for instruction in self.received_instructions[self.instructions_added:]:", "for i in range(self.instructions_added, len(self.received_instructions)):\n            instruction = self.received_instructions[i]")),
 (S, PLAY + "        self.instructions_added = len(self.received_instructions)\n", PLAY + "            self.instructions_added += 1\n"),
 (S, PLAY, "        pending = self.received_instructions[self.instructions_added:]\n" + PLAY.replace("in self.received_instructions[self.instructions_added:]", "in pending"), "self.instructions_added = len(self.received_instructions)", "self.instructions_added += len(pending)"),
 (S, "    def play_instructions(self):\n", "    def play_instructions(self):\n        if self.instructions_added == len(self.received_instructions):\n            return\n"),
 (S, "        self.received_instructions.append(('set_parameter', ref, new_value))", "        self._record('set_parameter', ref, new_value)", "    def add_instruction(self", "    def _record(self, *what):\n        self.received_instructions.append(what)\n\n    def add_instruction(self"),
 (S, "        self.received_instructions.append(('set_parameter', ref, new_value))", "        instruction = ('set_parameter', ref, new_value)\n        self.received_instructions.append(instruction)"),
 (S, "        self._reset_netlist()\n        self.received_instructions.clear()", "        self.received_instructions = []\n        self._reset_netlist()"),
 (D, "        if not self.testbench_prepared:\n            self.prepare_testbench()\n        super().save_netlist(filename)", "        if not self.testbench_prepared:\n            self.prepare_testbench()\n        self.play_instructions()\n        self.editor.save_netlist(filename)"),
 (M, "            self._reset_netlist()  # reset the netlist\n            self.play_instructions()  # play the instructions\n", "            self._start_again()\n", "    def analyse_measurement(", "    def _start_again(self):\n        self._reset_netlist()\n        self.play_instructions()\n\n    def analyse_measurement("),
 (W, "        self._reset_netlist()  # so that the nominal values are read below\n        self.play_instructions()  # play the instructions\n        worst_case_elements = {}\n", "        worst_case_elements = {}\n        self._reset_netlist()\n        self.play_instructions()\n"),
 (M, "\"{utol(%s,%g)}\" % (val, dev.tolerance)", "f\"{{utol({val},{dev.tolerance:g})}}\""),
 (M, "                new_val = \"{utol(%s,%s)}\"" , "                new_val = \"{utol(%s, %s)}\"") if False else (M, '"{utol(%s,%s)}" % (val, tolstr)', '"{utol(%s, %s)}" % (val, tolstr)'),
 (M, "if(run<0, nom, mean+flat(df2))", "if(run>=0, mean+flat(df2), nom)"),
 (M, "(dev.max_val+dev.min_val)/2, (dev.max_val-dev.min_val)/2)", "dev.min_val + (dev.max_val-dev.min_val)/2, 0.5*(dev.max_val-dev.min_val))"),
 (M, "random.Random().uniform(value * (1- dev.tolerance), value * (1 + dev.tolerance))", "random.Random().uniform(value - value * dev.tolerance, value + value * dev.tolerance)"),
 (M, "value * (1 + random.Random().gauss(0, dev.tolerance / 3))", "random.Random().gauss(value, value * dev.tolerance / 3)"),
 (M, "        if dev.typ == DeviationType.tolerance:\n            if dev.distribution == 'uniform':\n                new_val = f", "        rng = random.Random()\n        tol = dev.tolerance\n        if dev.typ == DeviationType.tolerance:\n            if dev.distribution == 'uniform':\n                return f\"{rng.uniform(value * (1 - tol), value * (1 + tol)):g}\"\n                new_val = f"),
 (W, "{if(run<0,nom,nom*(1+tol*(2*binary(run,idx)-1)))}", "if(run<0,nom,nom*if(binary(run,idx),1+tol,1-tol))"),
 (W, "        for ref in self.device_deviations:\n            if self._set_component_deviation(ref, index):\n                index += 1\n", "        for ref in self.device_deviations:\n            done = self._set_component_deviation(ref, index)\n            if done:\n                index = index + 1\n"),
 (W, "self.last_run_number = 2**index - 1", "self.last_run_number = 2**len(self.elements_analysed) - 1"),
 (W, "self.last_run_number = 2**index - 1", "self.last_run_number = (1 << index) - 1"),
 (W, "            if self._set_component_deviation(ref, index):\n                index += 1\n        for ref in self.parameter", "            self._set_component_deviation(ref, len(self.elements_analysed))\n        index = len(self.elements_analysed)\n        for ref in self.parameter"),
 (W, "        if dev.is_not_valid():\n            return False  # no need to set the deviation\n        new_val = val\n        if dev.typ == DeviationType.tolerance:\n            new_val = \"{wc(%s,%g,%d)}\" % (val, dev.tolerance, index)  # calculate expression for new value\n        elif dev.typ == DeviationType.minmax:\n            new_val = \"{wc1(%s,%g,%g,%d)}\" % (val, dev.min_val, dev.max_val, index)  # calculate expression for new value\n\n        if new_val != val:\n", "        if dev.is_not_valid():\n            return False\n        if dev.typ == DeviationType.minmax:\n            new_val = f\"{{wc1({val},{dev.min_val:g},{dev.max_val:g},{index})}}\"\n        else:\n            new_val = f\"{{wc({val},{dev.tolerance:g},{index})}}\"\n        if True:\n"),
 (Q, "                used_value = dev.min_val if use_min else dev.max_val\n                new_val = \"{sammx(%s,%g,%d)}\" % (val, used_value, no)", "                if use_min:\n                    new_val = \"{sammx(%s,%g,%d)}\" % (val, dev.min_val, no)\n                else:\n                    new_val = \"{sammx(%s,%g,%d)}\" % (val, dev.max_val, no)"),
 (Q, "        if use_min:\n            self.editor.add_instruction(\".func satol(nom,tol,idx) nom*if(run==idx,1-tol,1)\")\n        else:\n            self.editor.add_instruction(\".func satol(nom,tol,idx) nom*if(run==idx,1+tol,1)\")", "        sign = '-' if use_min else '+'\n        self.editor.add_instruction(f\".func satol(nom,tol,idx) nom*if(run==idx,1{sign}tol,1)\")"),
]]
