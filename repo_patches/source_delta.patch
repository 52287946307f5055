From 91ef35bf68747284291369215bd428395127772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 001/101] fix: SimRunner.run gives each task its own copy of
 the command line switches

---
 spicelib/sim/sim_runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index ac882cf..7d17779 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -564,8 +564,8 @@ class SimRunner(AnyRunner):
 
         t0 = clock()  # Store the time for timeout calculation
         while clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
-            cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones
-            # inside the class.
+            cmdline_switches = list(switches or self.cmdline_switches)  # If switches are passed, they override the
+            # ones inside the class. A copy is made so that later changes don't reach tasks already submitted.
 
             if (wait_resource is False) or (self.active_threads() < self.parallel_sims):
                 t = RunTask(
-- 
2.43.0


From e145edb334b26e62dc69dffffa5da42f3c7b6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 002/101] fix: SimRunner.run and run_now accept the documented
 timeout=None

---
 spicelib/sim/sim_runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 7d17779..78610b4 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -563,7 +563,7 @@ class SimRunner(AnyRunner):
             timeout = self.timeout
 
         t0 = clock()  # Store the time for timeout calculation
-        while clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
+        while timeout is None or clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
             cmdline_switches = list(switches or self.cmdline_switches)  # If switches are passed, they override the
             # ones inside the class. A copy is made so that later changes don't reach tasks already submitted.
 
@@ -629,7 +629,7 @@ class SimRunner(AnyRunner):
             t.edits = netlist.netlist_updates  # Copy is made in this assignment
         t.start()
         sleep(0.01)  # Give slack for the thread to start
-        t.join(timeout + 1)  # Give one second slack in relation to the task timeout
+        t.join(None if timeout is None else timeout + 1)  # Give one second slack in relation to the task timeout
         self.completed_tasks.append(t)
         if t.retcode == 0:
             self._okSim += 1
-- 
2.43.0


From 3760d0819e54c1ab2fcf68744219b1a357a70c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 003/101] fix: SimRunner.wait_completion restarts the caller's
 timeout when a simulation completes

---
 spicelib/sim/sim_runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 78610b4..f2e88ed 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -720,10 +720,13 @@ class SimRunner(AnyRunner):
         else:
             stop_time = None
         while len(self.active_tasks) > 0:
+            completed = len(self.completed_tasks)
             sleep(1)
             self.update_completed()
             if timeout is None:
                 stop_time = self._maximum_stop_time()
+            elif len(self.completed_tasks) > completed:
+                stop_time = time.time() + timeout  # restarted every time that a simulation is completed
             if stop_time is not None:  # This can happen if timeout was set as none everywhere
                 if time.time() > stop_time:
                     if abort_all_on_timeout:
-- 
2.43.0


From bc537bea35755d7a9af827bef07c48a6f88fc1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 004/101] fix: RunTask.wait_results no longer hangs when the
 simulator's return code is -1

---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 5998ed3..abc6ce1 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -213,6 +213,6 @@ class RunTask(threading.Thread):
         
         :returns: Tuple with the path to the raw file and the path to the log file. See get_results() for more details.
         """
-        while self.is_alive() or self.start_time is None or self.retcode == -1:
+        while self.is_alive() or self.start_time is None:
             sleep(0.1)
         return self.get_results()
-- 
2.43.0


From b1edbb2a10bbe1941bcc2729d9c0ae75f95f4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 005/101] fix: RunTask accepts callbacks that have no __name__

---
 spicelib/sim/run_task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index abc6ce1..094bc94 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -163,7 +163,8 @@ class RunTask(threading.Thread):
                 callback_print = ', '.join([f"{key}={value}" for key, value in self.callback_args.items()])
             else:
                 callback_print = ''
-            self.print_info(_logger.info, f"Simulation Finished. Calling...{self.callback.__name__}(rawfile, logfile{callback_print})")
+            callback_name = getattr(self.callback, '__name__', self.callback.__class__.__name__)
+            self.print_info(_logger.info, f"Simulation Finished. Calling...{callback_name}(rawfile, logfile{callback_print})")
             try:
                 if self.callback_args is not None:
                     return_or_process = self.callback(self.raw_file, self.log_file, **self.callback_args)
-- 
2.43.0


From f018bbf193bffb28b7539e77a7de644a350154da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 006/101] fix: ProcessCallback always delivers a result to the
 waiting parent process

---
 spicelib/sim/process_callback.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spicelib/sim/process_callback.py b/spicelib/sim/process_callback.py
index 723f8fe..9e4decd 100644
--- a/spicelib/sim/process_callback.py
+++ b/spicelib/sim/process_callback.py
@@ -41,10 +41,13 @@ class ProcessCallback(Process):
         self.kwargs = kwargs
 
     def run(self):
-        ret = self.callback(self.raw_file, self.log_file, **self.kwargs)
-        if ret is None:
-            ret = "Callback doesn't return anything"
-        self.queue.put(ret)
+        ret = None
+        try:
+            ret = self.callback(self.raw_file, self.log_file, **self.kwargs)
+            if ret is None:
+                ret = "Callback doesn't return anything"
+        finally:
+            self.queue.put(ret)  # The parent is waiting for a result, even if the callback has failed
 
     @staticmethod
     def callback(raw_file, log_file, **kwargs) -> Any:
-- 
2.43.0


From 8249efc2a0e28424b5c865d471733c911a772393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 007/101] fix: LTspice -ini switch is emitted without a blank
 after the dash

---
 spicelib/simulators/ltspice_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/simulators/ltspice_simulator.py b/spicelib/simulators/ltspice_simulator.py
index 2fcaecc..8f037c3 100644
--- a/spicelib/simulators/ltspice_simulator.py
+++ b/spicelib/simulators/ltspice_simulator.py
@@ -155,7 +155,7 @@ class LTspice(Simulator):
         '-FixUpSymbolFonts'   : ['-FixUpSymbolFonts'],
         # Convert the font size field of very old user - authored symbols to the modern default.
         # See Changelog.txt for application hints.
-        '-ini'                : ['- ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
+        '-ini'                : ['-ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
         '-I'                  : ['-I<path>'],  # Specify a path to insert in the symbol and file search paths.
         # Must be the last specified option.
         # No space between "-I" and < path > is allowed.
-- 
2.43.0


From 1f38167e0b50cb803a73a521e1fdd5b3a78922ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 008/101] fix: valid_switch of ngspice and Xyce no longer hands
 out its own switch table

---
 spicelib/simulators/ngspice_simulator.py | 2 +-
 spicelib/simulators/xyce_simulator.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/simulators/ngspice_simulator.py b/spicelib/simulators/ngspice_simulator.py
index e193787..4ff0af9 100644
--- a/spicelib/simulators/ngspice_simulator.py
+++ b/spicelib/simulators/ngspice_simulator.py
@@ -158,7 +158,7 @@ class NGspiceSimulator(Simulator):
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
diff --git a/spicelib/simulators/xyce_simulator.py b/spicelib/simulators/xyce_simulator.py
index a77b48b..6f65fff 100644
--- a/spicelib/simulators/xyce_simulator.py
+++ b/spicelib/simulators/xyce_simulator.py
@@ -209,7 +209,7 @@ class XyceSimulator(Simulator):
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
-- 
2.43.0


From a5ef5e5bac40e829f16305f455dce72c5872f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 009/101] fix: Xyce switches -o, -linsolv and -nox can be used

---
 spicelib/simulators/xyce_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/simulators/xyce_simulator.py b/spicelib/simulators/xyce_simulator.py
index 6f65fff..588f2c5 100644
--- a/spicelib/simulators/xyce_simulator.py
+++ b/spicelib/simulators/xyce_simulator.py
@@ -98,7 +98,7 @@ class XyceSimulator(Simulator):
         '-per-processor'    : ['-per-processor'],  # create log file for each processor, add .<n>.<r> to log path
         '-remeasure'        : ['-remeasure', '<path>'],
         # [existing Xyce output file] recompute .measure() results with existing data
-        '-nox'              : ['-nox', 'onoff_option'],  # <on|off>               NOX nonlinear solver usage
+        '-nox'              : ['-nox', '<onoff_option>'],  # <on|off>               NOX nonlinear solver usage
         '-linsolv'          : ['-linsolv', '<solver>'],  # <solver>           force usage of specific linear solver
         '-maxord'           : ['-maxord', '<int_option>'],  # <1..5>              maximum time integration order
         '-max-warnings'     : ['-max-warnings', '<int_option>'],  # <#>           maximum number of warning messages
@@ -179,7 +179,7 @@ class XyceSimulator(Simulator):
             switch_list = cls.xyce_args[switch]
             if len(switch_list) == 2:
                 param_token = switch_list[1]
-                if param_token == '<path>':
+                if param_token in ('<path>', '<basename>', '<solver>'):
                     ret = [switch_list[0], parameter]
                 elif param_token == '<param_options>':
                     # Check for [device [level [<inst|mod>]]] syntax ??
-- 
2.43.0


From a4f98f6e4330586192387e41afae57d34dba8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 010/101] fix: ngspice ngbehavior can be defined by switch when
 no compatibility mode is set

---
 spicelib/simulators/ngspice_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/simulators/ngspice_simulator.py b/spicelib/simulators/ngspice_simulator.py
index 4ff0af9..3f7723f 100644
--- a/spicelib/simulators/ngspice_simulator.py
+++ b/spicelib/simulators/ngspice_simulator.py
@@ -147,7 +147,7 @@ class NGspiceSimulator(Simulator):
             return []        
         
         if switch in cls.ngspice_args:
-            if cls.set_compatibility_mode and (switch == '-D' or switch == '--define') and parameter.lower().startswith("ngbehavior"):
+            if cls._compatibility_mode and (switch == '-D' or switch == '--define') and parameter.lower().startswith("ngbehavior"):
                 _logger.info(f"Switch {switch} {parameter} is already in the default switches, use 'set_compatibility_mode' instead")
                 return ret                
             switch_list = cls.ngspice_args[switch]
-- 
2.43.0


From f9aaf7c3b97094332fe421b3c8b5ee7d1c569a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 011/101] fix: assigning component['value'] goes through
 set_value

---
 spicelib/editor/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index d37a4ea..53e7f59 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -211,7 +211,7 @@ class Component(Primitive):
         if key in VALUE_IDs:
             if isinstance(value, str):
                 value = to_float(value, accept_invalid=True)
-            self.attributes['value'] = value
+            self.set_value(value)
         else:
             self.set_parameter(key, value)
 
-- 
2.43.0


From 9ed5d43a127ad27db5f4b4cebd1a1055c3543daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 012/101] fix: AscComponent.set_parameter writes the parameter
 on the component attributes

---
 spicelib/editor/asc_editor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 8514f08..0d5f19c 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -204,6 +204,15 @@ class AscComponent(SchematicComponent):
                             _logger.info(f"Component {self.reference} added parameter {key}:{value_str}")
             parent.end_update(f"{self.reference}:{key}", value_str, update_type)
 
+    def set_parameter(self, key: str, value: float | int | str | None) -> None:
+        """
+        Sets a single parameter of the component. See `set_parameters()`.
+
+        :param key: Parameter name
+        :param value: Parameter value. None removes the parameter, if possible.
+        """
+        self.set_parameters(**{key: value})
+
 
 class AscEditor(BaseSchematic, BaseSubCircuit):
     """Class made to update directly the LTspice ASC files"""
-- 
2.43.0


From 5f715d877af01161b86fe031ae9577487c652865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 013/101] fix: AscEditor refuses every edit when updates are
 denied

---
 spicelib/editor/asc_editor.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 0d5f19c..38af901 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -538,8 +538,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def set_component_position(self, reference: str, position: Point, rotation: ERotation) -> None:
         component = self.get_component(reference)
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Update of Component {reference} position denied")
         component.position = position
         component.rotation = rotation
+        self.canvas_updated = True
 
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
@@ -627,8 +630,12 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def set_element_model(self, element: str, model: str) -> None:
         component = self.get_component(element)
+        parent: BaseSubCircuit = component.parent # pyright: ignore[reportAssignmentType]
+        if parent.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Update of Component {element} model denied")
         component.symbol = model
         _logger.info(f"Component {element} updated to {model}")
+        parent.end_update(component.reference, model, UpdateType.UpdateComponentValue)
 
     def get_component_value(self, element: str) -> str:
         component = self.get_component(element)
@@ -677,8 +684,10 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return [k for k in self.components.keys() if k[0] in prefixes]
 
     def remove_component(self, designator: str):
-        self.begin_update()
         sub_circuit, ref = self._get_parent(designator)
+        sub_circuit.get_component(ref)  # raises ComponentNotFoundError if it does not exist
+        if sub_circuit.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Removal of Component {designator} denied")
         del sub_circuit.components[ref]
         sub_circuit.end_update(designator, "", UpdateType.DeleteComponent)
 
@@ -768,7 +777,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 directive_text = directive.text.strip()
                 directive_command = directive_text.split()[0].upper()
                 if directive_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    self.begin_update()
+                    if self.begin_update() == UpdatePermission.Deny:
+                        raise PermissionError(f"Update of instruction {directive_text} denied")
                     self.directives[i].text = instruction
                     _logger.info(f"Instruction {directive_text} updated to {instruction}")
                     self.end_update("INSTRUCTION", directive_text, UpdateType.DeleteInstruction)
@@ -777,7 +787,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 i += 1
         elif set_command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
-        self.begin_update()
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Addition of instruction {instruction} denied")
         # If we get here, then the instruction was not found, so we need to add it
         x, y = self._get_text_space()
         coord = Point(x, y)
@@ -793,7 +804,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 i += 1
                 continue  # this is a comment   
             if instruction in self.directives[i].text:
-                self.begin_update()
+                if self.begin_update() == UpdatePermission.Deny:
+                    raise PermissionError(f"Removal of instruction {instruction} denied")
                 text = self.directives[i].text
                 del self.directives[i]
                 _logger.info(f"Instruction {text} removed")
@@ -815,7 +827,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 continue  # this is a comment            
             instruction = self.directives[i].text
             if regex.match(instruction) is not None:
-                self.begin_update()
+                if self.begin_update() == UpdatePermission.Deny:
+                    raise PermissionError(f"Removal of instruction {instruction} denied")
                 instr_removed = True
                 del self.directives[i]
                 self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-- 
2.43.0


From 3fe96b0ec8c30b562bf0e5ebeb51fb2a8e807de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 014/101] fix: AscEditor removes and moves components inside
 hierarchical sub-circuits

---
 spicelib/editor/asc_editor.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 38af901..600d6fa 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -537,6 +537,10 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return component.position, component.rotation
 
     def set_component_position(self, reference: str, position: Point, rotation: ERotation) -> None:
+        sub_circuit, ref = self._get_parent(reference)
+        if sub_circuit != self:
+            sub_circuit.set_component_position(ref, position, rotation)
+            return
         component = self.get_component(reference)
         if self.begin_update() == UpdatePermission.Deny:
             raise PermissionError(f"Update of Component {reference} position denied")
@@ -685,11 +689,14 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def remove_component(self, designator: str):
         sub_circuit, ref = self._get_parent(designator)
-        sub_circuit.get_component(ref)  # raises ComponentNotFoundError if it does not exist
-        if sub_circuit.begin_update() == UpdatePermission.Deny:
+        if sub_circuit != self:
+            sub_circuit.remove_component(ref)
+            return
+        self.get_component(ref)  # raises ComponentNotFoundError if it does not exist
+        if self.begin_update() == UpdatePermission.Deny:
             raise PermissionError(f"Removal of Component {designator} denied")
-        del sub_circuit.components[ref]
-        sub_circuit.end_update(designator, "", UpdateType.DeleteComponent)
+        del self.components[ref]
+        self.end_update(designator, "", UpdateType.DeleteComponent)
 
     def _get_text_space(self):
         """
-- 
2.43.0


From 15fc89977a39a3109c0954b0dda9ee882080250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 015/101] fix: BaseSchematic.reset_netlist forgets the ports of
 the previous parse

---
 spicelib/editor/base_schematic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index d856984..1123222 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -299,6 +299,7 @@ class BaseSchematic(BaseEditor):
         self.wires.clear()
         self.labels.clear()
         self.directives.clear()
+        self.ports.clear()
         self.lines.clear()
         self.shapes.clear()
         self.canvas_updated = False
-- 
2.43.0


From 59d5fb8e98124bd9b3cd6e3b0d354fb18e233808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 016/101] fix: BaseSchematic.copy_from copies the ports

---
 spicelib/editor/base_schematic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 1123222..169524a 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -310,7 +310,8 @@ class BaseSchematic(BaseEditor):
         from copy import deepcopy
         self.components = deepcopy(editor.components)
         self.wires = deepcopy(editor.wires)
-        self.labels = deepcopy(editor.labels)
+        # Ports refer to their label, copying both together keeps that relation
+        self.labels, self.ports = deepcopy((editor.labels, editor.ports))
         self.directives = deepcopy(editor.directives)
         self.lines = deepcopy(editor.lines)
         self.shapes = deepcopy(editor.shapes)
-- 
2.43.0


From da6a5334b0e34350d6fcf599119068367fd2c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 017/101] fix: BaseSchematic.scale does not scale the label of
 a port twice

---
 spicelib/editor/base_schematic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 169524a..5a8b6ad 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -399,6 +399,8 @@ class BaseSchematic(BaseEditor):
             directive.coord.X = round_fun(directive.coord.X * scale_x + offset_x)
             directive.coord.Y = round_fun(directive.coord.Y * scale_y + offset_y)
         for port in self.ports:
+            if any(port.text is label for label in self.labels):
+                continue  # already scaled with the labels
             port.text.coord.X = round_fun(port.text.coord.X * scale_x + offset_x)
             port.text.coord.Y = round_fun(port.text.coord.Y * scale_y + offset_y)
         for line in self.lines:
-- 
2.43.0


From 856b5f2a082923bf17c7fabdac643727c7008728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 018/101] fix: AscEditor.save_netlist writes the IOPIN clauses

---
 spicelib/editor/asc_editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 600d6fa..309cfb9 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -273,6 +273,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 asc.write(f"WIRE {wire.V1.X} {wire.V1.Y} {wire.V2.X} {wire.V2.Y}" + END_LINE_TERM)
             for flag in self.labels:
                 asc.write(f"FLAG {flag.coord.X} {flag.coord.Y} {flag.text}" + END_LINE_TERM)
+                for port in self.ports:
+                    if port.text is flag:  # The IOPIN clause has to come right after its label
+                        asc.write(f"IOPIN {flag.coord.X} {flag.coord.Y} {port.direction}" + END_LINE_TERM)
             for component in self.components.values():
                 symbol = component.symbol
                 posX = component.position.X
-- 
2.43.0


From 1458acb2b0bd51755ba845132c8505f72e768a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 019/101] fix: vertical text alignment of ASC directives is
 kept

---
 spicelib/editor/ltspice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/ltspice_utils.py b/spicelib/editor/ltspice_utils.py
index 1bbf178..a1f67b7 100644
--- a/spicelib/editor/ltspice_utils.py
+++ b/spicelib/editor/ltspice_utils.py
@@ -27,7 +27,7 @@ __copyright__ = "Copyright 2024, Fribourg Switzerland"
 
 # Regular expressions
 TEXT_REGEX = re.compile(
-    r"TEXT (-?\d+)\s+(-?\d+)\s+V?(Left|Right|Top|Bottom|Center|Invisible)\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
+    r"TEXT (-?\d+)\s+(-?\d+)\s+(V?(?:Left|Right|Top|Bottom|Center|Invisible))\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
     re.IGNORECASE
 )
 
-- 
2.43.0


From d70ec0154587547940de1b82d8611854aaf251a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 020/101] fix: BaseSchematic.copy_from makes the copied
 components belong to the new editor

---
 spicelib/editor/base_schematic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 5a8b6ad..d36a8b8 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -308,7 +308,7 @@ class BaseSchematic(BaseEditor):
     def copy_from(self, editor: 'BaseSchematic') -> None:
         """Clones the contents of the given editor"""
         from copy import deepcopy
-        self.components = deepcopy(editor.components)
+        self.components = deepcopy(editor.components, {id(editor): self})  # they now belong to this editor
         self.wires = deepcopy(editor.wires)
         # Ports refer to their label, copying both together keeps that relation
         self.labels, self.ports = deepcopy((editor.labels, editor.ports))
-- 
2.43.0


From 48d0bf8b0693b5734d8ce9f41dc247cd115029f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 021/101] fix: AscComponent.set_parameters removes parameters
 given as None instead of writing None

---
 spicelib/editor/asc_editor.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 309cfb9..71dd36a 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -158,10 +158,17 @@ class AscComponent(SchematicComponent):
             params = self.get_parameters(as_dicts=True)
             if key in params:
                 # I only have the LTSPICE_PARAMETERS as keys here, so when I match, I can overwrite
-                # I do not support delete here, as some of the keys are mandatory
-                self.attributes[key] = value_str
+                if value_str is not None:
+                    self.attributes[key] = value_str
+                    update_type = UpdateType.UpdateComponentParameter
+                elif key == "Value":
+                    # I do not support delete here, as this key is mandatory
+                    _logger.warning(f"The Value of component {self.reference} cannot be removed")
+                    continue
+                else:
+                    del self.attributes[key]
+                    update_type = UpdateType.DeleteComponentParameter
                 _logger.info(f"Component {self.reference} updated with parameter {key}:{value}")
-                update_type = UpdateType.UpdateComponentParameter
             else:
                 foundme = False
                 # not found: look in the second level dicts
@@ -182,8 +189,9 @@ class AscComponent(SchematicComponent):
                             _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
                             foundme = True
                 if not foundme:
-                    if value_str is not None:
-                        # don't add if there's nothing to add
+                    if value_str is None:
+                        continue  # there's nothing to remove
+                    else:
                         if key in LTSPICE_PARAMETERS:
                             # known parameter, set the value
                             self.attributes[key] = value_str
-- 
2.43.0


From a9f2f8683b33b3ab5504efc37f586709ab5e50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 022/101] fix: Update.__repr__ describes updated instructions

---
 spicelib/editor/updates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index 4e0688c..e40ec30 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -59,6 +59,8 @@ class Update:
             return f"Component Parameter {self.name} was added with value {self.value}"
         elif self.updates == UpdateType.AddInstruction:
             return f"Instruction \"{self.value}\" was added."
+        elif self.updates == UpdateType.UpdateInstruction:
+            return f"Instruction \"{self.name}\" was updated to \"{self.value}\""
         elif self.updates == UpdateType.CloneSubcircuit:
             return f"Sub-circuit {self.name} was added"
         else:
-- 
2.43.0


From ef96019de08ea3c66b59fdfe6cbc97716f3f004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 023/101] fix: QschComponent.set_position writes a valid
 rotation and is refused when updates are denied

---
 spicelib/editor/qsch_editor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index f5e4c8f..eff93d5 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -536,6 +536,9 @@ class QschComponent(SchematicComponent):
          mirror: bool = False,
          ) -> None:
         # docstring inherited from BaseSchematic
+        parent: QschEditor = self.parent # pyright: ignore[reportAssignmentType]
+        if parent.begin_update() == UpdatePermission.Deny:
+            raise PermissionError("Editor is read-only")
 
         comp_tag: QschTag = self.tag
         if isinstance(position, tuple):
@@ -545,7 +548,7 @@ class QschComponent(SchematicComponent):
         else:
             raise ValueError("Invalid position object")
         if isinstance(rotation, ERotation):
-            rot = rotation.value / 45
+            rot = rotation.value // 45
         elif isinstance(rotation, int):
             rot = (rotation % 360) // 45
             if mirror:
@@ -556,7 +559,8 @@ class QschComponent(SchematicComponent):
         comp_tag.set_attr(QSCH_COMPONENT_POS, (position.X, position.Y))
         comp_tag.set_attr(QSCH_COMPONENT_ROTATION, rot)
         self.position = position
-        self.rotation = rotation if isinstance(rotation, ERotation) else ERotation(rotation)
+        self.rotation = ERotation(rot * 45)
+        parent.canvas_updated = True
 
 
 class QschEditor(BaseSchematic, BaseSubCircuit):
-- 
2.43.0


From e4d9cb48078ed2116dd04d41303d0ad67606c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 024/101] fix: QschEditor.remove_component also removes it from
 the components of the schematic

---
 spicelib/editor/qsch_editor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index eff93d5..41d169a 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1212,12 +1212,17 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
     def remove_component(self, designator: str):
         # docstring inherited from BaseEditor
+        sub_circuit, ref = self._get_parent(designator)
+        if sub_circuit != self:
+            sub_circuit.remove_component(ref)
+            return
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for removing component {designator}")
         component = self.get_component(designator)
         comp_tag: QschTag = component.attributes['tag']
         self.schematic.items.remove(comp_tag) # pyright: ignore[reportOptionalMemberAccess]
+        del self.components[designator]
         self.end_update(designator, None, UpdateType.DeleteComponent)
 
     def _get_text_space(self):
-- 
2.43.0


From 45e788c2c749f97caa7d3301418709b590294281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 025/101] fix: QschEditor.set_parameter updates directives that
 have no qualifier

---
 spicelib/editor/qsch_editor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 41d169a..274a4e2 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1116,8 +1116,10 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             _logger.debug(f"Parameter {param} found in QSCH file, updating it")
             text: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             start, stop = match.span("value")
-            start += len(QSCH_TEXT_INSTR_QUALIFIER)
-            stop += len(QSCH_TEXT_INSTR_QUALIFIER)
+            # the match was done without the qualifier, which may be missing
+            offset = len(text) - len(text.lstrip(QSCH_TEXT_INSTR_QUALIFIER))
+            start += offset
+            stop += offset
             text = text[:start] + value_str + text[stop:]
             tag.set_attr(QSCH_TEXT_STR_ATTR, text)
             _logger.info(f"Parameter {param} updated to {value_str}")
-- 
2.43.0


From 8bb850bd82c0c1f66273161b922d27e97a641dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 026/101] fix: QschEditor.add_instruction records every
 instruction it adds

---
 spicelib/editor/qsch_editor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 274a4e2..517d9c5 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1282,12 +1282,11 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
         elif command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
-        else:
-            self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
         # If we get here, then the instruction was not found, so we need to add it
         x, y = self._get_text_space()
         tag, _ = QschTag.parse(f'«text ({x},{y}) 1 0 0 0x1000000 -1 -1 "{QSCH_TEXT_INSTR_QUALIFIER}{instruction}"»')
         self.schematic.items.append(tag) # pyright: ignore[reportOptionalMemberAccess]
+        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
 
     def remove_instruction(self, instruction: str) -> bool:
         # docstring inherited from BaseEditor
-- 
2.43.0


From df62858d512f31b30d8bebdfdf71ffcda02a7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 027/101] fix: components of a copied QschEditor are part of
 the copied schematic

---
 spicelib/editor/qsch_editor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 517d9c5..f0d062c 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -1337,7 +1337,8 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         # We need to copy the schematic information
         if isinstance(editor, QschEditor):
             from copy import deepcopy
-            self.schematic = deepcopy(editor.schematic)
+            # The components hold their tag of the schematic, so they have to be copied together
+            self.components, self.schematic = deepcopy((editor.components, editor.schematic), {id(editor): self})
         else:
             # Need to create a new schematic from the netlist
             self.schematic = QschTag('schematic')
-- 
2.43.0


From cb109af6203bbe5ab0b36191fc301d97701b8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 028/101] fix: QschEditor.reset_netlist(create_blank=True)
 forgets the previous schematic

---
 spicelib/editor/qsch_editor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index f0d062c..312824e 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -890,6 +890,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 stream = qsch_file.read()
             self._parse_qsch_stream(stream)
         else:
+            self.schematic = None  # forget what may have been read before
             self.update_permission = UpdatePermission.Inform
         return True
 
-- 
2.43.0


From 48adf0ab4e0e2618aca5650d14d2869c8becc62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 029/101] fix: lines added to a netlist or sub-circuit always
 go before its closing .END/.ENDS

---
 spicelib/editor/spice_file.py       |  7 +------
 spicelib/editor/spice_subcircuit.py | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index ae56de0..5a6bb17 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -69,13 +69,8 @@ class SpiceFile(BaseEditor, SpiceCircuit):
         # TODO: if adding a .MODEL or .SUBCKT it should verify if it already exists and update it.
 
         # Insert at the end
-        line = len(self.netlist) - 1
         # If there is .backanno, then it will be added just before that statement
-        for nr, linecontent in enumerate(self.netlist):
-            if isinstance(linecontent, Primitive): # only Primitive can have .backanno
-                if linecontent.obj.lower().startswith('.backanno'): # pyright: ignore[reportOptionalMemberAccess]
-                    line = nr
-                    break
+        line = self._insertion_line()
 
         primitive = self.class_for_instruction(instruction, cmd)
         self.netlist.insert(line, primitive)
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index def7fc9..10aac03 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -530,6 +530,19 @@ class SpiceCircuit(BaseSubCircuit):
                 if cmd in VALID_PREFIXES:
                     yield SpiceComponent(self, line_no)
 
+    def _insertion_line(self) -> int:
+        """Internal function. Do not use. Returns the position where new lines can be inserted in the netlist: before
+        the .BACKANNO statement or else before the .END/.ENDS that closes the circuit. If none exists, at its end."""
+        insert_line = len(self.netlist)
+        for line_no, line in enumerate(self.netlist):
+            if type(line) is Primitive:
+                cmd = get_line_command(line)
+                if cmd == '.BACKANNO':
+                    return line_no
+                elif cmd in ('.END', '.ENDS'):
+                    insert_line = line_no
+        return insert_line
+
     def get_component_attribute(self, reference: str, attribute: str) -> str | None:
         """
         Returns the attribute of a component retrieved from the netlist.
@@ -640,8 +653,7 @@ class SpiceCircuit(BaseSubCircuit):
                     self.end_update(param, value_str, UpdateType.UpdateParameter)
         else:
             # Was not found
-            # the last two lines are typically (.backano and .end)
-            insert_line = len(self.netlist) - 2
+            insert_line = self._insertion_line()
             term = Primitive(netlist=self, obj=f'.PARAM {param}={value_str}  ; Batch instruction' + END_LINE_TERM)
             self.netlist.insert(insert_line, term)
             if permission == UpdatePermission.Inform:
@@ -786,11 +798,7 @@ class SpiceCircuit(BaseSubCircuit):
             line_no = self.netlist.index(comp) + 1
         else:
             # Insert before backanno instruction
-            try:
-                line_no = self.netlist.index(
-                    '.backanno\n')  # TODO: Improve this. END of line termination could be differnt
-            except ValueError:
-                line_no = len(self.netlist) - 2
+            line_no = self._insertion_line()
 
         self.netlist.insert(line_no, component)
         if permission == UpdatePermission.Inform:
@@ -883,7 +891,7 @@ class SpiceCircuit(BaseSubCircuit):
 
         # Insert at the end
         primitive = self.class_for_instruction(instruction, cmd)
-        line = len(self.netlist) - 1  # Just before the ENDS
+        line = self._insertion_line()  # Just before the ENDS
         self.netlist.insert(line, primitive)
 
     def remove_instruction(self, instruction) -> bool:
-- 
2.43.0


From 85b0c009ad0bef54a0439ebd11024e65778ddddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 030/101] fix: SpiceCircuit.add_instruction is refused when
 read-only and is recorded, so that it gets saved

---
 spicelib/editor/spice_subcircuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 10aac03..419984a 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -870,6 +870,9 @@ class SpiceCircuit(BaseSubCircuit):
 
     def add_instruction(self, instruction: str) -> None:
         # docstring in parent class
+        permission = self.begin_update()
+        if permission == UpdatePermission.Deny:
+            raise ValueError("Editor is read-only")
         cmd = get_line_command(instruction)
         if _is_unique_instruction(cmd):
             raise RuntimeError(f"Simulation directives like \"{cmd}\" can't be set on sub-circuits")
@@ -893,6 +896,8 @@ class SpiceCircuit(BaseSubCircuit):
         primitive = self.class_for_instruction(instruction, cmd)
         line = self._insertion_line()  # Just before the ENDS
         self.netlist.insert(line, primitive)
+        if permission == UpdatePermission.Inform:
+            self.end_update("INSTRUCTION", instruction.strip(), UpdateType.AddInstruction)
 
     def remove_instruction(self, instruction) -> bool:
         # docstring is in the parent class
-- 
2.43.0


From 0dbb43e29c03ac3963aa400fddea049e74d76c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 031/101] fix: .ENDL and .ENDIF do not end the netlist

---
 spicelib/editor/spice_subcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 419984a..1a08f19 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -214,7 +214,7 @@ class SpiceCircuit(BaseSubCircuit):
             else:
                 primitive = Primitive(netlist=self, obj=line)
                 self.netlist.append(primitive)
-                if cmd.startswith('.END'):  # True for either .END, .ENDS and .ENDC primitives
+                if cmd in ('.END', '.ENDS'):  # but not .ENDL, .ENDIF, etc.
                     self.update_permission = UpdatePermission.Inform
                     return True  # If a sub-circuit is ended correctly, returns True
         return False  # If a sub-circuit ends abruptly, returns False
@@ -236,7 +236,7 @@ class SpiceCircuit(BaseSubCircuit):
             elif isinstance(primitive, Primitive):
                 line: str = primitive.obj # pyright: ignore[reportAssignmentType]
                 # Writes the modified sub-circuits at the end just before the .END clause
-                if line.upper().startswith(".END"):
+                if get_line_command(line) in ('.END', '.ENDS'):
                     # write here the modified sub-circuits
                     for sub in self.modified_subcircuits():
                         sub.write_lines(stream)
-- 
2.43.0


From 55c43016da8f5377480ecb6fcfe9114bcf72ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 032/101] fix: iterating a SpiceCircuit returns its components

---
 spicelib/editor/spice_subcircuit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 1a08f19..e1ac80c 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -518,17 +518,15 @@ class SpiceCircuit(BaseSubCircuit):
         for component in circuit:
             print(component)
         """
-        for line_no, line in enumerate(self.netlist):
+        for line in self.netlist:
             if isinstance(line, SpiceCircuit):
                 yield from line
             elif isinstance(line, ControlEditor):
                 continue  # no components here, just control commands
             elif isinstance(line, IncludeFile):
                 yield from line
-            else:
-                cmd = get_line_command(line)
-                if cmd in VALID_PREFIXES:
-                    yield SpiceComponent(self, line_no)
+            elif isinstance(line, SpiceComponent):
+                yield line
 
     def _insertion_line(self) -> int:
         """Internal function. Do not use. Returns the position where new lines can be inserted in the netlist: before
-- 
2.43.0


From 736898070fc451fdef06465c3a24fa51380f8145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 033/101] fix: SpiceCircuit.set_parameter(param, None) does not
 add a parameter that did not exist

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index e1ac80c..6aa2f1c 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -649,7 +649,7 @@ class SpiceCircuit(BaseSubCircuit):
                                                                f"{value_str}") + END_LINE_TERM
                 if permission == UpdatePermission.Inform:
                     self.end_update(param, value_str, UpdateType.UpdateParameter)
-        else:
+        elif value is not None:
             # Was not found
             insert_line = self._insertion_line()
             term = Primitive(netlist=self, obj=f'.PARAM {param}={value_str}  ; Batch instruction' + END_LINE_TERM)
-- 
2.43.0


From ba5f28c01430e051c1af24e6d8d2116e6e32875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 034/101] fix: Component[item] returns None for a parameter
 that does not exist

---
 spicelib/editor/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 53e7f59..7724a5d 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -204,7 +204,7 @@ class Component(Primitive):
         else:
             try:
                 return self.get_parameter(item)
-            except IndexError:
+            except ParameterNotFoundError:
                 pass
 
     def __setitem__(self, key, value):
-- 
2.43.0


From a2e4ce11a89e9c66faacc63d93062a7d69823b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 035/101] fix: removing the last parameter of a component is
 written to the netlist

---
 spicelib/editor/spice_components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index fb12595..8aa0f60 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -362,8 +362,11 @@ class SpiceComponent(Component):
                             new_line = new_line[:comment_index].rstrip() + ' ' + new_params_str + ' ' + new_line[comment_index:]
                         else:
                             new_line += ' ' + new_params_str
-                    else:
+                    elif new_params_str:
                         new_line = _insert_section(new_line, start + offset, stop + offset, new_params_str)
+                    else:
+                        # all the parameters were removed
+                        new_line = new_line[:start + offset] + new_line[stop + offset:].rstrip()
                     offset += len(new_params_str) - len(old_params_str)
                     update_done = True
             else:
-- 
2.43.0


From d0720fdb6a858ce5e4f2974d19b0cc42304ba8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 036/101] fix: clearing the parameters of a component removes
 them as set_parameter(key, None) does

---
 spicelib/editor/primitives.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 7724a5d..7f2ce17 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -282,18 +282,14 @@ class Component(Primitive):
     def clear_parameters(self):
         """Clears all parameters. It will set all existing parameters to None. This will delete them when writing
         back to file."""
-        params = self.get_parameters()
-        if params:
-            for key in params:
-                params[key] = None
+        for key in list(self.get_parameters()):
+            self.set_parameter(key, None)
 
     def clear_parameter(self, key: str):
         """Clears a parameter.
         :param key:  name
         """
-        if 'params' not in self._attributes:
-            self._attributes['params'] = OrderedDict()
-        self._attributes['params'][key] = None
+        self.set_parameter(key, None)
 
     # Aliases for parameter functions
     def clear_param(self):
-- 
2.43.0


From 58f715e98d09402a68e816f805550b76731151e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 037/101] fix: SpiceComponent created without a netlist line
 can be written

---
 spicelib/editor/spice_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 8aa0f60..5ae7492 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -395,7 +395,7 @@ class SpiceComponent(Component):
         :return: number of characters written
         :rtype: int
         """
-        if self._obj != "":
+        if self._obj:
             # try to rewrite the line preserving formatting
             return self.rewrite_lines(stream)
 
-- 
2.43.0


From bb85294963edd1d55667408d721fc3b4d14fbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 038/101] fix: set_component_attribute sets what
 get_component_attribute returns, if updates are allowed

---
 spicelib/editor/base_subcircuit.py           | 8 +++++++-
 spicelib/editor/spice_subcircuit_instance.py | 4 +---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/spicelib/editor/base_subcircuit.py b/spicelib/editor/base_subcircuit.py
index f373488..25d4be8 100644
--- a/spicelib/editor/base_subcircuit.py
+++ b/spicelib/editor/base_subcircuit.py
@@ -279,7 +279,13 @@ class BaseSubCircuit(ABC):
         :raises: ComponentNotFoundError - In case the component is not found
         """
         component = self.get_component(reference)
-        setattr(component, attribute, value)
+        parent: BaseSubCircuit = component.parent # pyright: ignore[reportAssignmentType]
+        permission = parent.begin_update()
+        if permission == UpdatePermission.Deny:
+            raise PermissionError(f"Update of Component {reference} attribute {attribute} denied")
+        component.attributes[attribute] = value
+        if permission == UpdatePermission.Inform:
+            parent.end_update(f"{component.reference}:{attribute}", value, UpdateType.UpdateComponentParameter)
 
     @abstractmethod
     def get_component_value(self, element: str) -> str:
diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index bc79aaa..ffaeaa6 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -239,10 +239,8 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         :return: Nothing
         :raises: ComponentNotFoundError - In case the component is not found
         """
-        self.begin_update()
         logger.debug(f'Setting attribute "{attribute}" of component "{reference}" to value "{value}"')
-        component  = self.get_component(reference)
-        setattr(component, attribute, value)
+        self.subcircuit.set_component_attribute(reference, attribute, value)
         # self.end_update(reference, value, UpdateType.UpdateComponentParameter)
 
 
-- 
2.43.0


From bc79dc7f885495b3d43c961447033f7d601fba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 039/101] fix: control sections and include files keep their
 type when a sub-circuit is cloned

---
 spicelib/editor/spice_subcircuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 6aa2f1c..672d39b 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -377,7 +377,8 @@ class SpiceCircuit(BaseSubCircuit):
             elif isinstance(primitive, SpiceComponent):
                 clone.netlist.append(primitive.clone(clone))
             elif isinstance(primitive, Primitive):
-                clone.netlist.append(Primitive(netlist=clone, obj=primitive.obj))
+                # this also keeps the control sections and the include files as such
+                clone.netlist.append(type(primitive)(netlist=clone, obj=primitive.obj))
             else:
                 clone.netlist.append(primitive)
         clone.netlist.append("***** ENDS SpiceEditor ****" + END_LINE_TERM)
-- 
2.43.0


From cb8485d3f0cfcf6a253c6d325640132fca55ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 040/101] fix: BaseSchematic.add_component is refused when
 updates are denied and is recorded

---
 spicelib/editor/base_schematic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index d36a8b8..0b2ca89 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -359,11 +359,16 @@ class BaseSchematic(BaseEditor):
         :param rotation: The new rotation of the component
         """
         comp = self.get_component(reference)
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Update of Component {reference} position denied")
         comp.position = position
         comp.rotation = rotation
         self.canvas_updated = True
 
     def add_component(self, component: SchematicComponent, **kwargs) -> None:
+        permission = self.begin_update()
+        if permission == UpdatePermission.Deny:
+            raise PermissionError("Adding components is denied")
         reference = component.reference
         if reference in self.components:
             _logger.error(f"Component {reference} already exists in the schematic")
@@ -378,6 +383,8 @@ class BaseSchematic(BaseEditor):
             # Update attributes
             component.attributes.update(kwargs)
         self.canvas_updated = True
+        if permission == UpdatePermission.Inform:
+            self.end_update(reference, component.attributes.get('Value'), UpdateType.AddComponent)
 
     def scale(self, offset_x, offset_y, scale_x, scale_y: float,
               round_fun: Callable[[float], int | float] | None = None) -> None:
-- 
2.43.0


From ce43354d2b62aa1f6428f90b62bed10fe2d6b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 041/101] fix: a colon inside a quoted QSPICE text does not
 break up its tag

---
 spicelib/editor/qsch_editor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 312824e..d7a2f11 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -231,9 +231,9 @@ class QschTag:
         else:
             raise OSError("Missing » when reading file")
         line = stream[i0:i]
-        # Now dividing the
-        if ': ' in line:
-            name, text = line.split(': ')
+        # Now dividing the label from its text. A colon inside a quoted string does not end a label
+        name, separator, text = line.partition(': ')
+        if separator and '"' not in name:
             self.tokens.append(name + ":")
             self.tokens.append(text)
         else:
-- 
2.43.0


From e7ea7e06d083af0c8fbadf85363de0782645f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 042/101] fix: removing a parameter leaves the parameters whose
 name ends alike untouched

---
 spicelib/editor/spice_subcircuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 672d39b..ae4b56a 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -636,7 +636,8 @@ class SpiceCircuit(BaseSubCircuit):
             if value is None:
                 # Remove the parameter from the netlist
                 if isinstance(netlist[param_line], Primitive):
-                    netlist[param_line]._obj = re.sub(PARAM_REGEX(param), '', netlist[param_line].obj, flags=re.IGNORECASE)
+                    line: str = netlist[param_line].obj
+                    netlist[param_line]._obj = line[:match.start()] + line[match.end():]
                     # if no other parameters are left, remove the line from the netlist
                     all_params = re.findall(PARAM_REGEX(r"\w+"), netlist[param_line].obj, flags=re.IGNORECASE)
                     if len(all_params) == 0:  # If the line is empty or only has .PARAM, remove it from the netlist
-- 
2.43.0


From 9934f1b1fa5caf9ff5ebf917481138a39d6e0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 043/101] fix: a sub-circuit whose name looks like a number is
 found by its name

---
 spicelib/editor/spice_subcircuit_instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index ffaeaa6..08ce7cf 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -44,7 +44,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         """Resets the sub-circuit instance to its original state."""
         super().reset_attributes()
         # The instruction below might fail if the sub-circuit was not parsed in the parent netlist.
-        self._subcircuit = self._netlist.get_subcircuit_named(self.value)  # In case it isn't given, get it from the parent
+        self._subcircuit = self._netlist.get_subcircuit_named(self.value_str)  # In case it isn't given, get it from the parent
 
     @property
     def subcircuit(self):
@@ -52,7 +52,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         saved if there is an update made to it."""
         if self._subcircuit is None:
             # Try to get it from the parent netlist
-            self._subcircuit = self._netlist.get_subcircuit_named(self.value) # pyright: ignore[reportOptionalMemberAccess]
+            self._subcircuit = self._netlist.get_subcircuit_named(self.value_str) # pyright: ignore[reportOptionalMemberAccess]
             if self._subcircuit is None:
                 raise AssertionError(f"Couldn't find the subcircuit named \"{self.value}\"")
             self.shadow_subcircuit = None
-- 
2.43.0


From 46ae4306e4060d1d6138129189e5926bb210a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 044/101] fix: sub-circuits are found by their whole name,
 whatever its case

---
 spicelib/editor/spice_subcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index ae4b56a..522a1d0 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -324,7 +324,7 @@ class SpiceCircuit(BaseSubCircuit):
         """
         for line in self.netlist:
             if isinstance(line, SpiceCircuit):
-                if line.name() == name:
+                if line.name().upper() == name.upper():  # Spice is case-insensitive
                     return line
             elif isinstance(line, IncludeFile):
                 # Searches inside the Include File
@@ -970,7 +970,7 @@ class SpiceCircuit(BaseSubCircuit):
         :meta private:
         """
         # 0. Setup things
-        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + subckt_name, re.IGNORECASE)
+        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + re.escape(subckt_name) + r"(\s|$)", re.IGNORECASE)
         # 1. Find Encoding
         try:
             encoding = detect_encoding(library, r"[\* a-zA-Z]")
-- 
2.43.0


From 2cc9dc379b644fe04eb744ad6b9a33c0c1740712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 045/101] fix: the updates list keeps the order of adding,
 updating and deleting a parameter, so that parameter() gives the last value

---
 spicelib/editor/updates.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index e40ec30..6306a26 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -101,12 +101,15 @@ class Updates:
 
     def add_update(self, name: str, value: UpdateValueType, updates: UpdateType):
         """Add an update to the list"""
-        for update in self.netlist_updates:
-            if (update.name == name and
-                    (name != "INSTRUCTION" or value == update.value) and  # if instruction then it should match
-                    (update.updates == updates or updates == UpdateType.InvalidUpdate)):
+        # Only the last update with the same name can be amended. If it is of another type, the order has to be preserved
+        update = None
+        for previous in reversed(self.netlist_updates):
+            if (previous.name == name and
+                    (name != "INSTRUCTION" or value == previous.value)):  # if instruction then it should match
+                if previous.updates == updates or updates == UpdateType.InvalidUpdate:
+                    update = previous
                 break
-        else:
+        if update is None:
             update = Update(name, value, updates)
             self.netlist_updates.append(update)
         if updates != UpdateType.InvalidUpdate:
@@ -116,16 +119,19 @@ class Updates:
 
     def value(self, reference) -> UpdateValueType:
         "Get the value update done to a component. Returns None if there wasn't any update."
-        for update in self.netlist_updates:
+        for update in reversed(self.netlist_updates):
             if update.updates == UpdateType.UpdateComponentValue and update.name == reference:
                 return update.value
         return None
 
     def parameter(self, name) -> UpdateValueType:
         "Get the update done to a parameter. Returns None if there wasn't any update."
-        for update in self.netlist_updates:
-            if update.updates in (UpdateType.UpdateParameter, UpdateType.AddParameter) and name == update.name:
-                return update.value
+        for update in reversed(self.netlist_updates):
+            if update.name == name:
+                if update.updates in (UpdateType.UpdateParameter, UpdateType.AddParameter):
+                    return update.value
+                elif update.updates == UpdateType.DeleteParameter:
+                    return None
         return None
 
     def updates_on(self, name: str) -> list[Update]:
-- 
2.43.0


From 4c3e11f81a0e5b7a1dc9b8ef6735abba5a086b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 046/101] fix: updates_on('R1') no longer gives the updates of
 R10

---
 spicelib/editor/updates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index 6306a26..b790d23 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -135,4 +135,5 @@ class Updates:
         return None
 
     def updates_on(self, name: str) -> list[Update]:
-        return [update for update in self.netlist_updates if update.name.startswith(name)]
+        # Either the item itself or something that belongs to it, such as "R1:Rser" or "X1:R1"
+        return [update for update in self.netlist_updates if update.name == name or update.name.startswith(name + ':')]
-- 
2.43.0


From 330e1b281a0149ee7e3adc48b568dac57575ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 047/101] fix: a continuation line that has no space after the
 '+' is no longer glued to the line before

---
 spicelib/editor/spice_subcircuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 522a1d0..cfb6889 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -129,7 +129,10 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
             if not (braces_stack or in_quotes):
                 next_char = stream.read(1)
                 if next_char == '+':
-                    next_char = None  # line continuation, ignore the newline and the '+'
+                    # line continuation, ignore the newline and the '+', but keep what was on the two lines separated
+                    next_char = stream.read(1)
+                    if current_line and not current_line[-1].isspace() and next_char and not next_char.isspace():
+                        current_line += ' '
                 elif next_char == '\n' and char=='\r' or next_char == '\r' and char=='\n':
                     # This is a Windows style line break, we need to consume the next character as well
                     # Next iteration will trigger the end of line, so we just ignore it here
-- 
2.43.0


From f916d149b4342f503231cfaccaafc67245ac7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 048/101] fix: an indented comment line with an open brace or
 quote no longer swallows the lines after it

---
 spicelib/editor/spice_subcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index cfb6889..4b18422 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -141,9 +141,9 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
                     yield current_line + char
                     current_line = ""  # reset the current line after yielding
                 continue
-        elif char =='*' and len(current_line)==0 and not braces_stack and not in_quotes:
+        elif char == '*' and not current_line.strip() and not braces_stack and not in_quotes:
             # This is a comment line, read till the end of the line
-            current_line = char + stream.readline()
+            current_line += char + stream.readline()
             if current_line:
                 yield current_line
             current_line = ""  # reset the current line after yielding
-- 
2.43.0


From 792c38be8ec29aaef710f538fac4cd9b37a37ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 049/101] fix: TraceRead.get_len() counts only the points of
 the given step

---
 spicelib/raw/raw_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index e070da0..8d162c1 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -312,7 +312,9 @@ class TraceRead(DataSet):
         :param step: Optional parameter the step index.
         :return: The number of data points
         """
-        return self.axis.step_offset(step + 1)
+        if self.axis is None:
+            return len(self.data)
+        return self.axis.step_offset(step + 1) - self.axis.step_offset(step)
 
     def __len__(self):
         """
-- 
2.43.0


From 9a3efec0ae12363b41bacd7c9fcad806569a5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 050/101] fix: report a RAW file with more steps than expected
 as such instead of raising IndexError

---
 spicelib/raw/raw_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index 8d162c1..c3afea5 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -104,7 +104,8 @@ class Axis(DataSet):
         k = 1
         while i < len(self.data):
             if self.data[i] == self.data[0]:
-                self.step_offsets[k] = i
+                if k < len(self.step_offsets):
+                    self.step_offsets[k] = i
                 k += 1
             i += 1
 
-- 
2.43.0


From d0d19f38b5bdc9609329854ab4b3104303671826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 051/101] fix: reading more traces no longer replaces the axis
 of a RAW file by a plain trace

---
 spicelib/raw/plot_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index df53880..26ee68d 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -635,9 +635,11 @@ class PlotData(PlotInterface):
                         if self._steps is not None:
                             self._axis.set_steps(self._steps)
 
-                    for trace_info in self._trace_info[start_index:]:
+                    for i, trace_info in enumerate(self._trace_info[start_index:], start_index):
                         data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints
-                        if trace_info.name in list_of_traces:
+                        if i == 0 and self._has_axis:
+                            pass  # the axis was already read, it shall not be replaced by a trace
+                        elif trace_info.name in list_of_traces:
                             # read this trace
                             raw_file.seek(self._fpos_data + previous_data_size)  # Move to the beginning of the data section
                             raw_data = self._read_bytes_from_file(raw_file, data_size)
@@ -688,6 +690,8 @@ class PlotData(PlotInterface):
                             # Set the steps if they exist
                             if self._steps is not None:
                                 self._axis.set_steps(self._steps)
+                        elif i == 0 and self._has_axis:
+                            pass  # the axis was already read, it shall not be replaced by a trace
                         elif trace_info.name in list_of_traces:
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
-- 
2.43.0


From 29fe0dd12f9afd45bd7a122c2d4160be7646fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 052/101] fix: get_axis() and get_len() load the axis when it
 was not read yet

---
 spicelib/raw/plot_data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 26ee68d..b842248 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -789,7 +789,7 @@ class PlotData(PlotInterface):
         :raises RuntimeError: if the RAW file does not have an axis.
         :return: Array with the X axis
         """
-        if self._axis:
+        if self._has_axis:
             axis = self.get_trace(0)
             assert isinstance(axis, Axis), "This RAW file does not have an axis."
             return axis.get_wave(step)
@@ -803,13 +803,14 @@ class PlotData(PlotInterface):
         :param step: the step index, defaults to 0
         :return: The number of data points
         """
-        if self._axis is None:
+        if not self._has_axis:
             # If there is no axis, the length is the number of points
             return self._nPoints
         else:
             # If there is an axis, the length is the length of the axis at the given step
-            assert isinstance(self._axis, Axis), "This RAW file does not have an axis."
-            return self._axis.get_len(step)
+            axis = self.get_trace(0)
+            assert isinstance(axis, Axis), "This RAW file does not have an axis."
+            return axis.get_len(step)
 
     def _load_step_information(self, filename: Path):
         if 'Command' not in self._raw_params:
-- 
2.43.0


From de282394073b2dbebf4a57da2e8233092b620ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 053/101] fix: an ASCII RAW plot followed immediately by
 another plot no longer hangs the reader

---
 spicelib/raw/plot_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index b842248..ec0afd8 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -399,10 +399,11 @@ class PlotData(PlotInterface):
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-            line = raw_file.readline().strip()
-            if len(line) != 0:
+            line = raw_file.readline()
+            if len(line) == 0:
+                break  # end of file
+            if len(line.strip(b' \t\r\n\0')) != 0:
                 raw_file.seek(cursor)  # go back to the beginning of the line
-            else:
                 break
         if self._verbose:
             _logger.debug(f"Plot nr {self._plot_nr}: ASCII data read successfully.")
-- 
2.43.0


From 26a6c6f19dc431ef14a7c50495c06f96b93b9083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 054/101] fix: read the values of ASCII RAW files that are
 encoded in utf-16

---
 spicelib/raw/plot_data.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index ec0afd8..cd4b8f0 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -342,6 +342,12 @@ class PlotData(PlotInterface):
                 _logger.debug(f"Plot nr. {self._plot_nr}: ASCII RAW File")
             self._read_ascii_vector(raw_file)
 
+    def _read_ascii_line(self, raw_file) -> str:
+        line = raw_file.readline()
+        if self._encoding == 'utf_16_le' and len(line) > 0:
+            line += raw_file.read(1)  # readline() stops at the first byte of the line terminator
+        return line.decode(encoding=self._encoding, errors='ignore')
+
     def _read_ascii_vector(self, raw_file):
         # Create the traces read vector
         for trace_info in self._trace_info:
@@ -370,7 +376,7 @@ class PlotData(PlotInterface):
         for point in range(self._nPoints):
             var_index = 0
             while var_index < len(self._trace_info):
-                line = raw_file.readline().decode(encoding=self._encoding, errors='ignore')
+                line = self._read_ascii_line(raw_file)
                 if len(line) == 0:
                     raise SpiceReadException(
                         f"Invalid RAW file. Plot nr. {self._plot_nr}: Invalid data: end of file encountered too early")
@@ -399,10 +405,10 @@ class PlotData(PlotInterface):
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-            line = raw_file.readline()
+            line = self._read_ascii_line(raw_file)
             if len(line) == 0:
                 break  # end of file
-            if len(line.strip(b' \t\r\n\0')) != 0:
+            if len(line.strip()) != 0:
                 raw_file.seek(cursor)  # go back to the beginning of the line
                 break
         if self._verbose:
-- 
2.43.0


From d8d0f34b6570056ee89b71c89f1b63f430b781f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 055/101] fix: find the steps of stepped RAW files that have no
 log file or are in ASCII

---
 spicelib/raw/plot_data.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index cd4b8f0..a8f81fa 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -311,6 +311,17 @@ class PlotData(PlotInterface):
         # Setting the properties in the proper format
         self._raw_params["Variables"] = [var.name for var in self._trace_info]
 
+        # if the file is binary, we need to move the file pointer to the end of the data section
+        if self._raw_type == 'binary:':
+            # now move the file pointer to the end of the data section, so that the next plot can be read
+            record_size = sum([np.dtype(t.dtype).itemsize for t in self._trace_info])
+            raw_file.seek(self._fpos_data + self._nPoints * record_size)
+        elif self._raw_type == 'values:':
+            # In this case for an ASCII file, it will not be lazy and will read all data.
+            if self._verbose:
+                _logger.debug(f"Plot nr. {self._plot_nr}: ASCII RAW File")
+            self._read_ascii_vector(raw_file)
+
         # Finally, Check for Step Information
         if "stepped" in self._raw_params["Flags"].lower():
             if self._verbose:
@@ -320,6 +331,7 @@ class PlotData(PlotInterface):
             except SpiceReadException as err:
                 _logger.warning(f"Plot nr. {self._plot_nr}: {str(err)}\nError in auto-detecting steps in '{raw_filename}'")
                 if self._has_axis:
+                    self.read_trace_data([])  # the axis is always read, it is needed to find the steps
                     number_of_steps = 0
                     if self._axis is not None:
                         for v in self._axis.data:
@@ -328,19 +340,11 @@ class PlotData(PlotInterface):
                 else:
                     number_of_steps = self._nPoints
                 self._steps = [{'run': i + 1} for i in range(number_of_steps)]
+            if self._axis is not None and self._steps is not None:
+                self._axis.set_steps(self._steps)
 
         if self._verbose:
             _logger.info(f"Plot nr. {self._plot_nr}: Plot read successfully.")
-        # if the file is binary, we need to move the file pointer to the end of the data section
-        if self._raw_type == 'binary:':
-            # now move the file pointer to the end of the data section, so that the next plot can be read
-            record_size = sum([np.dtype(t.dtype).itemsize for t in self._trace_info])
-            raw_file.seek(self._fpos_data + self._nPoints * record_size)
-        elif self._raw_type == 'values:':
-            # In this case for an ASCII file, it will not be lazy and will read all data.
-            if self._verbose:
-                _logger.debug(f"Plot nr. {self._plot_nr}: ASCII RAW File")
-            self._read_ascii_vector(raw_file)
 
     def _read_ascii_line(self, raw_file) -> str:
         line = raw_file.readline()
@@ -362,8 +366,6 @@ class PlotData(PlotInterface):
                 # This is the axis trace
                 self._axis = Axis(trace_info.name, trace_info.var_type, self._nPoints,
                                   inv_dtype_map[trace_info.dtype], trace_data)
-                if self._steps is not None:
-                    self._axis.set_steps(self._steps)
                 self._read_traces[trace_info.name] = self._axis
             else:
                 # Create trace object
-- 
2.43.0


From 4413c7dbdb0cae2bca402a9996db74023b016db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 056/101] fix: RawWrite writes complex data trace by trace when
 it flags the file as fastaccess

---
 spicelib/raw/raw_write.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 3b14e7a..ace0545 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -165,8 +165,7 @@ class RawWrite:
             f.write(f"\t{i}\t{trace.name}\t{trace.whattype}\n".encode(self.encoding))
         total_bytes = 0
         f.write("Binary:\n".encode(self.encoding))
-        if self.flag_fastaccess and self.flag_numtype != 'complex':  # Don't know why, but complex RAW files aren't
-            # converted to FastAccess
+        if self.flag_fastaccess:
             for trace in self._traces:
                 f.write(trace.data.tobytes())
         else:
-- 
2.43.0


From 13040d95f945d2f7a20e7eab3e2cf94f3b1d4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 057/101] fix: RawWrite accepts a complex frequency axis when
 no plot name is given

---
 spicelib/raw/raw_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index ace0545..b437b7f 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -118,7 +118,7 @@ class RawWrite:
                 self.plot_name = self.plot_name or 'Transient Analysis'
                 flag_numtype = 'real'
             elif trace.whattype == 'frequency':
-                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in self.plot_name:
+                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in (self.plot_name or ''):
                     self.plot_name = self.plot_name or 'Noise Spectral Density - (V/Hz½ or A/Hz½)'
                     flag_numtype = 'real'
                 else:
-- 
2.43.0


From b37aa680cd8a4a2652a36695d2830996af4ecf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 058/101] fix: RawWrite writes each trace with the number type
 that its header announces

---
 spicelib/raw/raw_write.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index b437b7f..c353b7c 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -28,7 +28,7 @@ from time import strftime
 
 from .raw_read import RawRead
 from .raw_classes import DataSet
-from numpy import array, float32, zeros
+from numpy import array, complex128, float32, float64, zeros
 
 
 class Trace(DataSet):
@@ -91,8 +91,25 @@ class RawWrite:
         self._imported_data = []
         self._new_axis = None
 
+    def _is_double(self) -> bool:
+        if self.flag_numtype == 'real':
+            # The axis is always written in double precision, it is the other traces that set the 'double' flag
+            return any(trace.numerical_type == 'double' for trace in self._traces[1:])
+        return self.flag_numtype == 'double'
+
+    def _trace_dtype(self, index: int):
+        """The type with which RAW readers expect the data of a trace, given the flags of the file."""
+        if self.flag_numtype == 'complex':
+            return complex128
+        elif index == 0 or self._is_double():
+            return float64
+        else:
+            return float32
+
     def _str_flags(self):
         flags = [self.flag_numtype]
+        if self.flag_numtype == 'real' and self._is_double():
+            flags.append('double')
         if self.flag_forward:
             flags.append('forward')
         if self.flag_log:
@@ -166,13 +183,13 @@ class RawWrite:
         total_bytes = 0
         f.write("Binary:\n".encode(self.encoding))
         if self.flag_fastaccess:
-            for trace in self._traces:
-                f.write(trace.data.tobytes())
+            for index, trace in enumerate(self._traces):
+                f.write(trace.data.astype(self._trace_dtype(index)).tobytes())
         else:
-            fmts = {trace: tobytes_for_trace(trace) for trace in self._traces}
+            columns = [trace.data.astype(self._trace_dtype(index)) for index, trace in enumerate(self._traces)]
             for i in range(len(self._traces[0])):
-                for trace in self._traces:
-                    total_bytes += f.write(fmts[trace](trace.data[i]))
+                for column in columns:
+                    total_bytes += f.write(column[i].tobytes())
         f.close()
 
     @staticmethod
@@ -368,9 +385,3 @@ class RawWrite:
     def __getitem__(self, item):
         """Helper function to access traces by using the [ ] operator."""
         return self.get_trace(item)
-
-
-def tobytes_for_trace(trace: Trace):
-    def tobytes(value):
-        return value.tobytes()
-    return tobytes
-- 
2.43.0


From 7445c931777d42cf339d46e4b2b762cea881d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 059/101] fix: RawWrite imports the requested step when it
 aligns the axes and doesn't rename the source trace

---
 spicelib/raw/raw_write.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index c353b7c..b336f16 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -319,8 +319,7 @@ class RawWrite:
                 for trace_name in trace_filter:
                     imported_trace = other.get_trace(trace_name)
                     new_name = self._rename_netlabel(trace_name, **kwargs)
-                    imported_trace.name = new_name
-                    self._imported_data.append(imported_trace)
+                    self._imported_data.append((new_name, imported_trace, from_step))
         else:
             assert len(self._traces[0]) == len(other.get_axis(from_step)), \
                 "The two instances should have the same size. To avoid this use force_axis_alignment=True option"
@@ -353,9 +352,9 @@ class RawWrite:
                 my_axis = old_axis.data
                 for trace in self._traces[1:]:
                     trace.data = self._interpolate(trace.data, my_axis, new_axis)
-            for imported_trace in self._imported_data:
-                new_trace = Trace(imported_trace.name,
-                                  self._interpolate(imported_trace.get_wave(), imported_trace.axis.get_wave(), new_axis),
+            for new_name, imported_trace, step in self._imported_data:
+                new_trace = Trace(new_name,
+                                  self._interpolate(imported_trace.get_wave(step), imported_trace.axis.get_wave(step), new_axis),
                                   imported_trace.whattype, imported_trace.numerical_type)
                 self._traces.append(new_trace)
             self._traces[0] = Trace(old_axis.name, new_axis,
-- 
2.43.0


From 4708ee25b7ef717278105789b25299d4859856e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 060/101] fix: export() doesn't change the list of columns it
 is given

---
 spicelib/raw/plot_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index a8f81fa..664eaba 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -952,8 +952,9 @@ class PlotData(PlotInterface):
         if columns is None:
             columns = self.get_trace_names()  # if no columns are given, use all traces
         else:
-            if self._axis and self._axis.name not in columns:  # If axis is not in the list, add it
-                columns.insert(0, self._axis.name)
+            columns = list(columns)  # the list of the caller shall not be changed
+            if self._has_axis and self._trace_info[0].name not in columns:  # If axis is not in the list, add it
+                columns.insert(0, self._trace_info[0].name)
 
         if isinstance(step, list):
             steps_to_read = step  # If a list of steps is given, use it
-- 
2.43.0


From 609c89840d9842ab08262cecf4562f9edf4b23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 061/101] fix: export() of a stepped operating point gives each
 point only once

---
 spicelib/raw/plot_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 664eaba..ce9c568 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -974,10 +974,13 @@ class PlotData(PlotInterface):
         self.read_trace_data(columns)
         for step in steps_to_read:
             for col in columns:
+                wave = self.get_wave(col, step)
+                if not self._has_axis and self._steps is not None:
+                    wave = wave[step:step + 1]  # without an axis each step is a single point
                 if col not in data:
-                    data[col] = self.get_wave(col, step)
+                    data[col] = wave
                 else:
-                    data[col] = np.concatenate((data[col], self.get_wave(col, step)))
+                    data[col] = np.concatenate((data[col], wave))
             if self._steps is not None and step < len(self._steps):
                 for col in step_columns:
                     if col not in data:
-- 
2.43.0


From e7a3bf4c668e0948f33432e92d63d693eba28d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 062/101] fix: step_count of log data built from a step set is
 the number of steps, not of step variables

---
 spicelib/log/logfile_data.py                | 3 ++-
 spicelib/sim/tookit/tolerance_deviations.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index c8f561a..9fd49ef 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -161,7 +161,8 @@ class LogfileData:
         else:
             self.dataset = dataset.copy()  # A copy is done since the dictionary is a mutable object.
 
-        self.step_count = len(self.stepset)
+        # each step variable has one value per step
+        self.step_count = max((len(values) for values in self.stepset.values()), default=0)
         self.measure_count = len(self.dataset)
 
     def __getitem__(self, key):
diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 5286c79..dd28579 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -246,7 +246,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                 run_start = self.log_data.stepset['run'][-1] + 1 if len(self.log_data.stepset) > 0 else 0
                 log_results.stepset = {'run': list(range(run_start, run_start + len(any_meas)))}
 
-            log_results.step_count = len(log_results.stepset)
+            log_results.step_count = len(log_results.stepset['run'])
 
         self.add_log_data(log_results)
         return log_results
@@ -273,7 +273,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                 # will use the size of the first element found in the dataset
                 any_meas = next(iter(self.log_data.dataset.values()))
                 self.log_data.stepset = {'run': list(range(len(any_meas)))}
-            self.log_data.step_count = len(self.log_data.stepset)
+            self.log_data.step_count = len(self.log_data.stepset['run'])
 
         self.simulation_results['log_data'] = self.log_data
         return self.log_data
-- 
2.43.0


From c5ba22c3689800e0469f2095b21d485b4bc5c3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 063/101] fix: log data doesn't share its step and measurement
 lists with the data it was made from

---
 spicelib/log/logfile_data.py        | 4 ++--
 spicelib/sim/tookit/sim_analysis.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 9fd49ef..936f8e9 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -153,13 +153,13 @@ class LogfileData:
         if step_set is None:
             self.stepset = {}
         else:
-            self.stepset = step_set.copy()  # A copy is done since the dictionary is a mutable object.
+            self.stepset = {name: list(values) for name, values in step_set.items()}  # A copy is done since the dictionary is a mutable object.
             # Changes in step_set would be propagated to object on the call
 
         if dataset is None:
             self.dataset = OrderedDict()  # Dictionary in which the order of the keys is kept
         else:
-            self.dataset = dataset.copy()  # A copy is done since the dictionary is a mutable object.
+            self.dataset = OrderedDict((name, list(values)) for name, values in dataset.items())  # A copy is done since the dictionary is a mutable object.
 
         # each step variable has one value per step
         self.step_count = max((len(values) for values in self.stepset.values()), default=0)
diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index 55bc58e..d76edb0 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -193,7 +193,7 @@ class SimAnalysis:
 
         for param in log_data.stepset:
             if param not in self.log_data.stepset:
-                self.log_data.stepset[param] = log_data.stepset[param]
+                self.log_data.stepset[param] = log_data.stepset[param][:]
             else:
                 self.log_data.stepset[param].extend(log_data.stepset[param])
         for param in log_data.dataset:
-- 
2.43.0


From b012efd511c832fe344ea820a388e5a3bb150c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 064/101] fix: .mout files can be read without giving the
 encoding and ltsteps finds their log file

---
 spicelib/log/ltsteps.py     | 2 +-
 spicelib/scripts/ltsteps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index d0c3e37..f26ae91 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -296,7 +296,7 @@ class LTSpiceLogReader(LogfileData):
         self.logname = log_filename
         self.fourier = {}
         if encoding is None:
-            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|([\s\S]*)--- Expanded Netlist ---)")
+            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|([\s\S]*)--- Expanded Netlist ---|Measurement:)")
         else:
             self.encoding = encoding
 
diff --git a/spicelib/scripts/ltsteps.py b/spicelib/scripts/ltsteps.py
index 7b633e9..33e8d1e 100644
--- a/spicelib/scripts/ltsteps.py
+++ b/spicelib/scripts/ltsteps.py
@@ -146,7 +146,7 @@ def main():
             data.split_complex_values_on_datasets()
             data.export_data(fname_out)
         elif filename.endswith(".mout"):
-            log_file = filename[:len('mout')] + 'log'
+            log_file = filename[:-len('mout')] + 'log'
             if os.path.exists(log_file):
                 steps = LTSpiceLogReader(log_file, read_measures=False)
                 data = LTSpiceLogReader(filename, step_set=steps.stepset)
-- 
2.43.0


From 490773b234712b277cf0bf023961dd42ba338891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 065/101] fix: LTSpiceExport reads files without steps and
 strips the line end from the last header

---
 spicelib/log/ltsteps.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index f26ae91..c82eb9a 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -180,12 +180,12 @@ class LTSpiceExport:
         fin = open(export_filename, encoding=self.encoding)
         file_header = fin.readline()
 
-        self.headers = file_header.split('\t')
+        self.headers = file_header.rstrip('\r\n').split('\t')
         # Set to read header
         go_header = True
 
         curr_dic = {}
-        self.dataset = {}
+        self.dataset = {key.lower(): [] for key in self.headers}
 
         regx = re.compile(r"Step Information: ([\w=\d\. -]+) +\(Run: (\d*)/\d*\)\n")
         for line in fin:
@@ -200,9 +200,6 @@ class LTSpiceExport:
 
                     if go_header:
                         go_header = False  # This is executed only once
-                        for key in self.headers:
-                            self.dataset[key.lower()] = []  # Initializes an empty list
-
                         for key in curr_dic:
                             self.dataset[key.lower()] = []  # Initializes an empty list
 
-- 
2.43.0


From 99b43512268e46215f9889ae7dead176ca8fca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 066/101] fix: step lines with any parameter value are
 recognized in exported data

---
 spicelib/log/ltsteps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index c82eb9a..186a7b5 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -126,7 +126,7 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
     go_header = True
     run_no = 0  # Just to avoid warning, this is later overridden by the step information
     param_values = ""  # Just to avoid warning, this is later overridden by the step information
-    regx = re.compile(r"Step Information: ([\w=\d\. \-]+) +\((?:Run|Step): (\d*)/\d*\)\n")
+    regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)\s*$")
     for line in fin:
         if line.startswith("Step Information:"):
             match = regx.match(line)
@@ -187,7 +187,7 @@ class LTSpiceExport:
         curr_dic = {}
         self.dataset = {key.lower(): [] for key in self.headers}
 
-        regx = re.compile(r"Step Information: ([\w=\d\. -]+) +\(Run: (\d*)/\d*\)\n")
+        regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)\s*$")
         for line in fin:
             if line.startswith("Step Information:"):
                 match = regx.match(line)
-- 
2.43.0


From 39e46867c89b05a287fa89826f2057d283f6dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 067/101] fix: export_data() uses the requested line terminator

---
 spicelib/log/logfile_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 936f8e9..4caaf15 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -424,7 +424,7 @@ class LogfileData:
                 fout.write(value_separator + title)
                 columns_per_line += 1
 
-        fout.write('\n')  # Finished to write the headers
+        fout.write(line_terminator)  # Finished to write the headers
 
         if data_size is None:
             data_size = 0  # Skips writing data in the loop below
@@ -460,7 +460,7 @@ class LogfileData:
             if columns_writen != columns_per_line:
                 logging.error(f"Line with wrong number of values."
                               f" Expected:{columns_per_line} Index {index+1} has {columns_writen}")
-            fout.write('\n')
+            fout.write(line_terminator)
 
         fout.close()
 
-- 
2.43.0


From 6abb85ff1e7613e96e9c8845316387e1b37a50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 068/101] fix: reformat_LTSpice_export() writes the headers of
 files without steps

---
 spicelib/log/ltsteps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 186a7b5..6e078c2 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -147,6 +147,9 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
                     _logger.debug(msg)
                     go_header = False
         else:
+            if go_header:  # There are no steps in this file
+                fout.write(f"Run\t\t{headers}")
+                go_header = False
             fout.write(f"{run_no}\t{param_values}\t{line}")
 
     fin.close()
-- 
2.43.0


From 98864c508e3a7730a14790e3ac9d53aa0ab9679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 069/101] fix: max/min/avg_measure_value() accept a single step
 number

---
 spicelib/log/logfile_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 4caaf15..686a4ec 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -307,7 +307,7 @@ class LogfileData:
         :return: maximum value of the measurement
         :rtype: float or int
         """
-        return max(self.get_measure_values_at_steps(measure, steps))
+        return max(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))
 
     def min_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str:
@@ -321,7 +321,7 @@ class LogfileData:
         :return: minimum value of the measurement
         :rtype: float or int
         """
-        return min(self.get_measure_values_at_steps(measure, steps))
+        return min(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))
 
     def avg_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str | LTComplex:
@@ -335,7 +335,7 @@ class LogfileData:
         :return: average value of the measurement
         :rtype: float or int
         """
-        values = self.get_measure_values_at_steps(measure, steps)
+        values = self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps)
         return sum(values) / len(values)
 
     def obtain_amplitude_and_phase_from_complex_values(self):
-- 
2.43.0


From 6278e1d22056a626501b3fb9dc28c3e559bddd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:16 +0000
Subject: [PATCH 070/101] fix: the harmonics of a log without steps are
 exported under their own headers

---
 spicelib/log/ltsteps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 6e078c2..1604a37 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -505,7 +505,8 @@ class LTSpiceLogReader(LogfileData):
                                        f"{analysis.phd}\t"
                                        f"{analysis.thd}\n")
                 fout.write("\n\nHarmonic Analysis\n")
-                fout.write("\t".join(self.stepset.keys()) + "\t")
+                if self.step_count > 0:
+                    fout.write("\t".join(self.stepset.keys()) + "\t")
                 fout.write("Signal\tN-Periods\tHarmonic\tFrequency\tFourier\tNormalized\tPhase\tNormalized\n")
                 for signal in self.fourier:
                     for analysis in self.fourier[signal]:
-- 
2.43.0


From 565b6c39ab1f13372e5bd69ddaf427c599f63ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 071/101] fix: the stop flag of ServerSimRunner doesn't hide
 the method of Thread that join() needs

---
 spicelib/client_server/srv_sim_runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index b25748f..5dd5f2f 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -73,7 +73,7 @@ class ServerSimRunner(threading.Thread):
         self.runner = SimRunner(simulator=simulator, parallel_sims=parallel_sims, timeout=timeout,
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
-        self._stop = False
+        self._stop_requested = False  # Thread has a method called _stop
 
     def run(self) -> None:
         """
@@ -105,7 +105,7 @@ class ServerSimRunner(threading.Thread):
                 _logger.debug(len(self.completed_tasks))
 
             time.sleep(0.2)
-            if self._stop is True:
+            if self._stop_requested is True:
                 break
         self.runner.wait_completion()
         self.runner.cleanup_files()  # Delete things that have been left behind
@@ -158,7 +158,7 @@ class ServerSimRunner(threading.Thread):
 
     def stop(self):
         _logger.info("stopping...ServerSimRunner")
-        self._stop = True
+        self._stop_requested = True
 
     def running(self):
-        return self._stop is False
+        return self._stop_requested is False
-- 
2.43.0


From 14ef32a35c1850b8275c8810ed53bd2668ed6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 072/101] fix: SimClient doesn't wait for jobs that the server
 didn't start

---
 spicelib/client_server/sim_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index 80f2c89..40ad2c4 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -181,8 +181,9 @@ class SimClient:
 
             # server side method signature: def run(self, session_id: str, circuit_name: str, zip_data: Binary) -> int
             run_id = int(self.server.run(self.session_id, circuit_name, zip_data))  # type: ignore
-            job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
-            self.started_jobs[run_id] = job_info
+            if run_id != -1:  # -1 means that the server didn't start the simulation
+                job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
+                self.started_jobs[run_id] = job_info
             return run_id
         else:
             _logger.error(f"Client: Circuit {circuit} doesn't exit")
-- 
2.43.0


From d22728cea7b19fcb64797122943bb243586e7863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 073/101] fix: iterating over a SimClient skips finished jobs
 whose data was not yet fetched

---
 spicelib/client_server/sim_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index 40ad2c4..9b9b8c4 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -218,7 +218,8 @@ class SimClient:
     def __next__(self):
         while len(self.started_jobs) > 0:
             # server side method signature: def status(self, session_id: str) -> list[int]
-            status: list[int] = self.server.status(self.session_id)  # type: ignore
+            status: list[int] = [runno for runno in self.server.status(self.session_id)  # type: ignore
+                                 if runno in self.started_jobs]  # without those that were not yet transferred
             if len(status) > 0:
                 runno = status.pop(0)
                 self.stored_jobs[runno] = self.started_jobs.pop(runno)  # Job is taken out of the started jobs list and
-- 
2.43.0


From 9e174be67c32490b36fa9b6e00b096521699cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 074/101] fix: a client can stop the server

---
 spicelib/client_server/sim_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index 6e58ad6..b36b7f5 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -194,7 +194,11 @@ class SimServer:
         """
         _logger.debug("Server: stopping...ServerInterface")
         self.simulation_manager.stop()
-        self.server.shutdown()
+        if threading.current_thread() is self.server_thread:
+            # Called by a client. shutdown() waits for the server loop, which is waiting for this call to end
+            threading.Thread(target=self.server.shutdown, name="ServerShutdownThread").start()
+        else:
+            self.server.shutdown()
         _logger.info("Server: stopped...ServerInterface")
         return True  # Needs to return always something. None is not supported
 
-- 
2.43.0


From 07912d74f2f3be77bbcbfae1bed398e5b28ac262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 075/101] fix: stopping the server deletes the files of
 finished tasks that were not fetched

---
 spicelib/client_server/srv_sim_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index 5dd5f2f..79c43d2 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -109,6 +109,7 @@ class ServerSimRunner(threading.Thread):
                 break
         self.runner.wait_completion()
         self.runner.cleanup_files()  # Delete things that have been left behind
+        self.cleanup_completed()  # and the files of the tasks that no client has fetched
 
     def add_simulation(self, netlist: str | Path | BaseEditor, *, timeout: float | None = None) -> int:
         """
-- 
2.43.0


From 65885748af78223fb86d7bb6d62fb51911b1e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 076/101] fix: tasks are moved to completed_tasks by one thread
 at a time

---
 spicelib/sim/sim_runner.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index f2e88ed..5b12c8d 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -104,6 +104,7 @@ __all__ = ['SimRunner', 'SimRunnerTimeoutError', 'AnyRunner', 'ProcessCallback',
 import inspect  # Library used to get the arguments of the callback function
 import logging
 import shutil
+import threading
 import time
 from pathlib import Path
 from time import sleep, thread_time as clock
@@ -316,6 +317,7 @@ class SimRunner(AnyRunner):
         self.parallel_sims = parallel_sims
         self.active_tasks: list[RunTask] = []
         self.completed_tasks: list[RunTask] = []
+        self._update_lock = threading.Lock()  # for moving tasks from active_tasks to completed_tasks
 
         self._runno = 0  # number of total runs
         self._failSim = 0  # number of failed simulations
@@ -652,18 +654,20 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         :meta private:
         """
-        i = 0
-        while i < len(self.active_tasks):
-            if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:  # running or not yet started
-                i += 1
-            else:
-                if self.active_tasks[i].retcode == 0:
-                    self._okSim += 1
+        with self._update_lock:  # The simulation server calls this from two threads
+            i = 0
+            while i < len(self.active_tasks):
+                if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:
+                    # running or not yet started
+                    i += 1
                 else:
-                    # simulation failed
-                    self._failSim += 1
-                task = self.active_tasks.pop(i)
-                self.completed_tasks.append(task)
+                    if self.active_tasks[i].retcode == 0:
+                        self._okSim += 1
+                    else:
+                        # simulation failed
+                        self._failSim += 1
+                    task = self.active_tasks.pop(i)
+                    self.completed_tasks.append(task)
 
     def kill_all_ltspice(self):
         """
-- 
2.43.0


From 779a8c1dfe29ede1b8d4310d4ad27897a9a7f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:34 +0000
Subject: [PATCH 077/101] fix: the timeout of waiting for resources counts
 elapsed time, not the CPU time of the thread

---
 spicelib/sim/sim_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 5b12c8d..894645d 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -107,7 +107,7 @@ import shutil
 import threading
 import time
 from pathlib import Path
-from time import sleep, thread_time as clock
+from time import sleep, monotonic as clock
 from typing import Protocol, Any, TypeAlias
 
 from collections.abc import Callable, Iterator
-- 
2.43.0


From f60c5b5ed3a3125f5ac8b0e7397f142c47467acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 078/101] fix: sweep() and sweep_n() no longer lose the last
 point by rounding errors

---
 spicelib/utils/sweep_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index 496b7a6..a11da3f 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -79,7 +79,8 @@ class sweep(BaseIterator):
     def __next__(self):
         val = self.start + self.niter * self.step
         self.niter += 1
-        if (self.step > 0 and val <= self.stop) or (self.step < 0 and val >= self.stop):
+        limit = self.stop + 1e-6 * self.step  # Rounding errors must not exclude the last point
+        if (self.step > 0 and val <= limit) or (self.step < 0 and val >= limit):
             return val
         else:
             self.finished = True
-- 
2.43.0


From 41ec6d228de87a769dc6bdca88597acd07be15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 079/101] fix: SimStepper runs all combinations also when
 sweeps are given as generators or share an iterator

---
 spicelib/sim/sim_stepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 4662917..f3ee8d9 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -38,10 +38,10 @@ class StepInfo:
     def __init__(self, what: str, elem: str, iterable: Iterable):
         self.what = what
         self.elem = elem
-        self.iter = iterable
+        self.iter = list(iterable)  # it is iterated several times, which not all iterables support
 
     def __len__(self):
-        return len(list(self.iter))
+        return len(self.iter)
 
     def __str__(self):
         return f"Iteration on {self.what} {self.elem} : {self.iter}"
-- 
2.43.0


From 5a7d1dbfff044c47d401643fb5df0e25e405f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 080/101] fix: export_step_info() works for runs with different
 values set and without runs

---
 spicelib/sim/sim_stepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index f3ee8d9..7baf6e2 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -252,8 +252,8 @@ class SimStepper(AnyRunner):
         rows = [runno for runno in self.sim_info]
         rows.sort()
 
-        # Extract column names from the first dictionary
-        fieldnames = ['runno'] + list(self.sim_info[rows[0]].keys())
+        # The column names are the ones of all simulations, which don't need to have the same values set
+        fieldnames = ['runno'] + list(dict.fromkeys(name for runno in rows for name in self.sim_info[runno]))
 
         # Open a CSV file for writing
         with open(export_filename, 'w', newline='') as csvfile:
-- 
2.43.0


From af3952a67a3ae3481f787f7214b1859fdc3c5753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:42 +0000
Subject: [PATCH 081/101] fix: sweep_log() no longer loses the last point by
 rounding errors

---
 spicelib/utils/sweep_iterators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index a11da3f..552c53b 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -134,8 +134,9 @@ class sweep_log(BaseIterator):
     def __next__(self):
         val = self.val  # Store previous value
         self.val *= self.step  # Calculate the next item
-        if (self.start < self.stop and val <= self.stop) or \
-           (self.start > self.stop and val >= self.stop):
+        limit = self.stop * self.step ** 1e-6  # Rounding errors must not exclude the last point
+        if (self.start < self.stop and val <= limit) or \
+           (self.start > self.stop and val >= limit):
             return val
         else:
             self.finished = True
-- 
2.43.0


From ebad95bddeb61c8eea9e18732acb28d5fb9138f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 082/101] fix: instructions received after the first ones were
 played are no longer lost

---
 spicelib/sim/tookit/sim_analysis.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index d76edb0..981b483 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -55,7 +55,7 @@ class SimAnalysis:
         self.simulations = []
         self.last_run_number = 0
         self.received_instructions = []
-        self.instructions_added = False
+        self.instructions_added = 0  # number of the received instructions that were already added to the netlist
         self.log_data = LogfileData()
 
     def clear_simulation_data(self):
@@ -111,7 +111,7 @@ class SimAnalysis:
         user. This is useful for the case where the user wants to run multiple simulations with different parameters
         without having to add the instructions again."""
         self.editor.reset_netlist()
-        self.instructions_added = False
+        self.instructions_added = 0
 
     def set_component_value(self, ref: str, new_value: str):
         self.received_instructions.append(('set_component_value', ref, new_value))
@@ -132,9 +132,7 @@ class SimAnalysis:
         self.received_instructions.append(('remove_Xinstruction', search_pattern))
 
     def play_instructions(self):
-        if self.instructions_added:
-            return  # Nothing to do
-        for instruction in self.received_instructions:
+        for instruction in self.received_instructions[self.instructions_added:]:
             if instruction[0] == 'set_component_value':
                 self.editor.set_component_value(instruction[1], instruction[2])
             elif instruction[0] == 'set_element_model':
@@ -149,7 +147,7 @@ class SimAnalysis:
                 self.editor.remove_Xinstruction(instruction[1])
             else:
                 raise ValueError("Unknown instruction")
-        self.instructions_added = True
+        self.instructions_added = len(self.received_instructions)
 
     def save_netlist(self, filename: str):
         self.play_instructions()
-- 
2.43.0


From 204d458ea95cfd85819c053e74e65c166f19e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 083/101] fix: prepare_testbench() sets the deviations in the
 netlist instead of adding them to the instructions of the user

---
 spicelib/sim/tookit/montecarlo.py                 | 3 ++-
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 3 ++-
 spicelib/sim/tookit/worst_case.py                 | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 3abaa2e..c53d5d6 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -68,6 +68,7 @@ class Montecarlo(ToleranceDeviations):
         min_max_norm_func = False
         tol_uni_func = False
         tol_norm_func = False
+        self.play_instructions()  # the deviations apply to the values set by the user
         self.elements_analysed.clear()
         for ref in self.get_components('*'):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
@@ -90,7 +91,7 @@ class Montecarlo(ToleranceDeviations):
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
 
             if new_val != val:  # Only update the value if it has changed
-                self.set_component_value(ref, new_val)  # update the value
+                self.editor.set_component_value(ref, new_val)  # update the value
                 self.elements_analysed.append(ref)
 
         for param in self.parameter_deviations:
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index 1c266d8..ad43aa6 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -34,6 +34,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for each component"""
         no = 0
+        self.play_instructions()  # the deviations apply to the values set by the user
         self.elements_analysed.clear()
         use_min = kwargs.get('use_min', False)
         for comp in self.get_components('*'):
@@ -46,7 +47,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                 new_val = "{sammx(%s,%g,%d)}" % (val, used_value, no)
 
             if new_val != val:
-                self.set_component_value(comp, new_val)
+                self.editor.set_component_value(comp, new_val)
                 self.elements_analysed.append(comp)
                 no += 1
 
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index a11bcb3..c99c240 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -61,13 +61,14 @@ class WorstCaseAnalysis(ToleranceDeviations):
             new_val = "{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calculate expression for new value
 
         if new_val != val:
-            self.set_component_value(ref, new_val)  # update the value
+            self.editor.set_component_value(ref, new_val)  # update the value
             self.elements_analysed.append(ref)
         return True
 
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for the components"""
         index = 0
+        self.play_instructions()  # the deviations apply to the values set by the user
         self.elements_analysed.clear()
         for ref in self.device_deviations:
             if self._set_component_deviation(ref, index):
-- 
2.43.0


From 226dfb236120c1defd295b0e12c71a5e3064790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 084/101] fix: Montecarlo testbench defines nrng() also when
 only components use it

---
 spicelib/sim/tookit/montecarlo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index c53d5d6..596e0eb 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -89,6 +89,7 @@ class Montecarlo(ToleranceDeviations):
                 elif dev.distribution == 'normal':
                     new_val = "{nrng(%s,%g,%g)}" % (
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
+                    min_max_norm_func = True
 
             if new_val != val:  # Only update the value if it has changed
                 self.editor.set_component_value(ref, new_val)  # update the value
-- 
2.43.0


From 9b2f8b5610ab0e084920154e820667619391355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 085/101] fix: Montecarlo testbench with a normally distributed
 tolerance of a parameter no longer raises TypeError

---
 spicelib/sim/tookit/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 596e0eb..fc554df 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -103,7 +103,7 @@ class Montecarlo(ToleranceDeviations):
                     new_val = "{utol(%s,%g)}" % (val, dev.tolerance)
                     tol_uni_func = True
                 elif dev.distribution == 'normal':
-                    new_val = "{ntol(%g,%g)}" % (val, dev.tolerance)
+                    new_val = "{ntol(%s,%g)}" % (val, dev.tolerance)
                     tol_norm_func = True
             elif dev.typ == DeviationType.minmax:
                 if dev.distribution == 'uniform':
-- 
2.43.0


From 98022d74bac08d0528d63c38e7013f4ca91608a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 086/101] fix: unbalanced parenthesis in urng() of the
 Montecarlo testbench for Qspice

---
 spicelib/sim/tookit/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index fc554df..70288ab 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -142,7 +142,7 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func ntol(nom,tol) {if(run<0, nom, nom*(1+gauss(tol/3)))}")
 
             if min_max_uni_func:
-                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+(df2*(2*random()-1))")
+                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+df2*(2*random()-1))")
 
             if min_max_norm_func:
                 self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
-- 
2.43.0


From 36fb05c3c0ecfc164436e0c75b1727ad83467db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 087/101] fix: Montecarlo testbench no longer removes the zeros
 of tolerances like 10 or 1e-10

---
 spicelib/sim/tookit/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 70288ab..5535e69 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -74,7 +74,7 @@ class Montecarlo(ToleranceDeviations):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
             new_val = val
             if dev.typ == DeviationType.tolerance:
-                tolstr = ('%g' % dev.tolerance).rstrip('0').rstrip('.')
+                tolstr = '%g' % dev.tolerance
                 if dev.distribution == 'uniform':
                     new_val = "{utol(%s,%s)}" % (val, tolstr)  # calculate expression for new value
                     tol_uni_func = True
-- 
2.43.0


From 6510e89c29d0a51c368a94cb91d41f1d41c2333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 088/101] fix: nrng() of the Montecarlo testbench uses the
 deviation as absolute value, as _get_sim_value() does

---
 spicelib/sim/tookit/montecarlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 5535e69..1f5b959 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -128,7 +128,7 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+flat(df2))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         elif self.runner.simulator.__name__ == 'Qspice':
             # if gauss function is needed
             #  => This is finally not needed because Qspice has a built-in gauss function (non-documented)
@@ -145,7 +145,7 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+df2*(2*random()-1))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         else:
             _logger.warning("Simulator not supported for this method")
             raise NotImplementedError("Simulator not supported for this method")
-- 
2.43.0


From 488b86cdd7aed2b070f35006ee75eea210e74bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 089/101] fix: run_testbench() with a callback marks the
 testbench as executed

---
 spicelib/sim/tookit/tolerance_deviations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index dd28579..2b63868 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -221,9 +221,9 @@ class ToleranceDeviations(SimAnalysis, ABC):
             self.simulations.append(sim)
             self.editor.remove_instruction(run_stepping)
         self.runner.wait_completion()
+        self.testbench_executed = True
         if callback is not None:
             return (sim.get_results() if sim is not None else None for sim in self.simulations)
-        self.testbench_executed = True
         return None
 
     def add_log(self, run_task: RunTask) -> LogfileData | None:
-- 
2.43.0


From f2551bcc54937f78455b07e42496875e0cd8b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 090/101] fix: add_log() returns None for a log file that can't
 be read

---
 spicelib/sim/tookit/tolerance_deviations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 2b63868..cce67a7 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -233,6 +233,8 @@ class ToleranceDeviations(SimAnalysis, ABC):
             return None
 
         log_results = self.read_logfile(run_task)
+        if log_results is None:
+            return None
         if len(log_results.stepset) == 0:
             if 'run' in log_results.dataset and len(log_results.dataset['run']) > 0:
                 if isinstance(log_results.dataset['run'][0], LTComplex):
-- 
2.43.0


From 029d1425fc1132f0f6ee1501244299558c194268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 091/101] fix: FastWorstCaseAnalysis restarts the cycle instead
 of raising TypeError when an assumption was wrong

---
 spicelib/sim/tookit/fast_worst_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index a540a0b..b72209b 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -239,7 +239,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
                 max_setting[ref] = not max_setting[ref]
                 max_value = new_value
                 # Need to restart the cycle
-                iterator = iterator(self.elements_analysed)
+                iterator = iter(self.elements_analysed)
 
             # setting it back to the maximum value
             if max_setting[ref]:
-- 
2.43.0


From 01d8ed207a4e10eda3752a33d415d32b9a9adc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 092/101] fix: FastWorstCaseAnalysis keeps the instructions of
 the user at the end of the analysis

---
 spicelib/sim/tookit/fast_worst_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index b72209b..6b56e5f 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -307,7 +307,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         self.clear_simulation_data()
         self.cleanup_files()
-        self.reset_netlist()
+        self._reset_netlist()
         self.play_instructions()
 
         return nominal, min_value, max_comp_values, max_value, min_comp_values
-- 
2.43.0


From e468285b055ee1b1cb527159bbfc45c6d7aaa8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 093/101] fix: make_sensitivity_analysis() of a measure that
 never changes no longer divides by zero

---
 spicelib/sim/tookit/worst_case.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index c99c240..9232e92 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -263,12 +263,12 @@ class WorstCaseAnalysis(ToleranceDeviations):
                 # Returns a dictionary with all the references sensitivity
                 answer = {}
                 for ref, (sens, sigma) in sensitivities.items():
-                    answer[ref] = sens / total * 100, sigma / total * 100
+                    answer[ref] = (sens / total * 100, sigma / total * 100) if total != 0 else (0, 0)
                 return answer
             else:
                 # Calculates the sensitivity for the given component
                 sens, sigma = sensitivities[ref]
-                return sens /total * 100, sigma / total * 100
+                return (sens / total * 100, sigma / total * 100) if total != 0 else (0, 0)
         else:
             _logger.warning("The analysis was not executed. Please run the run_analysis(...) or run_testbench(...)"
                             " before calling this method")
-- 
2.43.0


From 4f72884959fa948ae90e176628f264a761409b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 094/101] fix: run_analysis() takes the nominal values from the
 reset netlist with the instructions of the user played

---
 spicelib/sim/tookit/fast_worst_case.py            | 4 ++--
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 4 ++--
 spicelib/sim/tookit/worst_case.py                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index 6b56e5f..e22c5c8 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -95,6 +95,8 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         self.clear_simulation_data()
         self.elements_analysed.clear()
+        self._reset_netlist()  # so that the nominal values are read below
+        self.play_instructions()  # play the instructions
         worst_case_elements = {}
 
         def check_and_add_component(ref1: str):
@@ -169,8 +171,6 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         _logger.info("Worst Case Analysis: %d elements to be analysed", len(self.elements_analysed))
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Simulate the nominal case
         self.run(wait_resource=True,
                  callback=callback, callback_args=callback_args,
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index ad43aa6..3625506 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -104,6 +104,8 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
         self.elements_analysed.clear()
         # Calculate the number of runs
 
+        self._reset_netlist()  # so that the nominal values are read below
+        self.play_instructions()  # play the instructions
         worst_case_elements = {}
 
         def check_and_add_component(ref1: str):
@@ -133,8 +135,6 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Add the run number to the measurements by using a parameter
         self.editor.set_parameter('run', -1)  # in case the step is commented.
         self.editor.add_instruction(".meas runm PARAM {run}")
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 9232e92..13dbb29 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -111,6 +111,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
         The advantage of this method is that it doesn't require adding random functions to the netlist."""
         self.clear_simulation_data()
         self.elements_analysed.clear()
+        self._reset_netlist()  # so that the nominal values are read below
+        self.play_instructions()  # play the instructions
         worst_case_elements = {}
 
         def check_and_add_component(ref1: str):
@@ -146,8 +148,6 @@ class WorstCaseAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         self.editor.set_parameter('run', -1)  # This is aligned with the testbench preparation
         self.editor.add_instruction(".meas runm PARAM {run}")
         # Simulate the nominal case
-- 
2.43.0


From 241297b7025b921a61d9a503b0fad826c0dc43a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:20 +0000
Subject: [PATCH 095/101] fix: LTSPICEFOLDER given alone is not dropped from
 the path of the executable

---
 spicelib/simulators/ltspice_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/simulators/ltspice_simulator.py b/spicelib/simulators/ltspice_simulator.py
index 8f037c3..a190e10 100644
--- a/spicelib/simulators/ltspice_simulator.py
+++ b/spicelib/simulators/ltspice_simulator.py
@@ -70,7 +70,7 @@ class LTspice(Simulator):
             spice_exe = [wine_executable, os.path.join(spice_folder, spice_executable)]
             process_name = spice_executable
         elif spice_folder:
-            spice_exe = [wine_executable, os.path.join(spice_folder, "/XVIIx64.exe")]
+            spice_exe = [wine_executable, os.path.join(spice_folder, "XVIIx64.exe")]
             process_name = "XVIIx64.exe"
         elif spice_executable:
             default_folder = os.path.expanduser(
-- 
2.43.0


From 3b0f9a76a53c33ee98ea2d6eb9b53b5776440276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:44 +0000
Subject: [PATCH 096/101] fix: reset_tolerances() also clears the tolerances
 set for a prefix

---
 spicelib/sim/tookit/tolerance_deviations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index cce67a7..ea351c1 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -87,6 +87,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
         """
         Clears all the settings for the simulation
         """
+        self.default_tolerance = {prefix: ComponentDeviation.none() for prefix in self.devices_with_deviation_allowed}
         self.device_deviations.clear()
         self.parameter_deviations.clear()
         self.testbench_prepared = False
-- 
2.43.0


From cd5229bf479e0b8fb7a2dd2342e3df338e3adb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:59 +0000
Subject: [PATCH 097/101] fix: the qualifier 'meg' in lower case was read as
 milli

parse_value() recognizes 'MEG' in any case, but took the multiplier of its
first letter: '1meg', as SPICE netlists write it, became 0.001.
---
 spicelib/utils/float_unit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index e2deee9..4b109cd 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -66,6 +66,7 @@ def parse_value(value, accept_invalid):
                 if value[i] in _MULT:
                     multiplier = _MULT[value[i]]
                     if value[i:].upper().startswith('MEG'):  # to support Spice like qualifier 'MEG'
+                        multiplier = 1E+6  # whatever the case, 'meg' is not milli
                         i += 3
                     else:
                         i += 1
-- 
2.43.0


From 7d70918893e8f92521c10e43cc30eb7ae2ac3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:54 +0000
Subject: [PATCH 098/101] fix: raw_convert outputs the traces asked for

The traces of the command line were looked up in the raw file, but all traces
were written whichever were given.
---
 spicelib/scripts/raw_convert.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/scripts/raw_convert.py b/spicelib/scripts/raw_convert.py
index 66e8121..685a16c 100644
--- a/spicelib/scripts/raw_convert.py
+++ b/spicelib/scripts/raw_convert.py
@@ -106,13 +106,15 @@ def main():
                 print("\t<" + trace + ">")
             exit(1)
         print("Reading traces: ", found_traces)
+        columns = found_traces  # the axis is added by the export functions
 
     else:
+        columns = None  # all traces
         raw_data = RawRead(rawfile, traces, dialect=options.dialect, verbose=options.verbose)
 
     # Output the file
     if options.output is None:
-        data = raw_data.export()
+        data = raw_data.export(columns=columns)
 
         text = options.separator.join(data.keys()) + '\n'
         data_size = len(data[data.__iter__().__next__()])
@@ -127,11 +129,11 @@ def main():
     else:
         if options.output.endswith(".csv"):
             print("Writing CSV file...", end="")
-            raw_data.to_csv(options.output, separator=options.separator, index=False)
+            raw_data.to_csv(options.output, columns=columns, separator=options.separator, index=False)
             print("Done")
         elif options.output.endswith(".xlsx"):
             print("Writing Excel file...", end="")
-            raw_data.to_excel(options.output, index=False)
+            raw_data.to_excel(options.output, columns=columns, index=False)
             print("Done")
         else:
             print("Error: Unknown output format. Valid formats are '.csv' and '.xlsx'")
-- 
2.43.0


From 92b3890d668cca9cce246239e464fc4ad0abdc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:23 +0000
Subject: [PATCH 099/101] fix: symbol found for one circuit is not used for
 circuits with other search paths

---
 spicelib/editor/asc_editor.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 71dd36a..90f4500 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -764,20 +764,22 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return file_found
 
     def _asy_file_find(self, filename) -> str | None:
-        if filename in self.symbol_cache:
-            return self.symbol_cache[filename]
-        _logger.info(f"Searching for symbol {filename}...")
         # create list of directories to search, based on the simulator_lib_paths. Just add "/sym" to the path
         my_lib_paths = [os.path.join(x, "sym") for x in self.simulator_lib_paths]
+        containers = (os.path.split(self.circuit_file)[0],  # The directory where the file is located
+                      os.path.curdir,  # The current script directory,
+                      *my_lib_paths,  # The simulator's library paths, adapted for the occasion
+                      *self.custom_lib_paths
+                      )
+        # What is found depends on the directories that are searched
+        key = (filename, os.getcwd(), containers)
+        if key in self.symbol_cache:
+            return self.symbol_cache[key]
+        _logger.info(f"Searching for symbol {filename}...")
         # find the file            
-        file_found = search_file_in_containers(filename, 
-                                               os.path.split(self.circuit_file)[0],  # The directory where the file is located
-                                               os.path.curdir,  # The current script directory,
-                                               *my_lib_paths,  # The simulator's library paths, adapted for the occasion
-                                               *self.custom_lib_paths
-                                               )
+        file_found = search_file_in_containers(filename, *containers)
         if file_found is not None:
-            self.symbol_cache[filename] = file_found
+            self.symbol_cache[key] = file_found
         return file_found
 
     def add_instruction(self, instruction: str) -> None:
-- 
2.43.0


From 87dbfbbc58f894de91cf24163629645eb4ad0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:42 +0000
Subject: [PATCH 100/101] fix: edits of a component line no longer cut off or
 repeat text of the rest of the line

---
 spicelib/editor/spice_components.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 5ae7492..723cc69 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -297,19 +297,17 @@ class SpiceComponent(Component):
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        match = regex.match(self._obj)
+        new_line: str = re.sub(r'[\n\r]+\s*', ' ', self._obj)
+        match = regex.match(new_line)
         if match is None:
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
         info = match.groupdict()
-        if self._obj is not None:
-            new_line: str = self._obj[:]  # make a copy
-        else:
-            new_line = ''
-        new_line = re.sub(r'[\n\r]+\s*', ' ', new_line)
-        offset = 0
+        new_line = new_line.rstrip()
+        old_length = len(new_line)
         update_done = False
         for attr in info:
-            start, stop = match.span(attr)
+            start, stop = (min(position, old_length) for position in match.span(attr))
+            offset = len(new_line) - old_length  # how far what was already replaced has moved the rest of the line
             if start == -1 and stop == -1 and attr not in self._attributes:
                 continue  # this attribute is not present in the line, skip it
             if attr == 'designator':
@@ -320,14 +318,12 @@ class SpiceComponent(Component):
                     else:
                         new_ref = self.reference
                     new_line = _insert_section(new_line, start + offset, stop + offset, new_ref)
-                    offset += len(new_ref) - len(old_ref)
                     update_done = True
             elif attr == 'nodes':
                 old_nodes_str = info[attr]
                 new_nodes_str = ' ' + self.port_names(' ')
                 if old_nodes_str != new_nodes_str:
                     new_line = _insert_section(new_line, start + offset, stop + offset, new_nodes_str)
-                    offset += len(new_nodes_str) - len(old_nodes_str)
                     update_done = True
             elif attr == 'params':
                 old_params_str = info[attr] or ""  # in case of no params, make it empty string
@@ -367,7 +363,6 @@ class SpiceComponent(Component):
                     else:
                         # all the parameters were removed
                         new_line = new_line[:start + offset] + new_line[stop + offset:].rstrip()
-                    offset += len(new_params_str) - len(old_params_str)
                     update_done = True
             else:
                 if hasattr(self, attr):
@@ -377,7 +372,6 @@ class SpiceComponent(Component):
                         new_attr_value = format_eng(new_attr_value)
                     if old_attr_value != new_attr_value:
                         new_line = _insert_section(new_line, start + offset, stop + offset, new_attr_value)
-                        offset += len(new_attr_value) - len(old_attr_value)
                         update_done = True
                 else:
                     pass  # attribute not present, do nothing
-- 
2.43.0


From 906c3f0b3f93efe90d98272dc9fedd98eaf225e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:04 +0000
Subject: [PATCH 101/101] fix: parameters with a list of values are written as
 such for new components

---
 spicelib/editor/spice_components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 723cc69..d24ef09 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -414,6 +414,8 @@ class SpiceComponent(Component):
                 else:
                     chars = 0
             else:
+                if isinstance(value, list):
+                    value = ','.join(str(v) for v in value)
                 chars = stream.write(f" {key}={value}")
             count += chars
             line_size += chars
-- 
2.43.0

