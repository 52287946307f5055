S = 'sim/simulator.py'
L = 'simulators/ltspice_simulator.py'
MUT = [('P18',) + t for t in [
    (S, 'exe_parts = shlex.split(path_to_exe)', 'exe_parts = path_to_exe.split()'),
    (S, 'exe_parts = shlex.split(path_to_exe)', 'exe_parts = [path_to_exe]'),
    (S, 'cls.guess_process_name(exe_parts[0])', 'cls.guess_process_name(exe_parts[-1])'),
    (S, 'Path(exe_parts[0])\n', 'Path(exe_parts[-1])\n'),
    (S, 'Path(PureWindowsPath(path_to_exe).as_posix())', 'Path(path_to_exe)'),
    (S, "if '\\\\' in path_to_exe:", "if '/' in path_to_exe:"),
    (S, '(plib_path_to_exe.exists() or shutil.which(plib_path_to_exe))', 'plib_path_to_exe.exists()'),
    (S, '(plib_path_to_exe.exists() or shutil.which(plib_path_to_exe))', '(plib_path_to_exe.exists() or shutil.which(plib_path_to_exe.name))'),
    (S, 'cls.spice_exe = exe_parts\n', 'cls.spice_exe = exe_parts[-1:]\n'),
    (S, 'cls.process_name = process_name', 'cls.process_name = exe_parts[0]'),
    (S, 'return "wine-preloader"', 'return "wine"'),
    (S, 'return Path(exe).name', 'return Path(exe).stem'),
    (S, 'if Path(cls.spice_exe[0]).exists():', 'if Path(cls.spice_exe[-1]).exists():'),
    (S, 'if shutil.which(cls.spice_exe[0]):', 'if not shutil.which(cls.spice_exe[0]):'),
    (S, 'if os.path.exists(cls.spice_exe[-1]):', 'if os.path.exists(cls.spice_exe[0]):'),
    (S, 'myexe = cls.spice_exe[-1]', 'myexe = cls.spice_exe[0]'),
    (S, 'cls.expand_and_check_local_dir(path, myexe)', 'cls.expand_and_check_local_dir(path)'),
    (S, 'for path in cls._default_lib_paths:', 'for path in cls._default_lib_paths[1:]:'),
    (S, 'sys.platform == "linux" or sys.platform == "darwin"', 'sys.platform == "linux"'),
    (S, 'path = "C:/users/" + os.path.expandvars("${USER}" + path[1:])', 'path = os.path.expanduser(path)'),
    (S, '"${USER}" + path[1:]', '"${USER}" + path'),
    (S, 'c_drive + path[3:]', 'c_drive + path[2:]'),
    (S, 'path.startswith("C:/") or path.startswith("c:/")', 'path.startswith("C:/")'),
    (S, 'os.path.exists(path) and os.path.isdir(path)', 'os.path.exists(path)'),
    (S, 'exe_path.split("/drive_c/")[0] + "/drive_c/"', 'exe_path.split("/drive_c/")[-1] + "/drive_c/"'),
    (L, '"XVIIx64.exe")]', '"/XVIIx64.exe")]'),
]]
BEN = [('all',) + t for t in [
    (S, '''            if isinstance(path_to_exe, Path):
                plib_path_to_exe = path_to_exe
            else:
                plib_path_to_exe = Path(path_to_exe)
''', '            plib_path_to_exe = Path(path_to_exe)\n'),
    (S, '''        if plib_path_to_exe is not None and (plib_path_to_exe.exists() or shutil.which(plib_path_to_exe)):
            if process_name is None:
                cls.process_name = cls.guess_process_name(exe_parts[0])
            else:
                cls.process_name = process_name
            cls.spice_exe = exe_parts
            return cls
        else:
            raise FileNotFoundError(f"Provided exe file was not found '{path_to_exe}'")
''', '''        if plib_path_to_exe is None or not cls._found(plib_path_to_exe):
            raise FileNotFoundError(f"Provided exe file was not found '{path_to_exe}'")
        cls.spice_exe = exe_parts
        cls.process_name = cls.guess_process_name(exe_parts[0]) if process_name is None else process_name
        return cls

    @staticmethod
    def _found(exe: Path) -> bool:
        return bool(exe.exists() or shutil.which(exe))
'''),
    (S, '''        if cls.spice_exe and len(cls.spice_exe) > 0:
            # check if file exists
            if Path(cls.spice_exe[0]).exists():
                return True
            # check if file in path
            if shutil.which(cls.spice_exe[0]):
                return True
        return False
''', '''        if not cls.spice_exe:
            return False
        exe = cls.spice_exe[0]
        return os.path.exists(exe) or shutil.which(exe) is not None
'''),
    (S, '''        if sys.platform == 'darwin':
            if "wine" in exe:
                # For MacOS wine, there will be no process called "wine". Use "wine-preloader"
                return "wine-preloader"
            else:
                return Path(exe).stem
        else:
            return Path(exe).name
''', '''        if sys.platform != 'darwin':
            return Path(exe).name
        return "wine-preloader" if "wine" in exe else Path(exe).stem
'''),
    (S, '''        for path in cls._default_lib_paths:
            _logger.debug(f"Checking if library path '{path}' exists.")
            p = cls.expand_and_check_local_dir(path, myexe)
            if p is not None:
                _logger.debug(f"Adding path '{p}' to the library path list")
                paths.append(p)
        return paths
''', '''        expanded = (cls.expand_and_check_local_dir(path, myexe) for path in cls._default_lib_paths)
        return [p for p in expanded if p is not None]
'''),
    (S, '''        for path in cls._default_lib_paths:
            _logger.debug(f"Checking if library path '{path}' exists.")
            p = cls.expand_and_check_local_dir(path, myexe)
            if p is not None:
                _logger.debug(f"Adding path '{p}' to the library path list")
                paths.append(p)
''', '''        for path in cls._default_lib_paths:
            p = cls.expand_and_check_local_dir(path, myexe)
            if p is None:
                continue
            paths += [p]
'''),
    (S, '''        if os.path.exists(path) and os.path.isdir(path):
            return path
        return None''', '''        return path if os.path.isdir(path) else None'''),
    (S, '''        if sys.platform == "linux" or sys.platform == "darwin":
            if exe_path and "/drive_c/" in exe_path:
                # this is very likely a wine path
                c_drive = exe_path.split("/drive_c/")[0] + "/drive_c/"
''', '''        if sys.platform in ("linux", "darwin") and exe_path and "/drive_c/" in exe_path:
            root, _, _ = exe_path.partition("/drive_c/")
            c_drive = f"{root}/drive_c/"
'''),
    (S, '''            if path.startswith("C:/") or path.startswith("c:/"):
''', '''            if path[:3].lower() == "c:/":
'''),
    (S, '''                if len(exe_parts) > 0:
                    plib_path_to_exe = Path(exe_parts[0])
                    exe_parts[0] = plib_path_to_exe.as_posix()
''', '''                if exe_parts:
                    plib_path_to_exe = Path(exe_parts[0])
                    exe_parts = [plib_path_to_exe.as_posix()] + exe_parts[1:]
'''),
]]
G, X, Q = 'simulators/ngspice_simulator.py', 'simulators/xyce_simulator.py', 'simulators/qspice_simulator.py'
MUT += [
    ('P06', L, 'if sys.platform == "linux" or sys.platform == "darwin":\n            if cls.using', 'if sys.platform == "linux":\n            if cls.using'),
    ('P06', L, 'if netlist_file.suffix.lower().endswith(".asc"):', 'if netlist_file.suffix.lower().endswith(".cir"):'),
    ('P06', L, "['Z:' + netlist_file.as_posix()]", '[netlist_file.as_posix()]'),
    ('P06', L, '"wine" not in cls.spice_exe[0].lower()', '"wine" in cls.spice_exe[0].lower()'),
    ('P06', G, 'if cls._compatibility_mode:\n            extra', 'if not cls._compatibility_mode:\n            extra'),
    ('P06', G, 'f"ngbehavior={cls._compatibility_mode}"', 'f"{cls._compatibility_mode}"'),
    ('P06', X, "['-l'] + [logfile] + ['-r'] + [rawfile]", "['-l'] + [rawfile] + ['-r'] + [logfile]"),
    ('P07', L, 'if cls.using_macos_native_sim():\n            # this is', 'if not cls.using_macos_native_sim():\n            # this is'),
    ('P07', G, "(param_token == 'var_value' and '=' in parameter)", "(param_token == 'var_value' and parameter)"),
    ('P07', G, "cls._compatibility_mode and (switch == '-D' or switch == '--define') and", "(switch == '-D' or switch == '--define') and"),
    ('P07', G, "(switch == '-D' or switch == '--define')", "switch == '-D'"),
    ('P07', X, "if parameter.lower() in ('on', 'off'):", "if parameter in ('on', 'off'):"),
    ('P07', X, "('ignore', 'uselast', 'usefirst', 'warn', 'error')", "('ignore', 'uselast', 'warn', 'error')"),
]
BEN += [('all',) + t for t in [
    (G, '''        extra_switches = []
        if cls._compatibility_mode:
            extra_switches = ['-D', f"ngbehavior={cls._compatibility_mode}"]
''', '''        extra_switches = ['-D', "ngbehavior=" + cls._compatibility_mode] if cls._compatibility_mode else []
'''),
    (L, '''        if sys.platform == "linux" or sys.platform == "darwin":
            if cls.using_macos_native_sim():
                # native''', '''        if sys.platform in ("linux", "darwin"):
            if cls.using_macos_native_sim():
                # native'''),
    (X, "cls.spice_exe + cmd_line_switches + ['-l'] + [logfile] + ['-r'] + [rawfile] + [netlist_file.as_posix()]", "[*cls.spice_exe, *cmd_line_switches, '-l', logfile, '-r', rawfile, netlist_file.as_posix()]"),
    (X, '''                    try:
                        int(parameter)
                    except ValueError:
                        pass
                    else:
                        ret = [switch_list[0], parameter]
''', '''                    if cls._is_int(parameter):
                        ret = [switch_list[0], parameter]
''', '''    @classmethod
    def valid_switch(''', '''    @staticmethod
    def _is_int(text):
        try:
            int(text)
            return True
        except ValueError:
            return False

    @classmethod
    def valid_switch('''),
    (L, '''            switches = cls.ltspice_args[switch]
            switches = [switch.replace('<path>', path) for switch in switches]
            return switches
''', '''            return [arg.replace('<path>', path) for arg in cls.ltspice_args[switch]]
'''),
    (G, '''        if switch[0] != '-':
            switch = '-' + switch
''', '''        if not switch.startswith('-'):
            switch = f'-{switch}'
'''),
]]
