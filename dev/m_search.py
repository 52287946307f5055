F = 'utils/file_search.py'
A = 'editor/asc_editor.py'
Q = 'editor/qsch_editor.py'
S = 'editor/spice_subcircuit.py'
B = 'editor/base_editor.py'
OLDKEY = 'key = (filename, os.getcwd(), containers)'
MUT = [
    ('P54', F, "    if path != '':\n        directory = os.path.join(directory, path)\n", ""),
    ('P54', F, "directory = os.path.join(directory, path)", "directory = path"),
    ('P54', F, "if filename.lower() == filefound.lower():\n                return", "if filename == filefound:\n                return"),
    ('P54', F, "if filename.lower() == filefound.lower():\n                return", "if filename == filefound.lower():\n                return"),
    ('P54', F, "return os.path.join(root, filefound)", "return os.path.join(root, filename)"),
    ('P54', F, "return os.path.join(root, filefound)", "return os.path.join(directory, filefound)"),
    ('P54', F, "                return os.path.join(root, filefound)\n", "                return os.path.join(root, filefound)\n        break\n"),
    ('P54', F, "        for filefound in files:\n", "        if root.count(os.sep) - directory.count(os.sep) > 2:\n            break\n        for filefound in files:\n"),
    ('P54', F, "    for root, dirs, files in os.walk(directory):\n", "    for root, dirs, files in os.walk(directory):\n        dirs[:] = [d for d in dirs if not d.startswith('.')]\n"),
    ('P54', F, "        for filefound in files:\n            if filename", "        for filefound in dirs:\n            if filename"),
    ('P54', F, "for container in containers:", "for container in reversed(containers):"),
    ('P54', F, "for container in containers:", "for container in sorted(containers):"),
    ('P54', F, "for container in containers:", "for container in set(containers):"),
    ('P54', F, "for container in containers:", "for container in containers[1:]:"),
    ('P54', F, "                if filefound is not None:\n", "                if filefound is None:\n"),
    ('P54', F, "                if filefound is not None:\n                    _logger.debug(f\"Found '{filefound}'\")\n                    return filefound", "                return filefound"),
    ('P54', F, "        if os.path.exists(container):  # Skipping invalid paths\n", "        if not os.path.exists(container):\n            break\n        else:\n"),
    ('P54', F, "        if os.path.exists(container):  # Skipping invalid paths\n", "        if os.path.isabs(container) and os.path.exists(container):\n"),
    ('P54', F, "find_file_in_directory(container, filename)", "find_file_in_directory(container, os.path.basename(filename))"),
    ('P54', F, "if container.endswith('.zip'):", "if not container.endswith('.zip'):"),
    ('P54', F, "return zip_ref.extract(filefound, path=temp_dir)", "zip_ref.extract(filefound, path=temp_dir)\n                            return temp_dir"),
    ('P54', F, "                        if filename.lower() == filefound.lower():\n                            temp_dir", "                        if filename == filefound:\n                            temp_dir"),
    ('P54', A, OLDKEY, "key = filename"),
    ('P54', A, OLDKEY, "key = (filename, os.getcwd(), self.circuit_file)"),
    ('P54', A, OLDKEY, "key = (filename, containers)"),
    ('P54', A, OLDKEY, "key = (os.getcwd(), containers)"),
    ('P54', A, "            self.symbol_cache[key] = file_found", "            self.symbol_cache[filename] = file_found"),
    ('P54', A, "            self.symbol_cache[key] = file_found", "            self.symbol_cache[key] = filename"),
    ('P54', A, 'os.path.join(x, "sym")', 'os.path.join(x, "sub")'),
    ('P54', A, 'os.path.join(x, "sub")', 'os.path.join(x, "sym")'),
    ('P54', A, "        containers = (os.path.split(self.circuit_file)[0],  # The directory where the file is located\n                      os.path.curdir,", "        containers = (os.path.curdir, os.path.split(self.circuit_file)[0],"),
    ('P54', A, "        containers = (os.path.split(self.circuit_file)[0],  # The directory where the file is located\n", "        containers = ("),
    ('P54', A, "                                               *self.custom_lib_paths,\n", ""),
    ('P54', A, "                                                     *self.custom_lib_paths  # The", "                                                     *self.simulator_lib_paths  # The"),
    ('P54', A, "                      *self.custom_lib_paths\n", ""),
    ('P54', Q, "containers = ['.'] + self.custom_lib_paths + self.simulator_lib_paths", "containers = ['.'] + self.simulator_lib_paths + self.custom_lib_paths"),
    ('P54', Q, "containers = ['.'] + self.custom_lib_paths + self.simulator_lib_paths", "containers = ['.'] + self.simulator_lib_paths"),
    ('P54', Q, "containers = [work_dir] + containers", "containers = containers + [work_dir]"),
    ('P54', Q, "containers = [work_dir] + containers", "containers = [work_dir]"),
    ('P54', S, "            containers.extend(self.editor.simulator_lib_paths)  # The simulator's library paths\n", ""),
    ('P54', S, "        containers.append(os.path.curdir)  # The current script directory,\n", ""),
    ('P54', S, "            containers.append(os.path.split(self.editor.circuit_file)[0])", "            containers.append(os.path.split(self.editor.circuit_file)[1])"),
    ('P54', S, "search_file_in_containers(library_name, *containers)", "search_file_in_containers(library_name, *containers[1:])"),
    ('P54', B, "        cls.custom_lib_paths = []\n        # and", "        # and"),
    ('P54', B, "        cls.custom_lib_paths = []\n        # and", "        cls.custom_lib_paths.clear()\n        # and"),
    ('P54', B, 'if path.startswith("~"):', 'if path.startswith("~/."):'),
    ('P54', B, "if os.path.exists(path) and os.path.isdir(path):", "if os.path.exists(path) or not os.path.isdir(path):"),
    ('P54', B, "cls.simulator_lib_paths = simulator.get_default_library_paths()", "cls.simulator_lib_paths = cls.simulator_lib_paths or simulator.get_default_library_paths()"),
    ('P54', B, "cls.simulator_lib_paths = simulator.get_default_library_paths()", "cls.custom_lib_paths = simulator.get_default_library_paths()"),
]
BEN = [
    ('all', F, "    if path != '':\n        directory = os.path.join(directory, path)\n", "    if path:\n        directory = os.path.join(directory, path)\n"),
    ('all', F, "    if path != '':\n        directory = os.path.join(directory, path)\n", "    directory = os.path.join(directory, path)\n"),
    ('all', F, "        for filefound in files:\n            if filename.lower() == filefound.lower():\n                return os.path.join(root, filefound)", "        for filefound in sorted(files):\n            if filefound.casefold() != filename.casefold():\n                continue\n            return os.path.join(root, filefound)"),
    ('all', F, "        if os.path.exists(container):  # Skipping invalid paths\n", "        if not os.path.exists(container):\n            continue\n        if True:\n"),
    ('all', F, "    for container in containers:\n", "    for container in [c for c in containers if os.path.exists(c)]:\n"),
    ('all', F, "                filefound = find_file_in_directory(container, filename)\n                if filefound is not None:\n", "                filefound = find_file_in_directory(container, filename)\n                if filefound:\n"),
    ('all', A, "        containers = (os.path.split(self.circuit_file)[0],", "        containers = (os.path.dirname(self.circuit_file),"),
    ('all', A, "        if key in self.symbol_cache:\n            return self.symbol_cache[key]\n", "        cached = self.symbol_cache.get(key)\n        if cached is not None:\n            return cached\n"),
    ('all', A, "        if key in self.symbol_cache:\n            return self.symbol_cache[key]\n", ""),
    ('all', Q, "        containers = ['.'] + self.custom_lib_paths + self.simulator_lib_paths\n", "        containers = ['.', *self.custom_lib_paths, *self.simulator_lib_paths]\n"),
    ('all', Q, "            containers = [work_dir] + containers", "            containers.insert(0, work_dir)"),
    ('all', S, "            containers.extend(self.editor.simulator_lib_paths)  # The simulator's library paths\n            containers.extend(self.editor.custom_lib_paths)", "            containers += self.editor.simulator_lib_paths\n            containers += self.editor.custom_lib_paths"),
    ('all', B, "            if isinstance(path, str):\n                cls._check_and_append_custom_library_path(path)\n            elif isinstance(path, list):\n                for p in path:\n", "            if isinstance(path, str):\n                path = [path]\n            if isinstance(path, list):\n                for p in path:\n"),
    ('all', B, "if os.path.exists(path) and os.path.isdir(path):", "if os.path.isdir(path):"),
    ('all', B, "        if path.startswith(\"~\"):\n            path = os.path.expanduser(path)\n", "        path = os.path.expanduser(path)\n"),
]
