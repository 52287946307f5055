_ASC = r'''
import sys, os
os.chdir(sys.argv[1])
from spicelib.editor.asc_editor import AscEditor
from spicelib.editor.qsch_editor import QschEditor
from spicelib.editor.spice_editor import SpiceEditor
from spicelib.utils.file_search import search_file_in_containers, find_file_in_directory

def put(path, text='x'):
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)
'''
PLANTS = [
    dict(id='p54_first_folder_only', property='P54', edits=[('utils/file_search.py', "                filefound = find_file_in_directory(container, filename)\n                if filefound is not None:\n",
         "                filefound = find_file_in_directory(container, filename)\n                if filefound is None and os.path.dirname(filename) and os.path.isabs(container):\n                    break\n                if filefound is not None:\n")],
         needs='a name with a folder in front that only exists in the second of two absolute containers',
         breaks='the search ends with the first absolute folder that does not have the file',
         demo=_ASC + r'''
a, b = os.path.abspath('a'), os.path.abspath('b')
put('a/other/x.lib')
put('b/sub/x.lib')
assert search_file_in_containers('x.lib', b) == os.path.join(b, 'sub', 'x.lib')
got = search_file_in_containers('sub/x.lib', a, b)
assert got == os.path.join(b, 'sub', 'x.lib'), got
'''),
    dict(id='p54_name_of_request', property='P54', edits=[('utils/file_search.py', "                return os.path.join(root, filefound)", "                return os.path.join(directory if root == directory else root, filename if root == directory else filefound)")],
         needs='a file whose name is written with another case, directly in the folder searched',
         breaks='the path returned has the name asked for instead of that of the file, so it cannot be opened',
         demo=_ASC + r'''
put('d/Part.LIB')
got = search_file_in_containers('part.lib', 'd')
assert got is not None and os.path.exists(got), got
'''),
    dict(id='p54_hidden_folders', property='P54', edits=[('utils/file_search.py', "    for root, dirs, files in os.walk(directory):\n", "    for root, dirs, files in os.walk(directory):\n        if os.path.basename(root).startswith('.') and root != directory:\n            dirs.clear()\n")],
         needs='a library in a folder below a hidden folder, like ~/.wine/drive_c',
         breaks='folders below hidden folders are not searched',
         demo=_ASC + r'''
put('d/.wine/drive_c/lib/x.lib')
got = find_file_in_directory('d', 'x.lib')
assert got == os.path.join('d', '.wine', 'drive_c', 'lib', 'x.lib'), got
'''),
    dict(id='p54_custom_first', property='P54', edits=[('editor/spice_subcircuit.py', "            containers.extend(self.editor.simulator_lib_paths)  # The simulator's library paths\n            containers.extend(self.editor.custom_lib_paths)  # The custom library paths\n",
         "            containers.extend(sorted([*self.editor.simulator_lib_paths, *self.editor.custom_lib_paths]))  # The library paths\n")],
         needs='a library of the same name in a simulator path and a custom path that sorts before it',
         breaks='the library of the custom path is taken though the paths of the simulator come first',
         demo=_ASC + r'''
put('a_custom/x.lib', '.SUBCKT XX A B\nR1 A B 1\n.ENDS\n')
put('z_sim/x.lib', '.SUBCKT XX A B\nR1 A B 2\n.ENDS\n')
put('c/t.net', '* t\nX1 1 0 XX\n.lib y.lib\n.end\n')
SpiceEditor.simulator_lib_paths = [os.path.abspath('z_sim')]
SpiceEditor.set_custom_library_paths(os.path.abspath('a_custom'))
os.makedirs('w'); os.chdir('w')
e = SpiceEditor('../c/t.net')
got = e.find_library('x.lib')
assert os.path.basename(os.path.dirname(got)) == 'z_sim', got
'''),
    dict(id='p54_work_dir_replaces', property='P54', edits=[('editor/qsch_editor.py', "        containers = ['.'] + self.custom_lib_paths + self.simulator_lib_paths\n", "        containers = ['.' if work_dir is None else work_dir] + self.custom_lib_paths + self.simulator_lib_paths\n")],
         needs='a sub-circuit in another folder than the script that includes a library which is in the folder of the script',
         breaks='the current folder is no longer searched when a work directory is given',
         demo=_ASC + r'''
put('x.lib')
os.makedirs('other')
QschEditor.simulator_lib_paths = []
e = QschEditor.__new__(QschEditor)
assert e._qsch_file_find('x.lib') is not None
assert e._qsch_file_find('x.lib', work_dir=os.path.abspath('other')) is not None
'''),
    dict(id='p54_append_paths', property='P54', edits=[('editor/base_editor.py', "        # empty the list\n        cls.custom_lib_paths = []\n", "        # empty the list\n        if any(os.path.isdir(str(path)) for path in paths):\n            cls.custom_lib_paths = []\n")],
         needs='custom paths set before and then replaced by none, or by a list',
         breaks='the paths set before stay when the new ones are given as a list or none is given',
         demo=_ASC + r'''
os.makedirs('a'); os.makedirs('b')
SpiceEditor.set_custom_library_paths('a')
SpiceEditor.set_custom_library_paths(['b'])
assert SpiceEditor.custom_lib_paths == ['b'], SpiceEditor.custom_lib_paths
'''),
    dict(id='p54_sub_for_sym', property='P54', edits=[('editor/asc_editor.py', 'my_lib_paths = [os.path.join(x, "sym") for x in self.simulator_lib_paths]', 'my_lib_paths = [os.path.join(x, "sym") for x in self.simulator_lib_paths[:1]]')],
         needs='two library paths of the simulator, with the symbol in the second',
         breaks='only the first library path of the simulator is searched for symbols',
         demo=_ASC + r'''
put('s1/sym/a.asy'); put('s2/sym/b.asy')
AscEditor.simulator_lib_paths = [os.path.abspath('s1'), os.path.abspath('s2')]
put('c/c.asc', 'Version 4\nSHEET 1 880 680\n')
os.makedirs('w'); os.chdir('w')
e = AscEditor('../c/c.asc')
assert e._asy_file_find('a.asy') is not None
assert e._asy_file_find('b.asy') is not None
'''),
]
