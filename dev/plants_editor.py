PRE = '''
import sys, os, logging
from pathlib import Path
R = os.getcwd()
os.chdir(sys.argv[1])
logging.disable(logging.CRITICAL)
from spicelib import SpiceEditor, AscEditor
from spicelib.editor.base_subcircuit import UpdatePermission
from spicelib.editor.updates import UpdateType
def net(text, name='c.net'):
    Path(name).write_text(text)
    return SpiceEditor(name)
'''
ASC = '''
def asc(extra='', name='c.asc'):
    Path(name).write_text('Version 4\\nSHEET 1 880 680\\nWIRE 80 96 0 96\\nFLAG 0 96 in\\n' + extra)
    return AscEditor(name)
'''
E = 'editor/'; SC = E + 'spice_subcircuit.py'; AE = E + 'asc_editor.py'; U = E + 'updates.py'; SI = E + 'spice_subcircuit_instance.py'; CO = E + 'spice_components.py'; QE = E + 'qsch_editor.py'; SF = E + 'spice_file.py'
PLANTS = [
dict(id='p10_asc_param_denied', property='P10', edits=[(AE, '''        permission = self.begin_update()
        if permission == UpdatePermission.Deny:
            raise PermissionError(f"Permission denied for {param}")
        
        if isinstance(value, (int, float)):''', '''        permission = self.begin_update()
        if permission == UpdatePermission.Deny and self._get_param_named(param)[0] is not None:
            raise PermissionError(f"Permission denied for {param}")
        
        if isinstance(value, (int, float)):''')],
  needs='a parameter that does not exist yet, set while editing is denied', breaks='set_parameter of AscEditor adds a new .param directive although the schematic is read-only',
  demo=PRE + ASC + '''
e = asc('TEXT 0 200 Left 2 !.param a=1\\n')
e.update_permission = UpdatePermission.Deny
for p in ('a', 'b'):
    try:
        e.set_parameter(p, 5)
        sys.exit('set_parameter(%r) was not refused' % p)
    except (PermissionError, ValueError):
        pass
assert len(e.directives) == 1
'''),
dict(id='p11_remove_param_unrecorded', property='P11', edits=[(SC, '''                        netlist[param_line] = '* SpiceEditor removed empty .PARAM line' + END_LINE_TERM
                if permission''', '''                        netlist[param_line] = '* SpiceEditor removed empty .PARAM line' + END_LINE_TERM
                        return
                if permission''')],
  needs='removing the only parameter of a .PARAM line', breaks='the removal of the last parameter of a line is not entered in the list of updates',
  demo=PRE + '''
e = net('* c\\n.param a=1 b=2\\n.param c=3\\nR1 a 0 1k\\n.end\\n')
e.set_parameter('b', None)
e.set_parameter('c', None)
got = [(u.name, u.updates) for u in e.netlist_updates]
assert got == [('b', UpdateType.DeleteParameter), ('c', UpdateType.DeleteParameter)], got
'''),
dict(id='p12_asc_labels_kept', property='P12', edits=[(E + 'base_schematic.py', "        self.labels.clear()\n", "        if self.wires:\n            self.labels.clear()\n")],
  needs='wires are cleared first, so the labels never are; a reset of a schematic that has labels', breaks='net labels of the previous contents stay after reset_netlist and are written twice',
  demo=PRE + ASC + '''
e = asc()
n = len(e.labels)
e.reset_netlist()
assert len(e.labels) == n, (n, len(e.labels))
'''),
dict(id='p13_iopin_order', property='P13', edits=[(AE, '''line_elements[6]
                        self.lines.append(line)''', '''line_elements[5]
                        self.lines.append(line)''')],
  needs='a drawn line with a line pattern', breaks='the pattern of a drawn line is read from the wrong field, so that saving writes another pattern',
  demo=PRE + ASC + '''
e = asc('LINE Normal 10 20 30 40 2\\n')
e.save_netlist('o.asc')
l = [x.strip() for x in open('o.asc') if x.startswith('LINE')]
assert l == ['LINE Normal 10 20 30 40 2'], l
'''),
dict(id='p14_shared_nested', property='P14', edits=[(SI, '''        """Makes sure the copies are invalidated"""
        super().set_value(value)
        self._subcircuit = None
''', '''        """Makes sure the copies are invalidated"""
        super().set_value(value)
''')],
  needs='an instance that was looked into is given another definition, then looked into again', breaks='after a new definition was set the instance still clones the old one',
  demo=PRE + '''
e = net('* c\\nX1 a 0 AA\\n.subckt AA p n\\nR1 p n 1k\\n.ends AA\\n.subckt BB p n\\nR1 p n 5k\\n.ends BB\\n.end\\n')
assert e['X1:R1'].value_str == '1k'
e['X1'].value = 'BB'
assert e['X1:R1'].value_str == '5k', e['X1:R1'].value_str
'''),
dict(id='p15_last_line', property='P15', edits=[(SF, "            while i < len(self.netlist):\n                line = self.netlist[i]\n                if isinstance(line, Primitive) and _is_unique", "            while i < len(self.netlist) - 2:\n                line = self.netlist[i]\n                if isinstance(line, Primitive) and _is_unique")],
  needs='a netlist whose analysis is the line just before .end', breaks='an analysis just before .end is not replaced but a second one added',
  demo=PRE + """
for old in ('.tran 1', '.ac dec 10 1 1k', '.dc V1 0 1 1'):
    e = net('* c\\nR1 a 0 1k\\n' + old + '\\n.end\\n')
    for new in ('.tran 5', '.ac lin 10 1 2', '.noise V(a) V1 dec 1 1 10'):
        e.add_instruction(new)
        e.save_netlist('o.net')
        got = [l.strip() for l in open('o.net') if l[0] == '.' and not l.startswith('.end')]
        assert got == [new], got
"""),
dict(id='p16_param_prefix', property='P16', edits=[(AE, 'if match.group("name").upper() == param_name_uppercase:', 'if match.group("name").upper().startswith(param_name_uppercase):')],
  needs='a parameter whose name begins with the name asked for and comes first', breaks='get_parameter and set_parameter of AscEditor hit another parameter',
  demo=PRE + ASC + """
e = asc('TEXT 0 200 Left 2 !.param temp1=5 temp=7\\n')
assert e.get_parameter('temp') == '7', e.get_parameter('temp')
"""),
dict(id='p17_after_end', property='P17', edits=[(SF, """                    cmd = get_line_command(line)
                    if cmd == '*':
                        # comments""", """                    cmd = get_line_command(line)
                    if cmd == '*' and line.startswith('*'):
                        # comments""")],
  needs='comments after .END that are indented, start with ; or #, or are empty lines', breaks='comments after .END that do not start with * in the first column are lost',
  demo=PRE + """
e = net('* c\\nR1 a 0 1k\\n.end\\n* one\\n  * two\\n; three\\n')
e.save_netlist('o.net')
t = open('o.net').read()
assert 'one' in t and 'two' in t and 'three' in t, t
"""),
dict(id='p37_instruction_merge', property='P37', edits=[(U, "newone.netlist_updates = deepcopy(self.netlist_updates)", "newone.netlist_updates = list(self.netlist_updates)")],
  needs='a value edited again after the editor was copied', breaks='a copied list of updates shares its entries with the original, so a later edit changes both',
  demo=PRE + '''
import copy
from spicelib.editor.updates import Updates
u = Updates()
u.add_update('R1', '1k', UpdateType.UpdateComponentValue)
v = copy.copy(u)
v.add_update('R1', '2k', UpdateType.UpdateComponentValue)
assert u.value('R1') == '1k' and v.value('R1') == '2k', (u.value('R1'), v.value('R1'))
'''),
dict(id='p38_insert_after', property='P38', edits=[(SC, "            line_no = self.netlist.index(comp) + 1\n", "            line_no = self.netlist.index(comp) + len(kwargs)\n")],
  needs='insert_after given together with another keyword', breaks='a component added with insert_after and a further keyword is put one line too far',
  demo=PRE + '''
from spicelib.editor.spice_components import SpiceComponent
e = net('* c\\nR1 a 0 1k\\nR2 a 0 2k\\nR3 a 0 3k\\n.end\\n')
c = SpiceComponent(netlist=e, obj='R9 a 0 9k\\n')
e.add_component(c, insert_after='R1', comment='x')
assert e.get_components() == ['R1', 'R9', 'R2', 'R3'], e.get_components()
'''),
dict(id='p39_group_end', property='P39', edits=[(AE, 'directive.text = f"{directive.text[:start]}{value_str}{directive.text[stop:]}"', 'directive.text = f"{directive.text[:start]}{value_str}{directive.text[start + len(str(match.group(\'value\')).rstrip()) + (value_str == \'\'):]}"')],
  needs='setting an empty value', breaks='the character after the value is taken out with it',
  demo=PRE + ASC + '''
e = asc('TEXT 0 200 Left 2 !.param a=1 b=2\\n')
e.set_parameter('a', '')
assert e.directives[0].text == '.param a= b=2', e.directives[0].text
'''),
]
