_H = r'''
import sys, os, io
os.chdir(sys.argv[1])
from spicelib.editor.spice_editor import SpiceEditor

def edited(line, edit):
    with open('t.net', 'w') as f:
        f.write('* t\n' + line + '\n.end\n')
    e = SpiceEditor('t.net')
    ref = line.split()[0].replace('§', '')
    edit(e[ref])
    e.save_netlist('o.net')
    with open('o.net') as f:
        return ' '.join(f.read().splitlines()[1].split())

def check(line, edit, want):
    got = edited(line, edit)
    assert got == want, (got, want)

def many(c, ref=None, nodes=None, value=None, **params):
    if ref:
        c.reference = ref
    if nodes:
        c.ports = nodes
    if value:
        c.set_value(value)
    if params:
        c.set_parameters(**params)
'''
F = 'editor/spice_components.py'
PLANTS = [
    dict(id='p55_same_length', property='P55', edits=[(F, "                    if old_attr_value != new_attr_value:", "                    if len(old_attr_value or '') != len(new_attr_value) or old_attr_value.upper() != new_attr_value.upper():")],
         needs='a new value that differs from the old one only in upper or lower case, as 1m and 1M', breaks='a value that only differs in case is not written',
         demo=_H + r'''
check('X1 a b AmpA', lambda c: many(c, value='ampa'), 'X1 a b ampa')
'''),
    dict(id='p55_removed_param', property='P55', edits=[(F, "                    for key in old_params:\n                        if key not in self.params:\n                            differences = True\n                            break\n", "                    differences = bool(old_params) and not self.params\n")],
         needs='one of several parameters is removed and no other changed', breaks='the parameter stays in the line',
         demo=_H + r'''
check('C1 a 0 10u Rser=1 Lser=2n', lambda c: c.clear_parameters(), 'C1 a 0 10u')
check('C1 a 0 10u Rser=1 Lser=2n', lambda c: c.clear_parameter('Rser'), 'C1 a 0 10u Lser=2n')
'''),
    dict(id='p55_comment_end', property='P55', edits=[(F, "                        comment_index = new_line.find(';')\n", "                        comment_index = self._obj.find(';')\n")],
         needs='a parameter is added to a line without parameters but with a comment, in which the value was replaced by a longer one', breaks='the parameter is put where the comment was before the value was replaced',
         demo=_H + r'''
check('D1 a k 1N4148 ; note', lambda c: many(c, m=2), 'D1 a k 1N4148 m=2 ; note')
check('D1 a k DX ; note', lambda c: many(c, value='D_very_long', m=2), 'D1 a k D_very_long m=2 ; note')
''') if 0 else
    dict(id='p55_list_value', property='P55', edits=[(F, "                        if isinstance(value, list):\n                            value_str = ','.join(str(v) for v in value)", "                        if isinstance(value, list):\n                            value_str = ','.join(dict.fromkeys(str(v) for v in value))")],
         needs='a parameter with a list of values of which two are equal', breaks='equal values of a list are written once',
         demo=_H + r'''
check('R1 a b 1k tc=1,2', lambda c: many(c, x=3), 'R1 a b 1k tc=1,2 x=3')
check('R1 a b 1k tc=1,1', lambda c: many(c, x=3), 'R1 a b 1k tc=1,1 x=3')
'''),
    dict(id='p55_section_sign', property='P55', edits=[(F, "                    if '§' in info[attr]:\n                        new_ref = self.reference[0] + '§' + self.reference[1:]", "                    if '§' in info[attr] and len(self.reference) == len(old_ref):\n                        new_ref = self.reference[0] + '§' + self.reference[1:]")],
         needs='a reference with § that is replaced by one of another length', breaks='the § is lost',
         demo=_H + r'''
check('R§1 a b 1k', lambda c: many(c, ref='R2'), 'R§2 a b 1k')
check('R§1 a b 1k', lambda c: many(c, ref='R22'), 'R§22 a b 1k')
'''),
    dict(id='p55_number_value', property='P55', edits=[(F, "                    if isinstance(new_attr_value, (float, int)):\n                        new_attr_value = format_eng(new_attr_value)", "                    if isinstance(new_attr_value, (float, int)):\n                        new_attr_value = format_eng(new_attr_value) if new_attr_value else old_attr_value")],
         needs='a value set to the number 0', breaks='the old value stays in the line',
         demo=_H + r'''
check('V1 in 0 10', lambda c: many(c, value=5), 'V1 in 0 5')
check('V1 in 0 10', lambda c: c.set_value(0), 'V1 in 0 0')
'''),
]
