F = 'utils/float_unit.py'
PRE = '''
from spicelib.utils.float_unit import float_unit, to_float, scan_eng, format_eng
'''
PLANTS = [
dict(id='p52_leading_zero_decimals', property='P52', edits=[(F, 'value = float(value[:k] + "." + suffix_number) * multiplier', 'value = float(value[:k] + "." + str(int(suffix_number))) * multiplier')],
  needs='a value written with the qualifier as decimal point and a zero right after it (4k07)', breaks='the zero is dropped, 4k07 is read as 4700',
  demo=PRE + "assert abs(scan_eng('4k7') - 4700) < 1e-6\nassert abs(scan_eng('4k07') - 4070) < 1e-6, scan_eng('4k07')\n"),
dict(id='p52_upper_case_pico', property='P52', edits=[(F, "    'P': 1E-12,\n", "    'P': 1E+15,\n")],
  needs='a capacitor with upper case qualifier (100P)', breaks='it is read as peta, as SI has it, instead of pico, as SPICE has it',
  demo=PRE + "assert abs(scan_eng('100P') - 1e-10) < 1e-15, scan_eng('100P')\n"),
dict(id='p52_format_tera', property='P52', edits=[(F, "    elif exp == 4:\n        suffix = 't'", "    elif exp >= 4:\n        suffix = 't'")],
  needs='a value of 1e15 or more', breaks='it is written with the suffix t, a thousandth of the value',
  demo=PRE + "assert format_eng(1e12) == '1t'\nassert abs(scan_eng(format_eng(2.5e16)) / 2.5e16 - 1) < 1e-6, format_eng(2.5e16)\n"),
dict(id='p52_invalid_equal', property='P52', edits=[(F, "                other = float_unit(other)\n            except (ValueError, UnitError):\n                return False", "                other = float_unit(other)\n            except (ValueError, UnitError):\n                other = to_float(other)\n                return str(self).startswith(other)")],
  needs='a comparison with a text that is no number, of a number whose text starts with it', breaks='a number is equal to a text that is none',
  demo=PRE + "assert not (float_unit('5') == '')\nassert not (float_unit('4.7') == 'x')\n"),
dict(id='p52_bool_text', property='P52', edits=[(F, "    if isinstance(value, (int, float)):\n        return float_unit(value)\n    if isinstance(value, str):", "    if isinstance(value, (int, float)):\n        return float_unit(value)\n    if isinstance(value, str) and (value[:1].isdigit() or not accept_invalid):")],
  needs='to_float() of a negative number, or one that starts with its decimal point', breaks='it is given back as text',
  demo=PRE + "assert to_float('10') == 10\nassert to_float('-10m') == -0.01 and not isinstance(to_float('-10m'), str), to_float('-10m')\n"),
]
