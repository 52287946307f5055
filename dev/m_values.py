F = 'utils/float_unit.py'
P = 'editor/primitives.py'
B = 'editor/base_subcircuit.py'
MUT = [
    ('P52', F, "    'P': 1E-12,", "    'P': 1E+15,"),
    ('P52', F, "    'U': 1E-6,", "    'U': 1E-9,"),
    ('P52', F, "    'M': 1E+6,", "    'M': 1E-3,"),
    ('P52', F, "    'g': 1E+9,\n", ""),
    ('P52', F, "                        multiplier = 1E+6  # whatever the case, 'meg' is not milli\n", ""),
    ('P52', F, "value[i:].upper().startswith('MEG')", "value[i:].startswith('Meg')"),
    ('P52', F, "value[i:].upper().startswith('MEG')", "value[i:].upper().startswith('ME')"),
    ('P52', F, "                    multiplier = _MULT[value[i]]\n", "                    multiplier = _MULT[value[i].lower()]\n"),
    ('P52', F, "value = float(value[:k] + \".\" + suffix_number) * multiplier", "value = float(value[:k] + \".\" + suffix_number)"),
    ('P52', F, "value = float(value[:k] + \".\" + suffix_number) * multiplier", "value = float(value[:k] + suffix_number) * multiplier"),
    ('P52', F, "            value = float(value[:k]) * multiplier", "            value = float(value[:k]) / multiplier"),
    ('P52', F, "        if suffix_number:\n", "        if suffix_number and multiplier != 1:\n"),
    ('P52', F, "        multiplier = 1.0\n", "        multiplier = 1E-3\n"),
    ('P52', F, 'while i < l and (value[i] in "0123456789.+-")', 'while i < l and (value[i] in "012345678.+-")'),
    ('P52', F, "            value = math.nan\n        else:\n            raise err", "            value = math.nan\n        else:\n            value = math.nan"),
    ('P52', F, "        if accept_invalid:\n            value = math.nan", "        if not accept_invalid:\n            value = math.nan"),
    ('P52', F, 'suffix = "fpnum"[exp]', 'suffix = "apnum"[exp]'),
    ('P52', F, 'suffix = "fpnum"[exp]', 'suffix = "pnum"[exp]'),
    ('P52', F, "        suffix = 'Meg'", "        suffix = 'M'"),
    ('P52', F, "    elif exp == 3:\n        suffix = 'g'", "    elif exp == 3:\n        suffix = 't'"),
    ('P52', F, "    elif -5 <= exp < 0:", "    elif -6 <= exp < 0:"),
    ('P52', F, "math.log(abs(value), 1000)", "math.log(value, 1000)"),
    ('P52', F, "value * (1000 ** -exp)", "value * (1000 ** exp)"),
    ('P52', F, "{value * (1000 ** -exp):g}", "{value * (1000 ** -exp):.0f}"),
    ('P52', F, "    if exp == 0:\n        return f\"{value:g}\"", "    if exp == 0:\n        return f\"{value:.3f}\""),
    ('P52', F, "        return f\"{value:E}\"", "        return f\"{value:.0f}\""),
    ('P52', F, "    value, _ = parse_value(value, accept_invalid=False)\n    return value", "    value, _ = parse_value(value, accept_invalid=True)\n    return value"),
    ('P52', F, "            if not accept_invalid:\n                raise err\n\n    return value", "            if accept_invalid:\n                raise err\n\n    return value"),
    ('P52', F, "            if not accept_invalid:\n                raise err\n\n    return value", "            if not accept_invalid:\n                raise err\n            return float_unit(math.nan)\n\n    return value"),
    ('P52', F, "    if isinstance(value, (int, float)):\n        return float_unit(value)", "    if isinstance(value, float):\n        return float_unit(value)"),
    ('P52', F, "        self._original = None\n        return self", "        return self"),
    ('P52', F, "        self._original = None\n        return self", "        self._original = None\n        return float_unit(self)"),
    ('P52', F, "            self._original = value.strip()\n", "            self._original = value\n"),
    ('P52', F, "            if unit0 != '':\n", "            if unit0 == '':\n"),
    ('P52', F, "                if unit != '' and unit != unit0:\n                    raise RuntimeError(\"Unit missmatch\")\n", ""),
    ('P52', F, "        if self._original:\n            return self._original\n", ""),
    ('P52', F, "        return format_eng(self) + self.unit", "        return format_eng(self)"),
    ('P52', F, "float.__sub__(float(self), float(other))", "float.__sub__(float(other), float(self))"),
    ('P52', F, "float.__truediv__(float(self), float(other))", "float.__mul__(float(self), float(other))"),
    ('P52', F, "            except (ValueError, UnitError):\n                return False", "            except (ValueError, UnitError):\n                return True"),
    ('P52', F, "        if isinstance(other, str):\n            try:\n                other = float_unit(other)", "        if isinstance(other, str):\n            try:\n                float_unit(other)"),
    ('P52', P, "        value = to_float(token, accept_invalid=False)", "        value = to_float(token)"),
    ('P52', P, "            return complex(token)", "            return complex(token).real"),
    ('P52', B, "        return scan_eng(self.get_component_value(element))", "        return float(self.get_component_value(element))"),
]
BEN = [
    ('all', F, "                    multiplier = _MULT[value[i]]\n", "                    qualifier = value[i]\n                    multiplier = _MULT[qualifier]\n"),
    ('all', F, "                if value[i] in _MULT:\n                    multiplier = _MULT[value[i]]\n                    if value[i:].upper().startswith('MEG'):  # to support Spice like qualifier 'MEG'\n                        multiplier = 1E+6  # whatever the case, 'meg' is not milli\n                        i += 3\n                    else:\n                        i += 1\n",
     "                if value[i:i + 3].lower() == 'meg':\n                    multiplier = 1000000.0\n                    i += 3\n                elif value[i] in _MULT:\n                    multiplier = _MULT[value[i]]\n                    i += 1\n"),
    ('all', F, "_MULT", "_FACTORS", "_MULT", "_FACTORS", "_MULT", "_FACTORS"),
    ('all', F, "        if suffix_number:\n            value = float(value[:k] + \".\" + suffix_number) * multiplier\n        else:\n            value = float(value[:k]) * multiplier\n",
     "        digits = value[:k]\n        if suffix_number != '':\n            digits = f'{digits}.{suffix_number}'\n        value = multiplier * float(digits)\n"),
    ('all', F, "    elif exp == 1:\n        suffix = 'k'\n    elif exp == 2:\n        suffix = 'Meg'\n    elif exp == 3:\n        suffix = 'g'\n    elif exp == 4:\n        suffix = 't'\n    else:", "    elif exp in (1, 2, 3, 4):\n        suffix = ['k', 'Meg', 'g', 't'][exp - 1]\n    else:"),
    ('all', F, "    exp = math.floor(math.log(abs(value), 1000))\n", "    magnitude = abs(value)\n    exp = math.floor(math.log(magnitude, 1000))\n"),
    ('all', F, "    return f\"{value * (1000 ** -exp):g}{suffix}\"", "    scaled = value / 1000 ** exp\n    return format(scaled, 'g') + suffix"),
    ('all', F, "    value, _ = parse_value(value, accept_invalid=False)\n    return value", "    return parse_value(value, False)[0]"),
    ('all', F, "    if isinstance(value, float_unit):\n        return value\n    if isinstance(value, (int, float)):\n        return float_unit(value)\n    if isinstance(value, str):\n", "    if isinstance(value, (int, float)) and not isinstance(value, float_unit):\n        return float_unit(value)\n    elif isinstance(value, str):\n"),
    ('all', F, "float.__add__(float(self), float(other))", "float(self) + float(other)"),
    ('all', F, "        return float_unit(float.__mul__(float(self), float(other)))", "        product = float(self) * float(other)\n        return float_unit(product)"),
    ('all', F, "        if self._original:\n            return self._original\n        if math.isnan(self):\n            return 'nan'\n        return format_eng(self) + self.unit", "        if math.isnan(self) and not self._original:\n            return 'nan'\n        return self._original or f'{format_eng(self)}{self.unit}'"),
    ('all', P, "    except ValueError as err:\n        try:\n            return complex(token)\n        except ValueError:\n            return token\n    else:\n        return value", "        return value\n    except ValueError:\n        pass\n    try:\n        return complex(token)\n    except ValueError:\n        return token"),
    ('all', B, "        return scan_eng(self.get_component_value(element))", "        value = self.get_component_value(element)\n        return scan_eng(value)"),
    ('all', F, "        except (ValueError, UnitError) as err:\n            if not accept_invalid:\n                raise err\n\n    return value", "        except (ValueError, UnitError):\n            if accept_invalid:\n                return value\n            raise\n\n    return value"),
    ('all', F, "    except (ValueError, UnitError) as err:\n        if accept_invalid:\n            value = math.nan\n        else:\n            raise err\n", "    except (ValueError, UnitError):\n        if not accept_invalid:\n            raise\n        value = math.nan\n"),
]
