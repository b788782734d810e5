"""Refactorings of quantities.py written by hand."""

F = 'quantities.py'
R = [
    ('q_extract', F, [("""        op = match.group(1)
        u = match.group(2)
        exp = match.group(3)
        if exp is None:
            exp = 1.0
        else:
            exp = float(exp[1:])
        if op == '/':
            exp = -exp
        result = _multiply_unit_inplace(result, u, exp)
        start = start + len(match.group(0))
""", """        op, u, exp = match.groups()
        exp = 1.0 if exp is None else float(exp[1:])
        sign = -1 if op == '/' else 1
        result = _multiply_unit_inplace(result, u, sign * exp)
        start = match.end()
""")]),
    ('q_extract2', F, [("""        op = match.group(1)
        u = match.group(2)
        exp = match.group(3)
        if exp is None:
            exp = 1.0
        else:
            exp = float(exp[1:])
        if op == '/':
            exp = -exp
        result = _multiply_unit_inplace(result, u, exp)
        start = start + len(match.group(0))
""", """        u = match.group(2)
        exp = match.group(3)
        exp = float(exp[1:]) if exp is not None else 1.0
        if match.group(1) == '/':
            exp *= -1
        _multiply_unit_inplace(result, u, exp)
        start += len(match.group(0))
""")]),
    ('q_extract_type', F, [("""    if string is None:
        return {}

    if isinstance(string, dict):
        return string

    if not isinstance(string, str):
        raise TypeError(
            "Invalid unit type '"
            + type(string).__name__
            + "'. Expected types are string or dictionary."
        )
""", """    if isinstance(string, dict):
        return string
    if string is None:
        return {}
    if not isinstance(string, str):
        raise TypeError(
            f"Invalid unit type '{type(string).__name__}'. Expected types are string or "
            f"dictionary."
        )
""")]),
    ('q_mul_inplace', F, [("""    if key in unit:
        if unit[key] == -val:
            del unit[key]
        else:
            unit[key] += val
    else:
        unit[key] = val
    return unit


def _power_unit""", """    if key not in unit:
        unit[key] = val
    elif unit[key] == -val:
        del unit[key]
    else:
        unit[key] += val
    return unit


def _power_unit""")]),
    ('q_mul_get', F, [("""    if key in unit:
        if unit[key] == -val:
            del unit[key]
        else:
            unit[key] += val
    else:
        unit[key] = val
    return unit


def _power_unit""", """    exponent = unit.get(key, 0) + val
    if key in unit and exponent == 0:
        del unit[key]
    else:
        unit[key] = exponent
    return unit


def _power_unit""")]),
    ('q_mul_shared', F, [("""    unit = unit1.copy()
    for key, val in unit2.items():
        if key in unit:
            if unit[key] == -val:
                del unit[key]
            else:
                unit[key] += val
        else:
            unit[key] = val
    return unit
""", """    unit = unit1.copy()
    for key, val in unit2.items():
        _multiply_unit_inplace(unit, key, val)
    return unit
""")]),
    ('q_div_shared', F, [("""    unit = unit1.copy()
    for key, val in unit2.items():
        if key in unit:
            if unit[key] == val:
                del unit[key]
            else:
                unit[key] -= val
        else:
            unit[key] = -val
    return unit
""", """    unit = unit1.copy()
    for key, val in unit2.items():
        _multiply_unit_inplace(unit, key, -val)
    return unit
""")]),
    ('q_div_mulpow', F, [("""    unit = unit1.copy()
    for key, val in unit2.items():
        if key in unit:
            if unit[key] == val:
                del unit[key]
            else:
                unit[key] -= val
        else:
            unit[key] = -val
    return unit
""", """    return _multiply_unit(unit1, {key: -val for key, val in unit2.items()})
""")]),
    ('q_power_comp', F, [("""    if len(unit) == 0 or power == 0:
        return {}
    result = unit.copy()
    for key in unit:
        result[key] *= power
    return result
""", """    if not unit or power == 0:
        return {}
    return {key: val * power for key, val in unit.items()}
""")]),
    ('q_power_zero', F, [("""    if len(unit) == 0 or power == 0:
        return {}
    result = unit.copy()
    for key in unit:
        result[key] *= power
    return result
""", """    result = {}
    if power != 0:
        for key, val in unit.items():
            result[key] = val * power
    return result
""")]),
    ('q_str_any', F, [("""    has_pos = False

    for key, val in unit.items():
        if val >= 0:
            has_pos = True
            break
""", """    has_pos = any(val >= 0 for val in unit.values())
""")]),
    ('q_str_helper', F, [("""        result += ' ' + key
        if val != 1:
            ival = int(val)
            if abs(val - ival) <= 1e-7 * abs(val):
                val = ival
            result += '^' + str(val)
""", """        result += ' ' + key + _strexponent(val)
"""), ("""        result += ' / ' + key
        if val != 1:
            ival = int(val)
            if abs(val - ival) <= 1e-7 * abs(val):
                val = ival
            result += '^' + str(val)

    return result[1:]
""", """        result += ' / ' + key + _strexponent(val)

    return result[1:]


def _strexponent(val):
    if val == 1:
        return ''
    ival = int(val)
    if abs(val - ival) <= 1e-7 * abs(val):
        val = ival
    return '^' + str(val)
""")]),
    ('q_new', F, [("""        if dtype is None and data.dtype.kind == 'i':
            dtype = float
""", """        if dtype is None:
            if data.dtype.kind == 'i':
                dtype = float
""")]),
    ('q_new_view', F, [("""        if not subok and type(result) is not cls or not isinstance(result, cls):
            result = result.view(cls)
""", """        keep = isinstance(result, cls) if subok else type(result) is cls
        if not keep:
            result = result.view(cls)
""")]),
    ('q_new_du', F, [("""        if unit is not None:
            result.unit = unit

        # set derived_units attribute
        if derived_units is not None:
            result.derived_units = derived_units.copy()
""", """        if derived_units is not None:
            result.derived_units = dict(derived_units)

        # set derived_units attribute
        if unit is not None:
            result.unit = unit
""")]),
    ('q_arrayf', F, [("""        input_units = self._get_function_input_units(args, conversion)
        output_units = self._get_function_output_units(input_units, conversion)

        converted_inputs, kwargs = self._convert_function_inputs(
            args, kwargs, output_units, conversion
        )
        converted_inputs = self._view_function_inputs(converted_inputs, conversion)
        outputs = func(*converted_inputs, **kwargs)
        if conversion.output is ConversionOutput.NONE:
            return None

        converted_outputs = self._convert_function_outputs(
            outputs, output_units, conversion
        )
        return converted_outputs
""", """        units_in = self._get_function_input_units(args, conversion)
        units_out = self._get_function_output_units(units_in, conversion)
        args, kwargs = self._convert_function_inputs(args, kwargs, units_out, conversion)
        args = self._view_function_inputs(args, conversion)
        outputs = func(*args, **kwargs)
        if conversion.output is not ConversionOutput.NONE:
            return self._convert_function_outputs(outputs, units_out, conversion)
        return None
""")]),
    ('q_arrayf2', F, [("""        conversion = FUNCTIONS.get(func)
        if conversion is None:
            return super().__array_function__(func, types, args, kwargs)
""", """        if func not in FUNCTIONS:
            return super().__array_function__(func, types, args, kwargs)
        conversion = FUNCTIONS[func]
""")]),
    ('q_in_units_if', F, [("""            case ConversionInput.FIRST:
                return (cls._get_units(arrays[0]),)
            case ConversionInput.SECOND:
                return (cls._get_units(arrays[1]),)
            case ConversionInput.SEQUENCE:
                return cls._get_sequence_units(arrays)
""", """            case ConversionInput.FIRST:
                return cls._get_sequence_units([arrays[0]])
            case ConversionInput.SECOND:
                return cls._get_sequence_units([arrays[1]])
            case ConversionInput.SEQUENCE:
                return cls._get_sequence_units(arrays)
""")]),
    ('q_in_units_order', F, [("""            case ConversionInput.FIRST:
                return (cls._get_units(arrays[0]),)
            case ConversionInput.SECOND:
                return (cls._get_units(arrays[1]),)
            case ConversionInput.SEQUENCE:
                return cls._get_sequence_units(arrays)
            case ConversionInput.SEQUENCE_EXCEPT_FIRST:
                return cls._get_sequence_units(arrays[1:])
            case ConversionInput.FIRST_AND_SECOND:
                return cls._get_sequence_units([arrays[0], arrays[1]])
""", """            case ConversionInput.FIRST:
                return (cls._get_units(arrays[0]),)
            case ConversionInput.FIRST_AND_SECOND:
                first, second = arrays[0], arrays[1]
                return cls._get_sequence_units([first, second])
            case ConversionInput.SECOND:
                return (cls._get_units(arrays[1]),)
            case ConversionInput.SEQUENCE_EXCEPT_FIRST:
                return cls._get_sequence_units(arrays[1:])
            case ConversionInput.SEQUENCE:
                return cls._get_sequence_units(arrays)
""")]),
    ('q_out_units', F, [("""            case ConversionAction.PROD:
                output_unit = input_units[0]
                for input_unit in input_units[1:]:
                    output_unit = _multiply_unit(output_unit, input_unit)
                return output_unit
""", """            case ConversionAction.PROD:
                first, *others = input_units
                output_unit = first
                for unit in others:
                    output_unit = _multiply_unit(output_unit, unit)
                return output_unit
""")]),
    ('q_out_units_if', F, [("""        match conversion.action:
            case ConversionAction.SAME:
                return next((_ for _ in input_units if _), {})
            case ConversionAction.EACH:
                return input_units
            case ConversionAction.SQUARE:
                return _power_unit(input_units[0], 2)
            case ConversionAction.PROD:
                output_unit = input_units[0]
                for input_unit in input_units[1:]:
                    output_unit = _multiply_unit(output_unit, input_unit)
                return output_unit
            case _:
                assert False, 'unreachable'
""", """        action = conversion.action
        if action is ConversionAction.SAME:
            for unit in input_units:
                if unit:
                    return unit
            return {}
        if action is ConversionAction.EACH:
            return input_units
        if action is ConversionAction.SQUARE:
            return _power_unit(input_units[0], 2)
        assert action is ConversionAction.PROD, 'unreachable'
        output_unit = input_units[0]
        for input_unit in input_units[1:]:
            output_unit = _multiply_unit(output_unit, input_unit)
        return output_unit
""")]),
    ('q_conv_out', F, [("""        out = keywords.get('out')
        if out is not None:
            keywords['out'] = cls._view_function_input(out)
""", """        if keywords.get('out') is not None:
            keywords['out'] = cls._view_function_input(keywords['out'])
""")]),
    ('q_conv_common', F, [("""        common_unit = output_units
        if not common_unit:
            return arrays, keywords

        homogenized_args = []
""", """        if len(output_units) == 0:
            return arrays, keywords

        common_unit = output_units
        homogenized_args = []
""")]),
    ('q_conv_helper', F, [("""                if (
                    isinstance(array, Quantity)
                    and array._unit
                    and array._unit != common_unit
                ):
                    array = array.tounit(common_unit)
            homogenized_args.append(array)
        return tuple(homogenized_args), keywords
""", """                array = cls._to_common_unit(array, common_unit)
            homogenized_args.append(array)
        return tuple(homogenized_args), keywords

    @staticmethod
    def _to_common_unit(array, unit):
        if not isinstance(array, Quantity):
            return array
        if not array._unit or array._unit == unit:
            return array
        return array.tounit(unit)
""")]),
    ('q_conv_seq', F, [("""                array = tuple(
                    (
                        input.tounit(common_unit)
                        if isinstance(input, Quantity) and unit and unit != common_unit
                        else input
                    )
                    for input, unit in zip(array, cls._get_sequence_units(array))
                )
""", """                inputs = []
                for input in array:
                    unit = cls._get_units(input)
                    if isinstance(input, Quantity) and unit and unit != common_unit:
                        input = input.tounit(common_unit)
                    inputs.append(input)
                array = tuple(inputs)
""")]),
    ('q_view_inputs', F, [("""        viewed_arrays = []
        for iarray, array in enumerate(arrays):
            if (
                iarray == 0
                and conversion.input is ConversionInput.FIRST_SEQUENCE
                or iarray == 1
                and conversion.input is ConversionInput.SECOND_SEQUENCE
            ):
                array = cls._view_function_input_iterable(array)
            else:
                array = cls._view_function_input(array)
            viewed_arrays.append(array)
        return tuple(viewed_arrays)
""", """        if conversion.input is ConversionInput.FIRST_SEQUENCE:
            sequence = 0
        elif conversion.input is ConversionInput.SECOND_SEQUENCE:
            sequence = 1
        else:
            sequence = -1
        return tuple(
            cls._view_function_input_iterable(array)
            if iarray == sequence
            else cls._view_function_input(array)
            for iarray, array in enumerate(arrays)
        )
""")]),
    ('q_view_input', F, [("""        if isinstance(array, np.ndarray) and type(array) is not np.ndarray:
            return array.view(np.ndarray)
        return array
""", """        if not isinstance(array, np.ndarray) or type(array) is np.ndarray:
            return array
        return array.view(np.ndarray)
""")]),
    ('q_outputs_shared', F, [("""            if np.isscalar(arrays):
                output = type(self)(arrays)
            else:
                output = arrays.view(type(self))
            output.__array_finalize__(self)
            output._unit = output_units
            return output

        if isinstance(output_units, dict):""", """            return self._process_ufunc_result(arrays, output_units)

        if isinstance(output_units, dict):""")]),
    ('q_outputs_named', F, [("""        # Check if arrays is a namedtuple
        is_namedtuple = (
            isinstance(arrays, tuple)
            and hasattr(arrays, '_fields')
            and hasattr(arrays, '_make')
        )

""", ""), ("""        if is_namedtuple:
            return type(arrays)(*outputs)

        return outputs
""", """        is_tuple = isinstance(arrays, tuple)
        if is_tuple and hasattr(arrays, '_fields') and hasattr(arrays, '_make'):
            outputs = type(arrays)(*outputs)
        return outputs
""")]),
    ('q_outputs_all', F, [("""            if (
                iarray == 0
                and conversion.output
                in (
                    ConversionOutput.FIRST_IF_SEQUENCE,
                    ConversionOutput.FIRST_IN_SEQUENCE,
                )
                or conversion.output is ConversionOutput.SEQUENCE
            ):
                array = array.view(type(self))
""", """            is_all = conversion.output is ConversionOutput.SEQUENCE
            is_first = conversion.output in (
                ConversionOutput.FIRST_IF_SEQUENCE,
                ConversionOutput.FIRST_IN_SEQUENCE,
            )
            if is_all or is_first and iarray == 0:
                array = array.view(type(self))
""")]),
    ('q_get_units', F, [("""        if not isinstance(array, Quantity):
            return {}
        return array._unit
""", """        return array._unit if isinstance(array, Quantity) else {}
""")]),
    ('q_seq_units', F, [("""        return tuple(cls._get_units(_) for _ in arrays)
""", """        units = []
        for array in arrays:
            units.append(cls._get_units(array))
        return tuple(units)
""")]),
    ('q_common', F, [("""        common_unit = next((_ for _ in input_units if _), {})
        inputs = tuple(
            input.tounit(common_unit) if unit and unit != common_unit else input
            for input, unit in zip(arrays, input_units)
        )
        return inputs, common_unit
""", """        common_unit = {}
        for unit in input_units:
            if unit:
                common_unit = unit
                break
        inputs = []
        for input, unit in zip(arrays, input_units):
            if unit and unit != common_unit:
                input = input.tounit(common_unit)
            inputs.append(input)
        return tuple(inputs), common_unit
""")]),
    ('q_ufunc_order', F, [("""        elif ufunc is np.reciprocal:
            output_unit = _power_unit(input_units[0], -1)

        elif ufunc is np.cbrt:
            output_unit = _power_unit(input_units[0], 1 / 3)

        elif ufunc is np.sqrt:
            output_unit = _power_unit(input_units[0], 0.5)

        elif ufunc is np.square:
            output_unit = _power_unit(input_units[0], 2)
""", """        elif ufunc is np.square:
            output_unit = _power_unit(input_units[0], 2)

        elif ufunc is np.sqrt:
            output_unit = _power_unit(input_units[0], 1 / 2)

        elif ufunc is np.cbrt:
            output_unit = _power_unit(input_units[0], 1 / 3)

        elif ufunc is np.reciprocal:
            output_unit = _power_unit(input_units[0], -1)
""")]),
    ('q_ufunc_table', F, [("""        elif ufunc is np.reciprocal:
            output_unit = _power_unit(input_units[0], -1)

        elif ufunc is np.cbrt:
            output_unit = _power_unit(input_units[0], 1 / 3)

        elif ufunc is np.sqrt:
            output_unit = _power_unit(input_units[0], 0.5)

        elif ufunc is np.square:
            output_unit = _power_unit(input_units[0], 2)
""", """        elif ufunc in (np.reciprocal, np.cbrt, np.sqrt, np.square):
            powers = {np.reciprocal: -1, np.cbrt: 1 / 3, np.sqrt: 0.5, np.square: 2}
            output_unit = _power_unit(input_units[0], powers[ufunc])
""")]),
    ('q_ufunc_view', F, [("""        result = super().__array_ufunc__(
            ufunc,
            method,
            *[
                input.view(np.ndarray) if isinstance(input, Quantity) else input
                for input in inputs
            ],
            **kwargs,
        )
        if result is None or""", """        views = []
        for input in inputs:
            if isinstance(input, Quantity):
                input = input.view(np.ndarray)
            views.append(input)
        result = super().__array_ufunc__(ufunc, method, *views, **kwargs)
        if result is None or""")]),
    ('q_ufunc_out', F, [("""        if out is not None:
            kwargs['out'] = tuple(
                o.view(np.ndarray) if isinstance(o, Quantity) else o
                for o in (out if isinstance(out, tuple) else (out,))
            )
""", """        if out is not None:
            if not isinstance(out, tuple):
                out = (out,)
            kwargs['out'] = tuple(
                o if not isinstance(o, Quantity) else o.view(np.ndarray) for o in out
            )
""")]),
    ('q_ufunc_common', F, [("""        elif ufunc in (
            np.equal,
            np.greater,
            np.greater_equal,
            np.less,
            np.less_equal,
            np.not_equal,
        ):
            inputs, _ = self._get_inputs_with_common_units(inputs)
            output_unit = None
""", """        elif ufunc in COMPARISONS:
            inputs = self._get_inputs_with_common_units(inputs)[0]
            output_unit = None
"""), ("""class Quantity(np.ndarray):
""", """COMPARISONS = {
    np.less,
    np.less_equal,
    np.equal,
    np.not_equal,
    np.greater,
    np.greater_equal,
}


class Quantity(np.ndarray):
""")]),
    ('q_process', F, [("""        if np.isscalar(result):
            result = type(self)(result)
        else:
            result = result.view(type(self))
        result.__array_finalize__(self)
        result._unit = output_unit
        return result
""", """        cls = type(self)
        output = cls(result) if np.isscalar(result) else result.view(cls)
        output.__array_finalize__(self)
        output._unit = output_unit
        return output
""")]),
    ('q_getitem', F, [("""            if broadcast == 'leftward':
                v_ = v[key[-v.ndim :]]
            else:
                v_ = v[key[: v.ndim]]
            v = v_ if isinstance""", """            subkey = key[-v.ndim :] if broadcast == 'leftward' else key[: v.ndim]
            v_ = v[subkey]
            v = v_ if isinstance""")]),
    ('q_getitem_key', F, [("""        if not isinstance(key, tuple):
            key = (key,)

        # Replace Ellipsis with ':'
        try:
            pos = key.index(Ellipsis)
            n = self.ndim - len(key) + 1
            key = key[:pos] + n * (slice(None),) + key[pos + 1 :]
        except ValueError:
            pass

        key += (self.ndim - len(key)) * (slice(None),)
""", """        key = self._expand_key(key)
"""), ("""    def __getslice__(self, i, j):""", """    def _expand_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)

        # Replace Ellipsis with ':'
        try:
            pos = key.index(Ellipsis)
            n = self.ndim - len(key) + 1
            key = key[:pos] + n * (slice(None),) + key[pos + 1 :]
        except ValueError:
            pass

        return key + (self.ndim - len(key)) * (slice(None),)

    def __getslice__(self, i, j):""")]),
    ('q_getitem_du', F, [("""            try:
                pos = d.index('[')
            except ValueError:
                continue

            # the derived""", """            pos = d.find('[')
            if pos == -1:
                continue

            # the derived""")]),
    ('q_magnitude', F, [("""        if self.ndim == 0:
            self.shape = (1,)
            try:
                self.view(np.ndarray)[:] = value
            except ValueError as error:
                raise error
            finally:
                self.shape = ()
        else:
            self.view(np.ndarray)[:] = value
""", """        self.view(np.ndarray)[...] = value
""")]),
    ('q_du_setter', F, [("""        if derived_units is not None:
            if not isinstance(derived_units, dict):
                raise TypeError('Input derived units are not a dict.')
            for key in derived_units:
                if not isinstance(derived_units[key], Quantity) and not hasattr(
                    derived_units[key], '__call__'
                ):
                    raise""", """        if derived_units is not None:
            if not isinstance(derived_units, dict):
                raise TypeError('Input derived units are not a dict.')
            for key, value in derived_units.items():
                if not isinstance(value, Quantity) and not callable(value):
                    raise""")]),
    ('q_inunit', F, [("""        if hasattr(self, '_header'):
            q1 = self.__class__(
                1,
                header=self._header,
                unit=self._unit,
                derived_units=self.derived_units,
            ).SI
            q2 = self.__class__(
                1, header=self._header, unit=newunit, derived_units=self.derived_units
            ).SI
        else:
            q1 = Quantity(1.0, self._unit, self.derived_units).SI
            q2 = Quantity(1.0, newunit, self.derived_units).SI
""", """        q1 = self._get_SI(self._unit)
        q2 = self._get_SI(newunit)
"""), ("""    @property
    def SI(self):""", """    def _get_SI(self, unit):
        if hasattr(self, '_header'):
            q = self.__class__(
                1,
                header=self._header,
                unit=unit,
                derived_units=self.derived_units,
            )
        else:
            q = Quantity(1.0, unit, self.derived_units)
        return q.SI

    @property
    def SI(self):""")]),
    ('q_inunit2', F, [("""        if len(self._unit) == 0 or len(newunit) == 0:
            self._unit = newunit
            return
""", """        if not self._unit or not newunit:
            self._unit = newunit
            return
"""), ("""        factor = q1.magnitude / q2.magnitude
        if self.ndim == 0:
            self.magnitude *= factor
        else:
            self.magnitude.T[:] *= factor.T
        self._unit = newunit
""", """        factor = q1.magnitude / q2.magnitude
        if self.ndim > 0:
            self.magnitude.T[:] *= factor.T
        else:
            self.magnitude *= factor
        self._unit = newunit
""")]),
    ('q_SI', F, [("""            # check if the unit is a local derived unit
            newfactor, broadcast = _check_du(self, key, val, self.derived_units)

            # check if the unit is a global derived unit
            if newfactor is None:
                newfactor, broadcast = _check_du(self, key, val, units)

            # if the unit is not derived, we add it to the dictionary
            if newfactor is None:
                _multiply_unit_inplace(fslow._unit, key, val)
                continue

            # factor may be broadcast
            if broadcast == 'leftward':
                fslow = fslow * newfactor
            else:
                ffast = (ffast.T * newfactor.T).T
""", """            # check if the unit is a local or a global derived unit
            for table in self.derived_units, units:
                newfactor, broadcast = _check_du(self, key, val, table)
                if newfactor is not None:
                    break

            if newfactor is None:
                # if the unit is not derived, we add it to the dictionary
                _multiply_unit_inplace(fslow._unit, key, val)
            elif broadcast == 'leftward':
                # factor may be broadcast
                fslow = fslow * newfactor
            else:
                ffast = (ffast.T * newfactor.T).T
""")]),
    ('q_SI2', F, [("""            if newfactor is None:
                _multiply_unit_inplace(fslow._unit, key, val)
                continue

            # factor may be broadcast
            if broadcast == 'leftward':
                fslow = fslow * newfactor
            else:
                ffast = (ffast.T * newfactor.T).T

        result = self * fslow.magnitude
        result = (result.T * ffast.magnitude.T).T
        result._unit = _multiply_unit(fslow._unit, ffast._unit)

        return result
""", """            if newfactor is None:
                _multiply_unit_inplace(fslow._unit, key, val)
            elif broadcast == 'leftward':
                fslow = fslow * newfactor
            else:
                ffast = (ffast.T * newfactor.T).T

        unit = _multiply_unit(fslow._unit, ffast._unit)
        result = self * fslow.magnitude
        result = (result.T * ffast.magnitude.T).T
        result._unit = unit
        return result
""")]),
    ('q_check_du', F, [("""    if (key, val) in derived_units:
        du, broadcast = _get_du(input, (key, val), derived_units)
        return (None, None) if du is None else (du.SI, broadcast)
    if (key, -val) in derived_units:
        du, broadcast = _get_du(input, (key, -val), derived_units)
        return (None, None) if du is None else ((1 / du).SI, broadcast)
    du, broadcast = _get_du(input, key, derived_units)
    if du is None:
        return None, None
    if val == 1.0:
        return du.SI, broadcast
    if val == -1.0:
        return (1 / du).SI, broadcast
    return (du**val).SI, broadcast
""", """    if (key, val) in derived_units:
        key, val = (key, val), 1.0
    elif (key, -val) in derived_units:
        key, val = (key, -val), -1.0
    du, broadcast = _get_du(input, key, derived_units)
    if du is None:
        return None, None
    if val == 1.0:
        factor = du
    elif val == -1.0:
        factor = 1 / du
    else:
        factor = du**val
    return factor.SI, broadcast
""")]),
    ('q_get_du', F, [("""    if hasattr(input, '_header'):
        du = du.view(type(input))
        du._header = input._header
    else:
        du = du.view()
    du._derived_units = input._derived_units
    return du, broadcast
""", """    has_header = hasattr(input, '_header')
    du = du.view(type(input)) if has_header else du.view()
    if has_header:
        du._header = input._header
    du._derived_units = input._derived_units
    return du, broadcast
""")]),
    ('q_check_in', F, [("""        try:
            pos = du.index('[')
            if key == du[:pos]:
                return value, du[pos + 1 : -1]
        except ValueError:
            if key == du:
                return value, 'leftward'
    raise ValueError
""", """        try:
            pos = du.index('[')
        except ValueError:
            name, broadcast = du, 'leftward'
        else:
            name, broadcast = du[:pos], du[pos + 1 : -1]
        if key == name:
            return value, broadcast
    raise ValueError
""")]),
    ('q_pixel', F, [("""    keywords = np.concatenate(
        [
            (lambda i: [r + str(i + 1) for r in required])(i)
            for i in range(input.header['NAXIS'])
        ]
    )
    if not all([k in input.header for k in keywords]):
        return Quantity(1, 'pixel_reference')
""", """    header = input.header
    for i in range(header['NAXIS']):
        for r in required:
            if r + str(i + 1) not in header:
                return Quantity(1, 'pixel_reference')
""")]),
    ('q_pixel2', F, [("""    required = 'CRPIX,CRVAL,CTYPE'.split(',')
    keywords = np.concatenate(
        [
            (lambda i: [r + str(i + 1) for r in required])(i)
            for i in range(input.header['NAXIS'])
        ]
    )
    if not all([k in input.header for k in keywords]):
        return Quantity(1, 'pixel_reference')
""", """    required = ('CRPIX', 'CRVAL', 'CTYPE')
    naxis = input.header['NAXIS']
    keywords = [f'{r}{i + 1}' for i in range(naxis) for r in required]
    if any(k not in input.header for k in keywords):
        return Quantity(1, 'pixel_reference')
""")]),
    ('q_solid', F, [("""    cunit1 = header['CUNIT1'] if 'CUNIT1' in header else 'deg'
    cunit2 = header['CUNIT2'] if 'CUNIT2' in header else 'deg'
    return area * Quantity(1, cunit1) * Quantity(1, cunit2)
""", """    cunit1, cunit2 = (header.get(key, 'deg') for key in ('CUNIT1', 'CUNIT2'))
    return area * Quantity(1, cunit1) * Quantity(1, cunit2)
""")]),
    ('q_solid2', F, [("""    if all([key in header for key in ('CD1_1', 'CD2_1', 'CD1_2', 'CD2_2')]):
        cd = np.array(
            [[header['cd1_1'], header['cd1_2']], [header['cd2_1'], header['cd2_2']]]
        )
        area = abs(np.linalg.det(cd))
""", """    if all(key in header for key in ('CD1_1', 'CD1_2', 'CD2_1', 'CD2_2')):
        cd = np.array(
            [[header[f'cd{i}_{j}'] for j in (1, 2)] for i in (1, 2)]
        )
        area = np.abs(np.linalg.det(cd))
""")]),
    ('q_repr', F, [("""        return (
            type(self).__name__
            + '('
            + str(np.asarray(self))
            + ", '"
            + _strunit(self._unit)
            + "')"
        )
""", """        return f"{type(self).__name__}({np.asarray(self)!s}, '{self.unit}')"
""")]),
    ('q_reduce', F, [("""        for k, v in subclass_state.items():
            setattr(self, k, v)
""", """        for name in subclass_state:
            setattr(self, name, subclass_state[name])
""")]),
    ('q_unit_cls', F, [("""        for k, v in units_table.items():
            self[k] = v
            if isinstance(k, str):
                setattr(self, k, Quantity(1, k))
""", """        super().__init__(units_table)
        for name in self:
            if isinstance(name, str):
                setattr(self, name, Quantity(1, name))
""")]),
    ('q_unit_cls2', F, [("""        for k, v in units_table.items():
            self[k] = v
            if isinstance(k, str):
                setattr(self, k, Quantity(1, k))
""", """        self.update(units_table)
        for k in units_table:
            if isinstance(k, str):
                setattr(self, k, Quantity(1, k))
""")]),
]
