"""Refactorings of datatypes.py written by hand."""

F = 'datatypes.py'
R = [
    ('dt_read_unit', F, [("""            if unit is None:
                if 'BUNIT' in header:
                    unit = header['BUNIT']
                elif 'QTTY____' in header:
                    unit = header['QTTY____']  # HCSS crap
                    if unit == '1':
                        unit = ''
""", """            if unit is None:
                unit = cls._get_header_unit(header)
"""), ("""    def __array_finalize__(self, array):
        super().__array_finalize__(array)
        self._header = getattr(array, '_header', None)
""", """    @staticmethod
    def _get_header_unit(header):
        if 'BUNIT' in header:
            return header['BUNIT']
        if 'QTTY____' not in header:
            return None
        unit = header['QTTY____']  # HCSS crap
        return '' if unit == '1' else unit

    def __array_finalize__(self, array):
        super().__array_finalize__(array)
        self._header = getattr(array, '_header', None)
""")]),
    ('dt_comm_first', F, [("""        if isinstance(data, (str, Path)):

            if comm is None:
                comm = MPI.COMM_SELF

            try:""", """        is_file = isinstance(data, (str, Path))
        if not is_file and comm is not None:
            raise ValueError(
                'The MPI communicator can only be set for input F' 'ITS files.'
            )

        if is_file:

            comm = MPI.COMM_SELF if comm is None else comm

            try:"""), ("""                        unit = ''

        elif comm is not None:
            raise ValueError(
                'The MPI communicator can only be set for input F' 'ITS files.'
            )
""", """                        unit = ''
""")]),
    ('dt_header_copy', F, [("""            if copy:
                result._header = data._header.copy()
            else:
                result._header = data._header
""", """            result._header = data._header.copy() if copy else data._header
""")]),
    ('dt_header_reorder', F, [("""        if header is not None:
            result.header = header
        elif hasattr(data, '_header') and type(data._header) is pyfits.Header:
            if copy:
                result._header = data._header.copy()
            else:
                result._header = data._header
        else:
            result._header = None

        return result
""", """        if header is None:
            header = getattr(data, '_header', None)
            if type(header) is not pyfits.Header:
                result._header = None
            elif copy:
                result._header = header.copy()
            else:
                result._header = header
            return result

        result.header = header
        return result
""")]),
    ('dt_getattr', F, [("""        if self.dtype.names and name in self.dtype.names:
            return self[name]
        return super().__getattribute__(name)
""", """        names = self.dtype.names
        if not names or name not in names:
            return super().__getattribute__(name)
        return self[name]
""")]),
    ('dt_is_field', F, [("""        if self.dtype.names and name in self.dtype.names:
            return self[name]
        return super().__getattribute__(name)

    def __setattr__(self, name, value):
        if self.dtype.names and name in self.dtype.names:
            self[name] = value
        else:
            super().__setattr__(name, value)
""", """        if name in (self.dtype.names or ()):
            return self[name]
        return super().__getattribute__(name)

    def __setattr__(self, name, value):
        if name in (self.dtype.names or ()):
            self[name] = value
            return
        super().__setattr__(name, value)
""")]),
    ('dt_astype', F, [("""        result = super().astype(dtype)
        if self._header is not None:
            typename = np.dtype(dtype).name
            result._header = self._header.copy()
            result._header['BITPIX'] = pyfits.DTYPE2BITPIX[typename]
        return result
""", """        result = super().astype(dtype)
        if self._header is None:
            return result
        header = self._header.copy()
        header['BITPIX'] = pyfits.DTYPE2BITPIX[np.dtype(dtype).name]
        result._header = header
        return result
""")]),
    ('dt_header_setter', F, [("""        if header is not None and not isinstance(header, pyfits.Header):
            raise TypeError(
                'Incorrect type for the input header (' + str(type(header)) + ').'
            )
""", """        if not (header is None or isinstance(header, pyfits.Header)):
            raise TypeError(f'Incorrect type for the input header ({type(header)}).')
""")]),
    ('dt_factories', F, [("""        if dtype is None:
            dtype = cls.default_dtype
        return cls(
            empty(shape, dtype, order),
            header=header,
            unit=unit,
            derived_units=derived_units,
            dtype=dtype,
            copy=False,
            **keywords,
        )
""", """        dtype = cls.default_dtype if dtype is None else dtype
        data = empty(shape, dtype, order)
        return cls(data, dtype=dtype, copy=False, header=header, unit=unit,
                   derived_units=derived_units, **keywords)
""")]),
    ('dt_save', F, [("""        header = self.header.copy()
        if comm is None:
            comm = MPI.COMM_SELF

        if len(self._unit) != 0:
            header['BUNIT'] = self.unit

        write_fits(filename, self, header, False, None, comm)
        if not self.derived_units:
            return
        if comm is None or comm.rank == 0:
            buf = io.BytesIO()
            pickle.dump(self.derived_units, buf, pickle.HIGHEST_PROTOCOL)
            data = np.frombuffer(buf.getvalue(), np.uint8)
            write_fits(filename, data, None, True, 'derived_units', MPI.COMM_SELF)
        comm.Barrier()
""", """        if comm is None:
            comm = MPI.COMM_SELF

        header = self.header.copy()
        if self._unit:
            header['BUNIT'] = self.unit
        write_fits(filename, self, header, False, None, comm)

        if self.derived_units:
            if comm.rank == 0:
                self._save_derived_units(filename)
            comm.Barrier()

    def _save_derived_units(self, filename):
        content = pickle.dumps(self.derived_units, pickle.HIGHEST_PROTOCOL)
        data = np.frombuffer(content, np.uint8)
        write_fits(filename, data, None, True, 'derived_units', MPI.COMM_SELF)
""")]),
    ('dt_save_buf', F, [("""            data = np.frombuffer(buf.getvalue(), np.uint8)
            write_fits(filename, data, None, True, 'derived_units', MPI.COMM_SELF)
""", """            content = buf.getvalue()
            write_fits(
                filename,
                np.frombuffer(content, dtype=np.uint8),
                header=None,
                extension=True,
                extname='derived_units',
                comm=MPI.COMM_SELF,
            )
""")]),
    ('dt_map_ext', F, [("""            if coverage is None:
                try:
                    coverage, junk = read_fits(data, 'Coverage', comm)
                except KeyError:
                    pass
            if error is None:
                try:
                    error, junk = read_fits(data, 'Error', comm)
                except KeyError:
                    pass
""", """            if coverage is None:
                coverage = cls._read_extension(data, 'Coverage', comm)
            if error is None:
                error = cls._read_extension(data, 'Error', comm)
"""), ("""    def __array_function__(self, func, types, args, kwargs):
        if func is np.reshape:
            return args[0].reshape(*args[1:], **kwargs)
        if func is np.ravel:
            return args[0].ravel(*args[1:], **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    def __getitem__(self, key):
        item = super().__getitem__(key)
        if not isinstance(item, Map):""", """    @staticmethod
    def _read_extension(filename, extname, comm):
        try:
            data, _ = read_fits(filename, extname, comm)
        except KeyError:
            return None
        return data

    def __array_function__(self, func, types, args, kwargs):
        if func is np.reshape:
            return args[0].reshape(*args[1:], **kwargs)
        if func is np.ravel:
            return args[0].ravel(*args[1:], **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    def __getitem__(self, key):
        item = super().__getitem__(key)
        if not isinstance(item, Map):""")]),
    ('dt_map_origin', F, [("""            if 'DISPORIG' in result.header:
                if origin is None:
                    origin = result.header['DISPORIG']
""", """            if origin is None:
                origin = result.header.get('DISPORIG')
""")]),
    ('dt_map_origin2', F, [("""            if 'DISPORIG' in result.header:
                if origin is None:
                    origin = result.header['DISPORIG']
""", """            if origin is None and 'DISPORIG' in result.header:
                origin = result.header['DISPORIG']
"""), ("""            origin = origin.strip().lower()
            if origin not in ('lower', 'upper'):
                raise ValueError(
                    "Invalid origin '" + origin + "'. Expected va"
                    "lues are 'lower' or 'upper'."
                )
            result.origin = origin
""", """            origin = origin.strip().lower()
            if origin != 'lower' and origin != 'upper':
                raise ValueError(
                    f"Invalid origin '{origin}'. Expected values are 'lower' or 'upper'."
                )
            result.origin = origin
""")]),
    ('dt_map_fields_loop', F, [("""        if coverage is not None:
            result.coverage = np.asanyarray(coverage)
        elif copy and result.coverage is not None:
            result.coverage = result.coverage.copy()

        if error is not None:
            result.error = np.asanyarray(error)
        elif copy and result.error is not None:
            result.error = result.error.copy()

        return result
""", """        for name, value in ('coverage', coverage), ('error', error):
            if value is not None:
                setattr(result, name, np.asanyarray(value))
            elif copy and getattr(result, name) is not None:
                setattr(result, name, getattr(result, name).copy())

        return result
""")]),
    ('dt_map_getitem', F, [("""        if not isinstance(item, Map):
            return item
        if item.coverage is not None:
            item.coverage = item.coverage[key]
        if item.error is not None:
            item.error = item.error[key]
        return item
""", """        if isinstance(item, Map):
            for name in 'coverage', 'error':
                value = getattr(item, name)
                if value is not None:
                    setattr(item, name, value[key])
        return item
""")]),
    ('dt_map_astype', F, [("""        if self.coverage is not None:
            result.coverage = self.coverage.astype(dtype)
        if self.error is not None:
            result.error = self.error.astype(dtype)
        return result
""", """        coverage, error = self.coverage, self.error
        if error is not None:
            result.error = error.astype(dtype)
        if coverage is not None:
            result.coverage = coverage.astype(dtype)
        return result
""")]),
    ('dt_map_ravel', F, [("""        result = super().ravel(order)
        coverage = None if self.coverage is None else self.coverage.ravel(order)
        error = None if self.error is None else self.error.ravel(order)
        result.coverage = coverage
        result.error = error
        return result
""", """        def ravel(x):
            if x is None:
                return None
            return x.ravel(order)

        result = super().ravel(order)
        result.coverage = ravel(self.coverage)
        result.error = ravel(self.error)
        return result
""")]),
    ('dt_map_reshape', F, [("""        result = super().reshape(*newdims, order=order)
        coverage = (
            None
            if self.coverage is None
            else self.coverage.reshape(*newdims, order=order)
        )
        error = (
            None if self.error is None else self.error.reshape(*newdims, order=order)
        )
        result.coverage = coverage
        result.error = error
        return result
""", """        coverage, error = self.coverage, self.error
        if coverage is not None:
            coverage = coverage.reshape(*newdims, order=order)
        if error is not None:
            error = error.reshape(*newdims, order=order)
        result = super().reshape(*newdims, order=order)
        result.coverage = coverage
        result.error = error
        return result
""")]),
    ('dt_map_save', F, [("""        if self.coverage is not None:
            write_fits(filename, self.coverage, None, True, 'Coverage', comm)
        if self.error is not None:
            write_fits(filename, self.error, None, True, 'Error', comm)
""", """        for extname, value in (('Coverage', self.coverage), ('Error', self.error)):
            if value is None:
                continue
            write_fits(filename, value, None, True, extname, comm)
""")]),
    ('dt_map_save2', F, [("""        if comm is None:
            comm = MPI.COMM_SELF

        self.header['DISPORIG'] = self.origin, 'Map display convention'
        FitsArray.save(self, filename, comm=comm)
        if self.coverage""", """        comm = comm if comm is not None else MPI.COMM_SELF
        header = self.header
        header['DISPORIG'] = (self.origin, 'Map display convention')
        super().save(filename, comm=comm)
        if self.coverage""")]),
    ('dt_tod_mask', F, [("""        if mask is None and hasattr(data, 'mask') and data.mask is not np.ma.nomask:
            mask = data.mask

        if mask is not None:
            if not isinstance(mask, np.ndarray) or mask.dtype != bool:
                copy = True
            result._mask = np.array(mask, np.bool_, copy=copy)

        return result
""", """        if mask is None:
            mask = getattr(data, 'mask', None)
            if mask is np.ma.nomask:
                mask = None

        if mask is None:
            return result

        is_bool = isinstance(mask, np.ndarray) and mask.dtype == bool
        result._mask = np.array(mask, dtype=np.bool_, copy=copy if is_bool else True)
        return result
""")]),
    ('dt_tod_mask_setter', F, [("""        if not isinstance(mask, np.ndarray):
            mask = np.array(mask, np.bool_)
        elif mask.dtype.type != np.bool_:
            if mask.dtype.itemsize == 1:
                mask = mask.view(np.bool_)
            else:
                mask = np.asarray(mask, np.bool_)

        # handle the scalar case
        if mask.ndim == 0:
            if self._mask is None:
                func = np.zeros if mask == 0 else np.ones
                self._mask = func(self.shape, dtype=np.bool_)
            else:
                self._mask[:] = mask
            return
""", """        mask = self._as_bool(mask)

        # handle the scalar case
        if mask.ndim == 0:
            if self._mask is not None:
                self._mask[:] = mask
                return
            if mask == 0:
                self._mask = np.zeros(self.shape, dtype=np.bool_)
            else:
                self._mask = np.ones(self.shape, dtype=np.bool_)
            return
"""), ("""    @property
    def mask(self):
        return self._mask
""", """    @staticmethod
    def _as_bool(mask):
        if not isinstance(mask, np.ndarray):
            return np.array(mask, np.bool_)
        if mask.dtype.type == np.bool_:
            return mask
        if mask.dtype.itemsize == 1:
            return mask.view(np.bool_)
        return np.asarray(mask, np.bool_)

    @property
    def mask(self):
        return self._mask
""")]),
    ('dt_tod_setter_shape', F, [("""        if self.shape != mask.shape:
            raise ValueError(
                "The input mask has a shape '"
                + str(mask.shape)
                + "' incompatible with that of the Tod '"
                + str(self.shape)
                + "'."
            )

        self._mask = mask
""", """        if mask.shape == self.shape:
            self._mask = mask
        else:
            raise ValueError(
                f"The input mask has a shape '{mask.shape}' incompatible with that of "
                f"the Tod '{self.shape}'."
            )
""")]),
    ('dt_tod_outputs', F, [("""        # Handle scalar results (no mask from MaskedArray, so no mask on output)
        if np.isscalar(arrays):
            output = type(self)(arrays, mask=None)
            output.__array_finalize__(self)
            output._mask = None  # Explicitly clear mask (not inherited from self)
            output._unit = output_units
            return output

        # Handle ndarray results (no mask from MaskedArray, so no mask on output)
        if isinstance(arrays, np.ndarray):
            output = arrays.view(type(self))
            output.__array_finalize__(self)
            output._mask = None  # Explicitly clear mask (not inherited from self)
            output._unit = output_units
            return output
""", """        # Handle scalar and ndarray results (no mask from MaskedArray, so no mask on output)
        scalar = np.isscalar(arrays)
        if scalar or isinstance(arrays, np.ndarray):
            if scalar:
                output = type(self)(arrays, mask=None)
            else:
                output = arrays.view(type(self))
            output.__array_finalize__(self)
            output._mask = None  # Explicitly clear mask (not inherited from self)
            output._unit = output_units
            return output
""")]),
    ('dt_tod_finalize', F, [("""            mask = arrays.mask if arrays.mask is not np.ma.nomask else None
            output = arrays.data.view(type(self))
            output.__array_finalize__(self)
            output.mask = mask
            output._unit = output_units
            return output
""", """            mask = arrays.mask
            if mask is np.ma.nomask:
                mask = None
            output = arrays.data.view(type(self))
            output.__array_finalize__(self)
            output._unit = output_units
            output.mask = mask
            return output
""")]),
    ('dt_tod_str', F, [("""        output += ' ('
        if self.ndim > 1:
            output += str(self.shape[-2]) + ' detector'
            if self.shape[-2] > 1:
                output += 's'
            output += ', '
        output += str(self.shape[-1]) + ' sample'
        if self.shape[-1] > 1:
            output += 's'
        return output + ')'
""", """        nsamples = self.shape[-1]
        output = f'{output} ('
        if self.ndim > 1:
            ndetectors = self.shape[-2]
            plural = 's' if ndetectors > 1 else ''
            output += f'{ndetectors} detector{plural}, '
        plural = 's' if nsamples > 1 else ''
        return output + f'{nsamples} sample{plural})'
""")]),
    ('dt_tod_save', F, [("""        if self.mask is not None:
            mask = self.mask.view('uint8')
            write_fits(filename, mask, None, True, 'Mask', comm)
""", """        mask = self.mask
        if mask is None:
            return
        write_fits(filename, mask.view(np.uint8), None, True, 'Mask', comm)
""")]),
    ('dt_tod_ravel', F, [("""        result = super().ravel(order)
        mask = None if self.mask is None else self.mask.ravel(order)
        result.mask = mask
        return result
""", """        result = super().ravel(order)
        mask = self.mask
        result.mask = mask.ravel(order) if mask is not None else None
        return result
""")]),
    ('dt_tod_median', F, [("""        result = Tod(
            np.median(self, axis=axis),
            header=self.header.copy(),
            unit=self.unit,
            derived_units=self.derived_units,
            dtype=self.dtype,
            copy=None,
        )
        result.mask = None
""", """        keywords = {
            'header': self.header.copy(),
            'unit': self.unit,
            'derived_units': self.derived_units,
        }
        median = np.median(self, axis=axis)
        result = Tod(median, dtype=self.dtype, copy=None, **keywords)
        result.mask = None
""")]),
    ('dt_tod_arrayf', F, [("""        if func is np.reshape:
            return args[0].reshape(*args[1:], **kwargs)
        if func is np.ravel:
            return args[0].ravel(*args[1:], **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    @classmethod
    def _view""", """        if func in (np.reshape, np.ravel):
            array, *args = args
            return getattr(array, func.__name__)(*args, **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    @classmethod
    def _view""")]),
    ('dt_tod_arrayf2', F, [("""        if func is np.reshape:
            return args[0].reshape(*args[1:], **kwargs)
        if func is np.ravel:
            return args[0].ravel(*args[1:], **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    @classmethod
    def _view""", """        if func is np.reshape or func is np.ravel:
            array, args = args[0], args[1:]
            method = array.reshape if func is np.reshape else array.ravel
            return method(*args, **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    @classmethod
    def _view""")]),
    ('dt_tod_view', F, [("""        if isinstance(array, Tod) and array.mask is not None:
            return np.ma.MaskedArray(
                array.view(np.ndarray), mask=array.mask, copy=False
            )
        return super()._view_function_input(array)
""", """        if not isinstance(array, Tod):
            return super()._view_function_input(array)
        mask = array.mask
        if mask is None:
            return super()._view_function_input(array)
        return np.ma.MaskedArray(array.view(np.ndarray), mask=mask, copy=False)
""")]),
    ('dt_imshow', F, [("""        unfinite = ~np.isfinite(self.magnitude)
        if mask is None:
            mask = unfinite
        else:
            mask = np.logical_or(mask, unfinite)
        data_valid = data[~mask]
        minval = scipy.stats.scoreatpercentile(data_valid, percentile[0])
        maxval = scipy.stats.scoreatpercentile(data_valid, percentile[1])
        data[data < minval] = minval
        data[data > maxval] = maxval
        data[mask] = np.nan

        if new_figure:
            fig = mp.figure()
        else:
            fig = mp.gcf()
        fontsize""", """        unfinite = np.logical_not(np.isfinite(self.magnitude))
        mask = unfinite if mask is None else np.logical_or(mask, unfinite)
        valid = data[~mask]
        minval, maxval = [scipy.stats.scoreatpercentile(valid, p) for p in percentile]
        data[data < minval] = minval
        data[data > maxval] = maxval
        data[mask] = np.nan

        fig = mp.figure() if new_figure else mp.gcf()
        fontsize""")]),
]
