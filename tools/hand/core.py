"""Behaviour-preserving edits of packedtables/core.py written by hand."""
F = 'packedtables/core.py'
R = [
    ('init_loop', F, [
        ("""            if v is None and isclassattr(k, type(self)):
                continue
            if not isinstance(v, Callable):
                v = self.pack(v, copy=True)
            setattr(self, k, v)
""", """            self._init_attribute(k, v)
"""),
        ("""    _reserved_attributes = ('all'""", """    def _init_attribute(self, name, value):
        if value is None and isclassattr(name, type(self)):
            return
        if not isinstance(value, Callable):
            value = self.pack(value, copy=True)
        setattr(self, name, value)

    _reserved_attributes = ('all'"""),
    ]),
    ('init_loop2', F, [
        ("""            if v is None and isclassattr(k, type(self)):
                continue
            if not isinstance(v, Callable):
                v = self.pack(v, copy=True)
            setattr(self, k, v)
""", """            if v is not None or not isclassattr(k, type(self)):
                setattr(self, k, v if isinstance(v, Callable) else self.pack(v, copy=True))
"""),
    ]),
    ('init_ndim', F, [
        ("""        if ndim is None:
            ndim = len(shape)
        elif ndim < 1 or ndim > len(shape):
            raise ValueError(f"Invalid ndim value '{ndim}'.")
""", """        ndim_max = len(shape)
        if ndim is None:
            ndim = ndim_max
        elif not 1 <= ndim <= ndim_max:
            raise ValueError(f"Invalid ndim value '{ndim}'.")
"""),
    ]),
    ('index_else', F, [
        ("""        index = self._index
        if index is Ellipsis:
            return np.arange(self._size_actual, dtype=self._dtype_index)
        if isinstance(index, slice):
            return np.arange(
                index.start, index.stop, index.step, dtype=self._dtype_index
            )
        return index
""", """        index = self._index
        if index is not Ellipsis and not isinstance(index, slice):
            return index
        if index is Ellipsis:
            args = (self._size_actual,)
        else:
            args = index.start, index.stop, index.step
        return np.arange(*args, dtype=self._dtype_index)
"""),
    ]),
    ('indexable', F, [
        ("""        if isinstance(index, slice) and index.stop < 0:
            return slice(index.start, None, index.step)
        return index
""", """        if not isinstance(index, slice) or index.stop >= 0:
            return index
        return slice(index.start, None, index.step)
"""),
    ]),
    ('size_actual', F, [
        ("        return product(self._shape_actual)\n", "        return product(self.shape[: self.ndim])\n"),
    ]),
    ('getindex_helper', F, [
        ("""            return self._normalize_int_selection(
                np.asarray(np.where(selection.ravel())[0], dtype=self._dtype_index),
                self._size_actual,
            )

        if selection is not Ellipsis and (
            not isinstance(selection, np.ndarray) or selection.dtype == int
        ):
            selection = self._selection2bool(selection)

        if selection is not Ellipsis:
            ordering = ordering.copy()
            ordering[~selection] = -1
""", """            indices = np.where(selection.ravel())[0]
            return self._normalize_int_selection(
                np.asarray(indices, dtype=self._dtype_index), self._size_actual
            )

        if selection is not Ellipsis:
            if not (isinstance(selection, np.ndarray) and selection.dtype != int):
                selection = self._selection2bool(selection)
            ordering = np.copy(ordering)
            ordering[~selection] = -1
"""),
    ]),
    ('getindex_split', F, [
        ("""        if ordering is None:
            # assuming row major storage for the ordering
            if selection is Ellipsis or isinstance(selection, slice):
                return selection
            if isinstance(selection, np.ndarray) and selection.dtype == int:
                out = np.asarray(selection, self._dtype_index)
                return self._normalize_int_selection(out, self._size_actual)
            if isinstance(selection, tuple):
                s = selection[0]
                if isinstance(s, slice) and (
                    self.ndim == 1 or len(selection) == 1 and s.step == 1
                ):
                    n = product(self._shape_actual[1:])
                    return slice(s.start * n, s.stop * n, s.step)
                selection = self._selection2bool(selection)

            return self._normalize_int_selection(
                np.asarray(np.where(selection.ravel())[0], dtype=self._dtype_index),
                self._size_actual,
            )

        if""", """        if ordering is None:
            return self._get_index_unordered(selection)

        if"""),
        ("""    def __len__(self):
        \"\"\"Return the number of actual""", """    def _get_index_unordered(self, selection):
        # assuming row major storage for the ordering
        if selection is Ellipsis or isinstance(selection, slice):
            return selection

        n = self._size_actual
        if isinstance(selection, np.ndarray) and selection.dtype == int:
            return self._normalize_int_selection(
                np.asarray(selection, self._dtype_index), n
            )

        if isinstance(selection, tuple):
            s = selection[0]
            if isinstance(s, slice) and (
                self.ndim == 1 or len(selection) == 1 and s.step == 1
            ):
                stride = product(self._shape_actual[1:])
                return slice(stride * s.start, stride * s.stop, s.step)
            selection = self._selection2bool(selection)

        out = np.asarray(np.where(selection.ravel())[0], dtype=self._dtype_index)
        return self._normalize_int_selection(out, n)

    def __len__(self):
        \"\"\"Return the number of actual"""),
    ]),
    ('ordering_npacked', F, [
        ("""        npacked = np.sum(ordering >= 0)
        if npacked == 0:
            return np.array([], self._dtype_index)
        out = np.asarray(
            np.argsort(ordering.ravel(), kind='mergesort')[-npacked:], self._dtype_index
        )
        return self._normalize_int_selection(out, self._size_actual)
""", """        npacked = (ordering >= 0).sum()
        if npacked != 0:
            order = np.argsort(ordering.ravel(), kind='mergesort')
            return self._normalize_int_selection(
                np.asarray(order[-npacked:], self._dtype_index), self._size_actual
            )
        return np.array([], self._dtype_index)
"""),
    ]),
    ('len_if', F, [
        ("""        index = self._index
        if index is Ellipsis:
            return self._size_actual
        if isinstance(index, slice):
            return (index.stop - index.start) // index.step
        return index.size
""", """        if self._index is Ellipsis:
            return self._size_actual
        elif isinstance(self._index, slice):
            s = self._index
            return (s.stop - s.start) // s.step
        else:
            return self._index.size
"""),
    ]),
    ('setattr_nest', F, [
        ("""            value = np.asanyarray(value)
            if value.ndim > 0 and value.shape[0] != len(self):
                raise ValueError(
                    f"The shape '{value.shape}' is invalid. The expected first "
                    f"dimension is '{len(self)}'."
                )
            elif value.ndim == 0:
                try:
                    old_value = object.__getattribute__(self, key)
                    if old_value is not None and not isinstance(old_value, Callable):
                        old_value[...] = value
                        return
                except AttributeError:
                    pass
        object.__setattr__(self, key, value)
""", """            value = np.asanyarray(value)
            if value.ndim > 0:
                n = len(self)
                if value.shape[0] != n:
                    raise ValueError(
                        f"The shape '{value.shape}' is invalid. The expected first "
                        f"dimension is '{n}'."
                    )
            else:
                try:
                    old_value = object.__getattribute__(self, key)
                    if old_value is not None and not isinstance(old_value, Callable):
                        old_value[...] = value
                        return
                except AttributeError:
                    pass
        object.__setattr__(self, key, value)
"""),
    ]),
    ('setattr_early', F, [
        ("""        if (
            value is not None
            and not isinstance(value, Callable)
            and key in self._special_attributes
        ):
            value = np.asanyarray(value)
""", """        is_array = value is not None and not isinstance(value, Callable)
        if is_array and key in self._special_attributes:
            value = np.asanyarray(value)
"""),
    ]),
    ('getattribute', F, [
        ("""        spec = inspect.getfullargspec(value)
        nargs = len(spec.args)
        if spec.defaults is not None:
            nargs -= len(spec.defaults)
        if isinstance(value, types.MethodType):
            if nargs == 1:
                return value()
            return value
        if nargs == 0:
            return value()
        if nargs == 1:
            return value(self)
        return functools.partial(value, self)
""", """        spec = inspect.getfullargspec(value)
        defaults = spec.defaults
        nargs = len(spec.args) - (0 if defaults is None else len(defaults))
        is_method = isinstance(value, types.MethodType)
        if is_method:
            return value() if nargs == 1 else value
        if nargs == 0:
            return value()
        elif nargs == 1:
            return value(self)
        else:
            return functools.partial(value, self)
"""),
    ]),
    ('getattribute2', F, [
        ("""        value = object.__getattribute__(self, key)
        if key not in object.__getattribute__(
            self, '_special_attributes'
        ) or not isinstance(value, Callable):
            return value
""", """        value = object.__getattribute__(self, key)
        special = object.__getattribute__(self, '_special_attributes')
        if not (key in special and isinstance(value, Callable)):
            return value
"""),
    ]),
    ('getitem_slices', F, [
        ("""            n = (selection.stop - selection.start) // selection.step
            start = index.start + selection.start * index.step
            step = index.step * selection.step
            stop = start + n * step
            index = slice(start, stop, step)
        else:
            index = self.index
            index = index[self._get_indexable(selection)]
""", """            index = self._compose_slices(index, selection)
        else:
            index = self.index[self._get_indexable(selection)]
"""),
        ("""    def __str__(self):
        out = type(self).__name__ + f'(""", """    @staticmethod
    def _compose_slices(s1, s2):
        nelements = (s2.stop - s2.start) // s2.step
        step = s2.step * s1.step
        start = s1.start + s1.step * s2.start
        return slice(start, start + step * nelements, step)

    def __str__(self):
        out = type(self).__name__ + f'("""),
    ]),
    ('getitem_cond', F, [
        ("""        if index is Ellipsis and (
            isinstance(selection, slice)
            or isinstance(selection, np.ndarray)
            and selection.dtype == int
        ):
            index = selection
        elif isinstance(index, slice) and isinstance(selection, slice):
""", """        is_slice = isinstance(selection, slice)
        is_int = isinstance(selection, np.ndarray) and selection.dtype == int
        if index is Ellipsis and (is_slice or is_int):
            index = selection
        elif isinstance(index, slice) and is_slice:
"""),
    ]),
    ('getitem_loop', F, [
        ("""        out = copy.copy(self)
        out._index = index
        for k in out._special_attributes:
            if k in out._reserved_attributes:
                continue
            try:
                v = self.__dict__[k]
            except KeyError:
                continue
            if isinstance(v, np.ndarray) and v.ndim > 0:
                setattr(out, k, v[self._get_indexable(selection)])
        return out
""", """        out = copy.copy(self)
        out._index = index
        key = self._get_indexable(selection)
        for k in out._special_attributes:
            if k not in out._reserved_attributes:
                try:
                    v = self.__dict__[k]
                except KeyError:
                    continue
                if isinstance(v, np.ndarray) and v.ndim > 0:
                    setattr(out, k, v[key])
        return out
"""),
    ]),
    ('getitem_loop_in', F, [
        ("""            try:
                v = self.__dict__[k]
            except KeyError:
                continue
            if isinstance(v, np.ndarray) and v.ndim > 0:
                setattr(out, k, v[self._get_indexable(selection)])
""", """            if k not in self.__dict__:
                continue
            v = self.__dict__[k]
            if isinstance(v, np.ndarray) and v.ndim > 0:
                setattr(out, k, v[self._get_indexable(selection)])
"""),
    ]),
    ('getitem_loop_get', F, [
        ("""            try:
                v = self.__dict__[k]
            except KeyError:
                continue
            if isinstance(v, np.ndarray) and v.ndim > 0:
                setattr(out, k, func(v))
""", """            v = self.__dict__.get(k)
            if isinstance(v, np.ndarray) and v.ndim > 0:
                setattr(out, k, func(v))
"""),
    ]),
    ('three_loops', F, [
        ("""        out = copy.copy(self)
        out._index = index
        for k in out._special_attributes:
            if k in out._reserved_attributes:
                continue
            try:
                v = self.__dict__[k]
            except KeyError:
                continue
            if isinstance(v, np.ndarray) and v.ndim > 0:
                setattr(out, k, v[self._get_indexable(selection)])
        return out
""", """        out = copy.copy(self)
        out._index = index
        selection = self._get_indexable(selection)
        for k, v in self._get_arrays(out):
            setattr(out, k, v[selection])
        return out

    def _get_arrays(self, out):
        arrays = []
        for k in out._special_attributes:
            if k in out._reserved_attributes:
                continue
            try:
                v = self.__dict__[k]
            except KeyError:
                continue
            if isinstance(v, np.ndarray) and v.ndim > 0:
                arrays.append((k, v))
        return arrays
"""),
    ]),
    ('str_attr', F, [
        ("""        if len(attributes) > 1:
            out += '\\n    '
        out += (
            ',\\n    '.join(f'{_}={str(getattr(self, _))[:65]}' for _ in attributes)
            + ')'
        )
        return out
""", """        if len(attributes) > 1:
            out += '\\n    '
        values = [f'{name}={str(getattr(self, name))[:65]}' for name in attributes]
        return out + ',\\n    '.join(values) + ')'
"""),
    ]),
    ('pack_out', F, [
        ("""        packed_shape = (len(self),) + x.shape[self.ndim :]
        flat_shape = (self._size_actual,) + x.shape[self.ndim :]
        if out is not None:
            if not isinstance(out, np.ndarray):
                raise TypeError('The output array is not an ndarray.')
            if out.shape != packed_shape:
                raise ValueError(
                    f"The output array shape '{out.shape}' is invalid. The expected "
                    f"shape is '{packed_shape}'."
                )
        else:
            if not copy:
""", """        extra_shape = x.shape[self.ndim :]
        packed_shape = (len(self),) + extra_shape
        flat_shape = (self._size_actual,) + extra_shape
        if out is not None:
            self._validate_out(out, packed_shape)
        else:
            if not copy:
"""),
        ("""        unpacked_shape = self._shape_actual + x.shape[1:]
        flat_shape = (self._size_actual,) + x.shape[1:]
        has_out = out is not None
        if has_out:
            if not isinstance(out, np.ndarray):
                raise TypeError('The output array is not an ndarray.')
            if out.shape != unpacked_shape:
                raise ValueError(
                    f"The output array shape '{out.shape}' is invalid. The expected "
                    f"shape is '{unpacked_shape}'."
                )
        else:
""", """        unpacked_shape = self._shape_actual + x.shape[1:]
        flat_shape = (self._size_actual,) + x.shape[1:]
        has_out = out is not None
        if has_out:
            self._validate_out(out, unpacked_shape)
        else:
"""),
        ("""    def scatter(self, comm=None):
        \"\"\"
        MPI-scatter of the table.
""", """    @staticmethod
    def _validate_out(out, shape):
        if not isinstance(out, np.ndarray):
            raise TypeError('The output array is not an ndarray.')
        if out.shape != shape:
            raise ValueError(
                f"The output array shape '{out.shape}' is invalid. The expected "
                f"shape is '{shape}'."
            )

    def scatter(self, comm=None):
        \"\"\"
        MPI-scatter of the table.
"""),
    ]),
    ('pack_alloc', F, [
        ("""            if not copy:
                if index is Ellipsis:
                    return x.reshape(packed_shape)
                elif isinstance(index, slice):
                    return x.reshape(flat_shape)[index]
            out = np.empty(packed_shape, dtype=x.dtype).view(type(x))
            if out.__array_finalize__ is not None:
                out.__array_finalize__(x)
        if index is Ellipsis:
            out[...] = x.reshape(packed_shape)
            return out
        x_ = x.view(np.ndarray).reshape(flat_shape)
        if isinstance(index, slice):
            out[...] = x_[index]
        else:
            np.take(x_, index, axis=0, out=out)
        return out
""", """            if index is Ellipsis and not copy:
                return x.reshape(packed_shape)
            if isinstance(index, slice) and not copy:
                return x.reshape(flat_shape)[index]
            out = self._empty_like(x, packed_shape)
        if index is Ellipsis:
            out[...] = x.reshape(packed_shape)
        else:
            x_ = x.view(np.ndarray).reshape(flat_shape)
            if not isinstance(index, slice):
                np.take(x_, index, axis=0, out=out)
            else:
                out[...] = x_[index]
        return out

    @staticmethod
    def _empty_like(x, shape):
        out = np.empty(shape, dtype=x.dtype).view(type(x))
        if out.__array_finalize__ is not None:
            out.__array_finalize__(x)
        return out
"""),
    ]),
    ('scatter_order', F, [
        ("""        if self.comm.size > 1:
            raise ValueError('The table is already distributed.')
        if comm is None:
            comm = MPI.COMM_WORLD
        if comm.size == 1:
            return self

        selection = split(len(self), comm.size, comm.rank)
        out = self[selection]
""", """        if self.comm.size > 1:
            raise ValueError('The table is already distributed.')
        comm = MPI.COMM_WORLD if comm is None else comm
        size, rank = comm.size, comm.rank
        if size == 1:
            return self

        out = self[split(len(self), size, rank)]
"""),
    ]),
    ('gather_counts', F, [
        ("""        counts = []
        offsets = [0]
        for s in split(ntot, self.comm.size):
            n = s.stop - s.start
            counts.append(n)
            offsets.append(offsets[-1] + n)
        offsets.pop()

        if len(args) == 1:
            return func(args[0])
        elif len(args) > 1:
            raise TypeError(f'gather takes at most 1 argument ({len(args)} given)')
""", """        counts, offsets = [], []
        offset = 0
        for s in split(ntot, self.comm.size):
            n = s.stop - s.start
            counts.append(n)
            offsets.append(offset)
            offset += n

        if len(args) > 1:
            raise TypeError(f'gather takes at most 1 argument ({len(args)} given)')
        if len(args) == 1:
            return func(args[0])
"""),
    ]),
    ('gather_comp', F, [
        ("""        counts = []
        offsets = [0]
        for s in split(ntot, self.comm.size):
            n = s.stop - s.start
            counts.append(n)
            offsets.append(offsets[-1] + n)
        offsets.pop()
""", """        slices = split(ntot, self.comm.size)
        counts = [s.stop - s.start for s in slices]
        offsets = [0]
        for n in counts[:-1]:
            offsets.append(offsets[-1] + n)
"""),
    ]),
    ('gather_start', F, [
        ("""        counts = []
        offsets = [0]
        for s in split(ntot, self.comm.size):
            n = s.stop - s.start
            counts.append(n)
            offsets.append(offsets[-1] + n)
        offsets.pop()
""", """        slices = list(split(ntot, self.comm.size))
        counts = [s.stop - s.start for s in slices]
        offsets = [s.start for s in slices]
"""),
    ]),
    ('gather_func', F, [
        ("""            x = np.ascontiguousarray(x)
            out = np.empty((ntot,) + x.shape[1:], x.dtype)
            nbytes = product(x.shape[1:]) * int(x.itemsize)
            self.comm.Allgatherv(
                x.view(np.byte),
                [
                    out.view(np.byte),
                    ([_ * nbytes for _ in counts], [_ * nbytes for _ in offsets]),
                ],
            )
            return out
""", """            x = np.ascontiguousarray(x)
            extra = x.shape[1:]
            nbytes = int(x.itemsize) * product(extra)
            out = np.empty((ntot,) + extra, x.dtype)
            byte_counts = [n * nbytes for n in counts]
            byte_offsets = [n * nbytes for n in offsets]
            recvbuf = [out.view(np.byte), (byte_counts, byte_offsets)]
            self.comm.Allgatherv(x.view(np.byte), recvbuf)
            return out
"""),
    ]),
    ('split_list', F, [
        ("""        return tuple(self[_] for _ in split(len(self), n))
""", """        out = []
        for selection in split(len(self), n):
            out.append(self[selection])
        return tuple(out)
"""),
    ]),
    ('unpack_write', F, [
        ("""        out_ = out.reshape(flat_shape)
        if self.comm.size == 1:
            out_[index] = x
        else:
            ix = self.comm.allgather((index, x))
            for i_, x_ in ix:
                out_[i_] = x_
        if has_out and not isalias(out, out_):
            out[...] = out_.reshape(out.shape)
        return out
""", """        flat = out.reshape(flat_shape)
        if self.comm.size > 1:
            for index_, x_ in self.comm.allgather((index, x)):
                flat[index_] = x_
        else:
            flat[index] = x
        if not has_out or isalias(out, flat):
            return out
        out[...] = flat.reshape(out.shape)
        return out
"""),
    ]),
    ('unpack_cond', F, [
        ("""        has_out = out is not None
        if has_out:
            if not isinstance(out, np.ndarray):
                raise TypeError('The output array is not an ndarray.')
            if out.shape != unpacked_shape:
                raise ValueError(
                    f"The output array shape '{out.shape}' is invalid. The expected "
                    f"shape is '{unpacked_shape}'."
                )
        else:
            if (
                index is Ellipsis
                and not copy
                and x.shape[0] == len(self)
                and self.comm.size == 1
            ):
                return x.reshape(unpacked_shape)
""", """        has_out = out is not None
        is_complete = (
            index is Ellipsis and x.shape[0] == len(self) and self.comm.size == 1
        )
        if has_out:
            if not isinstance(out, np.ndarray):
                raise TypeError('The output array is not an ndarray.')
            if out.shape != unpacked_shape:
                raise ValueError(
                    f"The output array shape '{out.shape}' is invalid. The expected "
                    f"shape is '{unpacked_shape}'."
                )
        else:
            if is_complete and not copy:
                return x.reshape(unpacked_shape)
"""),
        ("""        elif index is Ellipsis and x.shape[0] == len(self) and self.comm.size == 1:
            out[...] = x.reshape(unpacked_shape)
            return out
""", """        elif is_complete:
            out[...] = x.reshape(unpacked_shape)
            return out
"""),
    ]),
    ('missing_table', F, [
        ("""        return {
            'b': False,
            'i': -1,
            'u': 0,
            'f': np.nan,
            'c': np.nan,
            'S': '',
            'U': '',
            'O': None,
        }[dtype.kind]
""", """        kind = dtype.kind
        if kind in 'fc':
            return np.nan
        if kind in 'SU':
            return ''
        return {'b': False, 'i': -1, 'u': 0, 'O': None}[kind]
"""),
    ]),
    ('missing_const', F, [
        ("""        return {
            'b': False,
            'i': -1,
            'u': 0,
            'f': np.nan,
            'c': np.nan,
            'S': '',
            'U': '',
            'O': None,
        }[dtype.kind]
""", """        return MISSING_VALUES[dtype.kind]
"""),
        ("""class PackedTable""", """MISSING_VALUES = {
    'b': False,
    'i': -1,
    'u': 0,
    'f': np.nan,
    'c': np.nan,
    'S': '',
    'U': '',
    'O': None,
}


class PackedTable"""),
    ]),
    ('norm_sel', F, [
        ("""        if isinstance(selection, list) and len(selection) == 0:
            return np.array([], self._dtype_index)
        if (
            selection is None
            or selection is Ellipsis
            or isinstance(selection, tuple)
            and len(selection) == 0
        ):
            return Ellipsis
        if isscalarlike(selection):
            selection = np.asarray([selection], self._dtype_index)
            return self._normalize_indices(selection, product(shape))
        if isinstance(selection, slice):
            return self._normalize_slice(selection, product(shape))
""", """        size = product(shape)
        if selection is None or selection is Ellipsis:
            return Ellipsis
        if isinstance(selection, (list, tuple)) and len(selection) == 0:
            if isinstance(selection, tuple):
                return Ellipsis
            return np.array([], self._dtype_index)
        if isscalarlike(selection):
            indices = np.asarray([selection], self._dtype_index)
            return self._normalize_indices(indices, size)
        if isinstance(selection, slice):
            return self._normalize_slice(selection, size)
"""),
    ]),
    ('norm_sel2', F, [
        ("""        if selection.dtype.kind in 'iu':
            selection = selection.astype(self._dtype_index)
        elif selection.dtype != bool:
            raise TypeError('Invalid selection.')
        if selection.dtype == int:
            if selection.ndim != 1:
                raise ValueError('Index selection is not 1-dimensional.')
            selection = self._normalize_indices(selection, product(shape))
        elif selection.shape != shape:
            raise ValueError('Invalid boolean selection dimensions.')

        return selection
""", """        if selection.dtype.kind in ('i', 'u'):
            selection = selection.astype(self._dtype_index)
        elif selection.dtype != bool:
            raise TypeError('Invalid selection.')
        if selection.dtype != int:
            if selection.shape != shape:
                raise ValueError('Invalid boolean selection dimensions.')
            return selection
        if selection.ndim != 1:
            raise ValueError('Index selection is not 1-dimensional.')
        return self._normalize_indices(selection, product(shape))
"""),
    ]),
    ('norm_tuple', F, [
        ("""                selection = tuple(
                    self._normalize_slice(_, s) if isinstance(_, slice) else _
                    for _, s in zip(selection, shape)
                )
""", """                normalized = []
                for s, n in zip(selection, shape):
                    if isinstance(s, slice):
                        s = self._normalize_slice(s, n)
                    normalized.append(s)
                selection = tuple(normalized)
"""),
    ]),
    ('norm_int', F, [
        ("""        size = s.size
        if size <= 1:
            return s
        start = s[0]
        step = s[1] - s[0]
        if step != 0 and np.all(s == start + np.arange(size) * step):
            if size == n and step == 1:
                return Ellipsis
            else:
                stop = start + size * step
                return slice(start, stop, step)
        return s
""", """        size = s.size
        if size < 2:
            return s
        start, step = s[0], s[1] - s[0]
        if step == 0 or np.any(s != start + step * np.arange(size)):
            return s
        if step == 1 and size == n:
            return Ellipsis
        return slice(start, start + step * size, step)
"""),
    ]),
    ('norm_int2', F, [
        ("""        start = s[0]
        step = s[1] - s[0]
        if step != 0 and np.all(s == start + np.arange(size) * step):
            if size == n and step == 1:
                return Ellipsis
            else:
                stop = start + size * step
                return slice(start, stop, step)
        return s
""", """        start = s[0]
        step = s[1] - start
        is_regular = step != 0 and (s == start + np.arange(size) * step).all()
        if not is_regular:
            return s
        if size == n and step == 1:
            return Ellipsis
        return slice(start, start + size * step, step)
"""),
    ]),
    ('norm_indices', F, [
        ("""        if np.any(s < -n) or np.any(s >= n):
            raise IndexError('The selection is out of range.')
        return np.where(s < 0, s + n, s)
""", """        out_of_range = (s < -n) | (s >= n)
        if out_of_range.any():
            raise IndexError('The selection is out of range.')
        return np.where(s >= 0, s, n + s)
"""),
    ]),
]
