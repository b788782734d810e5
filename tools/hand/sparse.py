R = [
    ('sp_init_axes', 'sparse.py', [
        ("""        straxes = ('row', 'column')
        if sparse_axis == 1:
            straxes = straxes[::-1]
        if any(s % b != 0 for s, b in zip(shape, block_shape)):
""", """        straxes = ('column', 'row') if sparse_axis == 1 else ('row', 'column')
        if not all(s % b == 0 for s, b in zip(shape, block_shape)):
""")]),
    ('sp_init_create', 'sparse.py', [
        ("""            shape_data = (
                shape[1 - sparse_axis] // block_shape[1 - sparse_axis],
                nmax,
            )
            if dtype is None:
                dtype = float
            if dtype_index is None:
                dtype_index = int
            dtype_data = self._get_dtype_data(dtype, dtype_index, block_shape)
            data = empty(shape_data, dtype_data, verbose=verbose)
""", """            dtype = float if dtype is None else dtype
            dtype_index = int if dtype_index is None else dtype_index
            other_axis = 1 - sparse_axis
            n = shape[other_axis] // block_shape[other_axis]
            data = empty(
                (n, nmax),
                self._get_dtype_data(dtype, dtype_index, block_shape),
                verbose=verbose,
            )
""")]),
    ('sp_init_helper', 'sparse.py', [
        ("""            dtype_index = data.dtype['index']
            dtype = data.dtype[1]
            if dtype.type == np.void:
                dtype = dtype.subdtype[0].type
            expected = self._get_dtype_data(dtype, dtype_index, block_shape)
            if data.dtype != expected:
                raise TypeError(
                    f'The input dtype {data.dtype} is invalid. Expected dtype is '
                    f'{expected}.'
                )
""", """            dtype, dtype_index = self._check_data_dtype(data, block_shape)
"""), ("""    def _matvec(self, v, out, nmax):
        v = np""", """    def _check_data_dtype(self, data, block_shape):
        dtype_index = data.dtype['index']
        dtype = data.dtype[1]
        if dtype.type == np.void:
            dtype = dtype.subdtype[0].type
        expected = self._get_dtype_data(dtype, dtype_index, block_shape)
        if data.dtype != expected:
            raise TypeError(
                f'The input dtype {data.dtype} is invalid. Expected dtype is '
                f'{expected}.'
            )
        return dtype, dtype_index

    def _matvec(self, v, out, nmax):
        v = np""")]),
    ('sp_matvec_size', 'sparse.py', [
        ("""        if out is None:
            out = np.zeros(
                v.size * self.shape[0] // self.shape[1],
                np.result_type(self.dtype, v.dtype),
            )
""", """        nrow, ncol = self.shape
        size_out = v.size * nrow // ncol
        if out is None:
            out = np.zeros(size_out, np.result_type(self.dtype, v.dtype))
"""), ("        elif out.size != v.size * self.shape[0] // self.shape[1]:",
            "        elif out.size != size_out:")]),
    ('sp_matvec_support', 'sparse.py', [
        ("""        if (
            str(ds) not in ('float32', 'float64')
            or str(di) not in ('int32', 'int64')
            or dv.kind == 'c'
        ):
            return v, out, False
""", """        supported = (
            str(ds) in ('float32', 'float64')
            and str(di) in ('int32', 'int64')
            and dv.kind != 'c'
        )
        if not supported:
            return v, out, False
""")]),
    ('sp_matvec_helper', 'sparse.py', [
        ("""        if (
            str(ds) not in ('float32', 'float64')
            or str(di) not in ('int32', 'int64')
            or dv.kind == 'c'
        ):
            return v, out, False
""", """        if not self._has_kernel(ds, di, dv):
            return v, out, False
"""), ("""    def __mul__(self, other):
        if isscalarlike(other):
            data = self.data.copy()
            data.value *= other
""", """    @staticmethod
    def _has_kernel(ds, di, dv):
        if str(ds) not in ('float32', 'float64'):
            return False
        if str(di) not in ('int32', 'int64'):
            return False
        return dv.kind != 'c'

    def __mul__(self, other):
        if isscalarlike(other):
            data = self.data.copy()
            data.value *= other
""")]),
    ('sp_matvec_copy', 'sparse.py', [
        ("""        if out.dtype != dv or not out.flags.contiguous:
            out_ = np.empty(out.size, dtype=dv)
            out_[...] = out
        else:
            out_ = out
""", """        if out.dtype == dv and out.flags.contiguous:
            out_ = out
        else:
            out_ = np.empty(out.size, dtype=dv)
            out_[...] = out
""")]),
    ('sp_matvec_call', 'sparse.py', [
        ("""        m = self.data.ravel().view(np.int8)
        if flib_id.endswith('_homothety'):
            func(m, v, out_, nmax, self.shape[1], self.shape[0], extra_size)
        elif flib_id.endswith('_block'):
            func(
                m,
                v,
                out_,
                nmax,
                self.shape[1] // self.block_shape[1],
                self.shape[0] // self.block_shape[0],
                self.block_shape[0],
                self.block_shape[1],
            )
        else:
            func(m, v, out_, nmax)
""", """        m = self.data.ravel().view(np.int8)
        args = [m, v, out_, nmax]
        if flib_id.endswith('_homothety'):
            args += [self.shape[1], self.shape[0], extra_size]
        elif flib_id.endswith('_block'):
            nrow, ncol = self.block_shape
            args += [self.shape[1] // ncol, self.shape[0] // nrow, nrow, ncol]
        func(*args)
""")]),
    ('sp_matvec_call2', 'sparse.py', [
        ("""        m = self.data.ravel().view(np.int8)
        if flib_id.endswith('_homothety'):
            func(m, v, out_, nmax, self.shape[1], self.shape[0], extra_size)
        elif flib_id.endswith('_block'):
            func(
                m,
                v,
                out_,
                nmax,
                self.shape[1] // self.block_shape[1],
                self.shape[0] // self.block_shape[0],
                self.block_shape[0],
                self.block_shape[1],
            )
        else:
            func(m, v, out_, nmax)
""", """        m = self.data.ravel().view(np.int8)
        if flib_id.endswith('_homothety'):
            extra = (self.shape[1], self.shape[0], extra_size)
        elif flib_id.endswith('_block'):
            extra = (
                self.shape[1] // self.block_shape[1],
                self.shape[0] // self.block_shape[0],
            ) + self.block_shape
        else:
            extra = ()
        func(m, v, out_, nmax, *extra)
""")]),
    ('sp_mul', 'sparse.py', [
        ("""    def __rmul__(self, other):
        if isscalarlike(other):
            return self * other
        other = np.asarray(other)
        if other.ndim == 1:
            return self._transpose() * other
        return NotImplemented
""", """    def __rmul__(self, other):
        if isscalarlike(other):
            return self * other
        vector = np.asarray(other)
        if vector.ndim != 1:
            return NotImplemented
        return self._transpose() * vector
""")]),
    ('sp_reshape', 'sparse.py', [
        ("""    def _reshapein(self, shape):
        extra_size = product(shape) // self.shape[1]
        if extra_size > 1 or shape[-1] == 1:
            return self.shape[0], extra_size
        return self.shape[0]

    def _reshapeout(self, shape):
        extra_size = product(shape) // self.shape[0]
        if extra_size > 1 or shape[-1] == 1:
            return self.shape[1], extra_size
        return self.shape[1]
""", """    @staticmethod
    def _reshape(shape, nfrom, nto):
        extra_size = product(shape) // nfrom
        if extra_size > 1 or shape[-1] == 1:
            return nto, extra_size
        return nto

    def _reshapein(self, shape):
        return self._reshape(shape, self.shape[1], self.shape[0])

    def _reshapeout(self, shape):
        return self._reshape(shape, self.shape[0], self.shape[1])
""")]),
    ('sp_validate', 'sparse.py', [
        ("""        size = product(shape)
        if not isinstance(self, (FSCMatrix, FSRMatrix)):
            if size == self.shape[1]:
                return
        elif size % self.shape[1] == 0:
            return
        raise ValueError(
            f"The shape '{shape}' is incompatible with the number of columns""",
         """        size = product(shape)
        if isinstance(self, (FSCMatrix, FSRMatrix)):
            valid = size % self.shape[1] == 0
        else:
            valid = size == self.shape[1]
        if valid:
            return
        raise ValueError(
            f"The shape '{shape}' is incompatible with the number of columns""")]),
    ('sp_fsc_loop', 'sparse.py', [
        ("""        if data.index.dtype.kind == 'u':
            for i in range(self.shape[1]):
                for b in data[i]:
                    out_[b.index] += b.value * v[i]
        else:
            for i in range(self.shape[1]):
                for b in data[i]:
                    if b.index >= 0:
                        out_[b.index] += b.value * v[i]
        return out
""", """        for i in range(self.shape[1]):
            for b in data[i]:
                if b.index < 0:
                    continue
                out_[b.index] += b.value * v[i]
        return out
""")]),
    ('sp_fsr_loop', 'sparse.py', [
        ("""        if data.index.dtype.kind == 'u':
            for i in range(self.shape[0]):
                b = data[i]
                out_[i] += np.sum(b.value[:, None] * v[b.index], axis=0)
        else:
            for i in range(self.shape[0]):
                b = data[i]
                b = b[b.index >= 0]
                out_[i] += np.sum(b.value[:, None] * v[b.index], axis=0)
        return out
""", """        unsigned = data.index.dtype.kind == 'u'
        for i in range(self.shape[0]):
            b = data[i]
            if not unsigned:
                b = b[b.index >= 0]
            out_[i] += np.sum(b.value[:, None] * v[b.index], axis=0)
        return out
""")]),
    ('sp_fsr_loop2', 'sparse.py', [
        ("""            for i in range(self.shape[0]):
                b = data[i]
                b = b[b.index >= 0]
                out_[i] += np.sum(b.value[:, None] * v[b.index], axis=0)
        return out
""", """            for i, row in enumerate(data):
                valid = row[row.index >= 0]
                products = valid.value[:, None] * v[valid.index]
                out_[i] += products.sum(axis=0)
        return out
""")]),
    ('sp_fsc_block', 'sparse.py', [
        ("""            for b in data[j]:
                i = b['index']
                if i >= 0:
                    out_[i] += np.dot(b['value'].T, v[j])
        return out
""", """            for b in data[j]:
                i = b['index']
                if i < 0:
                    continue
                block = b['value'].T
                out_[i] += np.dot(block, v[j])
        return out
""")]),
    ('sp_fsr_block', 'sparse.py', [
        ("""            b = data[i]
            b = b[b.index >= 0]
            out_[i] += np.sum(np.einsum('...ij,...j->...i', b.value, v[b.index]), 0)
""", """            keep = data[i].index >= 0
            b = data[i][keep]
            contrib = np.einsum('...ij,...j->...i', b.value, v[b.index])
            out_[i] += np.sum(contrib, 0)
""")]),
    ('sp_block_init', 'sparse.py', [
        ("""        if any(_ not in (1, 2, 3) for _ in block_shape):
            raise NotImplementedError(""", """        if not all(1 <= _ <= 3 for _ in block_shape):
            raise NotImplementedError("""),
        ("""        kind = flib_id[:3].upper()
        if data is None:
            if block_shape is None:""", """        name = flib_id[:3]
        kind = name.upper()
        if data is None:
            if block_shape is None:""")]),
    ('sp_rot2d', 'sparse.py', [
        ("""                if b.index >= 0:
                    out_[b.index, 0] += b.r11 * v[i, 0] + b.r21 * v[i, 1]
                    out_[b.index, 1] += -b.r21 * v[i, 0] + b.r11 * v[i, 1]
""", """                if b.index >= 0:
                    x, y = v[i, 0], v[i, 1]
                    out_[b.index, 0] += b.r11 * x + b.r21 * y
                    out_[b.index, 1] += b.r11 * y - b.r21 * x
""")]),
    ('sp_rot2d_row', 'sparse.py', [
        ("""            out_[i, 0] += np.sum(b.r11 * v[b.index, 0] - b.r21 * v[b.index, 1])
            out_[i, 1] += np.sum(b.r21 * v[b.index, 0] + b.r11 * v[b.index, 1])
""", """            x = v[b.index, 0]
            y = v[b.index, 1]
            out_[i, 0] += np.sum(b.r11 * x - b.r21 * y)
            out_[i, 1] += np.sum(b.r21 * x + b.r11 * y)
""")]),
    ('sp_rot3d', 'sparse.py', [
        ("""            data = self.data.copy()
            data.r11 *= other
            data.r22 *= other
            data.r32 *= other
            return type(self)(self.shape, data=data)
""", """            data = self.data.copy()
            for name in ('r11', 'r22', 'r32'):
                data[name] *= other
            return type(self)(self.shape, data=data)
""")]),
    ('sp_rot3d_row', 'sparse.py', [
        ("""            out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
            out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
            out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
""", """            x = v[b.index]
            out_[i, 0] += np.sum(b.r11 * x[:, 0])
            out_[i, 1] += np.sum(b.r22 * x[:, 1] - b.r32 * x[:, 2])
            out_[i, 2] += np.sum(b.r22 * x[:, 2] + b.r32 * x[:, 1])
""")]),
    ('sp_op_types', 'sparse.py', [
        ("""        if not isinstance(
            arg,
            (
                FSCMatrix,
                FSRMatrix,
                FSCBlockMatrix,
                FSRBlockMatrix,
                FSCRotation2dMatrix,
                FSRRotation2dMatrix,
                FSCRotation3dMatrix,
                FSRRotation3dMatrix,
            ),
        ):
            raise TypeError('The input sparse matrix type is not recognised.')
""", """        if not isinstance(arg, _MATRICES):
            raise TypeError('The input sparse matrix type is not recognised.')
"""), ("""class SparseOperator(SparseBase):
""", """_MATRICES = (
    FSCMatrix,
    FSRMatrix,
    FSCBlockMatrix,
    FSRBlockMatrix,
    FSCRotation2dMatrix,
    FSRRotation2dMatrix,
    FSCRotation3dMatrix,
    FSRRotation3dMatrix,
)


class SparseOperator(SparseBase):
""")]),
    ('sp_op_types2', 'sparse.py', [
        ("""        if not isinstance(
            arg,
            (
                FSCMatrix,
                FSRMatrix,
                FSCBlockMatrix,
                FSRBlockMatrix,
                FSCRotation2dMatrix,
                FSRRotation2dMatrix,
                FSCRotation3dMatrix,
                FSRRotation3dMatrix,
            ),
        ):
            raise TypeError('The input sparse matrix type is not recognised.')
""", """        if not isinstance(arg, _FSMatrix):
            raise TypeError('The input sparse matrix type is not recognised.')
""")]),
    ('sp_op_bshape', 'sparse.py', [
        ("""            if shapein is None:
                bshapein = keywords.pop('broadcastable_shapein', (arg.shape[1],))
            else:
                shapein = tointtuple(shapein)
                test = np.cumprod(shapein) == arg.shape[1]
                try:
                    bshapein = shapein[: ilast(test, lambda x: x) + 1]
                except ValueError:
                    bshapein = (arg.shape[1],)
            self.broadcastable_shapein = bshapein
            if shapeout is None:
                bshapeout = keywords.pop('broadcastable_shapeout', (arg.shape[0],))
            else:
                shapeout = tointtuple(shapeout)
                test = np.cumprod(shapeout) == arg.shape[0]
                try:
                    bshapeout = shapeout[: ilast(test, lambda x: x) + 1]
                except ValueError:
                    bshapeout = (arg.shape[0],)
            self.broadcastable_shapeout = bshapeout
""", """            nrow, ncol = arg.shape
            if shapein is None:
                bshapein = keywords.pop('broadcastable_shapein', (ncol,))
            else:
                shapein = tointtuple(shapein)
                bshapein = self._get_broadcastable(shapein, ncol)
            if shapeout is None:
                bshapeout = keywords.pop('broadcastable_shapeout', (nrow,))
            else:
                shapeout = tointtuple(shapeout)
                bshapeout = self._get_broadcastable(shapeout, nrow)
            self.broadcastable_shapein = bshapein
            self.broadcastable_shapeout = bshapeout
"""), ("""    def direct(self, input, output, operation=operation_assignment):
        if operation is operation_assignment:
            output[...] = 0
""", """    @staticmethod
    def _get_broadcastable(shape, size):
        test = np.cumprod(shape) == size
        try:
            return shape[: ilast(test, lambda x: x) + 1]
        except ValueError:
            return (size,)

    def direct(self, input, output, operation=operation_assignment):
        if operation is operation_assignment:
            output[...] = 0
""")]),
    ('sp_op_blocks', 'sparse.py', [
        ("""            bs = arg.block_shape
            if shapein is None:
                if bs[1] == 1:
                    shapein = arg.shape[1]
                else:
                    shapein = arg.shape[1] // bs[1], bs[1]
            if shapeout is None:
                if bs[0] == 1:
                    shapeout = arg.shape[0]
                else:
                    shapeout = arg.shape[0] // bs[0], bs[0]
""", """            mb, nb = arg.block_shape
            if shapein is None:
                n = arg.shape[1]
                shapein = n if nb == 1 else (n // nb, nb)
            if shapeout is None:
                m = arg.shape[0]
                shapeout = m if mb == 1 else (m // mb, mb)
""")]),
    ('sp_direct', 'sparse.py', [
        ("""        if operation is operation_assignment:
            output[...] = 0
        elif operation is not operator.iadd:
            raise ValueError(f'Invalid reduction operation: {operation}.')
        self.matrix._matvec(input, output)
""", """        if operation not in (operation_assignment, operator.iadd):
            raise ValueError(f'Invalid reduction operation: {operation}.')
        if operation is operation_assignment:
            output[...] = 0
        self.matrix._matvec(input, output)
""")]),
    ('sp_todense', 'sparse.py', [
        ("""        if self.shapein is None and extra_size > 1:
            shapein = shapein[:-1]
            broadcasting = True
        else:
            broadcasting = False
        out = SparseBase.todense(self, shapein=shapein, inplace=inplace)
        if broadcasting:
            out = np.kron(out, np.eye(extra_size))
        return out
""", """        broadcasting = self.shapein is None and extra_size > 1
        if broadcasting:
            shapein = shapein[:-1]
        out = super().todense(shapein=shapein, inplace=inplace)
        if not broadcasting:
            return out
        return np.kron(out, np.eye(extra_size))
""")]),
    ('sp_validatein', 'sparse.py', [
        ("""        size = product(shape)
        if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
            if size % self.matrix.shape[1] != 0:
                raise ValueError(
                    f"The input shape""", """        if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
            if product(shape) % self.matrix.shape[1]:
                raise ValueError(
                    f"The input shape""")]),
    ('sp_corestrict', 'sparse.py', [
        ("""        nrow = np.sum(mask)
        mask_ = np.ravel(mask)
        out = self.copy()
        out.matrix = type(self.matrix)(
            (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
            data=self.matrix.data[mask_],
        )
""", """        matrix = self.matrix
        nrow = np.sum(mask)
        shape = (nrow * matrix.block_shape[0], matrix.shape[1])
        out = self.copy()
        out.matrix = type(matrix)(shape, data=matrix.data[np.ravel(mask)])
""")]),
    ('sp_restrict', 'sparse.py', [
        ("""        if inplace:
            matrix = self.matrix
        else:
            matrix = self.matrix.copy()
        itype""", """        matrix = self.matrix if inplace else self.matrix.copy()
        itype""")]),
    ('sp_restrict_py', 'sparse.py', [
        ("""            ncol = np.sum(mask)
            new_index = empty(mask.shape, itype)
            new_index[...] = -1
            new_index[mask] = np.arange(ncol, dtype=itype)
            undef = matrix.data.index < 0
            matrix.data.index = new_index[matrix.data.index]
            matrix.data.index[undef] = -1
""", """            ncol = np.sum(mask)
            undef = matrix.data.index < 0
            new_index = np.full(mask.shape, -1, itype)
            new_index[mask] = np.arange(ncol, dtype=itype)
            matrix.data.index = new_index[matrix.data.index]
            matrix.data.index[undef] = -1
""")]),
    ('sp_restrict_end', 'sparse.py', [
        ("""        out = self.copy()
        matrix.shape = matrix.shape[0], ncol * matrix.block_shape[1]
        out.matrix = matrix
        if isinstance(self.matrix, FSRMatrix):
            out.broadcastable_shapein = (ncol,)
            if self.shapein is not None:
                ndims_in = len(self.broadcastable_shapein)
                out.shapein = (ncol,) + self.shapein[ndims_in:]
        else:
            out.shapein = (ncol, out.matrix.block_shape[1])
""", """        matrix.shape = matrix.shape[0], ncol * matrix.block_shape[1]
        out = self.copy()
        out.matrix = matrix
        if not isinstance(self.matrix, FSRMatrix):
            out.shapein = (ncol, out.matrix.block_shape[1])
        else:
            out.broadcastable_shapein = (ncol,)
            if self.shapein is not None:
                out.shapein = (ncol,) + self.shapein[len(self.broadcastable_shapein) :]
""")]),
    ('sp_ruleT', 'sparse.py', [
        ("""        if isinstance(self.matrix, (FSRMatrix, FSCMatrix)):
            keywords = {
                'broadcastable_shapein': self.broadcastable_shapeout,
                'broadcastable_shapeout': self.broadcastable_shapein,
            }
        else:
            keywords = {}
        return SparseOperator(self.matrix._transpose(), **keywords)
""", """        matrix = self.matrix._transpose()
        if not isinstance(self.matrix, (FSRMatrix, FSCMatrix)):
            return SparseOperator(matrix)
        return SparseOperator(
            matrix,
            broadcastable_shapein=self.broadcastable_shapeout,
            broadcastable_shapeout=self.broadcastable_shapein,
        )
""")]),
    ('sp_rulepTp', 'sparse.py', [
        ("""        try:
            func = getattr(fsp, f)
        except AttributeError:
            return

        m =""", """        func = getattr(fsp, f, None)
        if func is None:
            return None

        m =""")]),
    ('sp_rulepTp2', 'sparse.py', [
        ("""        if (
            not isinstance(
                self.matrix, (FSRMatrix, FSRRotation2dMatrix, FSRRotation3dMatrix)
            )
            or self.matrix.ncolmax != 1
            or self.shapein is None
            or product(self.shapein) != self.matrix.shape[1]
        ):
            return
        di = self.matrix.data.index.dtype
        dr = self.matrix.dtype
        dv = self.dtype
        if (
            di not in (np.int32, np.int64)
            or dr not in (np.float32, np.float64)
            or dv not in (np.float32, np.float64)
        ):
            return
""", """        matrix = self.matrix
        if not isinstance(
            matrix, (FSRMatrix, FSRRotation2dMatrix, FSRRotation3dMatrix)
        ):
            return
        if matrix.ncolmax != 1:
            return
        if self.shapein is None or product(self.shapein) != matrix.shape[1]:
            return
        di = matrix.data.index.dtype
        dr = matrix.dtype
        dv = self.dtype
        floats = (np.float32, np.float64)
        if di not in (np.int32, np.int64):
            return
        if dr not in floats or dv not in floats:
            return
""")]),
]
