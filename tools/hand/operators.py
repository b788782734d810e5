R = [
    ('op_bd_keywords', 'operators.py', [
        ("""    if 'axisin' in keywords:
        axisin = keywords['axisin']
        new_axisin = None
        del keywords['axisin']
    else:
        axisin = None
        new_axisin = keywords['new_axisin']
        del keywords['new_axisin']

    if len(keywords) > 0:
        raise TypeError('Invalid keyed argument.')
""", """    if 'axisin' in keywords:
        axisin = keywords.pop('axisin')
        new_axisin = None
    else:
        axisin = None
        new_axisin = keywords.pop('new_axisin')

    if keywords:
        raise TypeError('Invalid keyed argument.')
""")]),
    ('op_bd_partition', 'operators.py', [
        ("""            n1 = 0
            partitionin = None
            if 'partitionin' in keywords:
                if keywords['partitionin'] is not None:
                    partitionin = tointtuple(keywords['partitionin'])
                    n1 = len(partitionin)
                del keywords['partitionin']
""", """            partitionin = keywords.pop('partitionin', None)
            if partitionin is not None:
                partitionin = tointtuple(partitionin)
            n1 = 0 if partitionin is None else len(partitionin)
""")]),
    ('op_bd_ns', 'operators.py', [
        ("""            class_args = inspect.getfullargspec(cls.__init_original__).args
            class_args.pop(0)
""", """            class_args = inspect.getfullargspec(cls.__init_original__).args[1:]
"""), ("            n2 = 0 if len(ns) == 0 else max(ns)\n", "            n2 = max(ns) if ns else 0\n")]),
    ('op_bd_implicit', 'operators.py', [
        ("""                if axisin is not None:
                    partitionin = n * (None,)
                else:
                    partitionin = n * (1,)
""", """                partitionin = n * ((1,) if axisin is None else (None,))
""")]),
    ('op_bd_reshape', 'operators.py', [
        ("""            if 'shapein' in keywords:
                shapein = keywords['shapein']
                for keys, p in zip(keyss, partitionin):
                    keys['shapein'] = reshape(shapein, p, axisin, new_axisin)
            if 'shapeout' in keywords:
                shapeout = keywords['shapeout']
                for keys, p in zip(keyss, partitionin):
                    keys['shapeout'] = reshape(shapeout, p, axisin, new_axisin)
""", """            for name in ('shapein', 'shapeout'):
                if name not in keywords:
                    continue
                for keys, p in zip(keyss, partitionin):
                    keys[name] = reshape(keywords[name], p, axisin, new_axisin)
""")]),
    ('op_bb_freq', 'operators.py', [
        ("""        if frequency is not None:
            nu = np.asarray(frequency, float)
        else:
            nu = c / np.asarray(wavelength, float)
""", """        if frequency is None:
            nu = c / np.asarray(wavelength, float)
        else:
            nu = np.asarray(frequency, float)
""")]),
    ('op_bb_helper', 'operators.py', [
        ("""        if frequency is not None:
            nu = np.asarray(frequency, float)
        else:
            nu = c / np.asarray(wavelength, float)
""", """        nu = self._tofrequency(frequency, wavelength)
"""), ("""        if frequency0 is not None:
            nu0 = np.asarray(frequency0, float)
        else:
            nu0 = c / np.asarray(wavelength0, float)
""", """        nu0 = self._tofrequency(frequency0, wavelength0)
"""), ("""        self.wavelength0 = wavelength0
""", """        self.wavelength0 = wavelength0

    @staticmethod
    def _tofrequency(frequency, wavelength):
        if frequency is not None:
            return np.asarray(frequency, float)
        return scipy.constants.c / np.asarray(wavelength, float)
"""), ("        c = scipy.constants.c\n", "")]),
    ('op_bb_ratio', 'operators.py', [
        ("""        data = (
            (nu / nu0) ** (3 + beta)
            * np.expm1(h * nu0 / (k * temperature))
            / np.expm1(h * nu / (k * temperature))
        )
""", """        kt = k * temperature
        planck0 = np.expm1(h * nu0 / kt)
        planck = np.expm1(h * nu / kt)
        data = (nu / nu0) ** (3 + beta) * planck0 / planck
""")]),
    ('op_bb_ambiguous', 'operators.py', [
        ("""        if frequency is None and wavelength is None:
            raise ValueError(
                'The operating frequency or wavelength is not spe' 'cified.'
            )
        if frequency0 is None and wavelength0 is None:
            raise ValueError(
                'The reference frequency or wavelength is not spe' 'cified.'
            )
        if frequency is not None and wavelength is not None:
            raise ValueError('Ambiguous operating frequency / wavelength.')
        if frequency0 is not None and wavelength0 is not None:
            raise ValueError('Ambiguous reference frequency / wavelength.')
""", """        for kind, f, w in (
            ('operating', frequency, wavelength),
            ('reference', frequency0, wavelength0),
        ):
            if f is None and w is None:
                raise ValueError(f'The {kind} frequency or wavelength is not specified.')
            if f is not None and w is not None:
                raise ValueError(f'Ambiguous {kind} frequency / wavelength.')
""")]),
    ('op_conv_dtype', 'operators.py', [
        ("""            tau = np.asarray(tau)
            if tau.dtype.kind == 'f':
                dtype = tau.dtype
            else:
                dtype = float
""", """            tau = np.asarray(tau)
            dtype = tau.dtype if tau.dtype.kind == 'f' else float
""")]),
    ('op_conv_run', 'operators.py', [
        ("""        input_, nd, nt, int_all = _ravel_strided(input)
        output_, nd, nt, ont_all = _ravel_strided(output)
        f = f'trexp_direct_r{input.dtype.itemsize}'
        try:
            getattr(flib.operators, f)(
                input_,
                nd,
                nt,
                int_all,
                output_,
                nt,
                ont_all,
                self.tau.astype(input.dtype),
            )
        except AttributeError:
            raise NotImplementedError()

    def transpose(self, input, output):
        input_, nd, nt, int_all = _ravel_strided(input)
        output_, nd, nt, ont_all = _ravel_strided(output)
        f = f'trexp_transpose_r{input.dtype.itemsize}'
        try:
            getattr(flib.operators, f)(
                input_,
                nd,
                nt,
                int_all,
                output_,
                nt,
                ont_all,
                self.tau.astype(input.dtype),
            )
        except AttributeError:
            raise NotImplementedError()
""", """        self._run('direct', input, output)

    def transpose(self, input, output):
        self._run('transpose', input, output)

    def _run(self, mode, input, output):
        input_, nd, nt, int_all = _ravel_strided(input)
        output_, nd, nt, ont_all = _ravel_strided(output)
        f = f'trexp_{mode}_r{input.dtype.itemsize}'
        tau = self.tau.astype(input.dtype)
        try:
            getattr(flib.operators, f)(
                input_, nd, nt, int_all, output_, nt, ont_all, tau
            )
        except AttributeError:
            raise NotImplementedError()
""")]),
    ('op_conv_valid', 'operators.py', [
        ("""        if self.tau.size == 1:
            return
        if self.tau.size != product(shape[:-1]):
            raise""", """        n = self.tau.size
        if n != 1 and n != product(shape[:-1]):
            raise""")]),
    ('op_ravel', 'operators.py', [
        ("""    itemsize = x.itemsize
    if x.strides[1] != itemsize:
        raise ValueError('The array is not C-contiguous.')
    shape_all = x.shape[0], x.strides[0] // itemsize
    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (itemsize,))
    return x_, x.shape[0], x.shape[1], shape_all[1]
""", """    size = x.itemsize
    nd, nt = x.shape
    if x.strides[1] != size:
        raise ValueError('The array is not C-contiguous.')
    nt_all = x.strides[0] // size
    x_ = np.lib.stride_tricks.as_strided(x, (product((nd, nt_all)),), (size,))
    return x_, nd, nt, nt_all
""")]),
    ('op_pl_scalar', 'operators.py', [
        ("""        x = np.asarray(x, float)
        if x.ndim != 0:
            raise TypeError('The input is not a scalar.')
        x0 = np.asarray(x0, float)
        if x0.ndim != 0:
            raise TypeError('The reference input is not a scalar.')
        scalar = np.asarray(scalar, float)
        if scalar.ndim != 0:
            raise TypeError('The scalar coefficient is not a scalar.')
        if 'dtype' not in keywords:
            keywords['dtype'] = float
""", """        x = self._toscalar(x, 'input')
        x0 = self._toscalar(x0, 'reference input')
        scalar = self._toscalar(scalar, 'scalar coefficient')
        keywords.setdefault('dtype', float)
"""), ("""        return f'powerlaw(""", """        return self._format()

    @staticmethod
    def _toscalar(x, name):
        x = np.asarray(x, float)
        if x.ndim != 0:
            raise TypeError(f'The {name} is not a scalar.')
        return x

    def _format(self):
        return f'powerlaw(""")]),
    ('op_pl_rule', 'operators.py', [
        ("""        self.set_rule(
            (HomothetyOperator, '.'),
            lambda o, s: PowerLawOperator(s.alpha, s.x, s.x0, o.data * s.scalar),
            CompositionOperator,
        )
""", """        self.set_rule((HomothetyOperator, '.'), self._rule_homothety, CompositionOperator)

    @staticmethod
    def _rule_homothety(o, s):
        return PowerLawOperator(s.alpha, s.x, s.x0, o.data * s.scalar)
""")]),
    ('op_pm_create', 'operators.py', [
        ("""        buffer = empty(
            shape,
            cls.default_dtype,
            verbose=verbose,
            description='for the pointing matrix',
        )
        return PointingMatrix(buffer, shape_input, copy=False)

    @classmethod
    def ones(cls, shape, shape_input, verbose=True):
        buffer = empty(
            shape,
            cls.default_dtype,
            verbose=verbose,
            description='for the pointing matrix',
        )
        buffer['index'] = -1
        buffer['value'] = 1
        return PointingMatrix(buffer, shape_input, copy=False)

    @classmethod
    def zeros(cls, shape, shape_input, verbose=True):
        buffer = empty(
            shape,
            cls.default_dtype,
            verbose=verbose,
            description='for the pointing matrix',
        )
        buffer['index'] = -1
        buffer['value'] = 0
        return PointingMatrix(buffer, shape_input, copy=False)
""", """        buffer = cls._buffer(shape, verbose)
        return PointingMatrix(buffer, shape_input, copy=False)

    @classmethod
    def _buffer(cls, shape, verbose):
        return empty(
            shape,
            cls.default_dtype,
            verbose=verbose,
            description='for the pointing matrix',
        )

    @classmethod
    def _filled(cls, shape, shape_input, value, verbose):
        buffer = cls._buffer(shape, verbose)
        buffer['index'] = -1
        buffer['value'] = value
        return PointingMatrix(buffer, shape_input, copy=False)

    @classmethod
    def ones(cls, shape, shape_input, verbose=True):
        return cls._filled(shape, shape_input, 1, verbose)

    @classmethod
    def zeros(cls, shape, shape_input, verbose=True):
        return cls._filled(shape, shape_input, 0, verbose)
""")]),
    ('op_pm_valid', 'operators.py', [
        ("""        npixels = product(self.shape_input)
        result = flib.pointingmatrix.isvalid(
            self.ravel().view(np.int64),
            self.shape[-1],
            product(self.shape[:-1]),
            npixels,
        )
        return bool(result)
""", """        *dims, nmax = self.shape
        entries = self.ravel().view(np.int64)
        return bool(
            flib.pointingmatrix.isvalid(
                entries, nmax, product(dims), product(self.shape_input)
            )
        )
""")]),
    ('op_pm_pack', 'operators.py', [
        ("""        flib.pointingmatrix.pack(
            self.ravel().view(np.int64),
            mask.view(np.int8).T,
            self.shape[-1],
            self.size // self.shape[-1],
        )
        self.shape_input = tointtuple(mask.size - np.sum(mask))
""", """        npixels_per_sample = self.shape[-1]
        nsamples = self.size // npixels_per_sample
        flib.pointingmatrix.pack(
            self.ravel().view(np.int64),
            mask.view(np.int8).T,
            npixels_per_sample,
            nsamples,
        )
        nkept = mask.size - np.sum(mask)
        self.shape_input = tointtuple(nkept)
""")]),
    ('op_pm_mask', 'operators.py', [
        ("""        if out is None:
            out = empty(self.shape_input, np.bool_, description='as new mask')
            out[...] = True
        elif out.dtype != bool:
            raise TypeError('The output mask argument has an invalid type.')
        elif out.shape != self.shape_input:
            raise ValueError('The output mask argument has an incompatible sha' 'pe.')
        if self.size == 0:
            return out
        flib""", """        if out is not None:
            if out.dtype != bool:
                raise TypeError('The output mask argument has an invalid type.')
            if out.shape != self.shape_input:
                raise ValueError('The output mask argument has an incompatible shape.')
        else:
            out = empty(self.shape_input, np.bool_, description='as new mask')
            out[...] = True
        if self.size == 0:
            return out
        flib""")]),
    ('op_pb_direct', 'operators.py', [
        ("""        if not output.flags.contiguous:
            if pyoperators.config.VERBOSE:
                print('Optimize me: Projection output is not contiguous.')
            output_ = np.empty_like(output)
        else:
            output_ = output
""", """        contiguous = output.flags.contiguous
        if contiguous:
            output_ = output
        else:
            if pyoperators.config.VERBOSE:
                print('Optimize me: Projection output is not contiguous.')
            output_ = np.empty_like(output)
"""), ("""        if not output.flags.contiguous:
            output[...] = output_
""", """        if not contiguous:
            output[...] = output_
""")]),
    ('op_pb_transpose', 'operators.py', [
        ("""        if not input.flags.contiguous:
            if pyoperators.config.VERBOSE:
                print('Optimize me: Projection.T input is not contiguous.')
            input_ = np.ascontiguousarray(input)
        else:
            input_ = input
        flib.pointingmatrix.transpose(
            matrix.ravel().view(np.int64),
            input_.ravel(),
            output.T,
            matrix.shape[-1],
            matrix.size // matrix.shape[-1],
        )
""", """        input_ = input
        if not input.flags.contiguous:
            if pyoperators.config.VERBOSE:
                print('Optimize me: Projection.T input is not contiguous.')
            input_ = np.ascontiguousarray(input)
        nmax = matrix.shape[-1]
        entries = matrix.ravel().view(np.int64)
        flib.pointingmatrix.transpose(
            entries, input_.ravel(), output.T, nmax, matrix.size // nmax
        )
""")]),
    ('op_pb_attr', 'operators.py', [
        ("""        if '_header' in attr:
            del attr['_header']
        unitout = attr['_unit'] if '_unit' in attr else {}
        if unitout:
            attr['_unit'] = _divide_unit(unitout, self.unit)
""", """        attr.pop('_header', None)
        unitout = attr.get('_unit', {})
        if unitout:
            attr['_unit'] = _divide_unit(unitout, self.unit)
""")]),
    ('op_pb_attr_helper', 'operators.py', [
        ("""        if '_header' in attr:
            del attr['_header']
        unitout = attr['_unit'] if '_unit' in attr else {}
        if unitout:
            attr['_unit'] = _divide_unit(unitout, self.unit)
        if self.duin is not None:
            attr['_derived_units'] = self.duin
        attr.update(self._attrin)
""", """        self._update_attr(attr, _divide_unit, self.duin, self._attrin)
"""), ("""        if '_header' in attr:
            del attr['_header']
        unitin = attr['_unit'] if '_unit' in attr else {}
        if unitin:
            attr['_unit'] = _multiply_unit(unitin, self.unit)
        if self.duout is not None:
            attr['_derived_units'] = self.duout
        attr.update(self._attrout)
""", """        self._update_attr(attr, _multiply_unit, self.duout, self._attrout)

    def _update_attr(self, attr, operation, derived_units, others):
        if '_header' in attr:
            del attr['_header']
        unit = attr['_unit'] if '_unit' in attr else {}
        if unit:
            attr['_unit'] = operation(unit, self.unit)
        if derived_units is not None:
            attr['_derived_units'] = derived_units
        attr.update(others)
""")]),
    ('op_ptp', 'operators.py', [
        ("""        if out is None:
            out = empty((npixels, npixels), float, description='for pTp array')
            out[...] = 0
        elif out.dtype != float:
            raise TypeError('The output ptp argument has an invalid type.')
        elif out.shape != (npixels, npixels):
            raise""", """        shape = (npixels, npixels)
        if out is None:
            out = empty(shape, float, description='for pTp array')
            out[...] = 0
        elif out.dtype != float:
            raise TypeError('The output ptp argument has an invalid type.')
        elif out.shape != shape:
            raise""")]),
    ('op_ptx', 'operators.py', [
        ("""        if mask is not None:
            flib.pointingmatrix.backprojection_weight_mask(
                matrix.ravel().view(np.int64),
                x.ravel(),
                np.asarray(mask, bool).ravel().view(np.int8),
                out[0].ravel(),
                out[1].ravel(),
                matrix.shape[-1],
                matrix.size // matrix.shape[-1],
            )
        else:
            flib.pointingmatrix.backprojection_weight(
                matrix.ravel().view(np.int64),
                x.ravel(),
                out[0].ravel(),
                out[1].ravel(),
                matrix.shape[-1],
                matrix.size // matrix.shape[-1],
            )
        return out
""", """        entries = matrix.ravel().view(np.int64)
        nmax = matrix.shape[-1]
        n = matrix.size // nmax
        bx, coverage = out[0].ravel(), out[1].ravel()
        if mask is None:
            flib.pointingmatrix.backprojection_weight(
                entries, x.ravel(), bx, coverage, nmax, n
            )
        else:
            mask = np.asarray(mask, bool).ravel().view(np.int8)
            flib.pointingmatrix.backprojection_weight_mask(
                entries, x.ravel(), mask, bx, coverage, nmax, n
            )
        return out
""")]),
    ('op_inter', 'operators.py', [
        ("""        shape = matrix.shape
        matrix_ = matrix.ravel().view(np.int64)
        if f is not None:
            out = f(matrix_, index, shape[-1], shape[-2], shape[-3])
        elif axis is None:
            out = flib.pointingmatrix.intersects(
                matrix_, index, shape[-1], shape[-2], shape[-3]
            )
        elif axis == 0 or axis == -3:
            out = flib.pointingmatrix.intersects_axis3(
                matrix_, index, shape[-1], shape[-2], shape[-3]
            )
        elif axis == 1 or axis == -2:
            out = flib.pointingmatrix.intersects_axis2(
                matrix_, index, shape[-1], shape[-2], shape[-3]
            )
        else:
            raise ValueError('Invalid axis.')

        if isinstance(out, np.ndarray):
            out = out.view(bool)
        else:
            out = bool(out)
        return out
""", """        if f is not None:
            func = f
        elif axis is None:
            func = flib.pointingmatrix.intersects
        elif axis in (0, -3):
            func = flib.pointingmatrix.intersects_axis3
        elif axis in (1, -2):
            func = flib.pointingmatrix.intersects_axis2
        else:
            raise ValueError('Invalid axis.')

        shape = matrix.shape
        out = func(matrix.ravel().view(np.int64), index, shape[-1], shape[-2], shape[-3])
        return out.view(bool) if isinstance(out, np.ndarray) else bool(out)
""")]),
    ('op_im_init', 'operators.py', [
        ("""        if 'shapein' in keywords:
            raise TypeError("The 'shapein' keyword should not be used.")
        shapein = matrix.shape_input

        if 'shapeout' in keywords:
            raise TypeError("The 'shapeout' keyword should not be used.")
        shapeout = matrix.shape[:-1]

        ProjectionBaseOperator.__init__(
            self,
            shapein=shapein,
            shapeout=shapeout,
            units""", """        for name in ('shapein', 'shapeout'):
            if name in keywords:
                raise TypeError(f"The '{name}' keyword should not be used.")

        super().__init__(
            shapein=matrix.shape_input,
            shapeout=matrix.shape[:-1],
            units""")]),
    ('op_im_diag', 'operators.py', [
        ("""        if self.matrix.shape[-1] != 1 or d.broadcast == 'rightward':
            return
        if d.dtype.kind == 'c':
            return
        matrix""", """        supported = (
            self.matrix.shape[-1] == 1
            and d.broadcast != 'rightward'
            and d.dtype.kind != 'c'
        )
        if not supported:
            return None
        matrix""")]),
    ('op_fly', 'operators.py', [
        ("""        matrix = self.place_holder['matrix']
        if matrix is not None and self.place_holder['id'] is self.id:
            return matrix
        self.place_holder['id'], self.place_holder['matrix'] = None, None
        matrix = self.func(self.id)
        self.place_holder['id'], self.place_holder['matrix'] = self.id, matrix
        return matrix
""", """        cache = self.place_holder
        matrix = cache['matrix']
        if matrix is None or cache['id'] is not self.id:
            cache['id'] = None
            cache['matrix'] = None
            matrix = self.func(self.id)
            cache['matrix'] = matrix
            cache['id'] = self.id
        return matrix
""")]),
    ('op_po_init', 'operators.py', [
        ("""        if type(arg) not in (
            FSRMatrix,
            FSRBlockMatrix,
            FSRRotation2dMatrix,
            FSRRotation3dMatrix,
        ):
            raise TypeError('The input sparse matrix type is invalid.')
        self._flib_id = {
            FSRMatrix: '',
            FSRBlockMatrix: '_block',
            FSRRotation2dMatrix: '_rot2d',
            FSRRotation3dMatrix: '_rot3d',
        }[type(arg)]
        SparseOperator""", """        ids = {
            FSRMatrix: '',
            FSRBlockMatrix: '_block',
            FSRRotation2dMatrix: '_rot2d',
            FSRRotation3dMatrix: '_rot3d',
        }
        cls = type(arg)
        if cls not in ids:
            raise TypeError('The input sparse matrix type is invalid.')
        self._flib_id = ids[cls]
        SparseOperator""")]),
    ('op_kernel', 'operators.py', [
        ("""            if operation in (operation_assignment, operator.iand, operator.imul):
                if operation is operation_assignment:
                    out[...] = True
                kernel = out
            else:
                kernel = np.ones_like(out)

            f = f'fsr_kernel_i{int(itype.itemsize)}'
            func = getattr(flib.sparse, f)
            func(
                data.view(np.int8).ravel(),
                kernel.view(np.int8).ravel(),
                self.matrix.ncolmax,
                product(data.shape[:-1]),
                data.strides[-1],
            )
            if operation in (operation_assignment, operator.iand, operator.imul):
                return out
""", """            direct = operation in (operation_assignment, operator.iand, operator.imul)
            if not direct:
                kernel = np.ones_like(out)
            else:
                kernel = out
                if operation is operation_assignment:
                    kernel[...] = True

            func = getattr(flib.sparse, f'fsr_kernel_i{int(itype.itemsize)}')
            func(
                data.view(np.int8).ravel(),
                kernel.view(np.int8).ravel(),
                self.matrix.ncolmax,
                product(data.shape[:-1]),
                data.strides[-1],
            )
            if direct:
                return out
""")]),
    ('op_kernel_py', 'operators.py', [
        ("""            nonzero = np.zeros(data.shape, bool)
            for name in data.dtype.names:
                if name != 'index':
                    value = data[name].reshape(data.shape + (-1,))
                    nonzero |= np.any(value != 0, axis=-1)
            n = product(shape)
""", """            nonzero = np.zeros(data.shape, bool)
            for name in data.dtype.names:
                if name == 'index':
                    continue
                nonzero |= np.any(data[name].reshape(data.shape + (-1,)) != 0, axis=-1)
            n = product(shape)
""")]),
    ('op_pt1_shape', 'operators.py', [
        ("""        shapeout = self.shapein
        if shapeout is None:
            shapeout = (self.matrix.shape[1],)
        elif self.matrix.block_shape[1] > 1:
            shapeout = shapeout[:-1]
        if out is None:
            out = empty(shapeout, self.dtype)
""", """        shapeout = self._get_shape_pixels()
        if out is None:
            out = empty(shapeout, self.dtype)
"""), ("""    def pT1(self, out""", """    def _get_shape_pixels(self):
        shape = self.shapein
        if shape is None:
            return (self.matrix.shape[1],)
        if self.matrix.block_shape[1] > 1:
            return shape[:-1]
        return shape

    def pT1(self, out""")]),
    ('op_pt1_func', 'operators.py', [
        ("""        isize = int(self.matrix.data.index.dtype.itemsize)
        rsize = int(self.matrix.dtype.itemsize)
        vsize = int(out.dtype.itemsize)
        f = f'fsr{self._flib_id}_pt1_i{isize}_r{rsize}_v{vsize}'
        if hasattr(flib.operators, f):
            if operation is operation_assignment:
                out[...] = 0
            func = getattr(flib.operators, f)
            func(
                self.matrix.data""", """        isize, rsize, vsize = (
            int(_.itemsize)
            for _ in (self.matrix.data.index.dtype, self.matrix.dtype, out.dtype)
        )
        func = getattr(
            flib.operators, f'fsr{self._flib_id}_pt1_i{isize}_r{rsize}_v{vsize}', None
        )
        if func is not None:
            if operation is operation_assignment:
                out[...] = 0
            func(
                self.matrix.data""")]),
    ('op_pt1_loop', 'operators.py', [
        ("""                for i, d in zip(index, data):
                    if i >= 0:
                        out[i] += d
""", """                for i, d in zip(index, data):
                    if i < 0:
                        continue
                    out[i] += d
""")]),
    ('op_ptxpt1', 'operators.py', [
        ("""        if shapein is None:
            block_size = self.matrix.block_shape[1]
            shapein = (self.matrix.shape[0],) + (
                () if block_size == 1 else (block_size,)
            )
        shapeout = self.shapein
        if shapeout is None:
            shapeout = (self.matrix.shape[1],)
        elif self.matrix.block_shape[1] > 1:
            shapeout = shapeout[:-1]
        if x.shape != shapein:""", """        block_size = self.matrix.block_shape[1]
        if shapein is None:
            shapein = (self.matrix.shape[0],)
            if block_size != 1:
                shapein += (block_size,)
        shapeout = self.shapein
        if shapeout is None:
            shapeout = (self.matrix.shape[1],)
        elif block_size > 1:
            shapeout = shapeout[:-1]
        if x.shape != shapein:""")]),
    ('op_roll', 'operators.py', [
        ("""        output[...] = np.roll(input, self.n[0], axis=self.axis[0])
        for n, axis in zip(self.n[1:], self.axis[1:]):
            output[...] = np.roll(output, n, axis=axis)

    def transpose(self, input, output):
        output[...] = np.roll(input, -self.n[0], axis=self.axis[0])
        for n, axis in zip(self.n[1:], self.axis[1:]):
            output[...] = np.roll(output, -n, axis=axis)
""", """        self._roll(input, output, self.n)

    def transpose(self, input, output):
        self._roll(input, output, tuple(-n for n in self.n))

    def _roll(self, input, output, ns):
        output[...] = np.roll(input, ns[0], axis=self.axis[0])
        for n, axis in zip(ns[1:], self.axis[1:]):
            output[...] = np.roll(output, n, axis=axis)
""")]),
    ('op_hor_matrix', 'operators.py', [
        ("""        m[..., 0, 0] = -slat * clst
        m[..., 0, 1] = -slat * slst
        m[..., 0, 2] = clat
        m[..., 1, 0] = -slst
        m[..., 1, 1] = clst
        m[..., 1, 2] = 0
        m[..., 2, 0] = clat * clst
        m[..., 2, 1] = clat * slst
        m[..., 2, 2] = slat
""", """        rows = (
            (-slat * clst, -slat * slst, clat),
            (-slst, clst, 0),
            (clat * clst, clat * slst, slat),
        )
        for i, row in enumerate(rows):
            for j, value in enumerate(row):
                m[..., i, j] = value
""")]),
    ('op_hor_order', 'operators.py', [
        ("""        lst = self._gst2lst(self._jd2gst(time.jd), longitude)
        lst = np.radians(lst * 15)
        latitude = np.radians(latitude)
        if dtype""", """        latitude = np.radians(latitude)
        gst = self._jd2gst(time.jd)
        lst = np.radians(15 * self._gst2lst(gst, longitude))
        if dtype""")]),
    ('op_jd', 'operators.py', [
        ("""        T0 = 6.697374558 + 2400.051336 * T + 0.000025862 * T**2
        T0 %= 24
        ut = (jd - jd0) * 24
        T0 += ut * 1.002737909
        T0 %= 24
        return T0
""", """        ut = (jd - jd0) * 24
        T0 = (6.697374558 + 2400.051336 * T + 0.000025862 * T**2) % 24
        return (T0 + ut * 1.002737909) % 24
""")]),
    ('op_sph', 'operators.py', [
        ("""        operands = [
            Cartesian2SphericalOperator(conventionout, degrees=degrees),
            CartesianEquatorial2GalacticOperator(),
            Spherical2CartesianOperator(conventionin, degrees=degrees),
        ]
        CompositionOperator.__init__(self, operands, **keywords)
""", """        to_cartesian = Spherical2CartesianOperator(conventionin, degrees=degrees)
        rotation = CartesianEquatorial2GalacticOperator()
        to_spherical = Cartesian2SphericalOperator(conventionout, degrees=degrees)
        super().__init__([to_spherical, rotation, to_cartesian], **keywords)
""")]),
]
