O = 'interfaces/healpy/operators.py'
S = 'interfaces/healpy/scenes.py'
M = 'interfaces/madmap1.py'
R = [
    ('hp_shape', O, [('''        return shape + (3,)
''', '''        return (*shape, 3)
''')]),
    ('hp_valid', O, [('''        if len(shape) == 0 or shape[-1] != 3:
            raise ValueError('Invalid cartesian shape.')
''', '''        if shape and shape[-1] == 3:
            return
        raise ValueError('Invalid cartesian shape.')
''')]),
    ('hp_valid2', O, [('''        if len(shape) == 0 or shape[-1] != 2:
            raise ValueError('Invalid spherical shape.')
''', '''        if shape[-1:] != (2,):
            raise ValueError('Invalid spherical shape.')
''')]),
    ('hp_rule', O, [('''        if o1.nside == o2.nside and o1.nest == o2.nest:
            return IdentityOperator()
''', '''        if o1.nside != o2.nside or o1.nest != o2.nest:
            return None
        return IdentityOperator()
''')]),
    ('hp_rule2', O, [('''        if o1.nside == o2.nside and o1.nest == o2.nest:
            return IdentityOperator()
''', '''        if (o1.nside, o1.nest) == (o2.nside, o2.nest):
            return IdentityOperator()
''')]),
    ('hp_rule3', O, [('''        if (
            o1.nside == o2.nside
            and o1.convention == o2.convention
            and o1.nest == o2.nest
        ):
            return IdentityOperator()
''', '''        same = all(
            getattr(o1, name) == getattr(o2, name)
            for name in ('nside', 'convention', 'nest')
        )
        if same:
            return IdentityOperator()
''')]),
    ('hp_direct', O, [('''        input = input.astype(int)
        func = pixlib._pix2vec_nest if self.nest else pixlib._pix2vec_ring
        func(self.nside, input, output[..., 0], output[..., 1], output[..., 2])
''', '''        if self.nest:
            func = pixlib._pix2vec_nest
        else:
            func = pixlib._pix2vec_ring
        x, y, z = (output[..., i] for i in range(3))
        func(self.nside, input.astype(int), x, y, z)
''')]),
    ('hp_direct2', O, [('''        func = pixlib._vec2pix_nest if self.nest else pixlib._vec2pix_ring
        func(self.nside, input[..., 0], input[..., 1], input[..., 2], output)
''', '''        args = [self.nside] + [input[..., i] for i in range(3)]
        if self.nest:
            pixlib._vec2pix_nest(*args, output)
        else:
            pixlib._vec2pix_ring(*args, output)
''')]),
    ('hp_sph', O, [('''        if self.convention.startswith('azimuth'):
            o1, o2 = output[..., 1], output[..., 0]
        else:
            o1, o2 = output[..., 0], output[..., 1]
        func(self.nside, input, o1, o2)
        if 'elevation' in self.convention:
            np.subtract(0.5 * pi(self.dtype), o1, o1)
''', '''        o1, o2 = output[..., 0], output[..., 1]
        if self.convention.startswith('azimuth'):
            o1, o2 = o2, o1
        func(self.nside, input, o1, o2)
        if 'elevation' in self.convention:
            o1[...] = 0.5 * pi(self.dtype) - o1
''')]),
    ('hp_sph2', O, [('''        if self.convention.startswith('azimuth'):
            i1, i2 = input[..., 1], input[..., 0]
        else:
            i1, i2 = input[..., 0], input[..., 1]
        if 'elevation' in self.convention:
            i1 = 0.5 * pi(self.dtype) - i1
        func(self.nside, i1, i2, output)
''', '''        angles = input[..., 0], input[..., 1]
        if self.convention.startswith('azimuth'):
            angles = angles[::-1]
        colatitude, longitude = angles
        if 'elevation' in self.convention:
            colatitude = pi(self.dtype) / 2 - colatitude
        func(self.nside, colatitude, longitude, output)
''')]),
    ('hp_sph3', O, [('''        if 'elevation' in self.convention:
            i1 = 0.5 * pi(self.dtype) - i1
''', '''        if self.convention in ('elevation,azimuth', 'azimuth,elevation'):
            i1 = 0.5 * pi(self.dtype) - i1
''')]),
    ('hp_conv', O, [('''        if not isinstance(convention, str):
            raise TypeError(f"The input convention '{convention}' is not a string.")
        convention_ = convention.replace(' ', '').lower()
        if convention_ not in self.CONVENTIONS:
''', '''        if not isinstance(convention, str):
            raise TypeError(f"The input convention '{convention}' is not a string.")
        convention_ = convention.lower().replace(' ', '')
        if convention_ not in self.CONVENTIONS:
''')]),
    ('hp_fwhm', O, [('''        if fwhm is not None and fwhm < 0 or sigma is not None and sigma < 0:
            raise ValueError('The convolution width is not positive.')
''', '''        width = sigma if fwhm is None else fwhm
        if width < 0:
            raise ValueError('The convolution width is not positive.')
''')]),
    ('hp_fwhm2', O, [('''        if fwhm in (0, None) and sigma in (0, None):
''', '''        if not fwhm and not sigma:
''')]),
    ('hp_fwhm3', O, [('''        if fwhm is None:
            fwhm = sigma * np.sqrt(8 * np.log(2))
        if sigma is None:
            sigma = fwhm / np.sqrt(8 * np.log(2))
''', '''        fwhm2sigma = 1 / np.sqrt(8 * np.log(2))
        if sigma is None:
            sigma = fwhm * fwhm2sigma
        else:
            fwhm = sigma / fwhm2sigma
''')]),
    ('hp_fwhm4', O, [('''        if fwhm is None and sigma is None:
            raise ValueError('The convolution width is not specified.')
        if fwhm is not None and sigma is not None:
            raise ValueError('Ambiguous convolution width specification.')
''', '''        if (fwhm is None) == (sigma is None):
            raise ValueError(
                'The convolution width is not specified.'
                if fwhm is None
                else 'Ambiguous convolution width specification.'
            )
''')]),
    ('hps_kind', S, [('''        kinds = 'I', 'QU', 'IQU'
''', '''        kinds = ('I', 'QU', 'IQU')
'''), ('''        nside = int(nside)
        topixel = Spherical2HealpixOperator(nside, convention, nest)
        shape = (12 * nside**2,)
        if kind != 'I':
            shape += (len(kind),)
        Scene.__init__(self, shape, topixel, ndim=1, **keywords)
        self.nside = nside
        self.npixel = 12 * nside**2
''', '''        nside = int(nside)
        npixel = 12 * nside**2
        shape = (npixel,) if kind == 'I' else (npixel, len(kind))
        topixel = Spherical2HealpixOperator(nside, convention, nest=nest)
        super().__init__(shape, topixel=topixel, ndim=1, **keywords)
        self.nside = nside
        self.npixel = npixel
''')]),
    ('hps_solid', S, [('''        self.solid_angle = 4 * np.pi / self.npixel
''', '''        self.solid_angle = np.pi / (3 * nside**2)
''')]),
    ('hps_unit', S, [('''        a = 2 * self.solid_angle * h * nu**3 / c**2
        if self.absolute:
            hnu_k = h * nu / k
            return a / asoperator(np.expm1)(hnu_k * ReciprocalOperator())
        T = self.temperature
        hnu_kT = h * nu / (k * T)
        val = 1e-6 * a * hnu_kT * np.exp(hnu_kT) / (np.expm1(hnu_kT) ** 2 * T)
        return asoperator(val)
''', '''        factor = 2 * self.solid_angle * h * nu**3 / c**2
        hnu_k = h * nu / k
        if self.absolute:
            planck = asoperator(np.expm1)(hnu_k * ReciprocalOperator())
            return factor / planck
        x = hnu_k / self.temperature
        derivative = factor * x * np.exp(x) / (np.expm1(x) ** 2 * self.temperature)
        return asoperator(1e-6 * derivative)
''')]),
    ('hps_unit2', S, [('''        a = 2 * self.solid_angle * h * nu**3 / c**2
        if self.absolute:
''', '''        a = 2 * h * nu * (nu / c) ** 2 * self.solid_angle
        if self.absolute:
''')]),
    ('mm_mask', M, [('''        mapmask = np.zeros(mask.shape, dtype=bool)
        if missing_value is None:
            mapmask[mask != 0] = True
        elif np.isnan(missing_value):
            mapmask[np.isnan(mask)] = True
        elif np.isinf(missing_value):
            mapmask[np.isinf(mask)] = True
        else:
            mapmask[mask == missing_value] = True
''', '''        mapmask = _get_mapmask(mask, missing_value)
'''), ('''def _read_one_filter(''', '''def _get_mapmask(mask, missing_value):
    if missing_value is None:
        selection = mask != 0
    elif np.isnan(missing_value):
        selection = np.isnan(mask)
    elif np.isinf(missing_value):
        selection = np.isinf(mask)
    else:
        selection = mask == missing_value
    mapmask = np.zeros(mask.shape, dtype=bool)
    mapmask[selection] = True
    return mapmask


def _read_one_filter(''')]),
    ('mm_block', M, [('''        self.block.n = ns
        self.block.start = np.cumsum([0] + ns)[:-1]
        self.block.stop = np.cumsum(ns)
''', '''        stop = np.cumsum(ns)
        self.block.n = ns
        self.block.stop = stop
        self.block.start = stop - ns
''')]),
    ('mm_block2', M, [('''        self.block.n = ns
        self.block.start = np.cumsum([0] + ns)[:-1]
        self.block.stop = np.cumsum(ns)
''', '''        bounds = np.cumsum([0] + ns)
        self.block.n = ns
        self.block.start = bounds[:-1]
        self.block.stop = bounds[1:]
''')]),
    ('mm_check', M, [('''        if npixels_in_map != np.sum(~mapmask):
''', '''        nvalid = np.sum(~mapmask)
        if nvalid != npixels_in_map:
''')]),
    ('mm_invntt', M, [('''        ops = [
            SymmetricBandToeplitzOperator(
                (len(self.instrument), b.n),
                filters,
                fftw_flag=fftw_flag,
                nthreads=nthreads,
            )
            for b, filters in zip(self.block, self._filters)
        ]
        return BlockDiagonalOperator(ops, axisin=-1)
''', '''        ndetectors = len(self.instrument)
        keywords = {'fftw_flag': fftw_flag, 'nthreads': nthreads}
        blocks = []
        for block, filters in zip(self.block, self._filters):
            shape = (ndetectors, block.n)
            blocks.append(SymmetricBandToeplitzOperator(shape, filters, **keywords))
        return BlockDiagonalOperator(blocks, axisin=-1)
''')]),
    ('mm_proj', M, [('''        header = self.get_map_header()
        junk, pmatrix = self._read_tod_pmatrix()
        return BlockColumnOperator(
            [
                ProjectionInMemoryOperator(
                    p, attrin={'header': header}, classin=Map, classout=Tod
                )
                for p in pmatrix
            ],
            axisout=-1,
        )
''', '''        attrin = {'header': self.get_map_header()}
        _, pmatrix = self._read_tod_pmatrix()
        blocks = [
            ProjectionInMemoryOperator(
                matrix, attrin=attrin, classin=Map, classout=Tod
            )
            for matrix in pmatrix
        ]
        return BlockColumnOperator(blocks, axisout=-1)
''')]),
    ('mm_operator', M, [('''        operands = [self.get_projection_operator()]
        if aslist:
            return operands
        return operands[0]
''', '''        operator = self.get_projection_operator()
        return [operator] if aslist else operator
''')]),
    ('mm_read', M, [('''                data = np.fromfile(f, pdtype, count=b.n * ndetectors)
                data = data.reshape((ndetectors, b.n))
                tod[:, b.start : b.stop] = data['tod']
''', '''                shape = (ndetectors, b.n)
                data = np.fromfile(f, pdtype, count=b.n * ndetectors).reshape(shape)
                tod[..., b.start : b.stop] = data['tod']
''')]),
    ('mm_read2', M, [('''            idtype = '>i4' if self.info.bigendian else '<i4'
            fdtype = '>f4' if self.info.bigendian else '<f4'
            ddtype = '>f8' if self.info.bigendian else '<f8'
            pdtype = [
                ('tod', ddtype),
                ('matrix', [('value', fdtype), ('index', idtype)], (npps,)),
            ]
''', '''            order = '>' if self.info.bigendian else '<'
            pdtype = [
                ('tod', order + 'f8'),
                ('matrix', [('value', order + 'f4'), ('index', order + 'i4')], (npps,)),
            ]
''')]),
    ('mm_read3', M, [('''        nsamples = np.sum(len(self.pointing))
        npps = self.info.npixels_per_sample
        filesize = os.stat(self.info.todfilename).st_size
        if filesize != 32 + (npps + 1) * ndetectors * nsamples * 8:
''', '''        nsamples = np.sum(len(self.pointing))
        npps = self.info.npixels_per_sample
        filesize = os.stat(self.info.todfilename).st_size
        expected = 32 + 8 * ndetectors * nsamples * (npps + 1)
        if filesize != expected:
''')]),
    ('mm_filter', M, [('''    dtype = '>i8' if bigendian else '<i8'
    first, last, ncorr = np.fromfile(filename, dtype, count=3)
    data = np.fromfile(filename, dtype.replace('i', 'f'), count=4 + ncorr)[3:]
    return {'first': first, 'last': last, 'data': data}
''', '''    order = '>' if bigendian else '<'
    first, last, ncorr = np.fromfile(filename, order + 'i8', count=3)
    data = np.fromfile(filename, order + 'f8', count=4 + ncorr)
    return dict(first=first, last=last, data=data[3:])
''')]),
    ('mm_filters', M, [('''    files = sorted(
        (_ for _ in filename.parent.iterdir() if regex.match(str(_))),
        key=lambda f: int(f.suffix[1:]),
    )
    if not files:
''', '''    files = [_ for _ in filename.parent.iterdir() if regex.match(str(_))]
    files.sort(key=lambda f: int(f.suffix[1:]))
    if len(files) == 0:
''')]),
    ('mm_filters2', M, [('''    ncorrelations = filters[0]['data'].size
    if any(f['data'].size != ncorrelations for f in filters):
        raise ValueError('Blocks do not have the same correlation lengths.')
''', '''    ncorrelations = filters[0]['data'].size
    for f in filters[1:]:
        if f['data'].size != ncorrelations:
            raise ValueError('Blocks do not have the same correlation lengths.')
''')]),
    ('mm_filters3', M, [('''    if any(f['data'].size != ncorrelations for f in filters):
        raise ValueError('Blocks do not have the same correlation lengths.')
''', '''    if not all(f['data'].size == ncorrelations for f in filters):
        raise ValueError('Blocks do not have the same correlation lengths.')
''')]),
    ('mm_tod', M, [('''        tod, junk = self._read_tod_pmatrix()
        if unit is not None:
            tod.unit = unit
        return tod
''', '''        tod = self._read_tod_pmatrix()[0]
        if unit is None:
            return tod
        tod.unit = unit
        return tod
''')]),
]
