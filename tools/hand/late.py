R = [
    ('gfh_helper', 'mpiutils.py', [('''    if 'NAXIS' not in header:
        raise KeyError("The FITS header does not contain the 'NAXIS' keyword.")
    if 'NAXIS1' not in header:
        raise KeyError('Scalar FITS headers cannot be gathered.')

    naxis = str(header['NAXIS'])
    nlocal = header['NAXIS' + naxis]
    nglobal = combine(nlocal, comm=comm)
    s = split(nglobal, comm.size, comm.rank)
    header = header.copy()
    header['NAXIS' + naxis] = nglobal
    if 'CRPIX' + naxis in header:
        header['CRPIX' + naxis] += s.start
    return header
''', '''    _check_naxis(header, 'gathered')

    last = header['NAXIS']
    size_key, ref_key = f'NAXIS{last}', f'CRPIX{last}'
    nglobal = combine(header[size_key], comm=comm)
    offset = split(nglobal, comm.size, comm.rank).start
    out = header.copy()
    out[size_key] = nglobal
    if ref_key in out:
        out[ref_key] = out[ref_key] + offset
    return out


def _check_naxis(header, action):
    if 'NAXIS' not in header:
        raise KeyError("The FITS header does not contain the 'NAXIS' keyword.")
    if 'NAXIS1' not in header:
        raise KeyError(f'Scalar FITS headers cannot be {action}.')
''')]),
    ('gfin_loop', 'mpiutils.py', [('''    required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
    required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]

    headers = comm.allgather(header)
    for keyword in required_same:
        if keyword not in header:
            continue
        values = [h[keyword] for h in headers]
        if any(v != headers[0][keyword] for v in values):
''', '''    required_same.extend(f'NAXIS{i}' for i in range(1, naxis))
    required_same.extend(f'CRPIX{i}' for i in range(1, naxis))

    headers = comm.allgather(header)
    first = headers[0]
    for keyword in (k for k in required_same if k in header):
        values = [h[keyword] for h in headers]
        if not all(v == first[keyword] for v in values):
''')]),
    ('sfh_swap', 'mpiutils.py', [('''    axis = str(header['NAXIS'])
    nglobal = header['NAXIS' + axis]
    s = split(nglobal, comm.size, comm.rank)
    header = header.copy()
    header['NAXIS' + axis] = s.stop - s.start
    if 'CRPIX' + axis in header:
        header['CRPIX' + axis] -= s.start
    return header
''', '''    local = header.copy()
    axis = header['NAXIS']
    section = split(header[f'NAXIS{axis}'], comm.size, comm.rank)
    nlocal = section.stop - section.start
    local[f'NAXIS{axis}'] = nlocal
    crpix = f'CRPIX{axis}'
    if crpix not in local:
        return local
    local[crpix] -= section.start
    return local
''')]),
    ('distrib_blocks', 'mpiutils.py', [('''    if ix >= nx_block:
        idetector = slice(0, 0)
        iobservation = slice(0, 0)
    else:
        idetector = slice(iy * yblocksize * nthreads, (iy + 1) * yblocksize * nthreads)
        iobservation = slice(ix * xblocksize, (ix + 1) * xblocksize)
''', '''    if ix < nx_block:
        step = yblocksize * nthreads
        idetector = slice(iy * step, (iy + 1) * step)
        iobservation = slice(ix * xblocksize, (ix + 1) * xblocksize)
    else:
        idetector = iobservation = slice(0, 0)
''')]),
    ('readfits_next', 'mpiutils.py', [('''    all_equal = all([f == files[0] for f in files])
    if comm.size > 1 and not all_equal:
        raise ValueError('The file name is not the same for all MPI jobs.')

    # get primary''', '''    if comm.size > 1 and any(f != files[0] for f in files[1:]):
        raise ValueError('The file name is not the same for all MPI jobs.')

    # get primary''')]),
    ('readfits_native', 'mpiutils.py', [('''        if not output.dtype.isnative:
            output = output.byteswap().view(output.dtype.newbyteorder('='))
''', '''        output = _to_native(output)
'''), ('''def read_fits(filename, extname, comm):
''', '''def _to_native(array):
    if array.dtype.isnative:
        return array
    return array.byteswap().view(array.dtype.newbyteorder('='))


def read_fits(filename, extname, comm):
''')]),
    ('writefits_ndims', 'mpiutils.py', [('''    if any(n != ndims[0] for n in ndims):
        raise ValueError(
            f'The arrays have an incompatible number of dimensions: {ndims}.'
        )
    ndim = ndims[0]
''', '''    ndim = ndims[0]
    if not all(n == ndim for n in ndims):
        raise ValueError(
            f'The arrays have an incompatible number of dimensions: {ndims}.'
        )
''')]),
    ('writefits_rm', 'mpiutils.py', [('''    if not extension:
        if comm.rank == 0:
            try:
                os.remove(filename)
            except OSError:
                pass
''', '''    if comm.rank == 0 and not extension:
        with contextlib.suppress(OSError):
            os.remove(filename)
'''), ('''import os
''', '''import contextlib
import os
''')]),
    ('writefits_single', 'mpiutils.py', [('''        if not extension:
            hdu = pyfits.PrimaryHDU(data, header)
            hdu.writeto(filename, overwrite=True)
        else:
            pyfits.append(filename, data, header)
        return
''', '''        if extension:
            pyfits.append(filename, data, header)
            return
        pyfits.PrimaryHDU(data, header).writeto(filename, overwrite=True)
        return
''')]),
    ('writefits_pad', 'mpiutils.py', [('''        datasize = nglobal * chunk * int(data.dtype.itemsize)
        BLOCK_SIZE = 2880
        padding = -datasize % BLOCK_SIZE
''', '''        itemsize = int(data.dtype.itemsize)
        datasize = itemsize * chunk * nglobal
        padding = (-datasize) % 2880
''')]),
    ('pl_scalar_loop', 'operators.py', [('''        x = np.asarray(x, float)
        if x.ndim != 0:
            raise TypeError('The input is not a scalar.')
        x0 = np.asarray(x0, float)
        if x0.ndim != 0:
            raise TypeError('The reference input is not a scalar.')
        scalar = np.asarray(scalar, float)
        if scalar.ndim != 0:
            raise TypeError('The scalar coefficient is not a scalar.')
        if 'dtype' not in keywords:
            keywords['dtype'] = float
''', '''        x = self._asscalar(x, 'input')
        x0 = self._asscalar(x0, 'reference input')
        scalar = self._asscalar(scalar, 'scalar coefficient')
        keywords.setdefault('dtype', float)
'''), ('''    def __str__(self):
        return f'powerlaw(''', '''    @staticmethod
    def _asscalar(value, name):
        value = np.asarray(value, float)
        if value.ndim != 0:
            raise TypeError(f'The {name} is not a scalar.')
        return value

    def __str__(self):
        return f'powerlaw(''')]),
    ('pl_rule_method', 'operators.py', [('''            lambda o, s: PowerLawOperator(s.alpha, s.x, s.x0, o.data * s.scalar),
            CompositionOperator,
        )
''', '''            self._rule_homothety,
            CompositionOperator,
        )

    @staticmethod
    def _rule_homothety(o, s):
        scalar = o.data * s.scalar
        return PowerLawOperator(s.alpha, s.x, s.x0, scalar=scalar)
''')]),
    ('roll_enum', 'operators.py', [('''        output[...] = np.roll(input, -self.n[0], axis=self.axis[0])
        for n, axis in zip(self.n[1:], self.axis[1:]):
            output[...] = np.roll(output, -n, axis=axis)
''', '''        rolled = input
        for n, axis in zip(self.n, self.axis):
            rolled = np.roll(rolled, -n, axis=axis)
            output[...] = rolled
''')]),
    ('psd1f_terms', 'noises.py', [('''    sigma = np.asarray(sigma)[..., None]
    fknee = np.asarray(fknee)[..., None]
    fslope = np.asarray(fslope)[..., None]

    frq = np.fft.fftfreq(nsamples, d=1 / sampling_frequency)
    frq[0] = np.inf
    psd = sigma**2 * (1 + np.abs(fknee / frq) ** fslope) / sampling_frequency
    if not twosided:
        psd = _fold_psd(psd)
    return psd
''', '''    sigma, fknee, fslope = (np.asarray(_)[..., None] for _ in (sigma, fknee, fslope))

    frequency = np.fft.fftfreq(nsamples, d=1 / sampling_frequency)
    frequency[0] = np.inf
    color = 1 + np.abs(fknee / frequency) ** fslope
    psd = sigma**2 * color / sampling_frequency
    return psd if twosided else _fold_psd(psd)
''')]),
    ('gsample_order', 'noises.py', [('''    shape = psd.shape[:-1] + (nsamples,)
    gauss = np.random.randn(*shape)
    nthreads = multiprocessing.cpu_count()
    ftgauss = fft.fft(gauss, planner_effort=fftw_flag, threads=nthreads)
    ftgauss[..., 0] = 0
    spec = ftgauss * np.sqrt(psd)
    out[...] = fft.ifft(
        spec, planner_effort=fftw_flag, threads=nthreads
    ).real * np.sqrt(sampling_frequency)
    return out
''', '''    options = {
        'planner_effort': fftw_flag,
        'threads': multiprocessing.cpu_count(),
    }
    gauss = np.random.randn(*(psd.shape[:-1] + (nsamples,)))
    spectrum = fft.fft(gauss, **options)
    spectrum[..., 0] = 0
    filtered = fft.ifft(spectrum * np.sqrt(psd), **options)
    out[...] = np.sqrt(sampling_frequency) * filtered.real
    return out
''')]),
    ('psd2inv_inline', 'noises.py', [('''    fftsize = psd.shape[-1]
    fsamp = bandwidth * fftsize
    psd = (1 / fsamp) / psd
    nthreads = multiprocessing.cpu_count()
    out = fft.fft(psd, axis=-1, planner_effort=fftw_flag, threads=nthreads)
    invntt = out[..., : ncorr + 1].real / fftsize
    return invntt
''', '''    nthreads = multiprocessing.cpu_count()
    fftsize = psd.shape[-1]
    inverse = (1 / (bandwidth * fftsize)) / psd
    out = fft.fft(inverse, axis=-1, planner_effort=fftw_flag, threads=nthreads)
    return out[..., : ncorr + 1].real / fftsize
''')]),
    ('interp_while', 'noises.py', [('''    ix = 1
    x1 = x[0]
    x2 = x[1]
    for iz, z_ in enumerate(z):
        while z_ > x2 and ix < x.size - 1:
            ix += 1
            x1 = x2
            x2 = x[ix]
        out[..., iz] = ((z_ - x1) * y[..., ix] + (x2 - z_) * y[..., ix - 1]) / (x2 - x1)
    return out
''', '''    ix = 1
    x1, x2 = x[0], x[1]
    last = x.size - 1
    for iz, z_ in enumerate(z):
        while z_ > x2 and ix < last:
            ix += 1
            x1, x2 = x2, x[ix]
        left, right = z_ - x1, x2 - z_
        out[..., iz] = (left * y[..., ix] + right * y[..., ix - 1]) / (x2 - x1)
    return out
''')]),
    ('center_masked', 'packedtables/samplings.py', [('''            coords = self.cartesian
            if not isscalarlike(self.masked):
                valid = 1 - self.masked
                coords = coords * valid[:, None]
                n = np.sum(valid)
            else:
                n = len(self)
''', '''            coords = self.cartesian
            if isscalarlike(self.masked):
                n = len(self)
            else:
                valid = 1 - self.masked
                n = np.sum(valid)
                coords = coords * valid[:, None]
''')]),
    ('horiz_default', 'packedtables/samplings.py', [('''        latitude = keywords.pop('latitude', None)
        if latitude is None:
            latitude = self.DEFAULT_LATITUDE
            if latitude is None:
                raise ValueError('The reference latitude is not specified.')
        self.latitude = latitude
        longitude = keywords.pop('longitude', None)
        if longitude is None:
            longitude = self.DEFAULT_LONGITUDE
            if longitude is None:
                raise ValueError('The reference longitude is not specified.')
        self.longitude = longitude
''', '''        for name in 'latitude', 'longitude':
            value = keywords.pop(name, None)
            if value is None:
                value = getattr(self, 'DEFAULT_' + name.upper())
                if value is None:
                    raise ValueError(f'The reference {name} is not specified.')
            setattr(self, name, value)
''')]),
    ('horiz_h2e', 'packedtables/samplings.py', [('''        time = self.date_obs + TimeDelta(self.time, format='sec')
        h2e = SphericalHorizontal2EquatorialOperator(
            'NE', time, self.latitude, self.longitude, degrees=True
        )
        return h2e(self.spherical, preserve_input=False)
''', '''        return self._h2e()(self.spherical, preserve_input=False)

    def _h2e(self):
        dates = self.date_obs + TimeDelta(self.time, format='sec')
        return SphericalHorizontal2EquatorialOperator(
            'NE', dates, self.latitude, self.longitude, degrees=True
        )
'''), ('''        time = self.date_obs + TimeDelta(self.time, format='sec')
        h2e = SphericalHorizontal2EquatorialOperator(
            'NE', time, self.latitude, self.longitude, degrees=True
        )
        e2g = SphericalEquatorial2GalacticOperator(degrees=True)
        return e2g(h2e)(''', '''        h2e = self._h2e()
        e2g = SphericalEquatorial2GalacticOperator(degrees=True)
        return e2g(h2e)(''')]),
    ('sph_shape', 'packedtables/samplings.py', [('''            shape = np.broadcast(
                *([keywords[_] for _ in names] + [keywords.get('time', None)])
            ).shape
        if len(shape) == 0:
            shape = (1,)
        elif len(shape) != 1:
            raise ValueError('Invalid dimension for the pointing.')
''', '''            angles = [keywords[_] for _ in names]
            shape = np.broadcast(*angles, keywords.get('time')).shape
        if shape == ():
            shape = (1,)
        if len(shape) > 1:
            raise ValueError('Invalid dimension for the pointing.')
''')]),
    ('scene_index', 'packedtables/scenes.py', [('''        if dtype_index is None:
            if len(self) <= np.iinfo(np.int32).max:
                dtype_index = np.int32
            else:
                dtype_index = np.int64
        dtype_index = np.dtype(dtype_index)
''', '''        if dtype_index is None:
            fits = len(self) <= np.iinfo(np.int32).max
            dtype_index = np.int32 if fits else np.int64
        dtype_index = np.dtype(dtype_index)
''')]),
    ('scene_matrix', 'packedtables/scenes.py', [('''        if matrix.data.size == 0:
            # f2py doesn't accept zero-sized opaque arguments
            data = np.empty(1, np.int8)
        else:
            data = matrix.data.ravel().view(np.int8)

        nvertices = polygons.shape[-2]
        isize = dtype_index.itemsize
        rsize = dtype.itemsize
        func = f'matrix_polygon_integration_i{isize}_r{rsize}'
        min_ncolmax, outside = getattr(flib.projection, func)(
            polygons.reshape(-1, nvertices, 2).T,
            self.shape[1],
            self.shape[0],
            data,
            ncolmax,
        )
''', '''        # f2py doesn't accept zero-sized opaque arguments
        data = (
            matrix.data.ravel().view(np.int8)
            if matrix.data.size > 0
            else np.empty(1, np.int8)
        )

        func = getattr(
            flib.projection,
            f'matrix_polygon_integration_i{dtype_index.itemsize}_r{dtype.itemsize}',
        )
        nrow, ncol = self.shape
        vertices = polygons.reshape(-1, polygons.shape[-2], 2)
        min_ncolmax, outside = func(vertices.T, ncol, nrow, data, ncolmax)
''')]),
    ('healpix_shape', 'interfaces/healpy/scenes.py', [('''        topixel = Spherical2HealpixOperator(nside, convention, nest)
        shape = (12 * nside**2,)
        if kind != 'I':
            shape += (len(kind),)
        Scene.__init__(self, shape, topixel, ndim=1, **keywords)
        self.nside = nside
        self.npixel = 12 * nside**2
''', '''        npixel = 12 * nside**2
        shape = (npixel,) if kind == 'I' else (npixel, len(kind))
        topixel = Spherical2HealpixOperator(nside, convention, nest=nest)
        Scene.__init__(self, shape, topixel=topixel, ndim=1, **keywords)
        self.nside = nside
        self.npixel = npixel
''')]),
    ('cmb_factor', 'interfaces/healpy/scenes.py', [('''        T = self.temperature
        hnu_kT = h * nu / (k * T)
        val = 1e-6 * a * hnu_kT * np.exp(hnu_kT) / (np.expm1(hnu_kT) ** 2 * T)
        return asoperator(val)
''', '''        temperature = self.temperature
        x = h * nu / (k * temperature)
        return asoperator(1e-6 * a * x * np.exp(x) / (temperature * np.expm1(x) ** 2))
''')]),
    ('cdelt_keys', 'wcsutils.py', [('''        cd = np.array(
            [[header['CD1_1'], header['CD1_2']], [header['CD2_1'], header['CD2_2']]],
            float,
        )
    except KeyError:
        if any(k not in header for k in ('CDELT1', 'CDELT2', 'CROTA2')):
            raise KeyError('Header has no astrometry.')
        return (np.array([header['CDELT1'], header['CDELT2']]), -header['CROTA2'])

    det = np.linalg.det(cd)
    sgn = det / np.abs(det)
    cdelt = np.array(
        [
            sgn * np.sqrt(cd[0, 0] ** 2 + cd[0, 1] ** 2),
            np.sqrt(cd[1, 1] ** 2 + cd[1, 0] ** 2),
        ]
    )
    pa = -np.arctan2(-cd[1, 0], cd[1, 1])
    return cdelt, np.rad2deg(pa)
''', '''        cd = np.array(
            [[header[f'CD{i}_{j}'] for j in (1, 2)] for i in (1, 2)], float
        )
    except KeyError:
        if not all(k in header for k in ('CDELT1', 'CDELT2', 'CROTA2')):
            raise KeyError('Header has no astrometry.')
        cdelt = np.array([header[k] for k in ('CDELT1', 'CDELT2')])
        return cdelt, -header['CROTA2']

    det = np.linalg.det(cd)
    (cd11, cd12), (cd21, cd22) = cd
    cdelt1 = det / np.abs(det) * np.sqrt(cd11**2 + cd12**2)
    cdelt2 = np.sqrt(cd21**2 + cd22**2)
    pa = -np.arctan2(-cd21, cd22)
    return np.array([cdelt1, cdelt2]), np.rad2deg(pa)
''')]),
    ('haswcs_gen', 'wcsutils.py', [('''    required = 'CRPIX,CRVAL,CTYPE'.split(',')
    keywords = np.concatenate(
        [
            (lambda i: [r + str(i + 1) for r in required])(i)
            for i in range(header['NAXIS'])
        ]
    )
    return all([k in header for k in keywords])
''', '''    for i in range(1, header['NAXIS'] + 1):
        for prefix in ('CRPIX', 'CRVAL', 'CTYPE'):
            if f'{prefix}{i}' not in header:
                return False
    return True
''')]),
    ('str2fh_range', 'wcsutils.py', [('''    header = pyfits.Header()
    iline = 0
    while iline * 80 < len(string):
        line = string[iline * 80 : (iline + 1) * 80]
        if line[0:8].rstrip() == 'END':
            break
        header.append(pyfits.Card.fromstring(line), end=True)
        iline += 1
    return header
''', '''    header = pyfits.Header()
    for start in range(0, len(string), 80):
        line = string[start : start + 80]
        if line[:8].rstrip() == 'END':
            break
        header.append(pyfits.Card.fromstring(line), end=True)
    return header
''')]),
    ('boresight_xy', 'wcsutils.py', [('''        ra = self.pointing[s].ra
        dec = self.pointing[s].dec
        pa = np.deg2rad(self.pointing[s].pa)
        cospa = np.cos(pa) / 3600
        sinpa = np.sin(pa) / 3600
        out[..., 1] = dec + (-x[..., 0] * sinpa + x[..., 1] * cospa)
        out[..., 0] = ra + (x[..., 0] * cospa + x[..., 1] * sinpa) / np.cos(
            np.deg2rad(out[..., 1])
        )
''', '''        pointing = self.pointing[s]
        pa = np.deg2rad(pointing.pa)
        cospa, sinpa = np.cos(pa) / 3600, np.sin(pa) / 3600
        u, v = x[..., 0], x[..., 1]
        out[..., 1] = pointing.dec + (v * cospa - u * sinpa)
        cosdec = np.cos(np.deg2rad(out[..., 1]))
        out[..., 0] = pointing.ra + (u * cospa + v * sinpa) / cosdec
''')]),
    ('procs_else', 'acquisitions.py', [('''        self.block = block
        if block is None:
            self.block = (slice(0, len(self.sampling)),)
            if max_nbytes is not None:
                nbytes = self.get_operator_nbytes()
                if nbytes > max_nbytes:
                    nblocks = int(np.ceil(nbytes / max_nbytes))
                    self.block = tuple(split(len(self.sampling), nblocks))
        elif not isinstance(block, (list, tuple)) or any(
            not isinstance(b, slice) for b in block
        ):
            raise TypeError(f"Invalid block argument: '{block}'.")
''', '''        self.block = block
        if block is not None:
            if not isinstance(block, (list, tuple)) or not all(
                isinstance(b, slice) for b in block
            ):
                raise TypeError(f"Invalid block argument: '{block}'.")
            return
        nsamples = len(self.sampling)
        self.block = (slice(0, nsamples),)
        if max_nbytes is None:
            return
        nbytes = self.get_operator_nbytes()
        if nbytes > max_nbytes:
            self.block = tuple(split(nsamples, int(np.ceil(nbytes / max_nbytes))))
''')]),
    ('acq_op_local', 'acquisitions.py', [('''            self._operator = CompositionOperator(
                [
                    BlockColumnOperator(
                        [
                            self.instrument.get_operator(self.sampling[b], self.scene)
                            for b in self.block
                        ],
                        axisin=1,
                    ),
                    self.scene.get_distribution_operator(self.comm),
                ]
            )
''', '''            blocks = []
            for b in self.block:
                blocks.append(
                    self.instrument.get_operator(self.sampling[b], self.scene)
                )
            projection = BlockColumnOperator(blocks, axisin=1)
            distribution = self.scene.get_distribution_operator(self.comm)
            self._operator = CompositionOperator([projection, distribution])
''')]),
    ('noise_model', 'instruments.py', [('''        if (
            bandwidth is None
            and psd is not None
            or bandwidth is not None
            and psd is None
        ):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if bandwidth is None and psd is None and sigma is None:
            raise ValueError('The noise model is not specified.')

        shapein = len(self), len(sampling)
''', '''        if (bandwidth is None) != (psd is None):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if psd is None and sigma is None:
            raise ValueError('The noise model is not specified.')

        shapein = (len(self), len(sampling))
''')]),
    ('noise_ps', 'instruments.py', [('''        if bandwidth is not None and psd is not None:
            if twosided:
                psd = _fold_psd(psd)
                twosided = False
        else:
            twosided = True

        n = len(sampling)
        if bandwidth is None and psd is None:
            p = _gaussian_psd_1f(
                n, sampling_frequency, sigma, fknee, fslope, twosided=twosided
            )
        else:
''', '''        has_psd = bandwidth is not None and psd is not None
        if has_psd and twosided:
            psd = _fold_psd(psd)
        twosided = not has_psd

        n = len(sampling)
        if not has_psd:
            p = _gaussian_psd_1f(
                n, sampling_frequency, sigma, fknee, fslope, twosided=twosided
            )
        else:
''')]),
    ('policy_split', 'acquisitions.py', [('''        if isscalarlike(flags):
            if isinstance(flags, str):
                flags = flags.split(',')
            else:
                flags = [flags]
        flags = [_.strip() for _ in flags]
        if isscalarlike(values):
            if isinstance(values, str):
                values = values.split(',')
            else:
                values = [values]
        values = [_.strip().lower() for _ in values]
''', '''        flags = [_.strip() for _ in self._tolist(flags)]
        values = [_.strip().lower() for _ in self._tolist(values)]
'''), ('''    def __array__(self, dtype=int):
''', '''    @staticmethod
    def _tolist(x):
        if not isscalarlike(x):
            return x
        if isinstance(x, str):
            return x.split(',')
        return [x]

    def __array__(self, dtype=int):
''')]),
]
