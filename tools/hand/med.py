R = [
    ('airy', 'datautils.py', [
        ('''    index = np.where(d == 0)
    d[index] = 1.0e-30
    if fwhm is not None:
        d *= 1.61633 / (fwhm / 2)
    else:
        d *= 3.8317 / r0
    d = (2''', '''    d[np.where(d == 0)] = 1e-30
    factor = 3.8317 / r0 if fwhm is None else 1.61633 / (fwhm / 2)
    d *= factor
    d = (2''')]),
    ('aperture', 'datautils.py', [
        ('''    array = distance2(shape, center=center, scale=scale, dtype=dtype)
    array[...] = array <= (diameter / 2) ** 2
    return array
''', '''    radius = diameter / 2
    out = distance2(shape, center=center, scale=scale, dtype=dtype)
    out[...] = out <= radius**2
    return out
''')]),
    ('distance_slow', 'datautils.py', [
        ('''def _distance_slow(shape, center, scale, dtype, out=None):
''', '''def _axes2(shape, center, scale, dtype):
    grid = np.ogrid[[slice(0, n) for n in shape]]
    return [
        (s * (a.astype(dtype) - o)) ** 2
        for a, o, s in zip(grid, center[::-1], scale[::-1])
    ]


def _distance_slow(shape, center, scale, dtype, out=None):
'''), ('''    index = []
    for n in shape:
        index.append(slice(0, n))
    d = np.ogrid[index]
    d = [
        (s * (a.astype(dtype) - o)) ** 2
        for a, o, s in zip(d, center[::-1], scale[::-1])
    ]
    return np.sqrt(sum(d), out)
''', '''    return np.sqrt(sum(_axes2(shape, center, scale, dtype)), out)
''')]),
    ('distance_common', 'datautils.py', [
        ('''def distance(shape, center''', '''def _get_center(shape, center, dtype):
    if center is not None:
        return np.ascontiguousarray(center, dtype)
    return (np.array(shape[::-1]) - 1) / 2


def _get_scale(scale, ndim, dtype):
    if isscalarlike(scale):
        scale = np.resize(scale, ndim)
    return np.ascontiguousarray(scale, dtype)


def distance(shape, center'''),
        ('''    if center is None:
        center = (np.array(shape[::-1]) - 1) / 2
    else:
        center = np.ascontiguousarray(center, dtype)
    if isscalarlike(scale):
        scale = np.resize(scale, out.ndim)
    scale = np.ascontiguousarray(scale, dtype)

    if ndim in (1, 2):
        fname = f'distance_{ndim}d_r{dtype.itemsize}'
''', '''    center = _get_center(shape, center, dtype)
    scale = _get_scale(scale, out.ndim, dtype)

    if ndim in (1, 2):
        fname = f'distance_{ndim}d_r{dtype.itemsize}'
'''),
        ('''    if center is None:
        center = (np.array(shape[::-1]) - 1) / 2
    else:
        center = np.ascontiguousarray(center, dtype)
    if isscalarlike(scale):
        scale = np.resize(scale, out.ndim)
    scale = np.ascontiguousarray(scale, dtype)

    if ndim in (1, 2):
        fname = f'distance2_{ndim}d_r{dtype.itemsize}'
''', '''    center = _get_center(shape, center, dtype)
    scale = _get_scale(scale, out.ndim, dtype)

    if ndim in (1, 2):
        fname = f'distance2_{ndim}d_r{dtype.itemsize}'
''')]),
    ('distance_early', 'datautils.py', [
        ('''    if ndim in (1, 2):
        fname = f'distance_{ndim}d_r{dtype.itemsize}'
        func = getattr(flib.datautils, fname)
        if ndim == 1:
            func(out_, center[0], scale[0])
        else:
            func(out_.T, center, scale)
        if not isalias(out, out_):
            out[...] = out_
    else:
        _distance_slow(shape, center, scale, dtype, out)
    return Map(out, copy=False, unit=unit)
''', '''    if ndim not in (1, 2):
        _distance_slow(shape, center, scale, dtype, out)
        return Map(out, copy=False, unit=unit)

    func = getattr(flib.datautils, 'distance_' + str(ndim) + 'd_r' + str(dtype.itemsize))
    if ndim == 2:
        func(out_.T, center, scale)
    else:
        func(out_, center[0], scale[0])
    if not isalias(out, out_):
        out[...] = out_
    return Map(out, copy=False, unit=unit)
''')]),
    ('gaussian', 'datautils.py', [
        ('''        axes = np.ogrid[
            [
                slice(-o * sc, (sh - 1 - o) * sc, complex(sh))
                for o, sh, sc in zip(center[::-1], shape, scale)
            ]
        ]
        out = 1 / ((2 * np.pi) ** (n / 2) * product(sigma))
        for a in axes:
            out = out * np.exp(-(a**2))
''', '''        slices = []
        for o, sh, sc in zip(center[::-1], shape, scale):
            slices.append(slice(-o * sc, (sh - 1 - o) * sc, complex(sh)))
        norm = (2 * np.pi) ** (n / 2) * product(sigma)
        out = 1 / norm
        for axis in np.ogrid[slices]:
            out = out * np.exp(-(axis**2))
''')]),
    ('profile', 'datautils.py', [
        ('''        nbins = int(
            max(
                input.shape[0] - center[1],
                center[1],
                input.shape[1] - center[0],
                center[0],
            )
            / bin_scaled
        )

    fname = f'profile_axisymmetric_2d_r{dtype.itemsize}'
    func = getattr(flib.datautils, fname)
    x, y, n = func(input.T, center, bin_scaled, nbins)
    x *= scale
    if histogram:
        return x, y, n
    else:
        return x, y
''', '''        ny, nx = input.shape[0], input.shape[1]
        x0 = center[0]
        y0 = center[1]
        nbins = int(max(ny - y0, y0, nx - x0, x0) / bin_scaled)

    func = getattr(flib.datautils, f'profile_axisymmetric_2d_r{dtype.itemsize}')
    x, y, n = func(input.T, center, bin_scaled, nbins)
    x *= scale
    return (x, y, n) if histogram else (x, y)
''')]),
    ('psd2', 'datautils.py', [
        ('''    s = abs2(FFTOperator(array.shape, fftw_flag=fftw_flag)(array))
    s /= array.size**2
    bandwidth = sampling_frequency**2 / array.size
    s /= bandwidth
    return''', '''    n = array.size
    fft = FFTOperator(array.shape, fftw_flag=fftw_flag)
    s = abs2(fft(array))
    s /= n**2
    s /= sampling_frequency**2 / n
    return''')]),
    ('integrated', 'datautils.py', [
        ('''    x, y, n = profile(
        input, bin=bin, nbins=nbins, histogram=True, center=center, scale=scale
    )
    y[~np.isfinite(y)] = 0
    y *= n * scale**2
    return x, np.cumsum(y)
''', '''    x, y, n = profile(input, bin, nbins, True, center, scale)
    invalid = ~np.isfinite(y)
    y[invalid] = 0
    y *= n * scale**2
    result = np.cumsum(y)
    return x, result
''')]),
    ('phasemask', 'datautils.py', [
        ('''    array[0 : shape[0] // 2, shape[1] // 2 :] = phase
    array[shape[0] // 2 :, 0 : shape[1] // 2] = phase
''', '''    ny2, nx2 = shape[0] // 2, shape[1] // 2
    array[:ny2, nx2:] = phase
    array[ny2:, :nx2] = phase
''')]),
    # ---------------------------------------------------------- mpiutils
    ('gather_check', 'mpiutils.py', [
        ('''def gather_fitsheader(header''', '''def _naxis(header):
    return str(header['NAXIS'])


def gather_fitsheader(header'''),
        ('''    naxis = str(header['NAXIS'])
    nlocal = header['NAXIS' + naxis]
    nglobal = combine(nlocal, comm=comm)
    s = split(nglobal, comm.size, comm.rank)
    header = header.copy()
    header['NAXIS' + naxis] = nglobal
    if 'CRPIX' + naxis in header:
        header['CRPIX' + naxis] += s.start
    return header
''', '''    naxis = _naxis(header)
    nglobal = combine(header[f'NAXIS{naxis}'], comm=comm)
    start = split(nglobal, comm.size, comm.rank).start
    out = header.copy()
    out[f'NAXIS{naxis}'] = nglobal
    key = f'CRPIX{naxis}'
    if key in out:
        out[key] = out[key] + start
    return out
''')]),
    ('gather_needed', 'mpiutils.py', [
        ('''    headers = comm.allgather(header)
    for keyword in required_same:
        if keyword not in header:
            continue
        values = [h[keyword] for h in headers]
        if any(v != headers[0][keyword] for v in values):
''', '''    headers = comm.allgather(header)
    for keyword in (k for k in required_same if k in header):
        values = [h[keyword] for h in headers]
        if any(h[keyword] != headers[0][keyword] for h in headers):
''')]),
    ('gather_needed2', 'mpiutils.py', [
        ('''    required_same = ['CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CDELT1', 'CDELT2']
    required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
    required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]
''', '''    required_same = ['CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CDELT1', 'CDELT2']
    required_same.extend(f'NAXIS{i}' for i in range(1, naxis))
    required_same.extend(f'CRPIX{i}' for i in range(1, naxis))
''')]),
    ('scatter_hdr', 'mpiutils.py', [
        ('''    s = split(nglobal, comm.size, comm.rank)
    header = header.copy()
    header['NAXIS' + axis] = s.stop - s.start
    if 'CRPIX' + axis in header:
        header['CRPIX' + axis] -= s.start
    return header
''', '''    header = header.copy()
    s = split(nglobal, comm.size, comm.rank)
    start, stop = s.start, s.stop
    if 'CRPIX' + axis in header:
        header['CRPIX' + axis] -= start
    header['NAXIS' + axis] = stop - start
    return header
''')]),
    ('distribute', 'mpiutils.py', [
        ('''    if ix >= nx_block:
        idetector = slice(0, 0)
        iobservation = slice(0, 0)
    else:
        idetector = slice(iy * yblocksize * nthreads, (iy + 1) * yblocksize * nthreads)
        iobservation = slice(ix * xblocksize, (ix + 1) * xblocksize)
''', '''    if ix < nx_block:
        n = yblocksize * nthreads
        idetector = slice(iy * n, (iy + 1) * n)
        iobservation = slice(ix * xblocksize, (ix + 1) * xblocksize)
    else:
        idetector = iobservation = slice(0, 0)
'''), ('''    detectors_.ravel()[igood[0 : idetector.start]] = True
    detectors_.ravel()[igood[idetector.stop :]] = True
    observations_ = observations[iobservation]

    return detectors_, observations_
''', '''    flat = detectors_.ravel()
    flat[igood[: idetector.start]] = True
    flat[igood[idetector.stop :]] = True

    return detectors_, observations[iobservation]
''')]),
    ('distribute2', 'mpiutils.py', [
        ('''            if blocksize / xblocksize != blocksize // xblocksize:
                continue
            yblocksize''', '''            if blocksize % xblocksize != 0:
                continue
            yblocksize''')]),
    ('write_same', 'mpiutils.py', [
        ('''    files = comm.allgather(filename.as_posix() + str(extname))
    all_equal = all(f == files[0] for f in files)
    if comm.size > 1 and not all_equal:
        raise ValueError('The file name is not the same for all MPI jobs.')
    ndims''', '''    files = comm.allgather(filename.as_posix() + str(extname))
    if comm.size > 1 and any(f != files[0] for f in files):
        raise ValueError('The file name is not the same for all MPI jobs.')
    ndims''')]),
    ('write_helper', 'mpiutils.py', [
        ('''def write_fits(filename''', '''def _write_local(filename, data, header, extension):
    if extension:
        pyfits.append(filename, data, header)
        return
    pyfits.PrimaryHDU(data, header).writeto(filename, overwrite=True)


def _pad(filename, data_loc, datasize):
    BLOCK_SIZE = 2880
    padding = (BLOCK_SIZE - datasize % BLOCK_SIZE) % BLOCK_SIZE
    with open(filename, 'a') as f:
        if f.tell() - data_loc != datasize:
            raise RuntimeError('Unexpected file size.')
        f.write(padding * '\\0')


def write_fits(filename'''),
        ('''        if not extension:
            hdu = pyfits.PrimaryHDU(data, header)
            hdu.writeto(filename, overwrite=True)
        else:
            pyfits.append(filename, data, header)
        return
''', '''        _write_local(filename, data, header, extension)
        return
''')]),
    ('write_pad', 'mpiutils.py', [
        ('''    if comm.rank == 0:
        datasize = nglobal * chunk * int(data.dtype.itemsize)
        BLOCK_SIZE = 2880
        padding = -datasize % BLOCK_SIZE
        with open(filename, 'a') as f:
            if f.tell() - data_loc != datasize:
                raise RuntimeError('Unexpected file size.')
            f.write(padding * '\\0')
''', '''    if comm.rank == 0:
        _pad(filename, data_loc, nglobal * chunk * int(data.dtype.itemsize))
'''),
        ('''def write_fits(filename''', '''def _pad(filename, data_loc, datasize):
    block_size = 2880
    padding = -datasize % block_size
    with open(filename, 'a') as f:
        size = f.tell() - data_loc
        if size != datasize:
            raise RuntimeError('Unexpected file size.')
        f.write('\\0' * padding)


def write_fits(filename''')]),
    ('read_helper', 'mpiutils.py', [
        ('''        if extname is not None:
            hdu = fits[extname]
        else:
            for hdu in fits:
                if hdu.header['NAXIS'] > 0 and hdu.data is not None:
                    break
            else:
                raise OSError('The FITS file has no data.')

        header''', '''        hdu = _find_hdu(fits, extname)
        header'''),
        ('''def read_fits(filename''', '''def _find_hdu(fits, extname):
    if extname is not None:
        return fits[extname]
    for hdu in fits:
        if hdu.header['NAXIS'] > 0 and hdu.data is not None:
            return hdu
    raise OSError('The FITS file has no data.')


def read_fits(filename''')]),
    ('write_rank', 'mpiutils.py', [
        ('''    if not extension:
        if comm.rank == 0:
            try:
                os.remove(filename)
            except OSError:
                pass
''', '''    if not extension and comm.rank == 0:
        try:
            os.remove(filename)
        except OSError:
            pass
''')]),
]
