R = [
    ('rect_helper', 'geometry.py', [
        ('def create_rectangle(', '''def _unit_square(dtype):
    return _np.asarray([[0.5, 0.5], [-0.5, 0.5], [-0.5, -0.5], [0.5, -0.5]], dtype)


def create_rectangle('''),
        ('''    out[...] = (
        _np.asarray([[0.5, 0.5], [-0.5, 0.5], [-0.5, -0.5], [0.5, -0.5]], dtype)
        * size[..., None, :]
    )
''', '''    out[...] = _unit_square(dtype) * size[..., None, :]
'''),
        ('''    out[...] = (
        _np.asarray([[0.5, 0.5], [-0.5, 0.5], [-0.5, -0.5], [0.5, -0.5]], dtype)
        * size[..., None, None]
    )
''', '''    out[...] = _unit_square(dtype) * size[..., None, None]
''')]),
    ('rect_const', 'geometry.py', [
        ('def create_rectangle(', '''_CORNERS = [[0.5, 0.5], [-0.5, 0.5], [-0.5, -0.5], [0.5, -0.5]]


def create_rectangle('''),
        ('''    out[...] = (
        _np.asarray([[0.5, 0.5], [-0.5, 0.5], [-0.5, -0.5], [0.5, -0.5]], dtype)
        * size[..., None, :]
    )
''', '''    corners = _np.asarray(_CORNERS, dtype)
    out[...] = corners * size[..., None, :]
''')]),
    ('square_via_finish', 'geometry.py', [
        ('def create_square(', '''def _finish(out, angle, center):
    if angle != 0:
        rotate(out, angle, out=out)
    out += center
    return out


def create_square('''),
        ('''        * size[..., None, None]
    )
    if angle != 0:
        rotate(out, angle, out=out)
    out += center
    return out
''', '''        * size[..., None, None]
    )
    return _finish(out, angle, center)
''')]),
    ('polygon_vars', 'geometry.py', [
        ('''    a = 2 * pi / n * _np.arange(n, dtype=dtype) + _np.radians(angle)
    out[...] = (
        radius[..., None, None] * _np.asarray([_np.cos(a), _np.sin(a)]).T
        + center[..., None, :]
    )
''', '''    angles = _np.radians(angle) + 2 * pi / n * _np.arange(n, dtype=dtype)
    unit = _np.asarray([_np.cos(angles), _np.sin(angles)]).T
    out[...] = center[..., None, :] + radius[..., None, None] * unit
''')]),
    ('segment_loop', 'geometry.py', [
        ('''    ds = [_np.hypot(c[0], c[1]) for c in _np.diff(vertices_, axis=0)]
    ns = [int(_np.ceil(d / max_distance)) for d in ds]
''', '''    ns = []
    for c in _np.diff(vertices_, axis=0):
        d = _np.hypot(c[0], c[1])
        ns.append(int(_np.ceil(d / max_distance)))
'''),
        ('''        alpha = _np.arange(n) / n
        coords[i : i + n, :] = _np.outer(1 - alpha, v0) + _np.outer(alpha, v1)
        i += n
''', '''        alpha = _np.arange(n) / n
        j = i + n
        coords[i:j, :] = _np.outer(1 - alpha, v0) + _np.outer(alpha, v1)
        i = j
''')]),
    ('segment_helper', 'geometry.py', [
        ('def segment_polygon(', '''def _segment(v0, v1, n):
    alpha = _np.arange(n) / n
    return _np.outer(1 - alpha, v0) + _np.outer(alpha, v1)


def segment_polygon('''),
        ('''        alpha = _np.arange(n) / n
        coords[i : i + n, :] = _np.outer(1 - alpha, v0) + _np.outer(alpha, v1)
''', '''        coords[i : i + n, :] = _segment(v0, v1, n)
''')]),
    ('segment_index', 'geometry.py', [
        ('''    for v0, v1, n in zip(vertices_[:-1], vertices_[1:], ns):
        alpha''', '''    for k in range(len(ns)):
        v0 = vertices_[k]
        v1 = vertices_[k + 1]
        n = ns[k]
        alpha''')]),
    ('rotate_early', 'geometry.py', [
        ('''    if (
        coords.dtype.char == 'd'
        and coords.flags.c_contiguous
        and out.flags.c_contiguous
    ):
        if isalias(coords, out):
            _flib.geometry.rotate_2d_inplace(out.reshape((-1, 2)).T, angle)
        else:
            _flib.geometry.rotate_2d(
                coords.reshape((-1, 2)).T, out.reshape((-1, 2)).T, angle
            )
        return out
''', '''    contiguous = coords.flags.c_contiguous and out.flags.c_contiguous
    if coords.dtype.char == 'd' and contiguous:
        out_ = out.reshape((-1, 2)).T
        if not isalias(coords, out):
            coords_ = coords.reshape((-1, 2)).T
            _flib.geometry.rotate_2d(coords_, out_, angle)
        else:
            _flib.geometry.rotate_2d_inplace(out_, angle)
        return out
''')]),
    ('rotate_matrix', 'geometry.py', [
        ('''    m = _np.asarray(
        [[_np.cos(angle), -_np.sin(angle)], [_np.sin(angle), _np.cos(angle)]],
        coords.dtype,
    )
''', '''    cos, sin = _np.cos(angle), _np.sin(angle)
    m = _np.asarray([[cos, -sin], [sin, cos]], dtype=coords.dtype)
''')]),
    ('surface', 'geometry.py', [
        ('''    if out.ndim == 0:
        out_ = out.reshape(1)
    else:
        out_ = out
    _flib.geometry.surface_simple_polygon(coords.T, out_.T)
    if out.ndim == 0:
        out = out[()]
    return out''', '''    scalar = out.ndim == 0
    out_ = out.reshape(1) if scalar else out
    _flib.geometry.surface_simple_polygon(coords.T, out_.T)
    return out[()] if scalar else out''')]),
    ('hull', 'geometry.py', [
        ('''    def arctan2(v):
        return (_np.arctan2(v[:, 1], v[:, 0]) + 2 * _np.pi) % (2 * _np.pi)

    ihull''', '''    ihull'''),
        ('''    hull = points[ihull, :]
    return hull[_np.argsort(arctan2(hull - hull.mean(axis=0))), :]
''', '''    hull = points[ihull, :]
    v = hull - hull.mean(axis=0)
    angles = (_np.arctan2(v[:, 1], v[:, 0]) + 2 * _np.pi) % (2 * _np.pi)
    order = _np.argsort(angles)
    return hull[order, :]
''')]),
    ('grid_kw', 'geometry.py', [
        ('''    if out is None:
        out = _np.empty(tuple(shape) + (2,))
    _flib.geometry.create_grid(
        spacing, xreflection, yreflection, angle, center[0], center[1], out.T
    )
    return out
''', '''    x0, y0 = center[0], center[1]
    if out is None:
        out = _np.empty((*shape, 2))
    _flib.geometry.create_grid(
        spacing, xreflection, yreflection, angle, x0, y0, out.T
    )
    return out
''')]),
    ('beam_np', 'beams.py', [
        ('''        if self.backward:
            theta = np.pi - theta
        coef = -0.5 / self.sigma**2
''', '''        theta = np.pi - theta if self.backward else theta
        coef = -1 / (2 * self.sigma**2)
''')]),
    ('beam_shape', 'beams.py', [
        ('''        coef = -0.5 / self.sigma**2
        out = ne''', '''        shape = np.broadcast(theta, phi).shape
        coef = -0.5 / self.sigma**2
        out = ne'''), ('''        )
        return reshape_broadcast(out, np.broadcast(theta, phi).shape)
''', '''        )
        return reshape_broadcast(out, shape)
''')]),
    ('beam_super', 'beams.py', [
        ('''        self.backward = bool(backward)
        Beam.__init__(self, 2 * np.pi * self.sigma**2)
''', '''        self.backward = bool(backward)
        super().__init__(2 * np.pi * self.sigma**2)
''')]),
    ('beam_half', 'beams.py', [
        ('''        out = 1.0
        return reshape_broadcast(out, np.broadcast(theta, phi).shape)
''', '''        shape = np.broadcast(theta, phi).shape
        return reshape_broadcast(1.0, shape)
''')]),
    ('beam_fwhm', 'beams.py', [
        ('''        self.fwhm = fwhm
        self.sigma = fwhm / np.sqrt(8 * np.log(2))
        self.backward = bool(backward)
''', '''        self.backward = bool(backward)
        self.fwhm = fwhm
        self.sigma = self.fwhm / np.sqrt(8 * np.log(2))
''')]),
    ('noise_fold', 'noises.py', [
        ('''    out[..., 0] = p[..., 0]
    np.multiply(p[..., 1 : n - 1], 2, out[..., 1:-1])
    out[..., -1] = p[..., n - 1]
    return out
''', '''    last = n - 1
    out[..., 0] = p[..., 0]
    out[..., -1] = p[..., last]
    np.multiply(p[..., 1:last], 2, out=out[..., 1:-1])
    return out
''')]),
    ('noise_psd', 'noises.py', [
        ('''    psd = sigma**2 * (1 + np.abs(fknee / frq) ** fslope) / sampling_frequency
    if not twosided:
        psd = _fold_psd(psd)
    return psd
''', '''    white = sigma**2 / sampling_frequency
    psd = white * (1 + np.abs(fknee / frq) ** fslope)
    if twosided:
        return psd
    return _fold_psd(psd)
''')]),
    ('noise_1f_helper', 'noises.py', [
        ('''    sigma = np.asarray(sigma)[..., None]
    fknee = np.asarray(fknee)[..., None]
    fslope = np.asarray(fslope)[..., None]
''', '''    sigma, fknee, fslope = (np.asarray(_)[..., None] for _ in (sigma, fknee, fslope))
''')]),
    ('noise_sample', 'noises.py', [
        ('''    spec = ftgauss * np.sqrt(psd)
    out[...] = fft.ifft(
        spec, planner_effort=fftw_flag, threads=nthreads
    ).real * np.sqrt(sampling_frequency)
    return out
''', '''    spec = np.sqrt(psd) * ftgauss
    keywords = {'planner_effort': fftw_flag, 'threads': nthreads}
    signal = fft.ifft(spec, **keywords).real
    out[...] = np.sqrt(sampling_frequency) * signal
    return out
''')]),
    ('noise_invntt', 'noises.py', [
        ('''    fsamp = bandwidth * fftsize
    psd = (1 / fsamp) / psd
    nthreads = multiprocessing.cpu_count()
    out = fft.fft(psd, axis=-1, planner_effort=fftw_flag, threads=nthreads)
    invntt = out[..., : ncorr + 1].real / fftsize
    return invntt
''', '''    inv_psd = (1 / (bandwidth * fftsize)) / psd
    out = fft.fft(
        inv_psd,
        axis=-1,
        planner_effort=fftw_flag,
        threads=multiprocessing.cpu_count(),
    )
    return out.real[..., : ncorr + 1] / fftsize
''')]),
    ('noise_interp', 'noises.py', [
        ('''    for iz, z_ in enumerate(z):
        while z_ > x2 and ix < x.size - 1:
            ix += 1
            x1 = x2
            x2 = x[ix]
        out[..., iz] = ((z_ - x1) * y[..., ix] + (x2 - z_) * y[..., ix - 1]) / (x2 - x1)
''', '''    last = x.size - 1
    for iz in range(z.size):
        z_ = z[iz]
        while ix < last and z_ > x2:
            ix = ix + 1
            x1, x2 = x2, x[ix]
        num = (z_ - x1) * y[..., ix] + (x2 - z_) * y[..., ix - 1]
        out[..., iz] = num / (x2 - x1)
''')]),
    ('noise_interp2', 'noises.py', [
        ('''    z = np.asarray(z)
    z = np.atleast_1d(z)
    ix = 1
    x1 = x[0]
    x2 = x[1]
''', '''    z = np.atleast_1d(z)
    ix = 1
    x1, x2 = x[0], x[1]
''')]),
    ('noise_loglog', 'noises.py', [
        ('''    _interp(
        np.log(f[1:]), np.log(frequency[1:-1]), np.log(psd[..., 1:-1]), out=out[..., 1:]
    )
    np.exp(out[..., 1:], out[..., 1:])
''', '''    tail = out[..., 1:]
    _interp(np.log(f[1:]), np.log(frequency[1:-1]), np.log(psd[..., 1:-1]), tail)
    np.exp(tail, tail)
''')]),
    ('noise_s2p', 'noises.py', [
        ('''    psd = (
        np.abs(fft.fft(sampling, axis=-1, planner_effort=fftw_flag, threads=nthreads))
        ** 2
    )
    freq''', '''    ft = fft.fft(sampling, axis=-1, planner_effort=fftw_flag, threads=nthreads)
    psd = np.abs(ft) ** 2
    freq''')]),
]
