"""Refactorings of wcsutils.py written by hand."""

F = 'wcsutils.py'
R = [
    ('w_angle', F, [("""    if all(_.ndim == 0 for _ in (lon1, lat1, lon2, lat2)):
        angle = angle[0]
    return angle
""", """    scalar = lon1.ndim == lat1.ndim == lon2.ndim == lat2.ndim == 0
    return angle[0] if scalar else angle
""")]),
    ('w_bary', F, [("""    lon = np.atleast_1d(np.asarray(lon, float)).ravel()
    lat = np.atleast_1d(np.asarray(lat, float)).ravel()
    return flib.wcsutils.barycenter_lonlat(lon, lat)
""", """    coords = [np.atleast_1d(np.asarray(x, dtype=float)).ravel() for x in (lon, lat)]
    return flib.wcsutils.barycenter_lonlat(*coords)
""")]),
    ('w_bary2', F, [("""    lon = np.atleast_1d(np.asarray(lon, float)).ravel()
    lat = np.atleast_1d(np.asarray(lat, float)).ravel()
    return flib.wcsutils.barycenter_lonlat(lon, lat)
""", """    return flib.wcsutils.barycenter_lonlat(_as_1d(lon), _as_1d(lat))


def _as_1d(x):
    x = np.asarray(x, float)
    return np.atleast_1d(x).ravel()
""")]),
    ('w_comb_crval', F, [("""    crval = barycenter_lonlat(
        [h['CRVAL1'] for h in headers], [h['CRVAL2'] for h in headers]
    )
""", """    lon, lat = [], []
    for h in headers:
        lon.append(h['CRVAL1'])
        lat.append(h['CRVAL2'])
    crval = barycenter_lonlat(lon, lat)
""")]),
    ('w_comb_cdelt', F, [("""    if cdelt is None or pa is None:
        cdeltpa = [get_cdelt_pa(h) for h in headers]
    if cdelt is None:
        cdelt = min(np.min(abs(cdelt_)) for cdelt_, pa_ in cdeltpa)
    if pa is None:
        pa = flib.wcsutils.mean_degrees(np.array([pa_ for cdelt_, pa_ in cdeltpa]))
""", """    if cdelt is None:
        cdelt = min(np.min(abs(get_cdelt_pa(h)[0])) for h in headers)
    if pa is None:
        pa = flib.wcsutils.mean_degrees(np.array([get_cdelt_pa(h)[1] for h in headers]))
""")]),
    ('w_comb_mean', F, [("""        pa = flib.wcsutils.mean_degrees(np.array([pa_ for cdelt_, pa_ in cdeltpa]))
""", """        pa = mean_degrees([pa_ for _, pa_ in cdeltpa])
""")]),
    ('w_comb_bounds', F, [("""    xmin0 = np.round(min(min(c[0]) for c in xy0))
    xmax0 = np.round(max(max(c[0]) for c in xy0))
    ymin0 = np.round(min(min(c[1]) for c in xy0))
    ymax0 = np.round(max(max(c[1]) for c in xy0))
    header0['NAXIS1'] = int(xmax0 - xmin0 + 1)
    header0['NAXIS2'] = int(ymax0 - ymin0 + 1)
    header0['CRPIX1'] = 2 - xmin0
    header0['CRPIX2'] = 2 - ymin0
    return header0
""", """    for axis in range(2):
        vmin = np.round(min(min(c[axis]) for c in xy0))
        vmax = np.round(max(max(c[axis]) for c in xy0))
        header0[f'NAXIS{axis + 1}'] = int(vmax - vmin + 1)
        header0[f'CRPIX{axis + 1}'] = 2 - vmin
    return header0
""")]),
    ('w_comb_bounds2', F, [("""    xmin0 = np.round(min(min(c[0]) for c in xy0))
    xmax0 = np.round(max(max(c[0]) for c in xy0))
    ymin0 = np.round(min(min(c[1]) for c in xy0))
    ymax0 = np.round(max(max(c[1]) for c in xy0))
    header0['NAXIS1']""", """    def bounds(i):
        vmin = min(min(c[i]) for c in xy0)
        vmax = max(max(c[i]) for c in xy0)
        return np.round(vmin), np.round(vmax)

    xmin0, xmax0 = bounds(0)
    ymin0, ymax0 = bounds(1)
    header0['NAXIS1']""")]),
    ('w_comb_edges', F, [("""        edges = p.wcs_pix2world(
            [0.5, x, nx + 0.5, 0.5, x, nx + 0.5, 0.5, x, nx + 0.5],
            [0.5, 0.5, 0.5, y, y, y, ny + 0.5, ny + 0.5, ny + 0.5],
            1,
        )
        xy0.append(proj0.wcs_world2pix(edges[0], edges[1], 1))
""", """        xs = 3 * [0.5, x, nx + 0.5]
        ys = 3 * [0.5] + 3 * [y] + 3 * [ny + 0.5]
        lon, lat = p.wcs_pix2world(xs, ys, 1)
        xy0.append(proj0.wcs_world2pix(lon, lat, 1))
""")]),
    ('w_comb_list', F, [("""    xy0 = []
    for h in headers:
        p = WCS(h)
        nx = h['NAXIS1']
        ny = h['NAXIS2']
        x = h['CRPIX1']
        y = h['CRPIX2']
        edges = p.wcs_pix2world(
            [0.5, x, nx + 0.5, 0.5, x, nx + 0.5, 0.5, x, nx + 0.5],
            [0.5, 0.5, 0.5, y, y, y, ny + 0.5, ny + 0.5, ny + 0.5],
            1,
        )
        xy0.append(proj0.wcs_world2pix(edges[0], edges[1], 1))
""", """    def project_edges(h):
        p = WCS(h)
        nx, ny = h['NAXIS1'], h['NAXIS2']
        x, y = h['CRPIX1'], h['CRPIX2']
        edges = p.wcs_pix2world(
            [0.5, x, nx + 0.5, 0.5, x, nx + 0.5, 0.5, x, nx + 0.5],
            [0.5, 0.5, 0.5, y, y, y, ny + 0.5, ny + 0.5, ny + 0.5],
            1,
        )
        return proj0.wcs_world2pix(edges[0], edges[1], 1)

    xy0 = [project_edges(h) for h in headers]
""")]),
    ('w_create_args', F, [("""    if naxes is not None and fromdata is not None or naxes is None and fromdata is None:
        raise""", """    if (naxes is None) == (fromdata is None):
        raise""")]),
    ('w_create_type', F, [("""        if dtype is not None:
            dtype = np.dtype(dtype)
            typename = dtype.name
        else:
            typename = 'float64'
""", """        typename = 'float64' if dtype is None else np.dtype(dtype).name
""")]),
    ('w_create_type2', F, [("""        if array.dtype.itemsize == 1:
            typename = 'uint8'
        elif array.dtype.names is not None:
            typename = None
        else:
            typename = array.dtype.name
""", """        typename = _get_typename(array.dtype)
"""), ("""def create_fitsheader_for(""", """def _get_typename(dtype):
    if dtype.itemsize == 1:
        return 'uint8'
    if dtype.names is None:
        return dtype.name
    return None


def create_fitsheader_for(""")]),
    ('w_create_naxis', F, [("""    for dim in range(numaxis):
        header['naxis' + str(dim + 1)] = naxes[dim]
""", """    for dim, naxis in enumerate(naxes, 1):
        header[f'naxis{dim}'] = naxis
""")]),
    ('w_create_cd', F, [("""    if cd is not None:
        cd = np.asarray(cd, dtype=float)
        if cd.shape != (2, 2):
            raise ValueError('The CD matrix is not a 2x2 matrix.')
    else:
        if cdelt is None:
            return header
        cdelt = np.array(cdelt, float)
""", """    if cd is None and cdelt is None:
        return header

    if cd is not None:
        cd = np.asarray(cd, dtype=float)
        if cd.shape != (2, 2):
            raise ValueError('The CD matrix is not a 2x2 matrix.')
    else:
        cdelt = np.array(cdelt, float)
""")]),
    ('w_create_cdelt', F, [("""            if (
                ctype is None
                or len(ctype) == 2
                and ctype[0] == 'RA---TAN'
                and ctype[1] == 'DEC--TAN'
            ):
                cdelt = (-cdelt, cdelt)
            else:
                cdelt = (cdelt, cdelt)
        if pa is None:
            pa = 0.0
        theta = np.deg2rad(-pa)
        cd = np.diag(cdelt).dot(
            np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
        )
""", """            is_radec = (
                ctype is None
                or len(ctype) == 2
                and ctype[0] == 'RA---TAN'
                and ctype[1] == 'DEC--TAN'
            )
            cdelt = (-cdelt if is_radec else cdelt, cdelt)
        theta = np.deg2rad(-(0.0 if pa is None else pa))
        c, s = np.cos(theta), np.sin(theta)
        cd = np.dot(np.diag(cdelt), np.array([[c, s], [-s, c]]))
""")]),
    ('w_create_cd_kw', F, [("""    header['crval1'] = crval[0]
    header['crval2'] = crval[1]
    header['crpix1'] = crpix[0]
    header['crpix2'] = crpix[1]
    header['cd1_1'] = cd[0, 0]
    header['cd2_1'] = cd[1, 0]
    header['cd1_2'] = cd[0, 1]
    header['cd2_2'] = cd[1, 1]
    header['ctype1'] = ctype[0]
    header['ctype2'] = ctype[1]
    header['cunit1'] = cunit[0]
    header['cunit2'] = cunit[1]
""", """    header['crval1'], header['crval2'] = crval[0], crval[1]
    header['crpix1'], header['crpix2'] = crpix[0], crpix[1]
    for i in range(2):
        for j in range(2):
            header[f'cd{j + 1}_{i + 1}'] = cd[j, i]
    for keyword, values in ('ctype', ctype), ('cunit', cunit):
        for i in range(2):
            header[f'{keyword}{i + 1}'] = values[i]
""")]),
    ('w_create_crpix', F, [("""    if crpix is None:
        crpix = (np.array(naxes) + 1) / 2
    else:
        crpix = np.asarray(crpix, float)
    if crpix.size != 2:
""", """    crpix = (
        np.asarray(crpix, float) if crpix is not None else 0.5 * (np.array(naxes) + 1)
    )
    if not crpix.size == 2:
""")]),
    ('w_for', F, [("""    if data is None:
        naxes = ()
        dtype = np.int32
    else:
        data = np.array(data, ndmin=1)
        naxes = data.shape[::-1]
        if data.dtype.itemsize == 1:
            data = data.view('uint8')
        dtype = data.dtype
""", """    naxes, dtype = (), np.int32
    if data is not None:
        data = np.array(data, ndmin=1)
        if data.dtype.itemsize == 1:
            data = data.view(np.uint8)
        naxes, dtype = data.shape[::-1], data.dtype
""")]),
    ('w_for_kw', F, [("""    return create_fitsheader(
        naxes,
        dtype=dtype,
        extname=extname,
        crval=crval,
        crpix=crpix,
        ctype=ctype,
        cunit=cunit,
        cd=cd,
        cdelt=cdelt,
        pa=pa,
        radesys=radesys,
        equinox=equinox,
    )
""", """    astrometry = dict(crval=crval, crpix=crpix, ctype=ctype, cunit=cunit, cd=cd,
                      cdelt=cdelt, pa=pa, radesys=radesys, equinox=equinox)
    return create_fitsheader(naxes, dtype=dtype, extname=extname, **astrometry)
""")]),
    ('w_shape', F, [("""    ndim = header['NAXIS']
    return tuple(header[f'NAXIS{i}'] for i in range(ndim, 0, -1))
""", """    naxes = [header['NAXIS' + str(i + 1)] for i in range(header['NAXIS'])]
    return tuple(naxes[::-1])
""")]),
    ('w_shape2', F, [("""    return tuple(header[f'NAXIS{i}'] for i in range(ndim, 0, -1))
""", """    return tuple(header[f'NAXIS{ndim - i}'] for i in range(ndim))
""")]),
    ('w_cdelt', F, [("""    det = np.linalg.det(cd)
    sgn = det / np.abs(det)
    cdelt = np.array(
        [
            sgn * np.sqrt(cd[0, 0] ** 2 + cd[0, 1] ** 2),
            np.sqrt(cd[1, 1] ** 2 + cd[1, 0] ** 2),
        ]
    )
    pa = -np.arctan2(-cd[1, 0], cd[1, 1])
    return cdelt, np.rad2deg(pa)
""", """    det = np.linalg.det(cd)
    cdelt1 = det / abs(det) * np.sqrt(cd[0, 0] ** 2 + cd[0, 1] ** 2)
    cdelt2 = np.sqrt(cd[1, 0] ** 2 + cd[1, 1] ** 2)
    pa = np.arctan2(-cd[1, 0], cd[1, 1])
    return np.array([cdelt1, cdelt2]), -np.degrees(pa)
""")]),
    ('w_cdelt_key', F, [("""        if any(k not in header for k in ('CDELT1', 'CDELT2', 'CROTA2')):
            raise KeyError('Header has no astrometry.')
        return""", """        for k in 'CDELT1', 'CDELT2', 'CROTA2':
            if k not in header:
                raise KeyError('Header has no astrometry.')
        return""")]),
    ('w_has', F, [("""    required = 'CRPIX,CRVAL,CTYPE'.split(',')
    keywords = np.concatenate(
        [
            (lambda i: [r + str(i + 1) for r in required])(i)
            for i in range(header['NAXIS'])
        ]
    )
    return all([k in header for k in keywords])
""", """    required = 'CRPIX', 'CRVAL', 'CTYPE'
    for i in range(1, header['NAXIS'] + 1):
        for name in required:
            if f'{name}{i}' not in header:
                return False
    return True
""")]),
    ('w_has2', F, [("""    if header['NAXIS'] == 0:
        return False
    required = 'CRPIX,CRVAL,CTYPE'.split(',')
    keywords = np.concatenate(
        [
            (lambda i: [r + str(i + 1) for r in required])(i)
            for i in range(header['NAXIS'])
        ]
    )
    return all([k in header for k in keywords])
""", """    naxis = header['NAXIS']
    if naxis == 0:
        return False
    required = ['CRPIX', 'CRVAL', 'CTYPE']
    return all(r + str(i + 1) in header for i in range(naxis) for r in required)
""")]),
    ('w_str2', F, [("""    iline = 0
    while iline * 80 < len(string):
        line = string[iline * 80 : (iline + 1) * 80]
        if line[0:8].rstrip() == 'END':
            break
        header.append(pyfits.Card.fromstring(line), end=True)
        iline += 1
    return header
""", """    for start in range(0, len(string), 80):
        line = string[start : start + 80]
        if line[:8].rstrip() == 'END':
            break
        header.append(pyfits.Card.fromstring(line), end=True)
    return header
""")]),
    ('w_distort', F, [("""        output[..., 0] = self.interp0(input)
        output[..., 1] = self.interp1(input)
""", """        for i, interp_ in enumerate((self.interp0, self.interp1)):
            output[..., i] = interp_(input)
""")]),
    ('w_distort_init', F, [("""        self.interp0 = interp.CloughTocher2DInterpolator(xin, xout[..., 0])
        self.interp1 = interp.CloughTocher2DInterpolator(xin, xout[..., 1])
""", """        self.interp0, self.interp1 = (
            interp.CloughTocher2DInterpolator(xin, xout[..., i]) for i in range(2)
        )
""")]),
    ('w_boresight', F, [("""        s = (Ellipsis,) + (x.ndim - 1) * (None,)
        ra = self.pointing[s].ra
        dec = self.pointing[s].dec
        pa = np.deg2rad(self.pointing[s].pa)
        cospa = np.cos(pa) / 3600
        sinpa = np.sin(pa) / 3600
        out[..., 1] = dec + (-x[..., 0] * sinpa + x[..., 1] * cospa)
        out[..., 0] = ra + (x[..., 0] * cospa + x[..., 1] * sinpa) / np.cos(
            np.deg2rad(out[..., 1])
        )
""", """        pointing = self.pointing[(...,) + (x.ndim - 1) * (None,)]
        pa = np.radians(pointing.pa)
        c, s = np.cos(pa) / 3600, np.sin(pa) / 3600
        x0, x1 = x[..., 0], x[..., 1]
        dec = pointing.dec + (x1 * c - x0 * s)
        out[..., 1] = dec
        out[..., 0] = pointing.ra + (x0 * c + x1 * s) / np.cos(np.deg2rad(out[..., 1]))
""")]),
    ('w_kap', F, [("""        if 'dtype' not in keywords:
            keywords['dtype'] = float
        wcs.allow_invalid = True
        Operator.__init__(self, **keywords)
        self.wcs = wcs
""", """        wcs.allow_invalid = True
        keywords.setdefault('dtype', float)
        Operator.__init__(self, **keywords)
        self.wcs = wcs
""")]),
    ('w_wcs_dtype', F, [("""        if not isinstance(wcs, astropy.wcs.WCS):
            wcs = astropy.wcs.WCS(wcs)
        if 'dtype' not in keywords:
            keywords['dtype'] = float
        Operator.__init__(self, **keywords)
        self.wcs = wcs
        self.origin = origin
""", """        keywords.setdefault('dtype', float)
        Operator.__init__(self, **keywords)
        self.wcs = wcs if isinstance(wcs, astropy.wcs.WCS) else astropy.wcs.WCS(wcs)
        self.origin = origin
""")]),
    ('w_topix', F, [("""        if ASTROPY_WCS_NDIM_IS_2:
            input = input.reshape((-1, 2))
            output = output.reshape((-1, 2))
        operation(output, self.wcs.wcs_world2pix(input, self.origin))
""", """        if ASTROPY_WCS_NDIM_IS_2:
            input, output = (_.reshape(-1, 2) for _ in (input, output))
        pixel = self.wcs.wcs_world2pix(input, self.origin)
        operation(output, pixel)
""")]),
    ('w_validate', F, [("""        _WCSOperator.__init__(
            self, wcs, origin, classin=np.ndarray, classout=np.ndarray, **keywords
        )
        self.set_rule('I', lambda s: WCSToWorldOperator(s.wcs, s.origin))
""", """        super().__init__(
            wcs, origin=origin, classin=np.ndarray, classout=np.ndarray, **keywords
        )
        self.set_rule('I', lambda s: WCSToWorldOperator(s.wcs, origin=s.origin))
""")]),
]
