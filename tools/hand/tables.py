L = 'packedtables/layouts.py'
G = 'packedtables/samplings.py'
C = 'packedtables/scenes.py'
R = [
    ('l_init', L, [('''        if hasattr(self, 'vertex') and 'vertex' not in keywords:
            keywords['vertex'] = None
        if hasattr(self, 'center') and 'center' not in keywords:
            keywords['center'] = None
''', '''        for name in ('vertex', 'center'):
            if hasattr(self, name):
                keywords.setdefault(name, None)
''')]),
    ('l_init2', L, [('''        if 'center' not in keywords and 'vertex' in keywords:
            keywords['center'] = lambda s: np.mean(s.vertex, axis=-2)
        if 'center' not in keywords:
            raise ValueError('The spatial layout is not defined.')
''', '''        if 'center' not in keywords:
            if 'vertex' not in keywords:
                raise ValueError('The spatial layout is not defined.')
            keywords['center'] = lambda s: s.vertex.mean(axis=-2)
''')]),
    ('l_init3', L, [('''            keywords['center'] = lambda s: np.mean(s.vertex, axis=-2)
''', '''            keywords['center'] = _center_from_vertex
'''), ('''class Layout(PackedTable):
''', '''def _center_from_vertex(layout):
    return np.mean(layout.vertex, axis=-2)


class Layout(PackedTable):
''')]),
    ('l_super', L, [('''        PackedTable.__init__(self, shape, **keywords)
        if hasattr(self, 'vertex'):
''', '''        super().__init__(shape, **keywords)
        if hasattr(self, 'vertex'):
''')]),
    ('l_plot', L, [('''        if hasattr(self, 'vertex'):
            coords = self.vertex[..., :2]
        elif hasattr(self, 'radius'):
            coords = create_circle(self.radius, center=self.center[..., :2])
        else:
            coords = self.center[..., :2]
''', '''        coords = self._get_plot_coordinates()
'''), ('''    def plot(
        self,
        autoscale=True,
''', '''    def _get_plot_coordinates(self):
        if hasattr(self, 'vertex'):
            return self.vertex[..., :2]
        if hasattr(self, 'radius'):
            return create_circle(self.radius, center=self.center[..., :2])
        return self.center[..., :2]

    def plot(
        self,
        autoscale=True,
''')]),
    ('l_plot2', L, [('''            if 'color' not in keywords:
                keywords['color'] = 'black'
            if 'marker' not in keywords:
                keywords['marker'] = 'o'
            if 'linestyle' not in keywords:
                keywords['linestyle'] = ''
            mp.plot(
                coords[:, 0],
                coords[:, 1],
                scalex=autoscale,
                scaley=autoscale,
                **keywords,
            )
''', '''            keywords = {'color': 'black', 'marker': 'o', 'linestyle': '', **keywords}
            x, y = coords[:, 0], coords[:, 1]
            mp.plot(x, y, scalex=autoscale, scaley=autoscale, **keywords)
''')]),
    ('g_check', L, [('''        if len(shape) != 2:
            raise ValueError('The layout grid is not 2-dimensional.')
        if len(origin) != len(shape):
            raise ValueError('Invalid dimensions of the layout center.')
''', '''        if len(shape) != 2:
            raise ValueError('The layout grid is not 2-dimensional.')
        if len(origin) != 2:
            raise ValueError('Invalid dimensions of the layout center.')
''')]),
    ('g_unit', L, [('''        unit = (
            getattr(spacing, 'unit', '')
            or getattr(origin, 'unit', '')
            or 'radius' in keywords
            and getattr(keywords['radius'], 'unit', '')
        )
''', '''        unit = getattr(spacing, 'unit', '')
        if not unit:
            unit = getattr(origin, 'unit', '')
        if not unit:
            unit = 'radius' in keywords and getattr(keywords['radius'], 'unit', '')
''')]),
    ('g_unit2', L, [('''        if unit:
            spacing = Quantity(spacing).tounit(unit)
            origin = Quantity(origin).tounit(unit)
            if 'radius' in keywords:
                keywords['radius'] = Quantity(keywords['radius']).tounit(unit)
        if 'vertex' not in keywords:
''', '''        has_unit = bool(unit)
        if has_unit:
            spacing, origin = (Quantity(_).tounit(unit) for _ in (spacing, origin))
            if 'radius' in keywords:
                radius = Quantity(keywords['radius'])
                keywords['radius'] = radius.tounit(unit)
        if 'vertex' not in keywords:
''')]),
    ('g_unit3', L, [('''            if 'center' in keywords:
                keywords['center'] = Quantity(keywords['center'], unit, copy=False)
            if 'vertex' in keywords:
                keywords['vertex'] = Quantity(keywords['vertex'], unit, copy=False)
''', '''            for key in ('center', 'vertex'):
                if key in keywords:
                    keywords[key] = Quantity(keywords[key], unit, copy=False)
''')]),
    ('g_z', L, [('''            if _z is not None:
                center = np.concatenate([center, np.full_like(center[..., :1], _z)], -1)
            keywords['center'] = center
''', '''            if _z is None:
                keywords['center'] = center
            else:
                z = np.full_like(center[..., :1], _z)
                keywords['center'] = np.concatenate([center, z], axis=-1)
''')]),
    ('g_order', L, [('''        self.spacing = spacing
        self.origin = origin
        self.xreflection = xreflection
        self.yreflection = yreflection
        self.angle = angle
        self.startswith1 = startswith1
        self.unit = unit
''', '''        self.unit = unit
        self.angle = angle
        self.xreflection, self.yreflection = xreflection, yreflection
        self.spacing, self.origin = spacing, origin
        self.startswith1 = startswith1
''')]),
    ('g_column', L, [('''    def column(self):
        return self.index % self.shape[1] + self.startswith1

    def row(self):
        return self.index // self.shape[1] + self.startswith1
''', '''    def column(self):
        ncolumns = self.shape[1]
        return self.startswith1 + self.index % ncolumns

    def row(self):
        _, ncolumns = self.shape
        return self.startswith1 + self.index // ncolumns
''')]),
    ('g_column2', L, [('''        return self.index % self.shape[1] + self.startswith1
''', '''        return np.mod(self.index, self.shape[1]) + self.startswith1
''')]),
    ('sq', L, [('''        unit = getattr(spacing, 'unit', '') or getattr(origin, 'unit', '')
        if unit:
            spacing = Quantity(spacing).tounit(unit)
            origin = Quantity(origin).tounit(unit)
        vertex = create_grid_squares(
            shape,
            spacing,
            filling_factor=filling_factor,
            xreflection=xreflection,
            yreflection=yreflection,
            center=origin,
            angle=angle,
        )
        if unit:
            vertex = Quantity(vertex, unit, copy=False)
''', '''        unit = getattr(spacing, 'unit', '') or getattr(origin, 'unit', '')
        if unit:
            spacing = Quantity(spacing).tounit(unit)
            origin = Quantity(origin).tounit(unit)
        vertex = create_grid_squares(
            shape, spacing, None, filling_factor, xreflection, yreflection, origin, angle
        )
        if unit:
            vertex = Quantity(vertex, unit=unit, copy=False)
''')]),
    ('s_init', G, [('''        if date_obs is None:
            date_obs = self.DEFAULT_DATE_OBS
        if isinstance(date_obs, str):
            # XXX astropy.time bug needs []
            date_obs = Time([date_obs], scale='utc')
        elif not isinstance(date_obs, Time):
            raise TypeError('The observation start date is invalid.')
        elif date_obs.is_scalar:  # work around astropy.time bug
            date_obs = Time([str(date_obs)], scale='utc')
''', '''        date_obs = self._normalize_date(date_obs)
'''), ('''    def time(self):
        return self.index * self.period
''', '''    @classmethod
    def _normalize_date(cls, date):
        if date is None:
            date = cls.DEFAULT_DATE_OBS
        if isinstance(date, str):
            return Time([date], scale='utc')
        if not isinstance(date, Time):
            raise TypeError('The observation start date is invalid.')
        if date.is_scalar:
            return Time([str(date)], scale='utc')
        return date

    def time(self):
        return self.index * self.period
''')]),
    ('s_period', G, [('''        if period is None:
            time = keywords.get('time')
            if time is not None and not callable(time) and np.size(time) > 1:
                period = np.median(np.diff(time))
            else:
                period = self.DEFAULT_PERIOD
        masked = keywords.pop('masked', False)
        time = keywords.pop('time', None)
''', '''        masked = keywords.pop('masked', False)
        time = keywords.pop('time', None)
        if period is None:
            if time is None or callable(time) or np.size(time) <= 1:
                period = self.DEFAULT_PERIOD
            else:
                period = np.median(np.diff(time))
''')]),
    ('s_time', G, [('''        return self.index * self.period
''', '''        return self.period * self.index
''')]),
    ('s_names', G, [('''            if (
                names[0] in keywords
                and names[1] not in keywords
                or names[1] in keywords
                and names[0] not in keywords
            ):
                raise ValueError('The pointing is not specified.')
''', '''            if (names[0] in keywords) != (names[1] in keywords):
                raise ValueError('The pointing is not specified.')
''')]),
    ('s_names2', G, [('''            if names[0] not in keywords:
                keywords[names[0]] = None
            if names[1] not in keywords:
                keywords[names[1]] = None
            if names[2] not in keywords:
                keywords[names[2]] = 0
        elif len(args) <= 3:
            keywords[names[0]] = args[0]
            keywords[names[1]] = args[1]
            keywords[names[2]] = args[2] if len(args) == 3 else 0
''', '''            for name, default in zip(names, (None, None, 0)):
                if name not in keywords:
                    keywords[name] = default
        elif len(args) <= 3:
            keywords[names[0]], keywords[names[1]] = args[:2]
            keywords[names[2]] = 0 if len(args) == 2 else args[2]
''')]),
    ('s_shape', G, [('''            shape = np.broadcast(
                *([keywords[_] for _ in names] + [keywords.get('time', None)])
            ).shape
''', '''            values = [keywords[_] for _ in names]
            values.append(keywords.get('time'))
            shape = np.broadcast(*values).shape
''')]),
    ('s_shape2', G, [('''        if len(shape) == 0:
            shape = (1,)
        elif len(shape) != 1:
            raise ValueError('Invalid dimension for the pointing.')
''', '''        if not shape:
            shape = (1,)
        if len(shape) > 1:
            raise ValueError('Invalid dimension for the pointing.')
''')]),
    ('s_spherical', G, [('''        return np.array([getattr(self, self.names[0]), getattr(self, self.names[1])]).T
''', '''        first, second = (getattr(self, name) for name in self.names[:2])
        return np.array([first, second]).T
''')]),
    ('s_center', G, [('''        if isscalarlike(self.masked) and self.masked:
            n = 0
            coords = np.zeros((1, 3))
        else:
            coords = self.cartesian
            if not isscalarlike(self.masked):
                valid = 1 - self.masked
                coords = coords * valid[:, None]
                n = np.sum(valid)
            else:
                n = len(self)
        n = np.asarray(n)
''', '''        masked = self.masked
        if not isscalarlike(masked):
            valid = 1 - masked
            coords = self.cartesian * valid[:, np.newaxis]
            n = valid.sum()
        elif masked:
            coords = np.zeros((1, 3))
            n = 0
        else:
            coords = self.cartesian
            n = len(self)
        n = np.asarray(n)
''')]),
    ('s_center2', G, [('''        center = np.sum(coords, axis=0)
        self.comm.Allreduce(MPI.IN_PLACE, as_mpi(n))
        self.comm.Allreduce(MPI.IN_PLACE, as_mpi(center))
        if n == 0:
            raise ValueError('There is no valid pointing.')
        center /= n
        return self.cartesian2spherical(center)
''', '''        center = coords.sum(axis=0)
        for buffer in n, center:
            self.comm.Allreduce(MPI.IN_PLACE, as_mpi(buffer))
        if n == 0:
            raise ValueError('There is no valid pointing.')
        return self.cartesian2spherical(center / n)
''')]),
    ('s_hor', G, [('''        latitude = keywords.pop('latitude', None)
        if latitude is None:
            latitude = self.DEFAULT_LATITUDE
            if latitude is None:
                raise ValueError('The reference latitude is not specified.')
        self.latitude = latitude
''', '''        latitude = keywords.pop('latitude', None)
        if latitude is None:
            if self.DEFAULT_LATITUDE is None:
                raise ValueError('The reference latitude is not specified.')
            latitude = self.DEFAULT_LATITUDE
        self.latitude = latitude
''')]),
    ('s_hor2', G, [('''        time = self.date_obs + TimeDelta(self.time, format='sec')
        h2e = SphericalHorizontal2EquatorialOperator(
            'NE', time, self.latitude, self.longitude, degrees=True
        )
        return h2e(self.spherical, preserve_input=False)
''', '''        return self._get_h2e()(self.spherical, preserve_input=False)
'''), ('''        time = self.date_obs + TimeDelta(self.time, format='sec')
        h2e = SphericalHorizontal2EquatorialOperator(
            'NE', time, self.latitude, self.longitude, degrees=True
        )
        e2g = SphericalEquatorial2GalacticOperator(degrees=True)
''', '''        h2e = self._get_h2e()
        e2g = SphericalEquatorial2GalacticOperator(degrees=True)
'''), ('''class _SamplingEquatorialScan(''', '''    def _get_h2e(self):
        time = self.date_obs + TimeDelta(self.time, format='sec')
        return SphericalHorizontal2EquatorialOperator(
            'NE', time, self.latitude, self.longitude, degrees=True
        )


class _SamplingEquatorialScan(''')]),
    ('s_vel', G, [('''        op = NormalizeOperator() * DifferenceOperator(axis=-2) / self.period
        velocity = Quantity(op(self.cartesian), 'rad/s')
        return velocity.tounit(self.DEFAULT_VELOCITY_UNIT)
''', '''        operator = NormalizeOperator() * DifferenceOperator(axis=-2) / self.period
        return Quantity(operator(self.cartesian), 'rad/s').tounit(
            self.DEFAULT_VELOCITY_UNIT
        )
''')]),
    ('s_eq', G, [('''        SamplingSpherical.__init__(
            self,
            degrees=True,
            names=('ra', 'dec', 'pa'),
            galactic=None,
            *args,
            **keywords,
        )
''', '''        super().__init__(
            *args, degrees=True, names=('ra', 'dec', 'pa'), galactic=None, **keywords
        )
''')]),
    ('s_scan', G, [('''        SamplingEquatorial.__init__(
            self, info=keywords.pop('info', 0), *args, **keywords
        )
''', '''        info = keywords.pop('info', 0)
        SamplingEquatorial.__init__(self, *args, info=info, **keywords)
''')]),
    ('c_topixel', C, [('''        if topixel is None:
            topixel = IdentityOperator(self.shape[: self.ndim])
        else:
            topixel = asoperator(topixel)
        self.dtype = np.dtype(dtype)
        self.topixel = topixel
        self.toworld = topixel.I
        for k, v in keywords.items():
            setattr(self, k, v)
''', '''        self.dtype = np.dtype(dtype)
        if topixel is not None:
            self.topixel = asoperator(topixel)
        else:
            self.topixel = IdentityOperator(self.shape[: self.ndim])
        self.toworld = self.topixel.I
        for k in keywords:
            setattr(self, k, keywords[k])
''')]),
    ('c_ones', C, [('''        out = self.empty()
        out[...] = 1
        return out
''', '''        return self._full(1)
'''), ('''        out = self.empty()
        out[...] = 0
        return out
''', '''        return self._full(0)

    def _full(self, value):
        out = self.empty()
        out[...] = value
        return out
''')]),
    ('c_fill', C, [('''        out[...] = 0
''', '''        out.fill(0)
''')]),
    ('c_origin', C, [('''        origins = 'upper', 'lower'
        if not isinstance(origin, str):
            raise TypeError('Invalid origin.')
        origin = origin.lower()
        if origin not in origins:
''', '''        if not isinstance(origin, str):
            raise TypeError('Invalid origin.')
        origins = ('upper', 'lower')
        origin = origin.lower()
        if not any(origin == _ for _ in origins):
''')]),
    ('c_to1d', C, [('''        if to1d is not None:
            to1d = asoperator(to1d)
            self.toNd = to1d.I
        else:
            self.toNd = None
        self.to1d = to1d
''', '''        self.to1d = None if to1d is None else asoperator(to1d)
        self.toNd = None if to1d is None else self.to1d.I
''')]),
    ('c_fits', C, [('''        shape = fitsheader2shape(header)
        topixel = WCSToPixelOperator(header)
        to1d = To1dOperator(shape[::-1], order='f')
        scene = cls(shape, topixel, to1d, origin='lower', **keywords)
        scene.header = header
        return scene
''', '''        shape = fitsheader2shape(header)
        scene = cls(
            shape,
            topixel=WCSToPixelOperator(header),
            to1d=To1dOperator(shape[::-1], order='f'),
            origin='lower',
            **keywords,
        )
        scene.header = header
        return scene
''')]),
    ('c_dtype', C, [('''        if dtype_index is None:
            if len(self) <= np.iinfo(np.int32).max:
                dtype_index = np.int32
            else:
                dtype_index = np.int64
        dtype_index = np.dtype(dtype_index)
''', '''        if dtype_index is None:
            dtype_index = np.int64 if len(self) > np.iinfo(np.int32).max else np.int32
        dtype_index = np.dtype(dtype_index)
''')]),
    ('c_dtype2', C, [('''        if str(dtype_index) not in ('int32', 'int64') or str(dtype) not in (
            'float32',
            'float64',
        ):
''', '''        if dtype_index not in (np.int32, np.int64) or dtype not in (
            np.float32,
            np.float64,
        ):
''')]),
    ('c_call', C, [('''        nvertices = polygons.shape[-2]
        isize = dtype_index.itemsize
        rsize = dtype.itemsize
        func = f'matrix_polygon_integration_i{isize}_r{rsize}'
        min_ncolmax, outside = getattr(flib.projection, func)(
            polygons.reshape(-1, nvertices, 2).T,
            self.shape[1],
            self.shape[0],
            data,
            ncolmax,
        )
''', '''        nrows, ncolumns = self.shape
        name = 'matrix_polygon_integration_i{}_r{}'.format(
            dtype_index.itemsize, dtype.itemsize
        )
        integrate = getattr(flib.projection, name)
        xy = polygons.reshape((-1,) + polygons.shape[-2:]).T
        min_ncolmax, outside = integrate(xy, ncolumns, nrows, data, ncolmax)
''')]),
    ('c_call2', C, [('''        if matrix.data.size == 0:
            # f2py doesn't accept zero-sized opaque arguments
            data = np.empty(1, np.int8)
        else:
            data = matrix.data.ravel().view(np.int8)
''', '''        data = _as_bytes(matrix.data)
'''), ('''class Scene(PackedTable):
''', '''def _as_bytes(array):
    if array.size:
        return array.ravel().view(np.int8)
    return np.empty(1, np.int8)


class Scene(PackedTable):
''')]),
    ('c_retry', C, [('''        if min_ncolmax > ncolmax:
            return self.get_integration_operator(
                polygons,
                ncolmax=min_ncolmax,
                dtype=dtype,
                dtype_index=dtype_index,
                **keywords,
            )

        out = ProjectionOperator(matrix, shapein=self.shape, shapeout=shape, **keywords)
        out.method = 'polygon integration'
''', '''        if ncolmax < min_ncolmax:
            return self.get_integration_operator(
                polygons, min_ncolmax, dtype, dtype_index, **keywords
            )

        out = ProjectionOperator(
            matrix, shapeout=shape, shapein=self.shape, **keywords
        )
        out.method = 'polygon integration'
''')]),
    ('c_all', C, [('''        if len(self) != len(self.all):
            raise NotImplementedError('The scene has removed elements.')
        dtype = np.dtype(dtype)
''', '''        dtype = np.dtype(dtype)
        if len(self.all) != len(self):
            raise NotImplementedError('The scene has removed elements.')
''')]),
]
