R = [
    ('procs_helper', 'acquisitions.py', [
        ('''        if nprocs_instrument is None and nprocs_sampling is None:
            nprocs_instrument = 1
            nprocs_sampling = comm.size
        elif nprocs_instrument is None:
            if nprocs_sampling < 1 or nprocs_sampling > comm.size:
                raise ValueError(
                    f"Invalid value for nprocs_sampling '{nprocs_sampling}'."
                )
            nprocs_instrument = comm.size // nprocs_sampling
        else:
            if nprocs_instrument < 1 or nprocs_instrument > comm.size:
                raise ValueError(
                    f"Invalid value for nprocs_instrument '{nprocs_instrument}'."
                )
            nprocs_sampling = comm.size // nprocs_instrument
        if nprocs_instrument * nprocs_sampling != comm.size:
            raise ValueError('Invalid MPI distribution of the acquisition.')
''', '''        nprocs_instrument, nprocs_sampling = self._get_nprocs(
            comm.size, nprocs_instrument, nprocs_sampling
        )
'''), ('''    _operator = None

''', '''    _operator = None

    @staticmethod
    def _get_nprocs(size, nprocs_instrument, nprocs_sampling):
        if nprocs_instrument is not None:
            if not 1 <= nprocs_instrument <= size:
                raise ValueError(
                    f"Invalid value for nprocs_instrument '{nprocs_instrument}'."
                )
            nprocs_sampling = size // nprocs_instrument
        elif nprocs_sampling is not None:
            if not 1 <= nprocs_sampling <= size:
                raise ValueError(
                    f"Invalid value for nprocs_sampling '{nprocs_sampling}'."
                )
            nprocs_instrument = size // nprocs_sampling
        else:
            nprocs_instrument, nprocs_sampling = 1, size
        if nprocs_instrument * nprocs_sampling != size:
            raise ValueError('Invalid MPI distribution of the acquisition.')
        return nprocs_instrument, nprocs_sampling

''')]),
    ('types_loop', 'acquisitions.py', [
        ('''        if not isinstance(instrument, Instrument):
            raise TypeError(
                f'The instrument input has an invalid type '
                f'{type(instrument).__name__!r}.'
            )
        if not isinstance(sampling, Sampling):
            raise TypeError(
                f'The sampling input has an invalid type {type(sampling).__name__!r}.'
            )
        if not isinstance(scene, Scene):
            raise TypeError(
                f'The scene input has an invalid type {type(scene).__name__!r}.'
            )
''', '''        for arg, cls, name in (
            (instrument, Instrument, 'instrument'),
            (sampling, Sampling, 'sampling'),
            (scene, Scene, 'scene'),
        ):
            if not isinstance(arg, cls):
                raise TypeError(
                    f'The {name} input has an invalid type {type(arg).__name__!r}.'
                )
''')]),
    ('blocks', 'acquisitions.py', [
        ('''        self.block = block
        if block is None:
            self.block = (slice(0, len(self.sampling)),)
            if max_nbytes is not None:
                nbytes = self.get_operator_nbytes()
                if nbytes > max_nbytes:
                    nblocks = int(np.ceil(nbytes / max_nbytes))
                    self.block = tuple(split(len(self.sampling), nblocks))
''', '''        self.block = block
        if block is None:
            n = len(self.sampling)
            self.block = (slice(0, n),)
            if max_nbytes is not None:
                nbytes = self.get_operator_nbytes()
                if max_nbytes < nbytes:
                    nblocks = int(np.ceil(nbytes / max_nbytes))
                    self.block = tuple(split(n, nblocks))
''')]),
    ('getitem', 'acquisitions.py', [
        ('''        if all(is_colon(_) for _ in x):
            return out

        if any(not is_colon(_) for _ in x):
            self._operator = None
            out._operator = None
            gc.collect()

        out.instrument = self.instrument[x[0]]
        if not is_colon(x[0]):
            object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
        out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
        if not is_colon(x[1]):
            object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
        out.scene = self.scene[x[2]]

        if not is_colon(x[0]) and not is_colon(x[1]):
            out.comm = MPI.COMM_SELF
        elif not is_colon(x[0]):
            out.comm = self.sampling.comm.Create_cart([1, self.sampling.comm.size])
        elif not is_colon(x[1]):
            out.comm = self.instrument.comm.Create_cart([self.instrument.comm.size, 1])

        return out
''', '''        idet, isam, isce = x
        det_sel, sam_sel = not is_colon(idet), not is_colon(isam)
        if not (det_sel or sam_sel) and is_colon(isce):
            return out

        self._operator = None
        out._operator = None
        gc.collect()

        out.instrument = self.instrument[idet]
        if det_sel:
            object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
        out.sampling = self.sampling[isam]  # XXX FIX BLOCKS!!!
        if sam_sel:
            object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
        out.scene = self.scene[isce]

        if det_sel and sam_sel:
            out.comm = MPI.COMM_SELF
        elif det_sel:
            comm = self.sampling.comm
            out.comm = comm.Create_cart([1, comm.size])
        elif sam_sel:
            comm = self.instrument.comm
            out.comm = comm.Create_cart([comm.size, 1])

        return out
''')]),
    ('colon_module', 'acquisitions.py', [
        ('''class Acquisition:
''', '''def _is_colon(x):
    return isinstance(x, slice) and x == slice(None)


class Acquisition:
'''), ('''        def is_colon(x):
            return isinstance(x, slice) and x == slice(None)

        out = copy(self)''', '''        is_colon = _is_colon
        out = copy(self)''')]),
    ('get_operator', 'acquisitions.py', [
        ('''        if self._operator is None:
            self._operator = CompositionOperator(
                [
                    BlockColumnOperator(
                        [
                            self.instrument.get_operator(self.sampling[b], self.scene)
                            for b in self.block
                        ],
                        axisin=1,
                    ),
                    self.scene.get_distribution_operator(self.comm),
                ]
            )
        return self._operator
''', '''        if self._operator is not None:
            return self._operator
        blocks = []
        for b in self.block:
            blocks.append(self.instrument.get_operator(self.sampling[b], self.scene))
        projection = BlockColumnOperator(blocks, axisin=1)
        distribution = self.scene.get_distribution_operator(self.comm)
        self._operator = CompositionOperator([projection, distribution])
        return self._operator
''')]),
    ('observation', 'acquisitions.py', [
        ('''        H = self.get_operator()
        out = H(x, out, operation=operation)
        if not noiseless:
            self.get_noise(out, operation=operator.iadd)
        return out
''', '''        out = self.get_operator()(x, out, operation=operation)
        if noiseless:
            return out
        self.get_noise(out=out, operation=operator.iadd)
        return out
''')]),
    ('noise', 'acquisitions.py', [
        ('''        for b in self.block:
            self.instrument.get_noise(
                self.sampling[b], out=out[:, b], operation=operation
            )
        return out
''', '''        for block in self.block:
            sampling = self.sampling[block]
            out_ = out[:, block]
            self.instrument.get_noise(sampling, out=out_, operation=operation)
        return out
''')]),
    ('policy', 'acquisitions.py', [
        ('''        if isscalarlike(flags):
            if isinstance(flags, str):
                flags = flags.split(',')
            else:
                flags = [flags]
        flags = [_.strip() for _ in flags]
        if isscalarlike(values):
            if isinstance(values, str):
                values = values.split(',')
            else:
                values = [values]
        values = [_.strip().lower() for _ in values]
''', '''        flags = [_.strip() for _ in self._as_list(flags)]
        values = [_.strip().lower() for _ in self._as_list(values)]
'''), ('''    def __array__(self, dtype=int):''', '''    @staticmethod
    def _as_list(x):
        if not isscalarlike(x):
            return x
        return x.split(',') if isinstance(x, str) else [x]

    def __array__(self, dtype=int):''')]),
    ('policy2', 'acquisitions.py', [
        ('''        conversion = {'keep': self.KEEP, 'mask': self.MASK, 'remove': self.REMOVE}
        return np.array(
            [conversion[getattr(self, _)] for _ in self._flags], dtype=dtype
        )
''', '''        conversion = {'keep': self.KEEP, 'mask': self.MASK, 'remove': self.REMOVE}
        policies = []
        for flag in self._flags:
            policies.append(conversion[getattr(self, flag)])
        return np.array(policies, dtype=dtype)
''')]),
    ('policy_str', 'acquisitions.py', [
        ('''        s = self._description + ': ' if self._description is not None else ''
        s += ', '.join(f'{_}={getattr(self, _)!r}' for _ in self._flags)
        return s''', '''        flags = ', '.join(f'{_}={getattr(self, _)!r}' for _ in self._flags)
        if self._description is None:
            return flags
        return f'{self._description}: {flags}\'''')]),
    ('policy_choices', 'acquisitions.py', [
        ('''            choices = 'keep', 'mask', 'remove'
            if value not in choices:
''', '''            if value not in ('keep', 'mask', 'remove'):
                choices = 'keep', 'mask', 'remove'
''')]),
    # ------------------------------------------------------ instruments
    ('instr_init', 'instruments.py', [
        ('''        if isinstance(layout, str):
            layout, name = name, layout
        if name is not None:
            self.name = name
        self.detector = layout
''', '''        if isinstance(layout, str):
            name, layout = layout, name
        self.detector = layout
        if name is not None:
            self.name = name
''')]),
    ('instr_iter', 'instruments.py', [
        ('''        for i in range(len(self)):
            yield self[i]
''', '''        n = len(self)
        for i in range(n):
            yield self[i]
''')]),
    ('instr_xor', 'instruments.py', [
        ('''        if (
            bandwidth is None
            and psd is not None
            or bandwidth is not None
            and psd is None
        ):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if bandwidth is None and psd is None and sigma is None:
            raise ValueError('The noise model is not specified.')

        shapein''', '''        if (bandwidth is None) != (psd is None):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if bandwidth is None and sigma is None:
            raise ValueError('The noise model is not specified.')

        shapein''')]),
    ('instr_sigma', 'instruments.py', [
        ('''    def get_operator(self, sampling, scene):
        """
        Return the acquisition model''', '''    @staticmethod
    def _get_sigma(sampling, psd, bandwidth, sigma, nep):
        if (bandwidth is None) != (psd is None):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if bandwidth is None and psd is None and sigma is None:
            raise ValueError('The noise model is not specified.')
        return sigma

    def get_operator(self, sampling, scene):
        """
        Return the acquisition model'''),
        ('''        if (
            bandwidth is None
            and psd is not None
            or bandwidth is not None
            and psd is None
        ):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if bandwidth is None and psd is None and sigma is None:
            raise ValueError('The noise model is not specified.')

        shapein''', '''        sigma = self._get_sigma(sampling, psd, bandwidth, sigma, nep)

        shapein'''),
        ('''        if (
            bandwidth is None
            and psd is not None
            or bandwidth is not None
            and psd is None
        ):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if bandwidth is None and psd is None and sigma is None:
            raise ValueError('The noise model is not specified.')
        if out is None and''', '''        sigma = self._get_sigma(sampling, psd, bandwidth, sigma, nep)
        if out is None and''')]),
    ('instr_fft', 'instruments.py', [
        ('''        fftsize = 2
        while fftsize < nsamples_max:
            fftsize *= 2
''', '''        fftsize = 2
        while nsamples_max > fftsize:
            fftsize = fftsize * 2
''')]),
    ('instr_fft2', 'instruments.py', [
        ('''        fftsize = 2
        while fftsize < nsamples_max:
            fftsize *= 2

        new_bandwidth''', '''        fftsize = self._get_fftsize(nsamples_max)
        new_bandwidth'''), ('''    def get_operator(self, sampling, scene):
        """
        Return the acquisition model''', '''    @staticmethod
    def _get_fftsize(n):
        out = 2
        while out < n:
            out *= 2
        return out

    def get_operator(self, sampling, scene):
        """
        Return the acquisition model''')]),
    ('instr_noise', 'instruments.py', [
        ('''        # looping over the detectors
        for out_ in out:
            operation(
                out_,
                _gaussian_sample(n, sampling_frequency, p, twosided=twosided)[
                    : len(sampling)
                ],
            )

        return out
''', '''        # looping over the detectors
        nsamples = len(sampling)
        for out_ in out:
            noise = _gaussian_sample(n, sampling_frequency, p, twosided)
            operation(out_, noise[:nsamples])

        return out
''')]),
    ('instr_noise_white', 'instruments.py', [
        ('''            sigma = np.atleast_1d(sigma)
            noise = np.random.standard_normal(shape) * sigma[:, None]
            if out is None:
                return noise
            operation(out, noise)
            return out
''', '''            noise = np.atleast_1d(sigma)[:, None] * np.random.standard_normal(shape)
            if out is not None:
                operation(out, noise)
                return out
            return noise
''')]),
    ('imager', 'instruments.py', [
        ('''        if object2image is not None:
            self.object2image = asoperator(object2image)
            self.image2object = self.object2image.I
        else:
            self.image2object = asoperator(image2object)
            self.object2image = self.image2object.I
''', '''        if object2image is None:
            self.image2object = asoperator(image2object)
            self.object2image = self.image2object.I
            return
        self.object2image = asoperator(object2image)
        self.image2object = self.object2image.I
''')]),
    # ------------------------------------------------------ samplings
    ('samp_date', 'packedtables/samplings.py', [
        ('''        if date_obs is None:
            date_obs = self.DEFAULT_DATE_OBS
        if isinstance(date_obs, str):
            # XXX astropy.time bug needs []
            date_obs = Time([date_obs], scale='utc')
        elif not isinstance(date_obs, Time):
            raise TypeError('The observation start date is invalid.')
        elif date_obs.is_scalar:  # work around astropy.time bug
            date_obs = Time([str(date_obs)], scale='utc')
        if period''', '''        date_obs = self._get_date_obs(date_obs)
        if period'''), ('''    def time(self):
''', '''    def _get_date_obs(self, date):
        if date is None:
            date = self.DEFAULT_DATE_OBS
        if isinstance(date, str):
            return Time([date], scale='utc')
        if not isinstance(date, Time):
            raise TypeError('The observation start date is invalid.')
        if date.is_scalar:
            return Time([str(date)], scale='utc')
        return date

    def time(self):
''')]),
    ('samp_center', 'packedtables/samplings.py', [
        ('''            coords = self.cartesian
            if not isscalarlike(self.masked):
                valid = 1 - self.masked
                coords = coords * valid[:, None]
                n = np.sum(valid)
            else:
                n = len(self)
''', '''            coords = self.cartesian
            if isscalarlike(self.masked):
                n = len(self)
            else:
                valid = 1 - self.masked
                n = np.sum(valid)
                coords = coords * valid[:, None]
''')]),
    ('samp_center2', 'packedtables/samplings.py', [
        ('''        n = np.asarray(n)
        center = np.sum(coords, axis=0)
        self.comm.Allreduce(MPI.IN_PLACE, as_mpi(n))
        self.comm.Allreduce(MPI.IN_PLACE, as_mpi(center))
''', '''        center = coords.sum(axis=0)
        n = np.asarray(n)
        for x in n, center:
            self.comm.Allreduce(MPI.IN_PLACE, as_mpi(x))
''')]),
    ('samp_names', 'packedtables/samplings.py', [
        ('''            if (
                names[0] in keywords
                and names[1] not in keywords
                or names[1] in keywords
                and names[0] not in keywords
            ):
                raise ValueError('The pointing is not specified.')
            if names[0] not in keywords:
                keywords[names[0]] = None
            if names[1] not in keywords:
                keywords[names[1]] = None
            if names[2] not in keywords:
                keywords[names[2]] = 0
''', '''            if (names[0] in keywords) != (names[1] in keywords):
                raise ValueError('The pointing is not specified.')
            keywords.setdefault(names[0], None)
            keywords.setdefault(names[1], None)
            keywords.setdefault(names[2], 0)
''')]),
    ('samp_names2', 'packedtables/samplings.py', [
        ('''            keywords[names[0]] = args[0]
            keywords[names[1]] = args[1]
            keywords[names[2]] = args[2] if len(args) == 3 else 0
''', '''            first, second = args[:2]
            third = 0 if len(args) == 2 else args[2]
            keywords.update({names[0]: first, names[1]: second, names[2]: third})
''')]),
    ('samp_gal', 'packedtables/samplings.py', [
        ('''    @property
    def equatorial(self):
        """
        Return the spherical coordinates in the equatorial referential.

        """
        time = self.date_obs + TimeDelta(self.time, format='sec')
        h2e = SphericalHorizontal2EquatorialOperator(
            'NE', time, self.latitude, self.longitude, degrees=True
        )
        return h2e(self.spherical, preserve_input=False)

    @property
    def galactic(self):
        """
        Return the spherical coordinates in the galactic referential.

        """
        time = self.date_obs + TimeDelta(self.time, format='sec')
        h2e = SphericalHorizontal2EquatorialOperator(
            'NE', time, self.latitude, self.longitude, degrees=True
        )
        e2g = SphericalEquatorial2GalacticOperator(degrees=True)
        return e2g(h2e)(self.spherical, preserve_input=False)
''', '''    def _get_horizontal2equatorial(self):
        time = self.date_obs + TimeDelta(self.time, format='sec')
        return SphericalHorizontal2EquatorialOperator(
            'NE', time, self.latitude, self.longitude, degrees=True
        )

    @property
    def equatorial(self):
        h2e = self._get_horizontal2equatorial()
        return h2e(self.spherical, preserve_input=False)

    @property
    def galactic(self):
        e2g = SphericalEquatorial2GalacticOperator(degrees=True)
        h2g = e2g(self._get_horizontal2equatorial())
        return h2g(self.spherical, preserve_input=False)
''')]),
    ('samp_lat', 'packedtables/samplings.py', [
        ('''        latitude = keywords.pop('latitude', None)
        if latitude is None:
            latitude = self.DEFAULT_LATITUDE
            if latitude is None:
                raise ValueError('The reference latitude is not specified.')
        self.latitude = latitude

        longitude = keywords.pop('longitude', None)
        if longitude is None:
            longitude = self.DEFAULT_LONGITUDE
            if longitude is None:
                raise ValueError('The reference longitude is not specified.')
        self.longitude = longitude
''', '''        self.latitude = self._pop(keywords, 'latitude', self.DEFAULT_LATITUDE)
        self.longitude = self._pop(keywords, 'longitude', self.DEFAULT_LONGITUDE)
'''), ('''    @property
    def equatorial(self):
''', '''    @staticmethod
    def _pop(keywords, name, default):
        value = keywords.pop(name, None)
        if value is None:
            value = default
        if value is None:
            raise ValueError(f'The reference {name} is not specified.')
        return value

    @property
    def equatorial(self):
''')]),
    ('samp_sph', 'packedtables/samplings.py', [
        ('''        return np.array([getattr(self, self.names[0]), getattr(self, self.names[1])]).T
''', '''        return np.array([getattr(self, name) for name in self.names[:2]]).T
''')]),
]
