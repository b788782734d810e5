import numpy as np
from scipy.constants import c, h, k
from pyoperators import ReciprocalOperator, asoperator
from pyoperators.utils import strenum
from ...packedtables import Scene
from .operators import Spherical2HealpixOperator
__all__ = ['SceneHealpix', 'SceneHealpixCMB']

class SceneHealpix(Scene):

    def __init__(self, nside, kind='I', nest=False, convention='zenith,azimuth', **keywords):
        kinds = ('I', 'QU', 'IQU')
        if not isinstance(kind, str):
            raise TypeError(f'Invalid type {type(kind).__name__!r} for the scene kind. Expected type is string.')
        kind = kind.upper()
        if kind not in kinds:
            raise ValueError(f'Invalid scene kind {kind!r}. Expected kinds are: {strenum(kinds)}.')
        nside = int(nside)
        topixel = Spherical2HealpixOperator(nside, convention, nest)
        shape = (12 * nside ** 2,)
        if kind != 'I':
            shape += (len(kind),)
        Scene.__init__(self, shape, topixel, ndim=1, **keywords)
        self.nside = nside
        self.npixel = 12 * nside ** 2
        self.kind = kind
        self.convention = convention
        self.nest = bool(nest)
        self.solid_angle = 4 * np.pi / self.npixel

class SceneHealpixCMB(SceneHealpix):

    def __init__(self, nside, kind='I', absolute=False, temperature=2.7255, **keywords):
        self.absolute = bool(absolute)
        self.temperature = float(temperature)
        SceneHealpix.__init__(self, nside, kind=kind, **keywords)

    def get_unit_conversion_operator(self, nu):
        a = 2 * self.solid_angle * h * nu ** 3 / c ** 2
        if self.absolute:
            hnu_k = h * nu / k
            return a / asoperator(np.expm1)(hnu_k * ReciprocalOperator())
        T = self.temperature
        hnu_kT = h * nu / (k * T)
        val = 1e-06 * a * hnu_kT * np.exp(hnu_kT) / (np.expm1(hnu_kT) ** 2 * T)
        return asoperator(val)
