import numpy as np
from pyoperators import IdentityOperator, MPIDistributionIdentityOperator, To1dOperator, asoperator
from pyoperators.memory import empty
from pyoperators.utils import product, strenum
from .. import _flib as flib
from ..operators import ProjectionOperator
from ..sparse import FSRMatrix
from ..wcsutils import WCSToPixelOperator, fitsheader2shape
from .core import PackedTable
__all__ = ['Scene', 'SceneGrid']

class Scene(PackedTable):

    def __init__(self, shape, topixel=None, ndim=None, dtype=float, **keywords):
        PackedTable.__init__(self, shape, ndim=ndim)
        if topixel is None:
            topixel = IdentityOperator(self.shape[:self.ndim])
        else:
            topixel = asoperator(topixel)
        self.dtype = np.dtype(dtype)
        self.topixel = topixel
        self.toworld = topixel.I
        for k, v in keywords.items():
            setattr(self, k, v)

    def empty(self):
        return empty(self.shape, self.dtype)

    def ones(self):
        out = self.empty()
        out[...] = 1
        return out

    def zeros(self):
        out = self.empty()
        out[...] = 0
        return out

    def get_distribution_operator(self, comm):
        if self.comm.size > 1:
            raise ValueError('The scene is already distributed.')
        return MPIDistributionIdentityOperator(comm)

class SceneGrid(Scene):

    def __init__(self, shape, topixel=None, to1d=None, origin='upper', startswith1=False, **keywords):
        origins = ('upper', 'lower')
        if not isinstance(origin, str):
            raise TypeError('Invalid origin.')
        origin = origin.lower()
        if origin not in origins:
            raise ValueError(f'Invalid origin {origin!r}. Expected values are {strenum(origins)}.')
        Scene.__init__(self, shape, topixel=topixel, **keywords)
        if self.ndim != 2:
            raise ValueError('The scene is not 2-dimensional.')
        self.origin = origin
        self.startswith1 = bool(startswith1)
        if to1d is not None:
            to1d = asoperator(to1d)
            self.toNd = to1d.I
        else:
            self.toNd = None
        self.to1d = to1d

    @classmethod
    def fromfits(cls, header, **keywords):
        shape = fitsheader2shape(header)
        topixel = WCSToPixelOperator(header)
        to1d = To1dOperator(shape[::-1], order='f')
        scene = cls(shape, topixel, to1d, origin='lower', **keywords)
        scene.header = header
        return scene

    def column(self):
        return self.index % self.shape[1] + self.startswith1

    def row(self):
        return self.index // self.shape[1] + self.startswith1

    def get_integration_operator(self, polygons, ncolmax=0, dtype=np.float64, dtype_index=None, **keywords):
        if len(self) != len(self.all):
            raise NotImplementedError('The scene has removed elements.')
        dtype = np.dtype(dtype)
        if dtype_index is None:
            if len(self) <= np.iinfo(np.int32).max:
                dtype_index = np.int32
            else:
                dtype_index = np.int64
        dtype_index = np.dtype(dtype_index)
        if str(dtype_index) not in ('int32', 'int64') or str(dtype) not in ('float32', 'float64'):
            raise TypeError(f'The projection matrix cannot be created with an index type {dtype_index} and a value type {dtype}')
        polygons = np.asarray(polygons, dtype=dtype)
        shape = polygons.shape[:-2]
        matrix = FSRMatrix((product(shape), product(self.shape)), dtype=dtype, dtype_index=dtype_index, ncolmax=ncolmax)
        if matrix.data.size == 0:
            data = np.empty(1, np.int8)
        else:
            data = matrix.data.ravel().view(np.int8)
        nvertices = polygons.shape[-2]
        isize = dtype_index.itemsize
        rsize = dtype.itemsize
        func = f'matrix_polygon_integration_i{isize}_r{rsize}'
        min_ncolmax, outside = getattr(flib.projection, func)(polygons.reshape(-1, nvertices, 2).T, self.shape[1], self.shape[0], data, ncolmax)
        if min_ncolmax > ncolmax:
            return self.get_integration_operator(polygons, ncolmax=min_ncolmax, dtype=dtype, dtype_index=dtype_index, **keywords)
        out = ProjectionOperator(matrix, shapein=self.shape, shapeout=shape, **keywords)
        out.method = 'polygon integration'
        out.outside = bool(outside)
        out.min_ncolmax = min_ncolmax
        return out
