import numpy as np
from ..geometry import create_circle, create_grid, create_grid_squares
from ..quantities import Quantity
from .core import PackedTable
__all__ = ['Layout', 'LayoutGrid', 'LayoutGridSquares']

class Layout(PackedTable):

    def __init__(self, shape, **keywords):
        if hasattr(self, 'vertex') and 'vertex' not in keywords:
            keywords['vertex'] = None
        if hasattr(self, 'center') and 'center' not in keywords:
            keywords['center'] = None
        if 'center' not in keywords and 'vertex' in keywords:
            keywords['center'] = lambda s: np.mean(s.vertex, axis=-2)
        if 'center' not in keywords:
            raise ValueError('The spatial layout is not defined.')
        PackedTable.__init__(self, shape, **keywords)
        if hasattr(self, 'vertex'):
            self.nvertices = self.vertex.shape[-2]

    def plot(self, autoscale=True, transform=None, edgecolor=None, facecolor=None, fill=None, **keywords):
        import matplotlib.pyplot as mp
        if hasattr(self, 'vertex'):
            coords = self.vertex[..., :2]
        elif hasattr(self, 'radius'):
            coords = create_circle(self.radius, center=self.center[..., :2])
        else:
            coords = self.center[..., :2]
        if transform is not None:
            coords = transform(coords)
        if coords.ndim == 3:
            if fill is None and facecolor is not None:
                fill = True
            a = mp.gca()
            try:
                from pyoperators.utils import zip_broadcast

                def isnumber(x):
                    try:
                        float(x)
                        return True
                    except (TypeError, ValueError):
                        return False
                if isinstance(edgecolor, tuple) and all((isnumber(_) for _ in edgecolor)):
                    edgecolor = [edgecolor]
                if isinstance(facecolor, tuple) and all((isnumber(_) for _ in facecolor)):
                    facecolor = [facecolor]
                for c, ec, fc in zip_broadcast(coords, edgecolor, facecolor, iter_str=False):
                    a.add_patch(mp.Polygon(c, closed=True, edgecolor=ec, facecolor=fc, fill=fill, **keywords))
            except ImportError:
                for c in coords:
                    a.add_patch(mp.Polygon(c, closed=True, edgecolor=edgecolor, facecolor=facecolor, fill=fill, **keywords))
            if autoscale:
                a.autoscale_view()
        elif coords.ndim == 2:
            if 'color' not in keywords:
                keywords['color'] = 'black'
            if 'marker' not in keywords:
                keywords['marker'] = 'o'
            if 'linestyle' not in keywords:
                keywords['linestyle'] = ''
            mp.plot(coords[:, 0], coords[:, 1], scalex=autoscale, scaley=autoscale, **keywords)
        else:
            raise ValueError('Invalid number of dimensions.')
        mp.show()

class LayoutGrid(Layout):

    def __init__(self, shape, spacing, xreflection=False, yreflection=False, angle=0, origin=(0, 0), startswith1=False, _z=None, **keywords):
        if not isinstance(shape, (list, tuple)):
            raise TypeError('Invalid grid shape.')
        if len(shape) != 2:
            raise ValueError('The layout grid is not 2-dimensional.')
        if len(origin) != len(shape):
            raise ValueError('Invalid dimensions of the layout center.')
        unit = getattr(spacing, 'unit', '') or getattr(origin, 'unit', '') or ('radius' in keywords and getattr(keywords['radius'], 'unit', ''))
        if unit:
            spacing = Quantity(spacing).tounit(unit)
            origin = Quantity(origin).tounit(unit)
            if 'radius' in keywords:
                keywords['radius'] = Quantity(keywords['radius']).tounit(unit)
        if 'vertex' not in keywords:
            center = create_grid(shape, spacing, xreflection=xreflection, yreflection=yreflection, center=origin, angle=angle)
            if _z is not None:
                center = np.concatenate([center, np.full_like(center[..., :1], _z)], -1)
            keywords['center'] = center
        if unit:
            if 'center' in keywords:
                keywords['center'] = Quantity(keywords['center'], unit, copy=False)
            if 'vertex' in keywords:
                keywords['vertex'] = Quantity(keywords['vertex'], unit, copy=False)
        self.spacing = spacing
        self.origin = origin
        self.xreflection = xreflection
        self.yreflection = yreflection
        self.angle = angle
        self.startswith1 = startswith1
        self.unit = unit
        Layout.__init__(self, shape, **keywords)
        self._special_attributes += ('column', 'row')

    def column(self):
        return self.index % self.shape[1] + self.startswith1

    def row(self):
        return self.index // self.shape[1] + self.startswith1

class LayoutGridSquares(LayoutGrid):

    def __init__(self, shape, spacing, filling_factor=1, xreflection=False, yreflection=False, angle=0, origin=(0, 0), startswith1=False, **keywords):
        unit = getattr(spacing, 'unit', '') or getattr(origin, 'unit', '')
        if unit:
            spacing = Quantity(spacing).tounit(unit)
            origin = Quantity(origin).tounit(unit)
        vertex = create_grid_squares(shape, spacing, filling_factor=filling_factor, xreflection=xreflection, yreflection=yreflection, center=origin, angle=angle)
        if unit:
            vertex = Quantity(vertex, unit, copy=False)
        LayoutGrid.__init__(self, shape, spacing, vertex=vertex, xreflection=xreflection, yreflection=yreflection, angle=angle, origin=origin, startswith1=startswith1, **keywords)
        self.filling_factor = filling_factor
