from .core import PackedTable
from .layouts import Layout, LayoutGrid, LayoutGridSquares
from .samplings import Sampling, SamplingEquatorial, SamplingHorizontal, SamplingSpherical
from .scenes import Scene, SceneGrid
__all__ = ['PackedTable', 'Layout', 'LayoutGrid', 'LayoutGridSquares', 'Sampling', 'SamplingSpherical', 'SamplingEquatorial', 'SamplingHorizontal', 'Scene', 'SceneGrid']
