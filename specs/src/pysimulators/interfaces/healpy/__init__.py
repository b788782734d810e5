from .operators import Cartesian2HealpixOperator, Healpix2CartesianOperator, Healpix2SphericalOperator, HealpixConvolutionGaussianOperator, HealpixLaplacianOperator, Spherical2HealpixOperator
from .scenes import SceneHealpix, SceneHealpixCMB
__all__ = ['Healpix2CartesianOperator', 'Cartesian2HealpixOperator', 'Healpix2SphericalOperator', 'Spherical2HealpixOperator', 'HealpixConvolutionGaussianOperator', 'HealpixLaplacianOperator', 'SceneHealpix', 'SceneHealpixCMB']
