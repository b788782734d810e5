import numpy as np
import scipy.fftpack
import scipy.signal
import scipy.special
from pyoperators import FFTOperator
from pyoperators.utils import float_intrinsic_dtype, isalias, isscalarlike, product, tointtuple
from pyoperators.utils.ufuncs import abs2
from . import _flib as flib
from .datatypes import Map
__all__ = ['airy_disk', 'aperture_circular', 'distance', 'ds9', 'gaussian', 'integrated_profile', 'phasemask_fourquadrant', 'profile', 'profile_psd2', 'psd2']

def airy_disk(shape, fwhm=None, r0=None, center=None, scale=1, dtype=float):
    if fwhm is None and r0 is None:
        raise ValueError('No scale parameter.')
    d = distance(shape, center=center, scale=scale, dtype=dtype)
    index = np.where(d == 0)
    d[index] = 1e-30
    if fwhm is not None:
        d *= 1.61633 / (fwhm / 2)
    else:
        d *= 3.8317 / r0
    d = (2 * scipy.special.jn(1, d) / d) ** 2
    d /= np.sum(d)
    return d

def aperture_circular(shape, diameter, center=None, scale=1, dtype=float):
    array = distance2(shape, center=center, scale=scale, dtype=dtype)
    array[...] = array <= (diameter / 2) ** 2
    return array

def distance(shape, center=None, scale=1, dtype=float, out=None):
    shape = tointtuple(shape)
    dtype = np.dtype(dtype)
    unit = getattr(scale, '_unit', None)
    if out is None:
        out = np.empty(shape, dtype)
    ndim = out.ndim
    dtype = float_intrinsic_dtype(out.dtype)
    if ndim in (1, 2) and dtype != out.dtype:
        out_ = np.empty(shape, dtype)
    else:
        out_ = out
    if center is None:
        center = (np.array(shape[::-1]) - 1) / 2
    else:
        center = np.ascontiguousarray(center, dtype)
    if isscalarlike(scale):
        scale = np.resize(scale, out.ndim)
    scale = np.ascontiguousarray(scale, dtype)
    if ndim in (1, 2):
        fname = f'distance_{ndim}d_r{dtype.itemsize}'
        func = getattr(flib.datautils, fname)
        if ndim == 1:
            func(out_, center[0], scale[0])
        else:
            func(out_.T, center, scale)
        if not isalias(out, out_):
            out[...] = out_
    else:
        _distance_slow(shape, center, scale, dtype, out)
    return Map(out, copy=False, unit=unit)

def _distance_slow(shape, center, scale, dtype, out=None):
    index = []
    for n in shape:
        index.append(slice(0, n))
    d = np.ogrid[index]
    d = [(s * (a.astype(dtype) - o)) ** 2 for a, o, s in zip(d, center[::-1], scale[::-1])]
    return np.sqrt(sum(d), out)

def distance2(shape, center=None, scale=1, dtype=float, out=None):
    shape = tointtuple(shape)
    dtype = np.dtype(dtype)
    unit = getattr(scale, '_unit', None)
    if out is None:
        out = np.empty(shape, dtype)
    ndim = out.ndim
    dtype = float_intrinsic_dtype(out.dtype)
    if ndim in (1, 2) and dtype != out.dtype:
        out_ = np.empty(shape, dtype)
    else:
        out_ = out
    if center is None:
        center = (np.array(shape[::-1]) - 1) / 2
    else:
        center = np.ascontiguousarray(center, dtype)
    if isscalarlike(scale):
        scale = np.resize(scale, out.ndim)
    scale = np.ascontiguousarray(scale, dtype)
    if ndim in (1, 2):
        fname = f'distance2_{ndim}d_r{dtype.itemsize}'
        func = getattr(flib.datautils, fname)
        if ndim == 1:
            func(out_, center[0], scale[0] ** 2)
        else:
            func(out_.T, center, scale ** 2)
        if not isalias(out, out_):
            out[...] = out_
    else:
        _distance2_slow(shape, center, scale, dtype, out)
    if unit:
        unit = {k: 2 * v for k, v in unit.items()}
    return Map(out, copy=False, unit=unit)

def _distance2_slow(shape, center, scale, dtype, out=None):
    if out is None:
        out = np.empty(shape, dtype)
    index = []
    for n in shape:
        index.append(slice(0, n))
    d = np.ogrid[index]
    d = [(s * (a.astype(dtype) - o)) ** 2 for a, o, s in zip(d, center[::-1], scale[::-1])]
    if len(d) == 1:
        out[...] = d[0]
        return out
    np.add(sum(d[:-1]), d[-1], out)
    return out

class Ds9:

    def __call__(self, array, xpamsg=None, origin=None, **keywords):
        if not isinstance(array, str):
            array = np.asanyarray(array)
            dtype = array.dtype
        else:
            dtype = None
        array = Map(array, dtype=dtype, copy=False, origin=origin)
        array.ds9(xpamsg=xpamsg, new=self.open_in_new_window, **keywords)

    @property
    def targets(self):
        import ds9
        return ds9.ds9_targets()

    @property
    def current(self):
        targets = self.targets
        if targets is None:
            return None
        return self.get(targets[-1])

    def get(self, id):
        import ds9
        return ds9.ds9(id)
    open_in_new_window = True
ds9 = Ds9()

def gaussian(shape, sigma=None, fwhm=None, center=None, dtype=float):
    if sigma is None and fwhm is None:
        raise ValueError('The shape of the gaussian is not specified.')
    shape = tointtuple(shape)
    n = len(shape)
    if sigma is None:
        sigma = fwhm / np.sqrt(8 * np.log(2))
    if center is None:
        center = (np.array(shape[::-1], dtype) - 1) / 2
    else:
        center = np.ascontiguousarray(center, dtype)
    if isscalarlike(sigma):
        sigma = np.resize(sigma, n).astype(dtype)
    else:
        sigma = np.ascontiguousarray(sigma, dtype)
    dtype = np.dtype(dtype)
    if n == 2 and dtype in (np.float32, np.float64):
        out = np.empty(shape, dtype)
        func = getattr(flib.datautils, f'gaussian_2d_r{dtype.itemsize}')
        func(out.T, center, sigma)
    else:
        scale = 1 / (np.sqrt(2) * sigma[::-1])
        axes = np.ogrid[[slice(-o * sc, (sh - 1 - o) * sc, complex(sh)) for o, sh, sc in zip(center[::-1], shape, scale)]]
        out = 1 / ((2 * np.pi) ** (n / 2) * product(sigma))
        for a in axes:
            out = out * np.exp(-a ** 2)
    return out

def integrated_profile(input, bin=1, nbins=None, center=None, scale=1):
    x, y, n = profile(input, bin=bin, nbins=nbins, histogram=True, center=center, scale=scale)
    y[~np.isfinite(y)] = 0
    y *= n * scale ** 2
    return (x, np.cumsum(y))

def phasemask_fourquadrant(shape, phase=-1):
    array = Map.ones(shape, dtype=complex)
    array[0:shape[0] // 2, shape[1] // 2:] = phase
    array[shape[0] // 2:, 0:shape[1] // 2] = phase
    return array

def plot_tod(tod, mask=None, **kw):
    import matplotlib.pyplot as mp
    if mask is None:
        mask = getattr(tod, 'mask', None)
    ndetectors = product(tod.shape[0:-1])
    tod = tod.view().reshape((ndetectors, -1))
    if mask is not None:
        mask = mask.view().reshape((ndetectors, -1))
        if np.all(mask):
            print('There is no valid sample.')
            return
    for idetector in range(ndetectors):
        mp.plot(tod[idetector], **kw)
        if mask is not None:
            index = np.where(mask[idetector])
            mp.plot(index, tod[idetector, index], 'ro')
    unit = getattr(tod, 'unit', '')
    if unit:
        mp.ylabel('Signal [' + unit + ']')
    else:
        mp.ylabel('Signal')
    mp.xlabel('Time sample')

def profile(input, bin=1, nbins=None, histogram=False, center=None, scale=1):
    input = np.asarray(input, order='c')
    dtype = float_intrinsic_dtype(input.dtype)
    input = np.asarray(input, dtype=dtype)
    if center is None:
        center = (np.array(input.shape[::-1], dtype) - 1) / 2
    else:
        center = np.ascontiguousarray(center, dtype)
    bin_scaled = bin / scale
    if nbins is None:
        nbins = int(max(input.shape[0] - center[1], center[1], input.shape[1] - center[0], center[0]) / bin_scaled)
    fname = f'profile_axisymmetric_2d_r{dtype.itemsize}'
    func = getattr(flib.datautils, fname)
    x, y, n = func(input.T, center, bin_scaled, nbins)
    x *= scale
    if histogram:
        return (x, y, n)
    else:
        return (x, y)

def psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
    array = np.asarray(array)
    if array.ndim != 2:
        raise ValueError('The input array is not two-dimensional.')
    s = abs2(FFTOperator(array.shape, fftw_flag=fftw_flag)(array))
    s /= array.size ** 2
    bandwidth = sampling_frequency ** 2 / array.size
    s /= bandwidth
    return Map(scipy.fftpack.fftshift(s))

def profile_psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
    array = np.asarray(array)
    if array.shape[0] != array.shape[1]:
        raise ValueError('The input array is not square.')
    psd = psd2(array, sampling_frequency=sampling_frequency, fftw_flag=fftw_flag)
    x, y = profile(psd, center=array.shape // np.array(2))
    x *= sampling_frequency / array.shape[1]
    return (x, y)
