import copy
import numpy as np
from pyoperators import MPI, DiagonalOperator, SymmetricBandToeplitzOperator, asoperator
from pyoperators.memory import empty
from pyoperators.utils import operation_assignment, split
from .noises import _fold_psd, _gaussian_psd_1f, _gaussian_sample, _logloginterp_psd, _psd2invntt, _unfold_psd
from .packedtables import Layout
__all__ = ['Instrument', 'Imager']

class Instrument:

    def __init__(self, layout, name=None):
        if isinstance(layout, str):
            layout, name = (name, layout)
        if name is not None:
            self.name = name
        self.detector = layout

    def __getitem__(self, selection):
        out = copy.copy(self)
        out.detector = self.detector[selection]
        return out

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __len__(self):
        return len(self.detector)

    @property
    def comm(self):
        return self.detector.comm

    def pack(self, x):
        return self.detector.pack(x)
    pack.__doc__ = Layout.pack.__doc__

    def unpack(self, x):
        return self.detector.unpack(x)
    unpack.__doc__ = Layout.unpack.__doc__

    def scatter(self, comm=None):
        if self.detector.comm.size > 1:
            raise ValueError('The instrument is already distributed.')
        if comm is None:
            comm = MPI.COMM_WORLD
        out = copy.copy(self)
        out.detector = out.detector.scatter(comm)
        return out

    def split(self, n):
        return tuple((self[_] for _ in split(len(self), n)))

    def plot(self, **keywords):
        self.detector.plot(**keywords)

    def get_operator(self, sampling, scene):
        raise NotImplementedError()

    def get_invntt_operator(self, sampling, psd=None, bandwidth=None, twosided=False, sigma=None, nep=None, fknee=0, fslope=1, ncorr=None, fftw_flag='FFTW_MEASURE', nthreads=None):
        if bandwidth is None and psd is not None or (bandwidth is not None and psd is None):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if bandwidth is None and psd is None and (sigma is None):
            raise ValueError('The noise model is not specified.')
        shapein = (len(self), len(sampling))
        if bandwidth is None and fknee == 0:
            return DiagonalOperator(1 / sigma ** 2, broadcast='rightward', shapein=shapein)
        sampling_frequency = 1 / sampling.period
        nsamples_max = len(sampling)
        fftsize = 2
        while fftsize < nsamples_max:
            fftsize *= 2
        new_bandwidth = sampling_frequency / fftsize
        if bandwidth is not None and psd is not None:
            if twosided:
                psd = _fold_psd(psd)
            f = np.arange(fftsize // 2 + 1, dtype=float) * new_bandwidth
            p = _unfold_psd(_logloginterp_psd(f, bandwidth, psd))
        else:
            p = _gaussian_psd_1f(fftsize, sampling_frequency, sigma, fknee, fslope, twosided=True)
        p[..., 0] = p[..., 1]
        if ncorr is None:
            ncorr = min(nsamples_max - 1, fftsize // 2)
        invntt = _psd2invntt(p, new_bandwidth, ncorr, fftw_flag=fftw_flag)
        return SymmetricBandToeplitzOperator(shapein, invntt, fftw_flag=fftw_flag, nthreads=nthreads)

    def get_noise(self, sampling, psd=None, bandwidth=None, twosided=False, sigma=None, nep=None, fknee=0, fslope=1, out=None, operation=operation_assignment):
        if bandwidth is None and psd is not None or (bandwidth is not None and psd is None):
            raise ValueError('The bandwidth or the PSD is not specified.')
        if nep is not None:
            sigma = nep / np.sqrt(2 * sampling.period)
        if bandwidth is None and psd is None and (sigma is None):
            raise ValueError('The noise model is not specified.')
        if out is None and operation is not operation_assignment:
            raise ValueError('The output buffer is not specified.')
        shape = (len(self), len(sampling))
        if bandwidth is None and fknee == 0:
            sigma = np.atleast_1d(sigma)
            noise = np.random.standard_normal(shape) * sigma[:, None]
            if out is None:
                return noise
            operation(out, noise)
            return out
        if out is None:
            out = empty((len(self), len(sampling)))
        sampling_frequency = 1 / sampling.period
        if bandwidth is not None and psd is not None:
            if twosided:
                psd = _fold_psd(psd)
                twosided = False
        else:
            twosided = True
        n = len(sampling)
        if bandwidth is None and psd is None:
            p = _gaussian_psd_1f(n, sampling_frequency, sigma, fknee, fslope, twosided=twosided)
        else:
            n += n % 2
            f = np.arange(n // 2 + 1, dtype=float) * (sampling_frequency / n)
            p = _logloginterp_psd(f, bandwidth, psd)
        for out_ in out:
            operation(out_, _gaussian_sample(n, sampling_frequency, p, twosided=twosided)[:len(sampling)])
        return out

class Imager(Instrument):

    def __init__(self, name, layout, image2object=None, object2image=None):
        if image2object is None and object2image is None:
            raise ValueError('Neither the image2object nor the object2image transforms are speficied.')
        Instrument.__init__(self, layout, name)
        if object2image is not None:
            self.object2image = asoperator(object2image)
            self.image2object = self.object2image.I
        else:
            self.image2object = asoperator(image2object)
            self.object2image = self.image2object.I
