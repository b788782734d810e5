import io
import os
import pickle
import sys
import time
import uuid
from functools import reduce
from pathlib import Path
import numpy as np
import scipy.stats
from astropy.io import fits as pyfits
from pyoperators import MPI
from pyoperators.memory import empty
from pyoperators.utils import isscalarlike
from .mpiutils import read_fits, write_fits
from .quantities import Quantity
from .wcsutils import create_fitsheader_for, has_wcs
__all__ = ['FitsArray', 'Map', 'Tod']

class FitsArray(Quantity):
    _header = None

    def __new__(cls, data, header=None, unit=None, derived_units=None, dtype=None, copy=True, order='C', subok=False, ndmin=0, comm=None):
        if isinstance(data, (str, Path)):
            if comm is None:
                comm = MPI.COMM_SELF
            try:
                with pyfits.open(data) as fits:
                    buf = fits['derived_units'].data
                    derived_units = pickle.loads(buf.data)
            except (ImportError, KeyError):
                pass
            data, header = read_fits(data, None, comm)
            copy = False
            if unit is None:
                if 'BUNIT' in header:
                    unit = header['BUNIT']
                elif 'QTTY____' in header:
                    unit = header['QTTY____']
                    if unit == '1':
                        unit = ''
        elif comm is not None:
            raise ValueError('The MPI communicator can only be set for input FITS files.')
        result = Quantity.__new__(cls, data, unit, derived_units, dtype, copy, order, True, ndmin)
        if not subok and type(result) is not cls:
            result = result.view(cls)
        if header is not None:
            result.header = header
        elif hasattr(data, '_header') and type(data._header) is pyfits.Header:
            if copy:
                result._header = data._header.copy()
            else:
                result._header = data._header
        else:
            result._header = None
        return result

    def __array_finalize__(self, array):
        super().__array_finalize__(array)
        self._header = getattr(array, '_header', None)

    def __getattr__(self, name):
        if self.dtype.names and name in self.dtype.names:
            return self[name]
        return super().__getattribute__(name)

    def __setattr__(self, name, value):
        if self.dtype.names and name in self.dtype.names:
            self[name] = value
        else:
            super().__setattr__(name, value)

    def astype(self, dtype):
        result = super().astype(dtype)
        if self._header is not None:
            typename = np.dtype(dtype).name
            result._header = self._header.copy()
            result._header['BITPIX'] = pyfits.DTYPE2BITPIX[typename]
        return result

    @classmethod
    def empty(cls, shape, header=None, unit=None, derived_units=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(empty(shape, dtype, order), header=header, unit=unit, derived_units=derived_units, dtype=dtype, copy=False, **keywords)

    @classmethod
    def ones(cls, shape, header=None, unit=None, derived_units=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(np.ones(shape, dtype, order), header=header, unit=unit, derived_units=derived_units, dtype=dtype, copy=False, **keywords)

    @classmethod
    def zeros(cls, shape, header=None, unit=None, derived_units=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(np.zeros(shape, dtype, order), header=header, unit=unit, derived_units=derived_units, dtype=dtype, copy=False, **keywords)

    def has_wcs(self):
        return has_wcs(self.header)

    @property
    def header(self):
        if self._header is None and (not np.iscomplexobj(self)):
            self._header = create_fitsheader_for(self)
        return self._header

    @header.setter
    def header(self, header):
        if header is not None and (not isinstance(header, pyfits.Header)):
            raise TypeError('Incorrect type for the input header (' + str(type(header)) + ').')
        self._header = header

    def save(self, filename, comm=None):
        header = self.header.copy()
        if comm is None:
            comm = MPI.COMM_SELF
        if len(self._unit) != 0:
            header['BUNIT'] = self.unit
        write_fits(filename, self, header, False, None, comm)
        if not self.derived_units:
            return
        if comm is None or comm.rank == 0:
            buf = io.BytesIO()
            pickle.dump(self.derived_units, buf, pickle.HIGHEST_PROTOCOL)
            data = np.frombuffer(buf.getvalue(), np.uint8)
            write_fits(filename, data, None, True, 'derived_units', MPI.COMM_SELF)
        comm.Barrier()

    def imsave(self, filename, colorbar=True, **kw):
        import matplotlib
        import matplotlib.pyplot as mp
        is_interactive = matplotlib.is_interactive()
        matplotlib.interactive(False)
        dpi = 80.0
        figsize = np.clip(np.max(np.array(self.shape[::-1]) / dpi), 8, 50)
        figsize = (figsize + (2 if colorbar else 0), figsize)
        fig = mp.figure(figsize=figsize, dpi=dpi)
        self.imshow(colorbar=colorbar, new_figure=False, **kw)
        fig = mp.gcf()
        fig.savefig(filename)
        matplotlib.interactive(is_interactive)

    def imshow(self, mask=None, new_figure=True, title=None, xlabel='', ylabel='', interpolation='nearest', colorbar=True, percentile=0, **keywords):
        import matplotlib.pyplot as mp
        if np.iscomplexobj(self):
            data = abs(self.magnitude)
        else:
            data = self.magnitude.copy()
        if isscalarlike(percentile):
            percentile = (percentile / 2, 100 - percentile / 2)
        unfinite = ~np.isfinite(self.magnitude)
        if mask is None:
            mask = unfinite
        else:
            mask = np.logical_or(mask, unfinite)
        data_valid = data[~mask]
        minval = scipy.stats.scoreatpercentile(data_valid, percentile[0])
        maxval = scipy.stats.scoreatpercentile(data_valid, percentile[1])
        data[data < minval] = minval
        data[data > maxval] = maxval
        data[mask] = np.nan
        if new_figure:
            fig = mp.figure()
        else:
            fig = mp.gcf()
        fontsize = 12.0 * fig.get_figheight() / 6.125
        image = mp.imshow(data, interpolation=interpolation, **keywords)
        image.set_clim(minval, maxval)
        ax = mp.gca()
        ax.set_xlabel(xlabel, fontsize=fontsize)
        ax.set_ylabel(ylabel, fontsize=fontsize)
        for tick in ax.xaxis.get_major_ticks():
            tick.label1.set_fontsize(fontsize)
        for tick in ax.yaxis.get_major_ticks():
            tick.label1.set_fontsize(fontsize)
        if title is not None:
            mp.title(title, fontsize=fontsize)
        if colorbar:
            colorbar = mp.colorbar()
            for tick in colorbar.ax.get_yticklabels():
                tick.set_fontsize(fontsize)
        mp.draw()
        return image

    def ds9(self, xpamsg=None, origin=None, new=True, **keywords):
        try:
            import pyds9
        except ImportError:
            raise ImportError('The library pyds9 has not been installed.')
        import xpa
        id = None
        if not new:
            list = pyds9.ds9_targets()
            if list is not None:
                id = list[-1]
        if id is None:
            if 'cmap' not in keywords:
                keywords['cmap'] = 'heat'
            if 'scale' not in keywords:
                keywords['scale'] = ('scope local', 'mode 99.5')
            if origin is None:
                origin = getattr(self, 'origin', 'lower')
            if origin == 'upper' and 'orient' not in keywords:
                keywords['orient'] = 'y'
            wait = 10
            id_ = 'ds9_' + str(uuid.uuid1())[4:8]
            command = 'ds9 -title ' + id_
            for k, v in keywords.items():
                k = str(k)
                if type(v) is not tuple:
                    v = (v,)
                command += reduce(lambda x, y: str(x) + ' -' + k + ' ' + str(y), v, '')
            os.system(command + ' &')
            if xpa.xpaaccess('xpans', None, 1) is None:
                _cmd = None
                for _dir in sys.path:
                    _fname = os.path.join(_dir, 'xpans')
                    if os.path.exists(_fname):
                        _cmd = _fname + ' -e &'
                if _cmd:
                    os.system(_cmd)
            for i in range(wait):
                list = xpa.xpaaccess(id_, None, 1024)
                if list is not None:
                    break
                time.sleep(1)
            if not list:
                raise ValueError('No active ds9 running for target: %s' % list)
        d = pyds9.DS9(id_)
        input = self.view(np.ndarray)
        if input.dtype.kind in ('b', 'i'):
            input = np.asarray(input, np.int32)
        d.set_np2arr(input.T)
        if self.has_wcs():
            d.set('wcs append', str(self.header))
        if xpamsg is not None:
            if isinstance(xpamsg, str):
                xpamsg = (xpamsg,)
            for v in xpamsg:
                d.set(v)
        return d

class Map(FitsArray):
    coverage = None
    error = None
    origin = None

    def __new__(cls, data, header=None, unit=None, derived_units=None, coverage=None, error=None, origin=None, dtype=None, copy=True, order='C', subok=False, ndmin=0, comm=None):
        result = FitsArray.__new__(cls, data, header, unit, derived_units, dtype, copy, order, True, ndmin, comm)
        if not subok and type(result) is not cls:
            result = result.view(cls)
        if isinstance(data, (str, Path)):
            if comm is None:
                comm = MPI.COMM_SELF
            if 'DISPORIG' in result.header:
                if origin is None:
                    origin = result.header['DISPORIG']
            if coverage is None:
                try:
                    coverage, junk = read_fits(data, 'Coverage', comm)
                except KeyError:
                    pass
            if error is None:
                try:
                    error, junk = read_fits(data, 'Error', comm)
                except KeyError:
                    pass
        if origin is not None:
            origin = origin.strip().lower()
            if origin not in ('lower', 'upper'):
                raise ValueError("Invalid origin '" + origin + "'. Expected values are 'lower' or 'upper'.")
            result.origin = origin
        if coverage is not None:
            result.coverage = np.asanyarray(coverage)
        elif copy and result.coverage is not None:
            result.coverage = result.coverage.copy()
        if error is not None:
            result.error = np.asanyarray(error)
        elif copy and result.error is not None:
            result.error = result.error.copy()
        return result

    def __array_finalize__(self, array):
        super().__array_finalize__(array)
        self.coverage = getattr(array, 'coverage', None)
        self.error = getattr(array, 'error', None)
        self.origin = getattr(array, 'origin', 'lower')

    def __array_function__(self, func, types, args, kwargs):
        if func is np.reshape:
            return args[0].reshape(*args[1:], **kwargs)
        if func is np.ravel:
            return args[0].ravel(*args[1:], **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    def __getitem__(self, key):
        item = super().__getitem__(key)
        if not isinstance(item, Map):
            return item
        if item.coverage is not None:
            item.coverage = item.coverage[key]
        if item.error is not None:
            item.error = item.error[key]
        return item

    def astype(self, dtype):
        result = super().astype(dtype)
        if self.coverage is not None:
            result.coverage = self.coverage.astype(dtype)
        if self.error is not None:
            result.error = self.error.astype(dtype)
        return result

    @classmethod
    def empty(cls, shape, header=None, unit=None, derived_units=None, coverage=None, error=None, origin=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(empty(shape, dtype, order), header=header, unit=unit, derived_units=derived_units, coverage=coverage, error=error, origin=origin, copy=False, dtype=dtype, **keywords)

    @classmethod
    def ones(cls, shape, header=None, unit=None, derived_units=None, coverage=None, error=None, origin=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(np.ones(shape, dtype, order), header=header, unit=unit, derived_units=derived_units, coverage=coverage, error=error, origin=origin, copy=False, dtype=dtype, **keywords)

    @classmethod
    def zeros(cls, shape, header=None, unit=None, derived_units=None, coverage=None, error=None, origin=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(np.zeros(shape, dtype, order), header=header, unit=unit, derived_units=derived_units, coverage=coverage, error=error, origin=origin, copy=False, dtype=dtype, **keywords)

    def imshow(self, mask=None, new_figure=True, title=None, xlabel='X', ylabel='Y', interpolation='nearest', origin=None, colorbar=True, percentile=0, **keywords):
        try:
            import kapteyn.maputils as km
        except ImportError:
            km = None
        import matplotlib.pyplot as mp
        if mask is None and self.coverage is not None:
            mask = self.coverage <= 0
        if origin is None:
            origin = self.origin
        if not self.has_wcs() or km is None:
            image = super().imshow(mask=mask, new_figure=new_figure, title=title, xlabel=xlabel, ylabel=ylabel, origin=origin, colorbar=colorbar, percentile=percentile, **keywords)
            return image
        if np.iscomplexobj(self):
            data = abs(self.magnitude)
        else:
            data = self.magnitude.copy()
        if isscalarlike(percentile):
            percentile = (percentile / 2, 100 - percentile / 2)
        unfinite = ~np.isfinite(self.magnitude)
        if mask is None:
            mask = unfinite
        else:
            mask = np.logical_or(mask, unfinite)
        data_valid = data[~mask]
        minval = scipy.stats.scoreatpercentile(data_valid, percentile[0])
        maxval = scipy.stats.scoreatpercentile(data_valid, percentile[1])
        data[data < minval] = minval
        data[data > maxval] = maxval
        data[mask] = np.nan
        colorbar = False
        fitsobj = km.FITSimage(externaldata=data, externalheader=dict(self.header))
        if new_figure:
            fig = mp.figure()
            frame = fig.add_axes((0.1, 0.1, 0.8, 0.8))
        else:
            frame = mp.gca()
        fontsize = 12.0 * fig.get_figheight() / 6.125
        for tick in frame.xaxis.get_major_ticks():
            tick.label1.set_fontsize(fontsize)
        for tick in frame.yaxis.get_major_ticks():
            tick.label1.set_fontsize(fontsize)
        if title is not None:
            frame.set_title(title)
        if colorbar:
            colorbar = mp.colorbar()
            for tick in colorbar.ax.get_yticklabels():
                tick.set_fontsize(fontsize)
        annim = fitsobj.Annotatedimage(frame, blankcolor='w')
        annim.Image(interpolation=interpolation)
        grat = annim.Graticule()
        grat.setp_gratline(visible=False)
        annim.plot()
        annim.interact_imagecolors()
        annim.interact_toolbarinfo()
        annim.interact_writepos()
        if colorbar:
            annim.Colorbar()
        mp.show()
        return annim

    def save(self, filename, comm=None):
        if comm is None:
            comm = MPI.COMM_SELF
        self.header['DISPORIG'] = (self.origin, 'Map display convention')
        FitsArray.save(self, filename, comm=comm)
        if self.coverage is not None:
            write_fits(filename, self.coverage, None, True, 'Coverage', comm)
        if self.error is not None:
            write_fits(filename, self.error, None, True, 'Error', comm)

    def ravel(self, order='C'):
        result = super().ravel(order)
        coverage = None if self.coverage is None else self.coverage.ravel(order)
        error = None if self.error is None else self.error.ravel(order)
        result.coverage = coverage
        result.error = error
        return result

    def reshape(self, *newdims, order='C'):
        result = super().reshape(*newdims, order=order)
        coverage = None if self.coverage is None else self.coverage.reshape(*newdims, order=order)
        error = None if self.error is None else self.error.reshape(*newdims, order=order)
        result.coverage = coverage
        result.error = error
        return result

class Tod(FitsArray):
    _mask = None

    def __new__(cls, data, mask=None, header=None, unit=None, derived_units=None, dtype=None, copy=True, order='C', subok=False, ndmin=0, comm=None):
        result = FitsArray.__new__(cls, data, header, unit, derived_units, dtype, copy, order, True, ndmin, comm)
        if not subok and type(result) is not cls:
            result = result.view(cls)
        if mask is np.ma.nomask:
            mask = None
        if mask is None and isinstance(data, (str, Path)):
            if comm is None:
                comm = MPI.COMM_SELF
            try:
                mask, junk = read_fits(data, 'mask', comm)
                mask = mask.view(np.bool_)
                copy = False
            except Exception:
                pass
        if mask is None and hasattr(data, 'mask') and (data.mask is not np.ma.nomask):
            mask = data.mask
        if mask is not None:
            if not isinstance(mask, np.ndarray) or mask.dtype != bool:
                copy = True
            result._mask = np.array(mask, np.bool_, copy=copy)
        return result

    @property
    def mask(self):
        return self._mask

    @mask.setter
    def mask(self, mask):
        if mask is None or mask is np.ma.nomask:
            self._mask = None
            return
        if not isinstance(mask, np.ndarray):
            mask = np.array(mask, np.bool_)
        elif mask.dtype.type != np.bool_:
            if mask.dtype.itemsize == 1:
                mask = mask.view(np.bool_)
            else:
                mask = np.asarray(mask, np.bool_)
        if mask.ndim == 0:
            if self._mask is None:
                func = np.zeros if mask == 0 else np.ones
                self._mask = func(self.shape, dtype=np.bool_)
            else:
                self._mask[:] = mask
            return
        if self.shape != mask.shape:
            raise ValueError("The input mask has a shape '" + str(mask.shape) + "' incompatible with that of the Tod '" + str(self.shape) + "'.")
        self._mask = mask

    def __array_finalize__(self, array):
        super().__array_finalize__(array)
        self._mask = getattr(array, 'mask', None)

    def __array_function__(self, func, types, args, kwargs):
        if func is np.reshape:
            return args[0].reshape(*args[1:], **kwargs)
        if func is np.ravel:
            return args[0].ravel(*args[1:], **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    @classmethod
    def _view_function_input(cls, array):
        if isinstance(array, Tod) and array.mask is not None:
            return np.ma.MaskedArray(array.view(np.ndarray), mask=array.mask, copy=False)
        return super()._view_function_input(array)

    def _convert_function_outputs(self, arrays, output_units, conversion):
        if isinstance(arrays, np.ma.core.MaskedConstant):
            output = type(self)(np.nan, mask=True)
            output.__array_finalize__(self)
            output._unit = output_units
            return output
        if isinstance(arrays, np.ma.MaskedArray):
            mask = arrays.mask if arrays.mask is not np.ma.nomask else None
            output = arrays.data.view(type(self))
            output.__array_finalize__(self)
            output.mask = mask
            output._unit = output_units
            return output
        if np.isscalar(arrays):
            output = type(self)(arrays, mask=None)
            output.__array_finalize__(self)
            output._mask = None
            output._unit = output_units
            return output
        if isinstance(arrays, np.ndarray):
            output = arrays.view(type(self))
            output.__array_finalize__(self)
            output._mask = None
            output._unit = output_units
            return output
        return super()._convert_function_outputs(arrays, output_units, conversion)

    def __getitem__(self, key):
        item = super().__getitem__(key)
        if not isinstance(item, Tod):
            return item
        if item.mask is not None:
            item.mask = item.mask[key]
        return item

    @classmethod
    def empty(cls, shape, mask=None, header=None, unit=None, derived_units=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(empty(shape, dtype, order), mask=mask, header=header, unit=unit, derived_units=derived_units, dtype=dtype, copy=False, **keywords)

    @classmethod
    def ones(cls, shape, mask=None, header=None, unit=None, derived_units=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(np.ones(shape, dtype, order), mask=mask, header=header, unit=unit, derived_units=derived_units, dtype=dtype, copy=False, **keywords)

    @classmethod
    def zeros(cls, shape, mask=None, header=None, unit=None, derived_units=None, dtype=None, order=None, **keywords):
        if dtype is None:
            dtype = cls.default_dtype
        return cls(np.zeros(shape, dtype, order), mask=mask, header=header, unit=unit, derived_units=derived_units, dtype=dtype, copy=False, **keywords)

    def imshow(self, mask=None, xlabel='Sample', ylabel='Detector number', aspect='auto', origin='upper', percentile=0, **keywords):
        if mask is None:
            mask = self.mask
        return super().imshow(mask=mask, xlabel=xlabel, ylabel=ylabel, aspect=aspect, origin=origin, percentile=percentile, **keywords)

    def __str__(self):
        output = FitsArray.__str__(self)
        if self.ndim == 0:
            return output
        output += ' ('
        if self.ndim > 1:
            output += str(self.shape[-2]) + ' detector'
            if self.shape[-2] > 1:
                output += 's'
            output += ', '
        output += str(self.shape[-1]) + ' sample'
        if self.shape[-1] > 1:
            output += 's'
        return output + ')'

    def save(self, filename, comm=None):
        if comm is None:
            comm = MPI.COMM_SELF
        FitsArray.save(self, filename, comm=comm)
        if self.mask is not None:
            mask = self.mask.view('uint8')
            write_fits(filename, mask, None, True, 'Mask', comm)

    def ravel(self, order='C'):
        result = super().ravel(order)
        mask = None if self.mask is None else self.mask.ravel(order)
        result.mask = mask
        return result

    def reshape(self, *newdims, order='C'):
        result = super().reshape(*newdims, order=order)
        mask = None if self.mask is None else self.mask.reshape(*newdims, order=order)
        result.mask = mask
        return result

    def median(self, axis=None):
        result = Tod(np.median(self, axis=axis), header=self.header.copy(), unit=self.unit, derived_units=self.derived_units, dtype=self.dtype, copy=None)
        result.mask = None
        return result
    median.__doc__ = np.median.__doc__

    def sort(self, axis=-1, kind='quicksort', order=None):
        self.magnitude.sort(axis, kind, order)
        self.mask = None
