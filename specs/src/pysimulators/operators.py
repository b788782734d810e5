import functools
import inspect
import operator
import numpy as np
import scipy.constants
import pyoperators
from pyoperators import BlockDiagonalOperator, Cartesian2SphericalOperator, CompositionOperator, DenseBlockDiagonalOperator, DenseOperator, DiagonalNumexprOperator, DiagonalOperator, HomothetyOperator, IdentityOperator, Operator, Spherical2CartesianOperator
from pyoperators.flags import inplace, linear, orthogonal, real, separable, square
from pyoperators.memory import empty, ones
from pyoperators.utils import float_dtype, isscalarlike, operation_assignment, product, strenum, tointtuple
from . import _flib as flib
from .datatypes import FitsArray, Map
from .quantities import Quantity, _divide_unit, _multiply_unit
from .sparse import FSRBlockMatrix, FSRMatrix, FSRRotation2dMatrix, FSRRotation3dMatrix, SparseOperator
from .wcsutils import create_fitsheader
__all__ = ['BlackBodyOperator', 'CartesianEquatorial2GalacticOperator', 'CartesianGalactic2EquatorialOperator', 'CartesianEquatorial2HorizontalOperator', 'CartesianHorizontal2EquatorialOperator', 'ConvolutionTruncatedExponentialOperator', 'PointingMatrix', 'PowerLawOperator', 'ProjectionOperator', 'ProjectionInMemoryOperator', 'ProjectionOnFlyOperator', 'RollOperator', 'SphericalEquatorial2GalacticOperator', 'SphericalGalactic2EquatorialOperator', 'SphericalEquatorial2HorizontalOperator', 'SphericalHorizontal2EquatorialOperator']

def block_diagonal(*partition_args, **keywords):
    if 'axisin' not in keywords and 'new_axisin' not in keywords:
        raise TypeError("Missing 'axisin' or 'new_axisin' keyword.")
    if 'axisin' in keywords:
        axisin = keywords['axisin']
        new_axisin = None
        del keywords['axisin']
    else:
        axisin = None
        new_axisin = keywords['new_axisin']
        del keywords['new_axisin']
    if len(keywords) > 0:
        raise TypeError('Invalid keyed argument.')

    def func(cls):

        @functools.wraps(cls.__init__)
        def partition_init(self, *args, **keywords):
            n1 = 0
            partitionin = None
            if 'partitionin' in keywords:
                if keywords['partitionin'] is not None:
                    partitionin = tointtuple(keywords['partitionin'])
                    n1 = len(partitionin)
                del keywords['partitionin']
            class_args = inspect.getfullargspec(cls.__init_original__).args
            class_args.pop(0)
            ns = [0 if isscalarlike(a) else len(a) for i, a in enumerate(args) if class_args[i] in partition_args] + [0 if isscalarlike(v) else len(v) for k, v in keywords.items() if k in partition_args]
            n2 = 0 if len(ns) == 0 else max(ns)
            if any((n not in (0, n2) for n in ns)):
                raise ValueError('The partition variables do not have the same number of elements.')
            n = max(n1, n2)
            if n == 0:
                cls.__init_original__(self, *args, **keywords)
                return
            if n1 != 0 and n2 != 0 and (n1 != n2):
                raise ValueError('The specified partitioning is incompatible with the number of elements in the partition variables.')
            if partitionin is None:
                if axisin is not None:
                    partitionin = n * (None,)
                else:
                    partitionin = n * (1,)
            n = len(partitionin)
            argss = tuple((tuple((a[i] if class_args[j] in partition_args and (not isscalarlike(a)) else a for j, a in enumerate(args))) for i in range(n)))
            keyss = tuple((dict(((k, v[i]) if k in partition_args and (not isscalarlike(v)) else (k, v) for k, v in keywords.items())) for i in range(n)))

            def reshape(s, p, a, na):
                s = list(tointtuple(s))
                if a is not None:
                    s[a] = p
                else:
                    del s[na]
                return tuple(s)
            if 'shapein' in keywords:
                shapein = keywords['shapein']
                for keys, p in zip(keyss, partitionin):
                    keys['shapein'] = reshape(shapein, p, axisin, new_axisin)
            if 'shapeout' in keywords:
                shapeout = keywords['shapeout']
                for keys, p in zip(keyss, partitionin):
                    keys['shapeout'] = reshape(shapeout, p, axisin, new_axisin)
            ops = [cls.__new__(type(self), *a, **k) for a, k in zip(argss, keyss)]
            for o, a, k in zip(ops, argss, keyss):
                if isinstance(o, cls):
                    cls.__init_original__(o, *a, **k)
            self.__class__ = BlockDiagonalOperator
            self.__init__(ops, partitionin=partitionin, axisin=axisin, new_axisin=new_axisin)
        cls.__init_original__ = cls.__init__
        cls.__init__ = partition_init
        return cls
    return func

@real
class BlackBodyOperator(DiagonalOperator):

    def __init__(self, temperature, frequency=None, frequency0=None, wavelength=None, wavelength0=None, beta=0, **keywords):
        temperature = np.asarray(temperature, float)
        if frequency is None and wavelength is None:
            raise ValueError('The operating frequency or wavelength is not specified.')
        if frequency0 is None and wavelength0 is None:
            raise ValueError('The reference frequency or wavelength is not specified.')
        if frequency is not None and wavelength is not None:
            raise ValueError('Ambiguous operating frequency / wavelength.')
        if frequency0 is not None and wavelength0 is not None:
            raise ValueError('Ambiguous reference frequency / wavelength.')
        c = scipy.constants.c
        h = scipy.constants.h
        k = scipy.constants.k
        if frequency is not None:
            nu = np.asarray(frequency, float)
        else:
            nu = c / np.asarray(wavelength, float)
        if nu.ndim != 0:
            raise TypeError('The operating frequency or wavelength is not a scalar.')
        if frequency0 is not None:
            nu0 = np.asarray(frequency0, float)
        else:
            nu0 = c / np.asarray(wavelength0, float)
        if nu0.ndim != 0:
            raise TypeError('The reference frequency or wavelength is not a scalar.')
        beta = float(beta)
        data = (nu / nu0) ** (3 + beta) * np.expm1(h * nu0 / (k * temperature)) / np.expm1(h * nu / (k * temperature))
        DiagonalOperator.__init__(self, data, **keywords)
        self.temperature = temperature
        self.beta = beta
        self.frequency = frequency
        self.frequency0 = frequency0
        self.wavelength = wavelength
        self.wavelength0 = wavelength0

@real
@linear
@square
@inplace
@separable
class ConvolutionTruncatedExponentialOperator(Operator):

    def __init__(self, tau, dtype=None, **keywords):
        if hasattr(tau, 'SI'):
            tau = tau.SI
            if tau.unit != '':
                raise ValueError('The time constant must be dimensionless.')
        if dtype is None:
            tau = np.asarray(tau)
            if tau.dtype.kind == 'f':
                dtype = tau.dtype
            else:
                dtype = float
        tau = np.asarray(tau, dtype)
        if np.all(tau <= 0):
            self.__class__ = IdentityOperator
            self.__init__(dtype=dtype, **keywords)
            return
        self.tau = tau
        Operator.__init__(self, dtype=dtype, **keywords)

    def direct(self, input, output):
        input_, nd, nt, int_all = _ravel_strided(input)
        output_, nd, nt, ont_all = _ravel_strided(output)
        f = f'trexp_direct_r{input.dtype.itemsize}'
        try:
            getattr(flib.operators, f)(input_, nd, nt, int_all, output_, nt, ont_all, self.tau.astype(input.dtype))
        except AttributeError:
            raise NotImplementedError()

    def transpose(self, input, output):
        input_, nd, nt, int_all = _ravel_strided(input)
        output_, nd, nt, ont_all = _ravel_strided(output)
        f = f'trexp_transpose_r{input.dtype.itemsize}'
        try:
            getattr(flib.operators, f)(input_, nd, nt, int_all, output_, nt, ont_all, self.tau.astype(input.dtype))
        except AttributeError:
            raise NotImplementedError()

    def validatein(self, shape):
        if self.tau.size == 1:
            return
        if self.tau.size != product(shape[:-1]):
            raise ValueError(f"The shape of the input '{shape}' is incompatible with the number of scales '{self.tau.size}'.")

def _ravel_strided(x):
    if x.ndim == 1:
        return (x, 1, x.size, x.size)
    if x.ndim != 2:
        raise NotImplementedError()
    itemsize = x.itemsize
    if x.strides[1] != itemsize:
        raise ValueError('The array is not C-contiguous.')
    shape_all = (x.shape[0], x.strides[0] // itemsize)
    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (itemsize,))
    return (x_, x.shape[0], x.shape[1], shape_all[1])

@real
class PowerLawOperator(DiagonalNumexprOperator):

    def __init__(self, alpha, x, x0, scalar=1, **keywords):
        alpha = np.asarray(alpha, float)
        if alpha.ndim > 0:
            keywords['shapein'] = alpha.shape
        x = np.asarray(x, float)
        if x.ndim != 0:
            raise TypeError('The input is not a scalar.')
        x0 = np.asarray(x0, float)
        if x0.ndim != 0:
            raise TypeError('The reference input is not a scalar.')
        scalar = np.asarray(scalar, float)
        if scalar.ndim != 0:
            raise TypeError('The scalar coefficient is not a scalar.')
        if 'dtype' not in keywords:
            keywords['dtype'] = float
        global_dict = {'x': x, 'x0': x0, 's': scalar}
        super().__init__(alpha, 's * (x / x0) ** alpha', global_dict, var='alpha', **keywords)
        self.alpha = alpha
        self.x = x
        self.x0 = x0
        self.scalar = scalar
        self.set_rule((HomothetyOperator, '.'), lambda o, s: PowerLawOperator(s.alpha, s.x, s.x0, o.data * s.scalar), CompositionOperator)

    @staticmethod
    def _rule_block(self, op, shape, partition, axis, new_axis, func_operation):
        return DiagonalOperator._rule_block(self, op, shape, partition, axis, new_axis, func_operation, self.x, self.x0, scalar=self.scalar)

    def __str__(self):
        return f'powerlaw(..., α={self.alpha}, x/x0={self.x / self.x0})'

class PointingMatrix(FitsArray):
    default_dtype = np.dtype([('index', np.int32), ('value', np.float32)])

    def __new__(cls, array, shape_input, copy=True, ndmin=0):
        result = FitsArray.__new__(cls, array, copy=copy, ndmin=ndmin).view(cls.default_dtype, cls)
        result.header = create_fitsheader(result.shape[::-1])
        result.shape_input = shape_input
        return result

    def __array_finalize__(self, array):
        FitsArray.__array_finalize__(self, array)
        self.shape_input = getattr(array, 'shape_input', None)

    @classmethod
    def empty(cls, shape, shape_input, verbose=True):
        buffer = empty(shape, cls.default_dtype, verbose=verbose, description='for the pointing matrix')
        return PointingMatrix(buffer, shape_input, copy=False)

    @classmethod
    def ones(cls, shape, shape_input, verbose=True):
        buffer = empty(shape, cls.default_dtype, verbose=verbose, description='for the pointing matrix')
        buffer['index'] = -1
        buffer['value'] = 1
        return PointingMatrix(buffer, shape_input, copy=False)

    @classmethod
    def zeros(cls, shape, shape_input, verbose=True):
        buffer = empty(shape, cls.default_dtype, verbose=verbose, description='for the pointing matrix')
        buffer['index'] = -1
        buffer['value'] = 0
        return PointingMatrix(buffer, shape_input, copy=False)

    def isvalid(self):
        if self.size == 0:
            return True
        npixels = product(self.shape_input)
        result = flib.pointingmatrix.isvalid(self.ravel().view(np.int64), self.shape[-1], product(self.shape[:-1]), npixels)
        return bool(result)

    def pack(self, mask):
        if self.size == 0:
            return
        data = self.ravel()
        flib.pointingmatrix.pack(data.view(np.int64), mask.view(np.int8).T, self.shape[-1], self.size // self.shape[-1])
        if not self.flags.contiguous:
            self[...] = data.reshape(self.shape)
        self.shape_input = tointtuple(mask.size - np.sum(mask))

    def get_mask(self, out=None):
        if out is None:
            out = empty(self.shape_input, np.bool_, description='as new mask')
            out[...] = True
        elif out.dtype != bool:
            raise TypeError('The output mask argument has an invalid type.')
        elif out.shape != self.shape_input:
            raise ValueError('The output mask argument has an incompatible shape.')
        if self.size == 0:
            return out
        flib.pointingmatrix.mask(self.ravel().view(np.int64), out.view(np.int8).T, self.shape[-1], self.size // self.shape[-1])
        return out

@real
@linear
class ProjectionBaseOperator(Operator):

    def __init__(self, units=None, derived_units=None, attrin={}, attrout={}, **keywords):
        if units is None:
            units = ('', '')
        if derived_units is None:
            derived_units = ({}, {})
        unit = _divide_unit(Quantity(1, units[0])._unit, Quantity(1, units[1])._unit)
        Operator.__init__(self, dtype=float, attrin=self.set_attrin, attrout=self.set_attrout, **keywords)
        self._attrin = attrin
        self._attrout = attrout
        self.unit = unit
        self.duout, self.duin = derived_units

    def direct(self, input, output):
        matrix = self.matrix
        if matrix.size == 0:
            output[...] = 0
            return
        if not output.flags.contiguous:
            if pyoperators.config.VERBOSE:
                print('Optimize me: Projection output is not contiguous.')
            output_ = np.empty_like(output, order='C')
        else:
            output_ = output
        flib.pointingmatrix.direct(matrix.ravel().view(np.int64), input.T, output_.ravel(), matrix.shape[-1], matrix.size // matrix.shape[-1])
        if not output.flags.contiguous:
            output[...] = output_

    def transpose(self, input, output, operation=operation_assignment):
        matrix = self.matrix
        if operation is operation_assignment:
            output[...] = 0
        elif operation is not operator.iadd:
            raise ValueError('Invalid reduction operation.')
        if matrix.size == 0:
            return
        if not input.flags.contiguous:
            if pyoperators.config.VERBOSE:
                print('Optimize me: Projection.T input is not contiguous.')
            input_ = np.ascontiguousarray(input)
        else:
            input_ = input
        output_ = np.ascontiguousarray(output)
        flib.pointingmatrix.transpose(matrix.ravel().view(np.int64), input_.ravel(), output_.T, matrix.shape[-1], matrix.size // matrix.shape[-1])
        if not output.flags.contiguous:
            output[...] = output_

    def set_attrin(self, attr):
        if '_header' in attr:
            del attr['_header']
        unitout = attr['_unit'] if '_unit' in attr else {}
        if unitout:
            attr['_unit'] = _divide_unit(unitout, self.unit)
        if self.duin is not None:
            attr['_derived_units'] = self.duin
        attr.update(self._attrin)

    def set_attrout(self, attr):
        if '_header' in attr:
            del attr['_header']
        unitin = attr['_unit'] if '_unit' in attr else {}
        if unitin:
            attr['_unit'] = _multiply_unit(unitin, self.unit)
        if self.duout is not None:
            attr['_derived_units'] = self.duout
        attr.update(self._attrout)

    def apply_mask(self, mask):
        raise NotImplementedError()

    def get_mask(self, out=None):
        return self.matrix.get_mask(out=out)

    def get_pTp(self, out=None):
        matrix = self.matrix
        npixels = product(matrix.shape_input)
        if out is None:
            out = empty((npixels, npixels), float, description='for pTp array')
            out[...] = 0
        elif out.dtype != float:
            raise TypeError('The output ptp argument has an invalid type.')
        elif out.shape != (npixels, npixels):
            raise ValueError('The output ptp argument has an incompatible shape.')
        if matrix.size == 0:
            return out
        flib.pointingmatrix.ptp(matrix.ravel().view(np.int64), out.T, matrix.shape[-1], matrix.size // matrix.shape[-1], npixels)
        return out

    def get_pTx_pT1(self, x, out=None, mask=None):
        matrix = self.matrix
        if out is None:
            shape = matrix.shape_input
            out = (Map.zeros(shape), Map.zeros(shape))
            self.set_attrin(out[0].__dict__)
            if hasattr(x, 'unit'):
                out[0].unit = x.unit
        if matrix.size == 0:
            return out
        if mask is None:
            mask = getattr(x, 'mask', None)
        back, weight = (np.ascontiguousarray(_) for _ in out)
        if mask is not None:
            flib.pointingmatrix.backprojection_weight_mask(matrix.ravel().view(np.int64), x.ravel(), np.asarray(mask, bool).ravel().view(np.int8), back.ravel(), weight.ravel(), matrix.shape[-1], matrix.size // matrix.shape[-1])
        else:
            flib.pointingmatrix.backprojection_weight(matrix.ravel().view(np.int64), x.ravel(), back.ravel(), weight.ravel(), matrix.shape[-1], matrix.size // matrix.shape[-1])
        if not out[0].flags.contiguous:
            out[0][...] = back
        if not out[1].flags.contiguous:
            out[1][...] = weight
        return out

    def intersects(self, fitscoords, axis=None, f=None):
        matrix = self.matrix
        axes = (1,) + matrix.shape_input[:0:-1]
        index = np.array(fitscoords) - 1
        index = int(np.sum(index * np.cumprod(axes)))
        shape = matrix.shape
        matrix_ = matrix.ravel().view(np.int64)
        if f is not None:
            out = f(matrix_, index, shape[-1], shape[-2], shape[-3])
        elif axis is None:
            out = flib.pointingmatrix.intersects(matrix_, index, shape[-1], shape[-2], shape[-3])
        elif axis == 0 or axis == -3:
            out = flib.pointingmatrix.intersects_axis3(matrix_, index, shape[-1], shape[-2], shape[-3])
        elif axis == 1 or axis == -2:
            out = flib.pointingmatrix.intersects_axis2(matrix_, index, shape[-1], shape[-2], shape[-3])
        else:
            raise ValueError('Invalid axis.')
        if isinstance(out, np.ndarray):
            out = out.view(bool)
        else:
            out = bool(out)
        return out

class ProjectionInMemoryOperator(ProjectionBaseOperator):

    def __init__(self, matrix, units=None, derived_units=None, **keywords):
        if 'shapein' in keywords:
            raise TypeError("The 'shapein' keyword should not be used.")
        shapein = matrix.shape_input
        if 'shapeout' in keywords:
            raise TypeError("The 'shapeout' keyword should not be used.")
        shapeout = matrix.shape[:-1]
        ProjectionBaseOperator.__init__(self, shapein=shapein, shapeout=shapeout, units=units, derived_units=derived_units, **keywords)
        self.matrix = matrix
        self.set_rule('T,.', self._rule_ptp, CompositionOperator)
        self.set_rule((DiagonalOperator, '.'), self._rule_diagonal, CompositionOperator)

    def apply_mask(self, mask):
        mask = np.asarray(mask, np.bool_)
        matrix = self.matrix
        if mask.shape != self.shapeout:
            raise ValueError(f"The mask shape '{mask.shape}' is incompatible with that of the pointing matrix '{matrix.shape}'.")
        matrix.value.T[...] *= 1 - mask.T

    @staticmethod
    def _rule_ptp(pt, p):
        if p.matrix.shape[-1] != 1:
            return
        cov = np.zeros(p.shapein)
        flib.pointingmatrix.ptp_one(p.matrix.ravel().view(np.int64), cov.ravel(), p.matrix.size, cov.size)
        return DiagonalOperator(cov)

    @staticmethod
    def _rule_diagonal(d, self):
        if self.matrix.shape[-1] != 1 or d.broadcast == 'rightward':
            return
        if d.dtype.kind == 'c':
            return
        matrix = self.matrix.copy()
        matrix.value[..., 0] *= d.get_data()
        result = ProjectionInMemoryOperator(matrix, derived_units=(self.duout, self.duin), attrin=self._attrin, attrout=self._attrout, classin=self.classin, classout=self.classout)
        result.unit = self.unit
        return result

class ProjectionOnFlyOperator(ProjectionBaseOperator):

    def __init__(self, place_holder, id, func, units=None, derived_units=None, **keywords):
        if 'matrix' not in place_holder:
            place_holder['matrix'] = None
            place_holder['id'] = None
        self.place_holder = place_holder
        self.id = id
        self.func = func
        ProjectionBaseOperator.__init__(self, units=units, derived_units=derived_units, **keywords)

    @property
    def matrix(self):
        matrix = self.place_holder['matrix']
        if matrix is not None and self.place_holder['id'] is self.id:
            return matrix
        self.place_holder['id'], self.place_holder['matrix'] = (None, None)
        matrix = self.func(self.id)
        self.place_holder['id'], self.place_holder['matrix'] = (self.id, matrix)
        return matrix

class ProjectionOperator(SparseOperator):

    def __init__(self, arg, **keywords):
        if type(arg) not in (FSRMatrix, FSRBlockMatrix, FSRRotation2dMatrix, FSRRotation3dMatrix):
            raise TypeError('The input sparse matrix type is invalid.')
        self._flib_id = {FSRMatrix: '', FSRBlockMatrix: '_block', FSRRotation2dMatrix: '_rot2d', FSRRotation3dMatrix: '_rot3d'}[type(arg)]
        SparseOperator.__init__(self, arg, **keywords)

    def canonical_basis_in_kernel_old(self, out=None, operation=operation_assignment):
        data = self.matrix.data
        shape = self.shapein
        if shape is None:
            shape = (self.matrix.shape[1],)
        elif self.matrix.block_shape[1] > 1:
            shape = shape[:-1]
        if out is None:
            if operation is not operation_assignment:
                raise ValueError('The array for inplace operation is not specified')
            out = empty(shape, bool)
        elif out.dtype != bool:
            raise TypeError("The keyword 'out' has an invalid type.")
        elif out.shape != shape:
            raise ValueError("The keyword 'out' has an incompatible shape.")
        if data.size == 0:
            operation(out, True)
            return out
        i, m = (int(_.dtype.itemsize) for _ in (data.index, self.matrix))
        f = f'fsr{self._flib_id}_kernel_i{i}_r{m}'
        n = product(shape)
        if hasattr(flib.operators, f):
            if operation in (operation_assignment, operator.iand, operator.imul):
                if operation is operation_assignment:
                    out[...] = True
                kernel = out
            else:
                kernel = np.ones_like(out)
            func = getattr(flib.operators, f)
            func(data.view(np.int8).ravel(), kernel.view(np.int8).ravel(), self.matrix.ncolmax, data.shape[0])
            if operation in (operation_assignment, operator.iand, operator.imul):
                return out
        else:
            if isinstance(self.matrix, FSRMatrix):
                indices = data.index[data.value != 0]
            elif isinstance(self.matrix, FSRRotation2dMatrix):
                indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
            else:
                indices = data.index[data.r11 != 0]
            kernel = np.histogram(indices, n, range=(0, n))[0] == 0
        operation(out, kernel)
        return out

    def canonical_basis_in_kernel(self, out=None, operation=operation_assignment):
        data = self.matrix.data
        shape = self.shapein
        if shape is None:
            shape = (self.matrix.shape[1],)
        elif self.matrix.block_shape[1] > 1:
            shape = shape[:-1]
        if out is None:
            if operation is not operation_assignment:
                raise ValueError('The array for inplace operation is not specified')
            out = empty(shape, bool)
        elif out.dtype != bool:
            raise TypeError("The keyword 'out' has an invalid type.")
        elif out.shape != shape:
            raise ValueError("The keyword 'out' has an incompatible shape.")
        if data.size == 0:
            operation(out, True)
            return out
        itype = data.dtype['index']
        ftype = data.dtype[1]
        if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (np.float32, np.float64):
            if operation in (operation_assignment, operator.iand, operator.imul):
                if operation is operation_assignment:
                    out[...] = True
                kernel = out
            else:
                kernel = np.ones_like(out)
            f = f'fsr_kernel_i{int(itype.itemsize)}'
            func = getattr(flib.sparse, f)
            kernel_ = np.ascontiguousarray(kernel)
            func(data.view(np.int8).ravel(), kernel_.view(np.int8).ravel(), self.matrix.ncolmax, product(data.shape[:-1]), data.strides[-1])
            if not kernel.flags.contiguous:
                kernel[...] = kernel_
            if operation in (operation_assignment, operator.iand, operator.imul):
                return out
        else:
            nonzero = np.zeros(data.shape, bool)
            for name in data.dtype.names:
                if name != 'index':
                    value = data[name].reshape(data.shape + (-1,))
                    nonzero |= np.any(value != 0, axis=-1)
            n = product(shape)
            kernel = np.histogram(data.index[nonzero], n, range=(0, n))[0] == 0
            kernel = kernel.reshape(shape)
        operation(out, kernel)
        return out

    def pT1(self, out=None, operation=operation_assignment):
        shapeout = self.shapein
        if shapeout is None:
            shapeout = (self.matrix.shape[1],)
        elif self.matrix.block_shape[1] > 1:
            shapeout = shapeout[:-1]
        if out is None:
            out = empty(shapeout, self.dtype)
        elif not isinstance(out, np.ndarray):
            raise TypeError('The output keyword is not an ndarray.')
        elif out.shape != shapeout:
            raise ValueError(f"The output arrays have a shape incompatible with the expected one '{shapeout}'.")
        if operation not in (operation_assignment, operator.iadd):
            raise ValueError('Invalid reduction operation.')
        isize = int(self.matrix.data.index.dtype.itemsize)
        rsize = int(self.matrix.dtype.itemsize)
        vsize = int(out.dtype.itemsize)
        f = f'fsr{self._flib_id}_pt1_i{isize}_r{rsize}_v{vsize}'
        if hasattr(flib.operators, f):
            if operation is operation_assignment:
                out[...] = 0
            func = getattr(flib.operators, f)
            out_ = np.ascontiguousarray(out)
            func(self.matrix.data.view(np.int8).ravel(), out_.ravel(), self.matrix.ncolmax, self.matrix.data.shape[0])
            if not out.flags.contiguous:
                out[...] = out_
        else:
            if self.shapeout is None:
                shapein = (self.matrix.shape[0],)
            else:
                shapein = self.shapeout
            if isinstance(self.matrix, FSRMatrix):
                x = ones(shapein, self.dtype)
                self.T(x, out=out, operation=operation)
            elif isinstance(self.matrix, FSRRotation2dMatrix):
                if operation is operation_assignment:
                    out[...] = 0
                index = self.matrix.data.index.ravel()
                data = np.sqrt(self.matrix.data.r11 ** 2 + self.matrix.data.r21 ** 2).ravel()
                for i, d in zip(index, data):
                    if i >= 0:
                        out.flat[i] += d
            else:
                x = ones(shapein, self.dtype)
                operation(out, self.T(x)[..., 0])
        return out

    def pTx_pT1(self, x, out=None, operation=operation_assignment):
        if isinstance(self.matrix, FSRRotation2dMatrix):
            raise NotImplementedError('This method does not make sense for FSRRotation2dMatrix sparse storage.')
        x = np.asarray(x, order='C')
        shapein = self.shapeout
        if shapein is None:
            block_size = self.matrix.block_shape[1]
            shapein = (self.matrix.shape[0],) + (() if block_size == 1 else (block_size,))
        shapeout = self.shapein
        if shapeout is None:
            shapeout = (self.matrix.shape[1],)
        elif self.matrix.block_shape[1] > 1:
            shapeout = shapeout[:-1]
        if x.shape != shapein:
            raise ValueError(f"Invalid input shape '{x.shape}'. Expected shape is '{shapein}'.")
        dtypeout = max(self.dtype, x.dtype)
        if out is None:
            pTx = empty(shapeout, dtypeout)
            pT1 = empty(shapeout, dtypeout)
        elif not isinstance(out, (list, tuple)) or len(out) != 2:
            raise TypeError('The out keyword is not a 2-tuple.')
        elif out[0].dtype != dtypeout or out[1].dtype != dtypeout:
            raise TypeError(f"The output arrays have a dtype incompatible with the expected one '{dtypeout.type}'.")
        elif out[0].shape != shapeout or out[1].shape != shapeout:
            raise ValueError(f"The output arrays have a shape incompatible with the expected one '{shapeout}'.")
        else:
            pTx, pT1 = out
        if operation not in (operation_assignment, operator.iadd):
            raise ValueError('Invalid reduction operation.')
        isize = int(self.matrix.data.index.dtype.itemsize)
        rsize = int(self.matrix.dtype.itemsize)
        vsize = int(dtypeout.itemsize)
        f = f'fsr{self._flib_id}_ptx_pt1_i{isize}_r{rsize}_v{vsize}'
        if hasattr(flib.operators, f):
            if operation is operation_assignment:
                pTx[...] = 0
                pT1[...] = 0
            x = np.asarray(x, dtype=dtypeout, order='C')
            pTx_, pT1_ = (np.ascontiguousarray(pTx), np.ascontiguousarray(pT1))
            func = getattr(flib.operators, f)
            func(self.matrix.data.view(np.int8).ravel(), x.T, pTx_.ravel(), pT1_.ravel(), self.matrix.ncolmax)
            if not pTx.flags.contiguous:
                pTx[...] = pTx_
            if not pT1.flags.contiguous:
                pT1[...] = pT1_
        else:
            self.pT1(out=pT1, operation=operation)
            if isinstance(self.matrix, FSRMatrix):
                self.T(x, out=pTx, operation=operation)
            else:
                operation(pTx, self.T(x)[..., 0])
        return (pTx, pT1)

@orthogonal
@inplace
class RollOperator(Operator):

    def __init__(self, n, axis=None, **keywords):
        Operator.__init__(self, **keywords)
        if axis is None:
            axis = -1 if isscalarlike(n) else tuple(range(-len(n), 0))
        self.axis = (axis,) if isscalarlike(axis) else tuple(axis)
        self.n = (n,) * len(self.axis) if isscalarlike(n) else tuple(n)
        if len(self.axis) != len(self.n):
            raise ValueError('There is a mismatch between the number of axes and offsets.')

    def direct(self, input, output):
        output[...] = np.roll(input, self.n[0], axis=self.axis[0])
        for n, axis in zip(self.n[1:], self.axis[1:]):
            output[...] = np.roll(output, n, axis=axis)

    def transpose(self, input, output):
        output[...] = np.roll(input, -self.n[0], axis=self.axis[0])
        for n, axis in zip(self.n[1:], self.axis[1:]):
            output[...] = np.roll(output, -n, axis=axis)

@orthogonal
class _CartesianEquatorialGalactic(DenseOperator):
    _g2e = np.linalg.qr([[-0.0548755604, 0.4941094279, -0.867666149], [-0.8734370902, -0.44482963, -0.1980763734], [-0.4838350155, 0.7469822445, 0.4559837762]])[0]

class CartesianEquatorial2GalacticOperator(_CartesianEquatorialGalactic):

    def __init__(self, **keywords):
        _CartesianEquatorialGalactic.__init__(self, self._g2e.T, **keywords)
        self.set_rule('T', lambda s: CartesianGalactic2EquatorialOperator())
        self.set_rule(('.', CartesianGalactic2EquatorialOperator), '1', CompositionOperator)

class CartesianGalactic2EquatorialOperator(_CartesianEquatorialGalactic):

    def __init__(self, **keywords):
        _CartesianEquatorialGalactic.__init__(self, self._g2e, **keywords)
        self.set_rule('T', lambda s: CartesianEquatorial2GalacticOperator())
        self.set_rule(('.', CartesianEquatorial2GalacticOperator), '1', CompositionOperator)

class _CartesianEquatorialHorizontal(DenseBlockDiagonalOperator):

    def __init__(self, convention, time, latitude, longitude, transpose, dtype=None, **keywords):
        conventions = ('NE',)
        if convention not in conventions:
            raise ValueError(f'Invalid azimuth angle convention {convention!r}. Expected values are {strenum(conventions)}.')
        lst = self._gst2lst(self._jd2gst(time.jd), longitude)
        lst = np.radians(lst * 15)
        latitude = np.radians(latitude)
        if dtype is None:
            dtype = np.result_type(float_dtype(lst.dtype), float_dtype(latitude.dtype))
        slat = np.sin(latitude)
        clat = np.cos(latitude)
        slst = np.sin(lst)
        clst = np.cos(lst)
        m = np.empty(np.broadcast(latitude, lst).shape + (3, 3), dtype)
        m[..., 0, 0] = -slat * clst
        m[..., 0, 1] = -slat * slst
        m[..., 0, 2] = clat
        m[..., 1, 0] = -slst
        m[..., 1, 1] = clst
        m[..., 1, 2] = 0
        m[..., 2, 0] = clat * clst
        m[..., 2, 1] = clat * slst
        m[..., 2, 2] = slat
        if transpose:
            m = m.swapaxes(-1, -2)
        keywords['flags'] = self.validate_flags(keywords.get('flags', {}), orthogonal=True)
        DenseBlockDiagonalOperator.__init__(self, m, **keywords)

    @staticmethod
    def _jd2gst(jd):
        jd0 = np.floor(jd - 0.5) + 0.5
        T = (jd0 - 2451545) / 36525
        T0 = 6.697374558 + 2400.051336 * T + 2.5862e-05 * T ** 2
        T0 %= 24
        ut = (jd - jd0) * 24
        T0 += ut * 1.002737909
        T0 %= 24
        return T0

    @staticmethod
    def _gst2lst(gst, longitude):
        return (gst + longitude / 15) % 24

class CartesianEquatorial2HorizontalOperator(_CartesianEquatorialHorizontal):

    def __init__(self, convention, time, latitude, longitude, **keywords):
        _CartesianEquatorialHorizontal.__init__(self, convention, time, latitude, longitude, False, **keywords)

class CartesianHorizontal2EquatorialOperator(_CartesianEquatorialHorizontal):

    def __init__(self, convention, time, latitude, longitude, **keywords):
        _CartesianEquatorialHorizontal.__init__(self, convention, time, latitude, longitude, True, **keywords)

class SphericalEquatorial2GalacticOperator(CompositionOperator):

    def __init__(self, conventionin='azimuth,elevation', conventionout='azimuth,elevation', degrees=False, **keywords):
        operands = [Cartesian2SphericalOperator(conventionout, degrees=degrees), CartesianEquatorial2GalacticOperator(), Spherical2CartesianOperator(conventionin, degrees=degrees)]
        CompositionOperator.__init__(self, operands, **keywords)

class SphericalGalactic2EquatorialOperator(CompositionOperator):

    def __init__(self, conventionin='azimuth,elevation', conventionout='azimuth,elevation', degrees=False, **keywords):
        operands = [Cartesian2SphericalOperator(conventionout, degrees=degrees), CartesianGalactic2EquatorialOperator(), Spherical2CartesianOperator(conventionin, degrees=degrees)]
        CompositionOperator.__init__(self, operands, **keywords)

class SphericalEquatorial2HorizontalOperator(CompositionOperator):

    def __init__(self, convention_horizontal, time, latitude, longitude, conventionin='azimuth,elevation', conventionout='azimuth,elevation', degrees=False, **keywords):
        operands = [Cartesian2SphericalOperator(conventionout, degrees=degrees), CartesianEquatorial2HorizontalOperator(convention_horizontal, time, latitude, longitude), Spherical2CartesianOperator(conventionin, degrees=degrees)]
        CompositionOperator.__init__(self, operands, **keywords)

class SphericalHorizontal2EquatorialOperator(CompositionOperator):

    def __init__(self, convention_horizontal, time, latitude, longitude, conventionin='azimuth,elevation', conventionout='azimuth,elevation', degrees=False, **keywords):
        operands = [Cartesian2SphericalOperator(conventionout, degrees=degrees), CartesianHorizontal2EquatorialOperator(convention_horizontal, time, latitude, longitude), Spherical2CartesianOperator(conventionin, degrees=degrees)]
        CompositionOperator.__init__(self, operands, **keywords)
