import os
import sys
from pathlib import Path
import numpy as np
from astropy.io import fits as pyfits
from pyoperators.utils import omp_num_threads, product, split, strshape
from pyoperators.utils.mpi import DTYPE_MAP, MPI, combine
from .wcsutils import create_fitsheader_for, has_wcs
__all__ = []

def gather_fitsheader(header, comm=MPI.COMM_WORLD):
    if 'NAXIS' not in header:
        raise KeyError("The FITS header does not contain the 'NAXIS' keyword.")
    if 'NAXIS1' not in header:
        raise KeyError('Scalar FITS headers cannot be gathered.')
    naxis = str(header['NAXIS'])
    nlocal = header['NAXIS' + naxis]
    nglobal = combine(nlocal, comm=comm)
    s = split(nglobal, comm.size, comm.rank)
    header = header.copy()
    header['NAXIS' + naxis] = nglobal
    if 'CRPIX' + naxis in header:
        header['CRPIX' + naxis] += s.start
    return header

def gather_fitsheader_if_needed(header, comm=MPI.COMM_WORLD):
    if 'NAXIS' not in header:
        raise KeyError("The FITS header does not contain the 'NAXIS' keyword.")
    if 'NAXIS1' not in header:
        raise KeyError('Scalar FITS headers cannot be combined.')
    if comm.size == 1:
        return header
    if not has_wcs(header):
        raise ValueError('The input FITS header does not define a world coordinate system.')
    naxis = header['NAXIS']
    required_same = ['CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CDELT1', 'CDELT2']
    required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
    required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]
    headers = comm.allgather(header)
    for keyword in required_same:
        if keyword not in header:
            continue
        values = [h[keyword] for h in headers]
        if any((v != headers[0][keyword] for v in values)):
            raise ValueError(f'The FITS keyword {keyword!r} has different values across MPI processes: {values}')
    keyword = 'CRPIX' + str(naxis)
    if all((h[keyword] == headers[0][keyword] for h in headers)):
        return header
    return gather_fitsheader(header, comm=comm)

def scatter_fitsheader(header, comm=MPI.COMM_WORLD):
    if 'NAXIS' not in header:
        raise KeyError("The FITS header does not contain the 'NAXIS' keyword.")
    if 'NAXIS1' not in header:
        raise KeyError('Scalar FITS headers cannot be split.')
    axis = str(header['NAXIS'])
    nglobal = header['NAXIS' + axis]
    s = split(nglobal, comm.size, comm.rank)
    header = header.copy()
    header['NAXIS' + axis] = s.stop - s.start
    if 'CRPIX' + axis in header:
        header['CRPIX' + axis] -= s.start
    return header

def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WORLD):
    size = comm.size
    if size == 1:
        return (detectors.copy(), list(observations))
    if rank is None:
        rank = comm.Get_rank()
    nthreads = omp_num_threads()
    ndetectors = np.sum(~detectors)
    nobservations = len(observations)
    nx = max(nobservations, 1)
    ny = max(int(np.ceil(ndetectors / nthreads)), 1)
    blocksize = int(np.ceil(nx * ny / size))
    while True:
        for xblocksize in range(1, blocksize + 1):
            if blocksize / xblocksize != blocksize // xblocksize:
                continue
            yblocksize = int(blocksize // xblocksize)
            nx_block = int(np.ceil(nx / xblocksize))
            ny_block = int(np.ceil(ny / yblocksize))
            if nx_block * ny_block <= size:
                break
        if nx_block * ny_block <= size:
            break
        blocksize += 1
    ix = rank // ny_block
    iy = rank % ny_block
    if ix >= nx_block:
        idetector = slice(0, 0)
        iobservation = slice(0, 0)
    else:
        idetector = slice(iy * yblocksize * nthreads, (iy + 1) * yblocksize * nthreads)
        iobservation = slice(ix * xblocksize, (ix + 1) * xblocksize)
    detectors_ = detectors.copy()
    igood = np.where(~detectors_.ravel())[0]
    detectors_.ravel()[igood[0:idetector.start]] = True
    detectors_.ravel()[igood[idetector.stop:]] = True
    observations_ = observations[iobservation]
    return (detectors_, observations_)

def read_fits(filename, extname, comm):
    if isinstance(filename, str):
        filename = Path(filename)
    files = comm.allgather(filename.as_posix() + str(extname))
    all_equal = all([f == files[0] for f in files])
    if comm.size > 1 and (not all_equal):
        raise ValueError('The file name is not the same for all MPI jobs.')
    with pyfits.open(filename) as fits:
        if extname is not None:
            hdu = fits[extname]
        else:
            for hdu in fits:
                if hdu.header['NAXIS'] > 0 and hdu.data is not None:
                    break
            else:
                raise OSError('The FITS file has no data.')
        header = hdu.header
        n = header['NAXIS' + str(header['NAXIS'])]
        s = split(n, comm.size, comm.rank)
        output = pyfits.Section(hdu)[s]
        if not output.dtype.isnative:
            output = output.byteswap().view(output.dtype.newbyteorder('='))
    header = scatter_fitsheader(header, comm=comm)
    comm.Barrier()
    return (output, header)

def write_fits(filename, data, header, extension, extname, comm):
    if isinstance(filename, str):
        filename = Path(filename)
    files = comm.allgather(filename.as_posix() + str(extname))
    all_equal = all((f == files[0] for f in files))
    if comm.size > 1 and (not all_equal):
        raise ValueError('The file name is not the same for all MPI jobs.')
    ndims = comm.allgather(data.ndim)
    if any((n != ndims[0] for n in ndims)):
        raise ValueError(f'The arrays have an incompatible number of dimensions: {ndims}.')
    ndim = ndims[0]
    shapes = comm.allgather(data.shape)
    if any((s[1:] != shapes[0][1:] for s in shapes)):
        raise ValueError(f"The arrays have incompatible shapes: '{strshape(shapes)}'.")
    if header is None:
        header = create_fitsheader_for(data, extname=extname)
    else:
        header = header.copy()
    if extname is not None:
        header['extname'] = extname
    if not extension:
        if comm.rank == 0:
            try:
                os.remove(filename)
            except OSError:
                pass
    if comm.size == 1:
        if not extension:
            hdu = pyfits.PrimaryHDU(data, header)
            hdu.writeto(filename, overwrite=True)
        else:
            pyfits.append(filename, data, header)
        return
    nglobal = sum((s[0] for s in shapes))
    s = split(nglobal, comm.size, comm.rank)
    nlocal = s.stop - s.start
    if data.shape[0] != nlocal:
        msg = '' if comm.rank > 0 else f' Shapes are: {shapes}.'
        raise ValueError(f"On rank {comm.rank}, the local array shape '{data.shape}' is invalid. The first dimension does not match the expected local number '{nlocal}' given the global number '{nglobal}'.{msg}")
    if comm.rank == 0:
        header['NAXIS' + str(ndim)] = nglobal
        shdu = pyfits.StreamingHDU(filename, header)
        data_loc = shdu._data_offset
        shdu.close()
    else:
        data_loc = None
    data_loc = comm.bcast(data_loc)
    chunk = product(data.shape[1:])
    rank_nowork = min(comm.size, nglobal)
    group = comm.Get_group()
    newgroup = group.Incl(list(range(rank_nowork)))
    newcomm = comm.Create(newgroup)
    newgroup.Free()
    group.Free()
    if comm.rank < rank_nowork:
        if sys.byteorder == 'little' and data.dtype.byteorder == '=' or data.dtype.byteorder == '<':
            data = data.byteswap()
        data = data.view(data.dtype.newbyteorder('='))
        mtype = DTYPE_MAP[data.dtype]
        ftype = mtype.Create_subarray([nglobal * chunk], [nlocal * chunk], [s.start * chunk])
        ftype.Commit()
        f = MPI.File.Open(newcomm, filename, amode=MPI.MODE_APPEND | MPI.MODE_WRONLY | MPI.MODE_CREATE)
        f.Set_view(data_loc, mtype, ftype, 'native', MPI.INFO_NULL)
        f.Write_all(data)
        f.Close()
        ftype.Free()
        newcomm.Free()
    if comm.rank == 0:
        datasize = nglobal * chunk * int(data.dtype.itemsize)
        BLOCK_SIZE = 2880
        padding = -datasize % BLOCK_SIZE
        with open(filename, 'a') as f:
            if f.tell() - data_loc != datasize:
                raise RuntimeError('Unexpected file size.')
            f.write(padding * '\x00')
    comm.Barrier()
