"""Which definitions state which property (regular expressions over qualified names)."""
import re

# property -> patterns (relative to 'pysimulators.'); all differences count
FULL = {
    'P03': [
        r'operators\.PointingMatrix\.(__new__|pack|isvalid|get_mask|empty|zeros|ones)',
        r'operators\.Projection\w*\.(apply_mask|get_mask|intersects|pT1|pTx_pT1|get_pTx_pT1|get_pTp|'
        r'_rule_ptp|canonical_basis_in_kernel\w*|_rule_diagonal)',
        r'operators\.Projection\w*\.(direct|transpose)',
        r'sparse\.\w+\.(_matvec|_rule_pTp|restrict|corestrict|todense|_rule_transpose)',
        r'sparse\.SparseOperator\.(restrict|corestrict|todense|_rule_pTp)',
    ],
    'P04': [
        r'sparse\..*',
        r'operators\.Projection(Base|InMemory|OnFly)?Operator\..*',
        r'operators\.PointingMatrix\..*',
        r'operators\._ravel_strided',
        r'packedtables\.scenes\.SceneGrid\.get_integration_operator',
    ],
    'P05': [
        r'sparse\..*(_matvec|_rule_pTp|_get_dtype_data|__init__|todense)',
        r'operators\.Projection\w*\..*', r'operators\.PointingMatrix\..*',
        r'operators\._ravel_strided',
        r'operators\.ConvolutionTruncatedExponentialOperator\..*',
        r'geometry\..*',
        r'datautils\.(distance2?|_distance2?_slow|profile)',
        r'wcsutils\.(minmax_degrees|mean_degrees|angle_lonlat|barycenter_lonlat)',
        r'wcsutils\.DistortionOperator\..*',
        r'interfaces\.healpy\.operators\.HealpixLaplacianOperator\..*',
        r'interfaces\.madmap1\..*',
        r'packedtables\.(layouts|scenes|samplings)\.\w+\.__init__',
        r'packedtables\.scenes\.SceneGrid\.get_integration_operator',
    ],
    'P06': [r'operators\.\w+\.(direct|transpose|validatein)', r'wcsutils\.\w+\.(direct|reshapein)',
            r'interfaces\.healpy\.operators\.\w+\.direct',
            r'sparse\.\w+\.(_matvec|direct)'],
    'P09': [r'quantities\..*', r'datatypes\.\w+\.(__array_function__|_convert_function_outputs|'
            r'_view_function_input|median|sort|astype|__getitem__)',
            r'interfaces\.healpy\.scenes\..*unit.*',
            r'datautils\.(psd2|profile_psd2|distance|distance2|_distance2?_slow)',
            r'operators\.Projection\w*\.(set_attr\w+|__init__|_rule_diagonal|get_pTx_pT1)',
            r'packedtables\.samplings\.SamplingSpherical\.velocity'],
    'P10': [r'datatypes\..*',
            r'quantities\.Quantity\.(__array_finalize__|__getitem__|__getslice__|__reduce__|__setstate__|'
            r'__new__|__array_ufunc__|_process_ufunc_result|__array_function__|_convert_function_outputs|'
            r'_view_function_\w+|_convert_function_\w+|tounit|inunit|SI|empty|ones|zeros|derived_units=?|'
            r'magnitude=?|unit=?)',
            r'operators\.Projection\w*\.(set_attr\w+|__init__|_rule_diagonal|get_pTx_pT1)',
            r'operators\.PointingMatrix\.(__new__|__array_finalize__)'],
    'P11': [r'operators\..*(_rule_\w+|__init__|set_attr\w+|block_diagonal|__str__|matrix|_ravel_strided)',
            r'operators\.\w+\.(direct|transpose|validatein|_jd2gst|_gst2lst)',
            r'sparse\..*(_rule_\w+|_transpose|__init__|restrict|corestrict|direct|validate\w+|reshape\w+|'
            r'__mul__|__rmul__)',
            r'wcsutils\.\w+Operator\..*',
            r'interfaces\.healpy\.operators\..*',
            r'interfaces\.healpy\.scenes\..*operator.*',
            r'packedtables\.scenes\.\w+\.get_\w+_operator',
            r'acquisitions\.\w+\.(get_operator|get_invntt_operator|get_operator_nbytes)',
            r'instruments\.\w+\.(get_operator|get_invntt_operator)',
            ],
    'P12': [r'mpiutils\..*', r'.*\.(scatter|gather|split|comm|get_distribution_operator)',
            r'acquisitions\.Acquisition\.(__getitem__|__init__|get_observation|get_noise|get_operator)',
            r'interfaces\.madmap1\..*',
            r'packedtables\.core\..*(index|__init__|__len__|all|pack|unpack)',
            r'packedtables\.(samplings|scenes)\..*(get_center|get_distribution_operator)',
            r'wcsutils\.(create_fitsheader_for|combine_fitsheader)'],
    'P13': [r'packedtables\.samplings\..*',
            r'operators\.\w*(Cartesian|Spherical|Equatorial|Horizontal|Galactic)\w*\..*',
            r'wcsutils\.(RotationBoresightEquatorialOperator\..*|angle_lonlat|barycenter_lonlat|'
            r'mean_degrees|minmax_degrees)',
            r'interfaces\.healpy\.operators\.(Cartesian2|Healpix2|Spherical2|_HealPix).*'],
    'P14': [r'packedtables\..*', r'instruments\.\w+\.(__getitem__|__len__|__iter__|pack|unpack|split|scatter)',
            r'acquisitions\.Acquisition\.(__getitem__|pack|unpack)'],
    'P16': [r'mpiutils\.(read_fits|write_fits|gather_fitsheader\w*|scatter_fitsheader)',
            r'interfaces\.madmap1\..*', r'datatypes\.\w+\.(__new__|save)'],
    'P18': [r'beams\..*', r'geometry\..*', r'noises\..*',
            r'datautils\.(gaussian|airy_disk|aperture_circular|phasemask_fourquadrant|distance|distance2|'
            r'profile|psd2|profile_psd2|integrated_profile|_distance2?_slow)',
            r'operators\.(PowerLawOperator|BlackBodyOperator|RollOperator|'
            r'ConvolutionTruncatedExponentialOperator)\..*',
            r'instruments\.\w+\.(get_noise|get_invntt_operator|__init__)',
            r'acquisitions\.\w+\.(get_noise|get_invntt_operator)',
            r'interfaces\.healpy\.(scenes|operators)\..*',
            r'wcsutils\.DistortionOperator\..*'],
    'P19': [r'wcsutils\..*', r'packedtables\.scenes\.SceneGrid\..*',
            r'interfaces\.madmap1\.MadMap1Observation\.get_map_header',
            r'packedtables\.layouts\.LayoutGrid\w*\..*'],
}

_rx = {p: re.compile('|'.join(f'(?:pysimulators\\.)(?:{x})$' for x in v)) for p, v in FULL.items()}


def tagged(prop, q):
    r = _rx.get(prop)
    return r is not None and r.match(q.rstrip('=') if q.endswith('=') else q) is not None
