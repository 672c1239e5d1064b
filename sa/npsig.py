"""Parameter names, order and constant defaults of NumPy functions and
ndarray methods (kind: p positional only, a either, k keyword only), so that
`f(x, axis=-1)` and `f(x, -1)` are one call."""
SIG = {
    'm:all': (('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque')),
    'm:any': (('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque')),
    'm:argmax': (('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'k', 'opaque')),
    'm:argmin': (('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'k', 'opaque')),
    'm:argsort': (('axis', 'a', 'def', -1), ('kind', 'a', 'def', None), ('order', 'a', 'def', None), ('stable', 'k', 'def', None), ('descending', 'k', 'opaque')),
    'm:astype': (('dtype', 'p', 'req'), ('copy', 'k', 'def', True), ('device', 'k', 'def', None)),
    'm:cumsum': (('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None)),
    'm:max': (('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'm:mean': (('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque')),
    'm:min': (('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'm:prod': (('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'm:ravel': (('order', 'a', 'def', 'C'),),
    'm:repeat': (('repeats', 'a', 'req'), ('axis', 'a', 'def', None)),
    'm:round': (('decimals', 'a', 'def', 0), ('out', 'a', 'def', None)),
    'm:searchsorted': (('v', 'a', 'req'), ('side', 'a', 'def', 'left'), ('sorter', 'a', 'def', None)),
    'm:squeeze': (('axis', 'a', 'def', None),),
    'm:std': (('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('ddof', 'a', 'def', 0), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque'), ('mean', 'k', 'opaque'), ('correction', 'k', 'opaque')),
    'm:sum': (('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'm:swapaxes': (('axis1', 'a', 'req'), ('axis2', 'a', 'req')),
    'm:take': (('indices', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('mode', 'a', 'def', 'raise')),
    'm:var': (('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('ddof', 'a', 'def', 0), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque'), ('mean', 'k', 'opaque'), ('correction', 'k', 'opaque')),
    'numpy.all': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque')),
    'numpy.allclose': (('a', 'a', 'req'), ('b', 'a', 'req'), ('rtol', 'a', 'opaque'), ('atol', 'a', 'opaque'), ('equal_nan', 'a', 'def', False)),
    'numpy.amax': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.amin': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.angle': (('z', 'a', 'req'), ('deg', 'a', 'def', False)),
    'numpy.any': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque')),
    'numpy.append': (('arr', 'a', 'req'), ('values', 'a', 'req'), ('axis', 'a', 'def', None)),
    'numpy.apply_over_axes': (('func', 'a', 'req'), ('a', 'a', 'req'), ('axes', 'a', 'req')),
    'numpy.arange': (('start_or_stop', 'p', 'req'), ('stop', 'a', 'def', None), ('step', 'a', 'def', 1), ('dtype', 'k', 'def', None), ('device', 'k', 'def', None), ('like', 'k', 'def', None)),
    'numpy.argmax': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'k', 'opaque')),
    'numpy.argmin': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'k', 'opaque')),
    'numpy.argpartition': (('a', 'a', 'req'), ('kth', 'a', 'req'), ('axis', 'a', 'def', -1), ('kind', 'a', 'def', 'introselect'), ('order', 'a', 'def', None)),
    'numpy.argsort': (('a', 'a', 'req'), ('axis', 'a', 'def', -1), ('kind', 'a', 'def', None), ('order', 'a', 'def', None), ('stable', 'k', 'def', None), ('descending', 'k', 'opaque')),
    'numpy.argwhere': (('a', 'a', 'req'),),
    'numpy.around': (('a', 'a', 'req'), ('decimals', 'a', 'def', 0), ('out', 'a', 'def', None)),
    'numpy.array': (('object', 'a', 'req'), ('dtype', 'a', 'def', None), ('copy', 'k', 'def', True), ('order', 'k', 'def', 'K'), ('subok', 'k', 'def', False), ('ndmin', 'k', 'def', 0)),
    'numpy.array2string': (('a', 'a', 'req'), ('max_line_width', 'a', 'def', None), ('precision', 'a', 'def', None), ('suppress_small', 'a', 'def', None), ('separator', 'a', 'def', ' '), ('prefix', 'a', 'def', ''), ('formatter', 'k', 'def', None), ('threshold', 'k', 'def', None), ('edgeitems', 'k', 'def', None), ('sign', 'k', 'def', None), ('floatmode', 'k', 'def', None), ('suffix', 'k', 'def', ''), ('legacy', 'k', 'def', None)),
    'numpy.array_equal': (('a1', 'a', 'req'), ('a2', 'a', 'req'), ('equal_nan', 'a', 'def', False)),
    'numpy.array_equiv': (('a1', 'a', 'req'), ('a2', 'a', 'req')),
    'numpy.array_repr': (('arr', 'a', 'req'), ('max_line_width', 'a', 'def', None), ('precision', 'a', 'def', None), ('suppress_small', 'a', 'def', None)),
    'numpy.array_split': (('ary', 'a', 'req'), ('indices_or_sections', 'a', 'req'), ('axis', 'a', 'def', 0)),
    'numpy.array_str': (('a', 'a', 'req'), ('max_line_width', 'a', 'def', None), ('precision', 'a', 'def', None), ('suppress_small', 'a', 'def', None)),
    'numpy.asanyarray': (('a', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', None), ('device', 'k', 'def', None), ('copy', 'k', 'def', None), ('like', 'k', 'def', None)),
    'numpy.asarray': (('a', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', None)),
    'numpy.asarray_chkfinite': (('a', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', None)),
    'numpy.ascontiguousarray': (('a', 'a', 'req'), ('dtype', 'a', 'def', None), ('like', 'k', 'def', None)),
    'numpy.asfortranarray': (('a', 'a', 'req'), ('dtype', 'a', 'def', None), ('like', 'k', 'def', None)),
    'numpy.asmatrix': (('data', 'a', 'req'), ('dtype', 'a', 'def', None)),
    'numpy.astype': (('x', 'p', 'req'), ('dtype', 'p', 'req'), ('copy', 'k', 'def', True), ('device', 'k', 'def', None)),
    'numpy.average': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('weights', 'a', 'def', None), ('returned', 'a', 'def', False), ('keepdims', 'k', 'opaque')),
    'numpy.bartlett': (('M', 'a', 'req'),),
    'numpy.base_repr': (('number', 'a', 'req'), ('base', 'a', 'def', 2), ('padding', 'a', 'def', 0)),
    'numpy.binary_repr': (('num', 'a', 'req'), ('width', 'a', 'def', None)),
    'numpy.bincount': (('x', 'p', 'req'), ('weights', 'a', 'def', None), ('minlength', 'a', 'def', 0)),
    'numpy.blackman': (('M', 'a', 'req'),),
    'numpy.block': (('arrays', 'a', 'req'),),
    'numpy.bmat': (('obj', 'a', 'req'), ('ldict', 'a', 'def', None), ('gdict', 'a', 'def', None)),
    'numpy.broadcast_to': (('array', 'a', 'req'), ('shape', 'a', 'req'), ('subok', 'a', 'def', False)),
    'numpy.busday_count': (('begindates', 'a', 'req'), ('enddates', 'a', 'req'), ('weekmask', 'a', 'def', '1111100'), ('holidays', 'a', 'opaque'), ('busdaycal', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.busday_offset': (('dates', 'a', 'req'), ('offsets', 'a', 'req'), ('roll', 'a', 'def', 'raise'), ('weekmask', 'a', 'def', '1111100'), ('holidays', 'a', 'def', None), ('busdaycal', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.can_cast': (('from_', 'a', 'req'), ('to', 'a', 'req'), ('casting', 'a', 'def', 'safe')),
    'numpy.choose': (('a', 'a', 'req'), ('choices', 'a', 'req'), ('out', 'a', 'def', None), ('mode', 'a', 'def', 'raise')),
    'numpy.column_stack': (('tup', 'a', 'req'),),
    'numpy.compress': (('condition', 'a', 'req'), ('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.concat': (('arrays', 'p', 'req'), ('axis', 'a', 'def', 0), ('out', 'a', 'def', None), ('dtype', 'k', 'def', None), ('casting', 'k', 'def', 'same_kind')),
    'numpy.concatenate': (('arrays', 'a', 'req'), ('axis', 'a', 'def', 0)),
    'numpy.convolve': (('a', 'a', 'req'), ('v', 'a', 'req'), ('mode', 'a', 'def', 'full')),
    'numpy.copy': (('a', 'a', 'req'), ('order', 'a', 'def', 'K'), ('subok', 'a', 'def', False)),
    'numpy.copyto': (('dst', 'a', 'req'), ('src', 'a', 'req'), ('casting', 'a', 'def', 'same_kind'), ('where', 'a', 'def', True)),
    'numpy.corrcoef': (('x', 'a', 'req'), ('y', 'a', 'def', None), ('rowvar', 'a', 'def', True), ('dtype', 'k', 'def', None)),
    'numpy.correlate': (('a', 'a', 'req'), ('v', 'a', 'req'), ('mode', 'a', 'def', 'valid')),
    'numpy.count_nonzero': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('keepdims', 'k', 'def', False)),
    'numpy.cov': (('m', 'a', 'req'), ('y', 'a', 'def', None), ('rowvar', 'a', 'def', True), ('bias', 'a', 'def', False), ('ddof', 'a', 'def', None), ('fweights', 'a', 'def', None), ('aweights', 'a', 'def', None), ('dtype', 'k', 'def', None)),
    'numpy.cross': (('a', 'a', 'req'), ('b', 'a', 'req'), ('axisa', 'a', 'def', -1), ('axisb', 'a', 'def', -1), ('axisc', 'a', 'def', -1), ('axis', 'a', 'def', None)),
    'numpy.cumprod': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.cumsum': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.cumulative_prod': (('x', 'p', 'req'), ('axis', 'k', 'def', None), ('dtype', 'k', 'def', None), ('out', 'k', 'def', None), ('include_initial', 'k', 'def', False)),
    'numpy.cumulative_sum': (('x', 'p', 'req'), ('axis', 'k', 'def', None), ('dtype', 'k', 'def', None), ('out', 'k', 'def', None), ('include_initial', 'k', 'def', False)),
    'numpy.datetime_as_string': (('arr', 'a', 'req'), ('unit', 'a', 'def', None), ('timezone', 'a', 'def', 'naive'), ('casting', 'a', 'def', 'same_kind')),
    'numpy.delete': (('arr', 'a', 'req'), ('obj', 'a', 'req'), ('axis', 'a', 'def', None)),
    'numpy.diag': (('v', 'a', 'req'), ('k', 'a', 'def', 0)),
    'numpy.diag_indices': (('n', 'a', 'req'), ('ndim', 'a', 'def', 2)),
    'numpy.diag_indices_from': (('arr', 'a', 'req'),),
    'numpy.diagflat': (('v', 'a', 'req'), ('k', 'a', 'def', 0)),
    'numpy.diagonal': (('a', 'a', 'req'), ('offset', 'a', 'def', 0), ('axis1', 'a', 'def', 0), ('axis2', 'a', 'def', 1)),
    'numpy.diff': (('a', 'a', 'req'), ('n', 'a', 'def', 1), ('axis', 'a', 'def', -1), ('prepend', 'a', 'opaque'), ('append', 'a', 'opaque')),
    'numpy.digitize': (('x', 'a', 'req'), ('bins', 'a', 'req'), ('right', 'a', 'def', False)),
    'numpy.dot': (('a', 'a', 'req'), ('b', 'a', 'req'), ('out', 'a', 'def', None)),
    'numpy.dsplit': (('ary', 'a', 'req'), ('indices_or_sections', 'a', 'req')),
    'numpy.dstack': (('tup', 'a', 'req'),),
    'numpy.ediff1d': (('ary', 'a', 'req'), ('to_end', 'a', 'def', None), ('to_begin', 'a', 'def', None)),
    'numpy.empty': (('shape', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', 'C')),
    'numpy.empty_like': (('prototype', 'p', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', 'K'), ('subok', 'a', 'def', True), ('shape', 'a', 'def', None), ('device', 'k', 'def', None)),
    'numpy.expand_dims': (('a', 'a', 'req'), ('axis', 'a', 'req')),
    'numpy.extract': (('condition', 'a', 'req'), ('arr', 'a', 'req')),
    'numpy.eye': (('N', 'a', 'req'), ('M', 'a', 'def', None), ('k', 'a', 'def', 0), ('dtype', 'a', 'opaque'), ('order', 'a', 'def', 'C'), ('device', 'k', 'def', None), ('like', 'k', 'def', None)),
    'numpy.fill_diagonal': (('a', 'a', 'req'), ('val', 'a', 'req'), ('wrap', 'a', 'def', False)),
    'numpy.fix': (('x', 'a', 'req'), ('out', 'a', 'def', None)),
    'numpy.flatnonzero': (('a', 'a', 'req'),),
    'numpy.flip': (('m', 'a', 'req'), ('axis', 'a', 'def', None)),
    'numpy.fliplr': (('m', 'a', 'req'),),
    'numpy.flipud': (('m', 'a', 'req'),),
    'numpy.format_float_positional': (('x', 'a', 'req'), ('precision', 'a', 'def', None), ('unique', 'a', 'def', True), ('fractional', 'a', 'def', True), ('trim', 'a', 'def', 'k'), ('sign', 'a', 'def', False), ('pad_left', 'a', 'def', None), ('pad_right', 'a', 'def', None), ('min_digits', 'a', 'def', None)),
    'numpy.format_float_scientific': (('x', 'a', 'req'), ('precision', 'a', 'def', None), ('unique', 'a', 'def', True), ('trim', 'a', 'def', 'k'), ('sign', 'a', 'def', False), ('pad_left', 'a', 'def', None), ('exp_digits', 'a', 'def', None), ('min_digits', 'a', 'def', None)),
    'numpy.from_dlpack': (('x', 'p', 'req'), ('device', 'k', 'def', None), ('copy', 'k', 'def', None)),
    'numpy.frombuffer': (('buffer', 'a', 'req'), ('dtype', 'a', 'def', None), ('count', 'a', 'def', -1), ('offset', 'a', 'def', 0), ('like', 'k', 'def', None)),
    'numpy.fromfile': (('file', 'a', 'req'), ('dtype', 'a', 'def', None), ('count', 'a', 'def', -1), ('sep', 'a', 'def', ''), ('offset', 'a', 'def', 0), ('like', 'k', 'def', None)),
    'numpy.fromiter': (('iter', 'a', 'req'), ('dtype', 'a', 'req'), ('count', 'a', 'def', -1), ('like', 'k', 'def', None)),
    'numpy.fromregex': (('file', 'a', 'req'), ('regexp', 'a', 'req'), ('dtype', 'a', 'req'), ('encoding', 'a', 'def', None)),
    'numpy.fromstring': (('string', 'a', 'req'), ('dtype', 'a', 'def', None), ('count', 'a', 'def', -1), ('sep', 'k', 'req'), ('like', 'k', 'def', None)),
    'numpy.full': (('shape', 'a', 'req'), ('fill_value', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', 'C'), ('device', 'k', 'def', None), ('like', 'k', 'def', None)),
    'numpy.full_like': (('a', 'a', 'req'), ('fill_value', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', 'K'), ('subok', 'a', 'def', True), ('shape', 'a', 'def', None), ('device', 'k', 'def', None)),
    'numpy.genfromtxt': (('fname', 'a', 'req'), ('dtype', 'a', 'opaque'), ('comments', 'a', 'def', '#'), ('delimiter', 'a', 'def', None), ('skip_header', 'a', 'def', 0), ('skip_footer', 'a', 'def', 0), ('converters', 'a', 'def', None), ('missing_values', 'a', 'def', None), ('filling_values', 'a', 'def', None), ('usecols', 'a', 'def', None), ('names', 'a', 'def', None), ('excludelist', 'a', 'def', None), ('deletechars', 'a', 'def', " !#$%&'()*+,-./:;<=>?@[\\]^{|}~"), ('replace_space', 'a', 'def', '_'), ('autostrip', 'a', 'def', False), ('case_sensitive', 'a', 'def', True), ('defaultfmt', 'a', 'def', 'f%i'), ('unpack', 'a', 'def', None), ('usemask', 'a', 'def', False), ('loose', 'a', 'def', True), ('invalid_raise', 'a', 'def', True), ('max_rows', 'a', 'def', None), ('encoding', 'a', 'def', None), ('ndmin', 'k', 'def', 0), ('like', 'k', 'def', None)),
    'numpy.geomspace': (('start', 'a', 'req'), ('stop', 'a', 'req'), ('num', 'a', 'def', 50), ('endpoint', 'a', 'def', True), ('dtype', 'a', 'def', None), ('axis', 'a', 'def', 0)),
    'numpy.hamming': (('M', 'a', 'req'),),
    'numpy.hanning': (('M', 'a', 'req'),),
    'numpy.histogram': (('a', 'a', 'req'), ('bins', 'a', 'def', 10), ('range', 'a', 'def', None), ('density', 'a', 'def', None), ('weights', 'a', 'def', None)),
    'numpy.histogram2d': (('x', 'a', 'req'), ('y', 'a', 'req'), ('bins', 'a', 'def', 10), ('range', 'a', 'def', None), ('density', 'a', 'def', None), ('weights', 'a', 'def', None)),
    'numpy.histogram_bin_edges': (('a', 'a', 'req'), ('bins', 'a', 'def', 10), ('range', 'a', 'def', None), ('weights', 'a', 'def', None)),
    'numpy.histogramdd': (('sample', 'a', 'req'), ('bins', 'a', 'def', 10), ('range', 'a', 'def', None), ('density', 'a', 'def', None), ('weights', 'a', 'def', None)),
    'numpy.hsplit': (('ary', 'a', 'req'), ('indices_or_sections', 'a', 'req')),
    'numpy.hstack': (('tup', 'a', 'req'), ('dtype', 'k', 'def', None), ('casting', 'k', 'def', 'same_kind')),
    'numpy.i0': (('x', 'a', 'req'),),
    'numpy.identity': (('n', 'a', 'req'), ('dtype', 'a', 'def', None), ('like', 'k', 'def', None)),
    'numpy.imag': (('val', 'a', 'req'),),
    'numpy.indices': (('dimensions', 'a', 'req'), ('dtype', 'a', 'opaque'), ('sparse', 'a', 'def', False)),
    'numpy.info': (('object', 'a', 'def', None), ('maxwidth', 'a', 'def', 76), ('output', 'a', 'def', None), ('toplevel', 'a', 'def', 'numpy')),
    'numpy.insert': (('arr', 'a', 'req'), ('obj', 'a', 'req'), ('values', 'a', 'req'), ('axis', 'a', 'def', None)),
    'numpy.interp': (('x', 'a', 'req'), ('xp', 'a', 'req'), ('fp', 'a', 'req'), ('left', 'a', 'def', None), ('right', 'a', 'def', None), ('period', 'a', 'def', None)),
    'numpy.intersect1d': (('ar1', 'a', 'req'), ('ar2', 'a', 'req'), ('assume_unique', 'a', 'def', False), ('return_indices', 'a', 'def', False)),
    'numpy.is_busday': (('dates', 'a', 'req'), ('weekmask', 'a', 'def', '1111100'), ('holidays', 'a', 'def', None), ('busdaycal', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.isclose': (('a', 'a', 'req'), ('b', 'a', 'req'), ('rtol', 'a', 'opaque'), ('atol', 'a', 'opaque'), ('equal_nan', 'a', 'def', False)),
    'numpy.iscomplex': (('x', 'a', 'req'),),
    'numpy.iscomplexobj': (('x', 'a', 'req'),),
    'numpy.isdtype': (('dtype', 'a', 'req'), ('kind', 'a', 'req')),
    'numpy.isfortran': (('a', 'a', 'req'),),
    'numpy.isin': (('element', 'a', 'req'), ('test_elements', 'a', 'req'), ('assume_unique', 'a', 'def', False), ('invert', 'a', 'def', False), ('kind', 'k', 'def', None)),
    'numpy.isneginf': (('x', 'a', 'req'), ('out', 'a', 'def', None)),
    'numpy.isposinf': (('x', 'a', 'req'), ('out', 'a', 'def', None)),
    'numpy.isreal': (('x', 'a', 'req'),),
    'numpy.isrealobj': (('x', 'a', 'req'),),
    'numpy.isscalar': (('element', 'a', 'req'),),
    'numpy.issubdtype': (('arg1', 'a', 'req'), ('arg2', 'a', 'req')),
    'numpy.iterable': (('y', 'a', 'req'),),
    'numpy.kaiser': (('M', 'a', 'req'), ('beta', 'a', 'req')),
    'numpy.kron': (('a', 'a', 'req'), ('b', 'a', 'req')),
    'numpy.lexsort': (('keys', 'a', 'req'), ('axis', 'a', 'def', -1)),
    'numpy.linspace': (('start', 'a', 'req'), ('stop', 'a', 'req'), ('num', 'a', 'def', 50), ('endpoint', 'a', 'def', True), ('retstep', 'a', 'def', False), ('dtype', 'a', 'def', None), ('axis', 'a', 'def', 0), ('device', 'k', 'def', None)),
    'numpy.load': (('file', 'a', 'req'), ('mmap_mode', 'a', 'def', None), ('allow_pickle', 'a', 'def', False), ('fix_imports', 'a', 'def', True), ('encoding', 'a', 'def', 'ASCII'), ('max_header_size', 'k', 'def', 10000)),
    'numpy.loadtxt': (('fname', 'a', 'req'), ('dtype', 'a', 'opaque'), ('comments', 'a', 'def', '#'), ('delimiter', 'a', 'def', None), ('converters', 'a', 'def', None), ('skiprows', 'a', 'def', 0), ('usecols', 'a', 'def', None), ('unpack', 'a', 'def', False), ('ndmin', 'a', 'def', 0), ('encoding', 'a', 'def', None), ('max_rows', 'a', 'def', None), ('quotechar', 'k', 'def', None), ('like', 'k', 'def', None)),
    'numpy.logspace': (('start', 'a', 'req'), ('stop', 'a', 'req'), ('num', 'a', 'def', 50), ('endpoint', 'a', 'def', True), ('base', 'a', 'opaque'), ('dtype', 'a', 'def', None), ('axis', 'a', 'def', 0)),
    'numpy.mask_indices': (('n', 'a', 'req'), ('mask_func', 'a', 'req'), ('k', 'a', 'def', 0)),
    'numpy.max': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.may_share_memory': (('a', 'p', 'req'), ('b', 'p', 'req'), ('max_work', 'a', 'def', 0)),
    'numpy.mean': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque')),
    'numpy.median': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('overwrite_input', 'a', 'def', False), ('keepdims', 'a', 'def', False)),
    'numpy.min': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.mintypecode': (('typechars', 'a', 'req'), ('typeset', 'a', 'def', 'GDFgdf'), ('default', 'a', 'def', 'd')),
    'numpy.moveaxis': (('a', 'a', 'req'), ('source', 'a', 'req'), ('destination', 'a', 'req')),
    'numpy.nan_to_num': (('x', 'a', 'req'), ('copy', 'a', 'def', True), ('nan', 'a', 'opaque'), ('posinf', 'a', 'def', None), ('neginf', 'a', 'def', None)),
    'numpy.nanargmax': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'k', 'opaque')),
    'numpy.nanargmin': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'k', 'opaque')),
    'numpy.nancumprod': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.nancumsum': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.nanmax': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.nanmean': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque')),
    'numpy.nanmedian': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('overwrite_input', 'a', 'def', False), ('keepdims', 'a', 'opaque')),
    'numpy.nanmin': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.nanpercentile': (('a', 'a', 'req'), ('q', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('overwrite_input', 'a', 'def', False), ('method', 'a', 'def', 'linear'), ('keepdims', 'a', 'opaque'), ('weights', 'k', 'def', None)),
    'numpy.nanprod': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.nanquantile': (('a', 'a', 'req'), ('q', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('overwrite_input', 'a', 'def', False), ('method', 'a', 'def', 'linear'), ('keepdims', 'a', 'opaque'), ('weights', 'k', 'def', None)),
    'numpy.nanstd': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('ddof', 'a', 'def', 0), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque'), ('mean', 'k', 'opaque'), ('correction', 'k', 'opaque')),
    'numpy.nansum': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.nanvar': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('ddof', 'a', 'def', 0), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque'), ('mean', 'k', 'opaque'), ('correction', 'k', 'opaque')),
    'numpy.ndim': (('a', 'a', 'req'),),
    'numpy.nested_iters': (('op', 'a', 'req'), ('axes', 'a', 'req'), ('flags', 'a', 'def', None), ('op_flags', 'a', 'def', None), ('op_dtypes', 'a', 'def', None), ('order', 'a', 'def', 'K'), ('casting', 'a', 'def', 'safe'), ('buffersize', 'a', 'def', 0)),
    'numpy.nonzero': (('a', 'a', 'req'),),
    'numpy.ones': (('shape', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', 'C'), ('device', 'k', 'def', None), ('like', 'k', 'def', None)),
    'numpy.ones_like': (('a', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', 'K'), ('subok', 'a', 'def', True), ('shape', 'a', 'def', None), ('device', 'k', 'def', None)),
    'numpy.outer': (('a', 'a', 'req'), ('b', 'a', 'req'), ('out', 'a', 'def', None)),
    'numpy.packbits': (('a', 'p', 'req'), ('axis', 'a', 'def', None), ('bitorder', 'a', 'def', 'big')),
    'numpy.partition': (('a', 'a', 'req'), ('kth', 'a', 'req'), ('axis', 'a', 'def', -1), ('kind', 'a', 'def', 'introselect'), ('order', 'a', 'def', None)),
    'numpy.percentile': (('a', 'a', 'req'), ('q', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('overwrite_input', 'a', 'def', False), ('method', 'a', 'def', 'linear'), ('keepdims', 'a', 'def', False), ('weights', 'k', 'def', None)),
    'numpy.permute_dims': (('a', 'a', 'req'), ('axes', 'a', 'def', None)),
    'numpy.place': (('arr', 'a', 'req'), ('mask', 'a', 'req'), ('vals', 'a', 'req')),
    'numpy.poly': (('seq_of_zeros', 'a', 'req'),),
    'numpy.polyadd': (('a1', 'a', 'req'), ('a2', 'a', 'req')),
    'numpy.polyder': (('p', 'a', 'req'), ('m', 'a', 'def', 1)),
    'numpy.polydiv': (('u', 'a', 'req'), ('v', 'a', 'req')),
    'numpy.polyfit': (('x', 'a', 'req'), ('y', 'a', 'req'), ('deg', 'a', 'req'), ('rcond', 'a', 'def', None), ('full', 'a', 'def', False), ('w', 'a', 'def', None), ('cov', 'a', 'def', False)),
    'numpy.polyint': (('p', 'a', 'req'), ('m', 'a', 'def', 1), ('k', 'a', 'def', None)),
    'numpy.polymul': (('a1', 'a', 'req'), ('a2', 'a', 'req')),
    'numpy.polysub': (('a1', 'a', 'req'), ('a2', 'a', 'req')),
    'numpy.polyval': (('p', 'a', 'req'), ('x', 'a', 'req')),
    'numpy.prod': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.ptp': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque')),
    'numpy.put': (('a', 'a', 'req'), ('ind', 'a', 'req'), ('v', 'a', 'req'), ('mode', 'a', 'def', 'raise')),
    'numpy.put_along_axis': (('arr', 'a', 'req'), ('indices', 'a', 'req'), ('values', 'a', 'req'), ('axis', 'a', 'req')),
    'numpy.putmask': (('a', 'p', 'req'), ('mask', 'a', 'req'), ('values', 'a', 'req')),
    'numpy.quantile': (('a', 'a', 'req'), ('q', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('overwrite_input', 'a', 'def', False), ('method', 'a', 'def', 'linear'), ('keepdims', 'a', 'def', False), ('weights', 'k', 'def', None)),
    'numpy.ravel': (('a', 'a', 'req'), ('order', 'a', 'def', 'C')),
    'numpy.ravel_multi_index': (('multi_index', 'a', 'req'), ('dims', 'a', 'req'), ('mode', 'a', 'def', 'raise'), ('order', 'a', 'def', 'C')),
    'numpy.real': (('val', 'a', 'req'),),
    'numpy.real_if_close': (('a', 'a', 'req'), ('tol', 'a', 'def', 100)),
    'numpy.repeat': (('a', 'a', 'req'), ('repeats', 'a', 'req'), ('axis', 'a', 'def', None)),
    'numpy.require': (('a', 'a', 'req'), ('dtype', 'a', 'def', None), ('requirements', 'a', 'def', None), ('like', 'k', 'def', None)),
    'numpy.reshape': (('a', 'p', 'req'), ('shape', 'a', 'req'), ('order', 'a', 'def', 'C'), ('copy', 'k', 'def', None)),
    'numpy.resize': (('a', 'a', 'req'), ('new_shape', 'a', 'req')),
    'numpy.roll': (('a', 'a', 'req'), ('shift', 'a', 'req'), ('axis', 'a', 'def', None)),
    'numpy.rollaxis': (('a', 'a', 'req'), ('axis', 'a', 'req'), ('start', 'a', 'def', 0)),
    'numpy.roots': (('p', 'a', 'req'),),
    'numpy.rot90': (('m', 'a', 'req'), ('k', 'a', 'def', 1), ('axes', 'a', 'opaque')),
    'numpy.round': (('a', 'a', 'req'), ('decimals', 'a', 'def', 0), ('out', 'a', 'def', None)),
    'numpy.save': (('file', 'a', 'req'), ('arr', 'a', 'req'), ('allow_pickle', 'a', 'def', True)),
    'numpy.savetxt': (('fname', 'a', 'req'), ('X', 'a', 'req'), ('fmt', 'a', 'def', '%.18e'), ('delimiter', 'a', 'def', ' '), ('newline', 'a', 'def', '\n'), ('header', 'a', 'def', ''), ('footer', 'a', 'def', ''), ('comments', 'a', 'def', '# '), ('encoding', 'a', 'def', None)),
    'numpy.searchsorted': (('a', 'a', 'req'), ('v', 'a', 'req'), ('side', 'a', 'def', 'left'), ('sorter', 'a', 'def', None)),
    'numpy.select': (('condlist', 'a', 'req'), ('choicelist', 'a', 'req'), ('default', 'a', 'def', 0)),
    'numpy.set_printoptions': (('precision', 'a', 'def', None), ('threshold', 'a', 'def', None), ('edgeitems', 'a', 'def', None), ('linewidth', 'a', 'def', None), ('suppress', 'a', 'def', None), ('nanstr', 'a', 'def', None), ('infstr', 'a', 'def', None), ('formatter', 'a', 'def', None), ('sign', 'a', 'def', None), ('floatmode', 'a', 'def', None), ('legacy', 'k', 'def', None), ('override_repr', 'k', 'def', None)),
    'numpy.setbufsize': (('size', 'a', 'req'),),
    'numpy.setdiff1d': (('ar1', 'a', 'req'), ('ar2', 'a', 'req'), ('assume_unique', 'a', 'def', False)),
    'numpy.seterr': (('all', 'a', 'def', None), ('divide', 'a', 'def', None), ('over', 'a', 'def', None), ('under', 'a', 'def', None), ('invalid', 'a', 'def', None)),
    'numpy.seterrcall': (('func', 'a', 'req'),),
    'numpy.setxor1d': (('ar1', 'a', 'req'), ('ar2', 'a', 'req'), ('assume_unique', 'a', 'def', False)),
    'numpy.shape': (('a', 'a', 'req'),),
    'numpy.shares_memory': (('a', 'p', 'req'), ('b', 'p', 'req'), ('max_work', 'a', 'def', -1)),
    'numpy.show_config': (('mode', 'a', 'def', 'stdout'),),
    'numpy.sinc': (('x', 'a', 'req'),),
    'numpy.size': (('a', 'a', 'req'), ('axis', 'a', 'def', None)),
    'numpy.sort': (('a', 'a', 'req'), ('axis', 'a', 'def', -1), ('kind', 'a', 'def', None), ('order', 'a', 'def', None), ('stable', 'k', 'def', None), ('descending', 'k', 'opaque')),
    'numpy.sort_complex': (('a', 'a', 'req'),),
    'numpy.split': (('ary', 'a', 'req'), ('indices_or_sections', 'a', 'req'), ('axis', 'a', 'def', 0)),
    'numpy.squeeze': (('a', 'a', 'req'), ('axis', 'a', 'def', None)),
    'numpy.stack': (('arrays', 'a', 'req'), ('axis', 'a', 'def', 0), ('out', 'a', 'def', None), ('dtype', 'k', 'def', None), ('casting', 'k', 'def', 'same_kind')),
    'numpy.std': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('ddof', 'a', 'def', 0), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque'), ('mean', 'k', 'opaque'), ('correction', 'k', 'opaque')),
    'numpy.sum': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('keepdims', 'a', 'opaque'), ('initial', 'a', 'opaque'), ('where', 'a', 'opaque')),
    'numpy.swapaxes': (('a', 'a', 'req'), ('axis1', 'a', 'req'), ('axis2', 'a', 'req')),
    'numpy.take': (('a', 'a', 'req'), ('indices', 'a', 'req'), ('axis', 'a', 'def', None), ('out', 'a', 'def', None), ('mode', 'a', 'def', 'raise')),
    'numpy.take_along_axis': (('arr', 'a', 'req'), ('indices', 'a', 'req'), ('axis', 'a', 'def', -1)),
    'numpy.tensordot': (('a', 'a', 'req'), ('b', 'a', 'req'), ('axes', 'a', 'def', 2)),
    'numpy.test': (('label', 'a', 'def', 'fast'), ('verbose', 'a', 'def', 1), ('extra_argv', 'a', 'def', None), ('doctests', 'a', 'def', False), ('coverage', 'a', 'def', False), ('durations', 'a', 'def', -1), ('tests', 'a', 'def', None)),
    'numpy.tile': (('A', 'a', 'req'), ('reps', 'a', 'req')),
    'numpy.trace': (('a', 'a', 'req'), ('offset', 'a', 'def', 0), ('axis1', 'a', 'def', 0), ('axis2', 'a', 'def', 1), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None)),
    'numpy.transpose': (('a', 'a', 'req'), ('axes', 'a', 'def', None)),
    'numpy.trapezoid': (('y', 'a', 'req'), ('x', 'a', 'def', None), ('dx', 'a', 'opaque'), ('axis', 'a', 'def', -1)),
    'numpy.tri': (('N', 'a', 'req'), ('M', 'a', 'def', None), ('k', 'a', 'def', 0), ('dtype', 'a', 'opaque'), ('like', 'k', 'def', None)),
    'numpy.tril': (('m', 'a', 'req'), ('k', 'a', 'def', 0)),
    'numpy.tril_indices': (('n', 'a', 'req'), ('k', 'a', 'def', 0), ('m', 'a', 'def', None)),
    'numpy.tril_indices_from': (('arr', 'a', 'req'), ('k', 'a', 'def', 0)),
    'numpy.trim_zeros': (('filt', 'a', 'req'), ('trim', 'a', 'def', 'fb'), ('axis', 'a', 'def', None)),
    'numpy.triu': (('m', 'a', 'req'), ('k', 'a', 'def', 0)),
    'numpy.triu_indices': (('n', 'a', 'req'), ('k', 'a', 'def', 0), ('m', 'a', 'def', None)),
    'numpy.triu_indices_from': (('arr', 'a', 'req'), ('k', 'a', 'def', 0)),
    'numpy.typename': (('char', 'a', 'req'),),
    'numpy.union1d': (('ar1', 'a', 'req'), ('ar2', 'a', 'req')),
    'numpy.unique': (('ar', 'a', 'req'), ('return_index', 'a', 'def', False), ('return_inverse', 'a', 'def', False), ('return_counts', 'a', 'def', False), ('axis', 'a', 'def', None), ('equal_nan', 'k', 'def', True), ('sorted', 'k', 'def', True)),
    'numpy.unique_all': (('x', 'a', 'req'),),
    'numpy.unique_counts': (('x', 'a', 'req'),),
    'numpy.unique_inverse': (('x', 'a', 'req'),),
    'numpy.unique_values': (('x', 'a', 'req'),),
    'numpy.unpackbits': (('a', 'p', 'req'), ('axis', 'a', 'def', None), ('count', 'a', 'def', None), ('bitorder', 'a', 'def', 'big')),
    'numpy.unravel_index': (('indices', 'a', 'req'), ('shape', 'a', 'req'), ('order', 'a', 'def', 'C')),
    'numpy.unstack': (('x', 'p', 'req'), ('axis', 'k', 'def', 0)),
    'numpy.unwrap': (('p', 'a', 'req'), ('discont', 'a', 'def', None), ('axis', 'a', 'def', -1), ('period', 'k', 'opaque')),
    'numpy.vander': (('x', 'a', 'req'), ('N', 'a', 'def', None), ('increasing', 'a', 'def', False)),
    'numpy.var': (('a', 'a', 'req'), ('axis', 'a', 'def', None), ('dtype', 'a', 'def', None), ('out', 'a', 'def', None), ('ddof', 'a', 'def', 0), ('keepdims', 'a', 'opaque'), ('where', 'k', 'opaque'), ('mean', 'k', 'opaque'), ('correction', 'k', 'opaque')),
    'numpy.vsplit': (('ary', 'a', 'req'), ('indices_or_sections', 'a', 'req')),
    'numpy.vstack': (('tup', 'a', 'req'), ('dtype', 'k', 'def', None), ('casting', 'k', 'def', 'same_kind')),
    'numpy.zeros': (('shape', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', 'C')),
    'numpy.zeros_like': (('a', 'a', 'req'), ('dtype', 'a', 'def', None), ('order', 'a', 'def', 'K'), ('subok', 'a', 'def', True), ('shape', 'a', 'def', None), ('device', 'k', 'def', None)),
    'scipy.optimize.minimize': (('fun', 'a', 'req'), ('x0', 'a', 'req'), ('args', 'a', 'opaque'), ('method', 'a', 'def', None), ('jac', 'a', 'def', None), ('hess', 'a', 'def', None), ('hessp', 'a', 'def', None), ('bounds', 'a', 'def', None), ('constraints', 'a', 'opaque'), ('tol', 'a', 'def', None), ('callback', 'a', 'def', None), ('options', 'a', 'def', None)),
}
