"""What the analysis knows about the libraries TurbuStat calls."""

# --- results that may share memory with their (first) argument ------------
VIEW_FUNCS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray",
    "numpy.asfortranarray", "numpy.require", "numpy.ravel", "numpy.reshape",
    "numpy.squeeze", "numpy.transpose", "numpy.swapaxes", "numpy.moveaxis",
    "numpy.rollaxis", "numpy.atleast_1d", "numpy.atleast_2d",
    "numpy.atleast_3d", "numpy.broadcast_to", "numpy.flipud", "numpy.fliplr",
    "numpy.flip", "numpy.rot90", "numpy.real", "numpy.imag",
    "numpy.expand_dims", "numpy.diagonal", "numpy.array_split", "numpy.split",
    "numpy.ma.getdata", "numpy.ma.masked_invalid_nocopy",
    "numpy.lib.stride_tricks.as_strided",
    "numpy.lib.stride_tricks.sliding_window_view", "builtins.reversed",
    "builtins.iter", "builtins.enumerate", "builtins.zip",
    "numpy.nditer", "numpy.ndenumerate", "itertools.chain",
    "numpy.broadcast_arrays",
}
VIEW_METHODS = {
    "view", "reshape", "ravel", "squeeze", "transpose", "swapaxes",
    "diagonal", "newbyteorder", "__getitem__", "values", "items",
}
VIEW_ATTRS = {"T", "real", "imag", "flat", "value", "data", "base", "array",
              "header", "wcs", "filled_data", "unmasked_data", "_data",
              "quantity", "_header"}

# numpy functions that only alias when copy is disabled
COPY_KW_FUNCS = {"numpy.array", "astropy.units.Quantity", "numpy.nan_to_num"}
COPY_KW_METHODS = {"astype"}

# --- in-place mutators -----------------------------------------------------
MUT_METHODS = {
    # ndarray
    "sort", "fill", "resize", "put", "itemset", "partition", "setfield",
    "byteswap",
    # list / dict / set
    "append", "extend", "insert", "remove", "reverse", "pop", "popitem",
    "clear", "update", "setdefault", "add", "discard", "difference_update",
    "intersection_update", "symmetric_difference_update", "__setitem__",
    "__delitem__", "__iadd__", "__isub__", "__imul__", "__itruediv__",
    # fits.Header
    "set", "rename_keyword", "add_history", "add_comment",
}
# methods of that name which do not mutate the receiver in numpy
NONMUT_WITHOUT = {"byteswap": ("inplace",)}

# function -> index of the mutated argument
MUT_FUNCS = {
    "numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0,
    "numpy.fill_diagonal": 0, "numpy.put_along_axis": 0,
    "numpy.random.shuffle": 0, "random.shuffle": 0, "operator.setitem": 0,
    "operator.delitem": 0, "operator.iadd": 0, "operator.isub": 0,
    "operator.imul": 0, "operator.itruediv": 0, "numpy.add.at": 0,
    "numpy.subtract.at": 0, "numpy.multiply.at": 0, "heapq.heappush": 0,
    "heapq.heapify": 0, "numpy.ndarray.sort": 0, "numpy.ndarray.fill": 0,
}

# ufuncs by number of inputs: a further positional argument is the output
UFUNC_NIN = {}
for _n in ("abs absolute fabs sqrt exp exp2 log log10 log2 log1p expm1 sin "
           "cos tan arcsin arccos arctan negative positive conj conjugate "
           "square reciprocal sign floor ceil rint trunc isnan isfinite "
           "isinf logical_not deg2rad rad2deg degrees radians").split():
    UFUNC_NIN["numpy." + _n] = 1
for _n in ("add subtract multiply divide true_divide floor_divide power "
           "mod remainder fmod hypot arctan2 maximum minimum fmax fmin "
           "logical_and logical_or logical_xor greater greater_equal less "
           "less_equal equal not_equal").split():
    UFUNC_NIN["numpy." + _n] = 2
UFUNC_NIN["numpy.clip"] = 3
UFUNC_NIN["numpy.cumsum"] = UFUNC_NIN["numpy.cumprod"] = 3

# keyword -> index of the argument whose memory may be reused
OVERWRITE = {"overwrite_x": 0, "overwrite_input": 0, "overwrite_a": 0,
             "overwrite_data": 0, "overwrite_b": 1}
# methods (generators) that mutate their first argument
MUT_ARG_METHODS = {"shuffle"}

# --- fresh scalars / immutable results -------------------------------------
PYFFTW_PREFIXES = ("pyfftw.interfaces.numpy_fft.", "pyfftw.interfaces."
                   "scipy_fftpack.", "scipy.fftpack.", "scipy.fft.",
                   "pyfftw.interfaces.scipy_fft.")

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) \
    else set(__builtins__)


_FANCY = {"numpy.where", "numpy.isnan", "numpy.isfinite", "numpy.nonzero",
          "numpy.logical_and", "numpy.logical_or", "numpy.logical_not",
          "numpy.argsort", "numpy.isinf", "numpy.random.choice",
          "numpy.random.permutation", "numpy.argwhere", "numpy.searchsorted",
          "numpy.arange"}


def fancy(idx):
    """Does indexing with ``idx`` copy?  (boolean masks, index arrays)"""
    if idx.op in ("cmp", "inv", "not", "and", "or", "bool&", "bool|", "list"):
        return True
    if idx.op == "tuple":
        return any(fancy(x) for x in idx.args)
    if idx.op in ("loop",):
        return fancy(idx.args[2]) or fancy(idx.args[1])
    if idx.op in ("upd", "mu", "augupd"):
        b = idx.args[{"upd": 0, "mu": 2, "augupd": 1}[idx.op]]
        return fancy(b)
    if idx.op == "sub":
        return fancy(idx.args[0]) and idx.args[1].op in ("slice",)
    if idx.op == "call" and idx.args[0].op == "ext":
        n = idx.args[0].args[0]
        return n in _FANCY or (
            n.startswith("numpy.") and n.split(".")[-1] in (
                "zeros", "ones", "empty", "zeros_like", "ones_like",
                "empty_like", "array", "linspace", "argpartition"))
    if idx.op == "ite":
        return fancy(idx.args[1]) and fancy(idx.args[2])
    return False
