"""The library model: what the analysis knows of Python, numpy, xarray, ..."""
from .lib_core import CoreMixin
from .lib_builtin import BuiltinMixin
from .lib_numpy import NumpyMixin
from .lib_xr import XrMixin
from .lib_methods import MethodMixin


class LibMixin(MethodMixin, XrMixin, NumpyMixin, BuiltinMixin, CoreMixin):
    pass
