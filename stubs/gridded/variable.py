import numpy as np

from .time import Time
from .grids import Grid
from .depth import Depth


class Variable(object):
    default_names = []
    cf_names = []
    _def_count = 0
    _default_component_types = {'time': Time, 'grid': Grid, 'depth': Depth}

    def __init__(self, *args, **kwargs):
        super().__init__()

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError('gridded stand-in')


class VectorVariable(object):
    default_names = {}
    cf_names = {}
    comp_order = []
    _def_count = 0
    _default_component_types = {'time': Time, 'grid': Grid, 'depth': Depth,
                                'variable': Variable}

    def __init__(self, *args, name=None, units=None, time=None, grid=None, depth=None, variables=None, **kwargs):
        super().__init__()
        self.units = units
        self.time = time
        self.grid = grid
        self.depth = depth
        self.variables = variables if variables is not None else []
        self._result_memo = None

    # (no result is kept for later)
    def _get_hash(self, points, time):
        return None

    def _get_memoed(self, points, time, D, _copy=False, _hash=None):
        return None

    def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
        pass

    def at(self, points, time, *, units=None, extrapolate=False, **kwargs):
        """the values of the components at the points, one column each"""
        res = np.zeros((len(points), len(self.variables)))
        for i, var in enumerate(self.variables):
            res[:, i] = var.at(points, time, units=units, extrapolate=extrapolate, **kwargs).reshape(-1)
        return res

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError('gridded stand-in')
