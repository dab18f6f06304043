from .time import Time
from .grids import Grid


class DepthBase(object):
    _default_component_types = {'time': Time, 'grid': Grid, 'variable': None}

    def __init__(self, *args, **kwargs):
        super().__init__()

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError('gridded stand-in')


class L_Depth(DepthBase):
    _default_component_types = {'time': Time, 'grid': Grid, 'variable': None}


class S_Depth(DepthBase):
    _default_component_types = {'time': Time, 'grid': Grid, 'variable': None}


class ROMS_Depth(S_Depth):
    _default_component_types = {'time': Time, 'grid': Grid, 'variable': None}


class FVCOM_Depth(S_Depth):
    _default_component_types = {'time': Time, 'grid': Grid, 'variable': None}


class Depth(object):
    _default_component_types = {'time': Time, 'grid': Grid, 'variable': None}

    @staticmethod
    def from_netCDF(*args, **kwargs):
        raise NotImplementedError('gridded stand-in')
