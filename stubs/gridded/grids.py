class GridBase(object):
    def __init__(self, *args, **kwargs):
        self.filename = kwargs.pop('filename', None)
        self.grid_topology = kwargs.pop('grid_topology', None)
        super().__init__()

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError('gridded stand-in')


class Grid_U(GridBase):
    pass


class Grid_S(GridBase):
    pass


class Grid_R(GridBase):
    pass


class Grid(object):
    @staticmethod
    def from_netCDF(*args, **kwargs):
        raise NotImplementedError('gridded stand-in')

    @staticmethod
    def _get_grid_type(*args, **kwargs):
        raise NotImplementedError('gridded stand-in')
