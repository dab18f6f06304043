import datetime
import numpy as np


class Time(object):
    _const_time = None

    def __init__(self, data=(datetime.datetime(1970, 1, 1),), filename=None,
                 varname=None, tz_offset=None, tz_offset_name='', origin=None,
                 displacement=None, *args, **kwargs):
        super().__init__(*args, **kwargs)
        if isinstance(data, Time):
            data = data.data
        self.data = np.array(list(data), dtype=object)
        if origin is not None:
            diff = self.data[0] - origin
            self.data = np.array([t - diff for t in self.data], dtype=object)
        if displacement is not None:
            self.data = np.array([t + displacement for t in self.data],
                                 dtype=object)
        self.filename = filename
        self.varname = varname
        self.tz_offset = tz_offset
        self.tz_offset_name = tz_offset_name
        for i in range(len(self.data) - 1):
            if not self.data[i] < self.data[i + 1]:
                raise ValueError('Time sequence is not strictly increasing')

    @classmethod
    def constant_time(cls):
        if cls.__dict__.get('_const_time') is None:
            cls._const_time = cls([datetime.datetime(1970, 1, 1)])
        return cls._const_time

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError('gridded stand-in')

    @property
    def info(self):
        return repr(self.data)

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)

    def __eq__(self, other):
        if len(self.data) != len(other.data):
            return False
        return all(a == b for a, b in zip(self.data, other.data))

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return id(self)

    @property
    def min_time(self):
        return self.data[0]

    @property
    def max_time(self):
        return self.data[-1]

    @property
    def time_in_range(self):
        return lambda t: not (t < self.min_time or t > self.max_time)

    def valid_time(self, time):
        if time < self.min_time or time > self.max_time:
            raise ValueError('time specified ({0}) is not within the bounds of '
                             'the time ({1} to {2})'
                             .format(time, self.min_time, self.max_time))

    def index_of(self, time, extrapolate=False):
        if not (extrapolate or len(self.data) == 1):
            self.valid_time(time)
        # np.searchsorted(self.data, time), left
        i = 0
        for t in self.data:
            if t < time:
                i += 1
            else:
                break
        return i

    def interp_alpha(self, time, extrapolate=False):
        if not len(self.data) == 1 and not extrapolate:
            self.valid_time(time)
        i0 = self.index_of(time, extrapolate)
        if i0 == 0:
            return 0
        if i0 > len(self.data) - 1:
            return 1
        t0 = self.data[i0 - 1]
        t1 = self.data[i0]
        return (time - t0).total_seconds() / (t1 - t0).total_seconds()
