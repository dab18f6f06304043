"""Stand-ins for the scipy functions the code under test uses"""
import numpy as np


class Interp1d:
    """scipy.interpolate.interp1d(kind='linear', bounds_error=False): NaN outside"""
    def __init__(self, x, y, kind='linear', copy=True, bounds_error=None, fill_value=None, **k):
        from . import core, symnp
        if kind != 'linear' or bounds_error is not False or fill_value is not None:
            raise core.SymEscape('interp1d with these options')
        x, y = list(x), list(y)
        if bool(x[0] > x[-1]):
            x, y = x[::-1], y[::-1]
        self.x, self.y = x, y

    def __call__(self, q):
        from . import symnp
        r = []
        for v in np.ravel(q):
            if bool(v < self.x[0]) or bool(v > self.x[-1]):
                r.append(float('nan'))
                continue
            for i in range(len(self.x) - 1):
                if i == len(self.x) - 2 or bool(v <= self.x[i + 1]):
                    a, b = self.x[i], self.x[i + 1]
                    r.append(self.y[i] + (self.y[i + 1] - self.y[i]) * (v - a) / (b - a))
                    break
        return symnp.array(r)


def install(P):
    import scipy.interpolate
    scipy.interpolate.interp1d = Interp1d
    return {}
