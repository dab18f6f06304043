"""Stand-in for the third-party package ``gridded`` (not installable offline).

PyGnome cannot be imported without it.  Only what PyGnome's *own* code needs in
order to be importable and to run its non-gridded objects (time series, releases,
movers with scalar data) is here; nothing that reads grids is.  It follows the
documented contract of gridded 0.7.x.  Everything here is part of the trusted
environment of the checks (see DESIGN.md, "Environment stubs").
"""
__version__ = '0.7.8'

from . import time, grids, depth, utilities   # noqa
from .variable import Variable, VectorVariable  # noqa
