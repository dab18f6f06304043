"""Cases: the unit of symbolic execution of a property"""


class Case:
    def __init__(self, name, fn, params=None, tier='quick', max_paths=4000,
                 budget=200, prove_timeout=20000, branch_timeout=4000, samples=2,
                 bounds=None):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.tier = tier            # 'quick': both tiers; 'thorough': thorough only
        self.max_paths = max_paths
        self.budget = budget        # seconds
        self.prove_timeout = prove_timeout
        self.branch_timeout = branch_timeout
        self.samples = samples
        self.bounds = bounds


class Property:
    """what props/cNN.py exports as PROP"""
    def __init__(self, id, cases, functions=(), bounds='', assumptions=(), stubs=(),
                 setup=None, expect_reach=(), outside='', encoders=(), pyx=()):
        self.id = id
        self.cases = cases
        self.functions = list(functions)   # what has to be seen executed
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.stubs = list(stubs)
        self.setup = setup                 # run after import, before shims (both modes)
        self.expect_reach = list(expect_reach)
        self.outside = outside
        self.pyx = list(pyx)               # Cython modules to encode
        self.encoders = list(encoders) or (['cyenc'] if pyx else [])   # installed in symbolic mode only
