"""Per property: what to build, how many cases per tier, and which monitor events a run must reach."""
import importlib


class Plan:
    def __init__(self, prop, **kw):
        self.prop = prop
        self.variants = ['plain']
        self.modules = []
        self.budget = {'quick': 600, 'thorough': 3000}
        self.cpu_limit = 200
        self.hang_is_violation = True
        self.level = 'exploration'
        self.required = {}
        self.rule = ''
        self.assumptions = []
        self.__dict__.update(kw)


class Plans(dict):
    def __missing__(self, k):
        m = importlib.import_module('plan.' + k.lower())
        self[k] = m.PLAN
        return m.PLAN


PLANS = Plans()
