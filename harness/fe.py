"""Finite-element evaluation from first principles: Lagrange bases are rebuilt in each cell from the
coordinates of the degrees of freedom (Vandermonde solve), without dolfin's basis evaluation."""
import itertools
import numpy as np


def monomials(g, k):
    return [e for e in itertools.product(range(k + 1), repeat=g) if sum(e) <= k]


class Space:
    """scalar (or one component of a vector) Lagrange space of degree k on Geo g"""
    def __init__(self, V, geo, degree, sub=None):
        self.geo, self.k = geo, degree
        self.dm = (V if sub is None else V.sub(sub)).dofmap()
        self.xdof = V.tabulate_dof_coordinates().reshape(-1, geo.g)
        self.mono = monomials(geo.g, degree)
        self.cache = {}

    def dofs(self, c):
        return np.array(self.dm.cell_dofs(int(c)))

    def loc(self, c, x):
        y = (np.asarray(x, float)[..., :self.geo.g] - self.geo.mid[c]) / self.geo.h[c]
        return np.stack([np.prod([y[..., i] ** e[i] for i in range(self.geo.g)], axis=0) for e in self.mono], axis=-1)

    def basis(self, c, x):
        c = int(c)
        if c not in self.cache:
            self.cache[c] = np.linalg.inv(self.loc(c, self.xdof[self.dofs(c)]))
        return self.loc(c, np.asarray(x, float)) @ self.cache[c]

    def value(self, vec, c, x):
        return float(self.basis(c, x) @ vec[self.dofs(c)])


def vector_value(V, geo, degree, vec, c, x, cache={}):
    key = id(V)
    if key not in cache or cache[key][0] is not V:
        cache.clear()
        subs = [Space(V, geo, degree, i) for i in range(geo.g)] if geo.g > 1 else [Space(V, geo, degree)]
        cache[key] = (V, subs)
    return np.array([s.value(vec, c, x) for s in cache[key][1]])
