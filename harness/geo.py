"""Independent mesh geometry: built from the vertex coordinates and cell-vertex lists alone, and a
brute-force path tracer that intersects a straight path with every facet of the mesh."""
import numpy as np


class Geo:
    def __init__(self, mesh):
        self.mesh = mesh
        self.X = np.array(mesh.coordinates(), dtype=float)
        self.cells = np.array(mesh.cells(), dtype=int)
        self.g = self.X.shape[1]
        self.nc = len(self.cells)
        g = self.g
        mesh.init(g - 1, 0)
        mesh.init(g - 1, g)
        mesh.init(g, g - 1)
        # facet vertices as the mesh numbers its facets
        if g == 1:
            self.fv = np.arange(len(self.X)).reshape(-1, 1)
        else:
            con = mesh.topology()(g - 1, 0)
            self.fv = np.array([sorted(con(i)) for i in range(mesh.num_entities(g - 1))], dtype=int)
        self.nf = len(self.fv)
        key = {tuple(sorted(v)): i for i, v in enumerate(self.fv.tolist())}
        # incidence from the vertex lists, not from the mesh's own connectivity
        self.fcells = [[] for _ in range(self.nf)]
        self.cfacets = np.zeros((self.nc, g + 1), dtype=int)   # facet opposite local vertex i
        for c, vs in enumerate(self.cells.tolist()):
            for i in range(g + 1):
                k = tuple(sorted(vs[:i] + vs[i + 1:]))
                f = key[k]
                self.fcells[f].append(c)
                self.cfacets[c, i] = f
        self.exterior = np.array([len(c) == 1 for c in self.fcells])
        V = self.X[self.cells]                       # nc, g+1, g
        self.V = V
        A = np.concatenate([V, np.ones((self.nc, g + 1, 1))], axis=2)   # barycentric systems
        self.inv = np.linalg.inv(A)                  # [x,1] @ inv = barycentric
        self.absdet = np.abs(np.linalg.det(A))
        f = 1
        for k in range(2, g + 1):
            f *= k
        self.vol = self.absdet / f
        self.mid = V.mean(axis=1)
        self.h = self.vol ** (1.0 / g)
        self.hmin = float(self.h.min())
        self.L = float(np.max(self.X.max(axis=0) - self.X.min(axis=0)))
        # facet planes
        P = self.X[self.fv]                          # nf, g, g
        self.P = P
        if g == 1:
            self.fn = np.ones((self.nf, 1))
        elif g == 2:
            e = P[:, 1] - P[:, 0]
            n = np.stack([e[:, 1], -e[:, 0]], axis=1)
            self.fn = n / np.linalg.norm(n, axis=1)[:, None]
        else:
            n = np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0])
            self.fn = n / np.linalg.norm(n, axis=1)[:, None]

    def bary(self, c, x):
        return np.append(np.asarray(x, float)[:self.g], 1.0) @ self.inv[c]

    def bary_all(self, x):
        return np.einsum('j,cjk->ck', np.append(np.asarray(x, float)[:self.g], 1.0), self.inv)

    def inside(self, c, x, tol=1e-10):
        return 0 <= c < self.nc and self.bary(c, x).min() >= -tol

    def outside_all(self, x, tol=1e-10):
        return self.bary_all(x).min(axis=1).max() < -tol

    def outward(self, c, f):
        """unit outward normal of facet f seen from cell c"""
        n = self.fn[f]
        return n if np.dot(n, self.P[f, 0] - self.mid[c]) > 0 else -n

    def random_point(self, rng, c):
        w = rng.dirichlet(np.ones(self.g + 1))
        return w @ self.V[c]

    def hits(self, x, d, skip, tol):
        """facets met by x + t d, 0 < t < 1: [(t, facet)], and whether the answer is delicate"""
        x, d = x[:self.g], d[:self.g]
        nd = self.fn @ d
        dist = np.einsum('fi,fi->f', self.fn, self.P[:, 0] - x)
        with np.errstate(divide='ignore', invalid='ignore'):
            t = np.where(nd != 0, dist / nd, np.inf)
        cand = np.isfinite(t) & (t > -1e-3) & (t < 1 + 1e-3)
        # a path lying in a facet plane
        delicate = False
        par = (np.abs(nd) < 1e-12 * (np.linalg.norm(d) + 1e-300)) & (np.abs(dist) < tol)
        out = []
        for f in np.nonzero(cand | par)[0]:
            if f == skip:
                continue
            y = x + (t[f] if cand[f] and not par[f] else 0.0) * d
            if self.g == 1:
                lam, size = np.array([1.0]), 1.0
            elif self.g == 2:
                e = self.P[f, 1] - self.P[f, 0]
                s = np.dot(y - self.P[f, 0], e) / np.dot(e, e)
                lam = np.array([1 - s, s])
            else:
                a, b = self.P[f, 1] - self.P[f, 0], self.P[f, 2] - self.P[f, 0]
                m = np.array([[a @ a, a @ b], [a @ b, b @ b]])
                s = np.linalg.solve(m, np.array([(y - self.P[f, 0]) @ a, (y - self.P[f, 0]) @ b]))
                lam = np.array([1 - s.sum(), s[0], s[1]])
            if par[f] and not cand[f]:
                delicate = True
                continue
            dl = lam.min()
            if dl < -1e-7:
                continue
            # how far past the start / before the end is the meeting point, normal to the facet
            if abs(t[f]) * abs(nd[f]) < tol:
                delicate = True
            if abs(t[f] - 1) * abs(nd[f]) < tol:
                delicate = True
            if 0 < t[f] < 1:
                if self.g > 1 and dl < 1e-7:
                    delicate = True
                out.append((t[f], int(f)))
        out.sort()
        for (a, _), (b, _) in zip(out, out[1:]):
            if (b - a) * np.linalg.norm(d) < tol:
                delicate = True
        return out, delicate

    def trace(self, x, d, react, maxleg=400):
        """Follow a path. react(facet) -> 'none' | 'pass' | 'absorb' | 'reflect' | 'error'.
        Returns dict(end, fate, crossings, events=[(facet, fraction of the remaining move, point, path fraction, kind)],
        delicate, sign(per-component velocity map as matrix))."""
        x = np.array(x, float)
        d = np.array(d, float)
        g = self.g
        tol = 1e-9 * self.hmin
        R = np.eye(len(x))
        events, n, skip, delicate = [], 0, -1, False
        done = 0.0                     # fraction of the whole move already travelled
        absorbed = False
        for _ in range(maxleg):
            hits, dl = self.hits(x, d, skip, tol)
            delicate |= dl
            leg_reflect = False
            prev = 0.0
            for t, f in hits:
                n += 1
                r = react(f)
                frac = (t - prev) / (1 - prev)
                if r != 'none':
                    y = x + t * d
                    events.append(dict(facet=f, frac=frac, point=y, s=done + t * (1 - done), kind=r, dead=absorbed,
                                       direction=d.copy(), R=R.copy(), rest=(1 - prev) * d, end=x + d))
                prev = t
                if r == 'absorb':
                    absorbed = True
                if self.exterior[f]:
                    if absorbed:
                        return dict(end=x + t * d, fate='deleted', crossings=n, events=events, delicate=delicate, R=R)
                    if r == 'reflect':
                        nn = self.fn[f]
                        M = np.eye(len(x))
                        M[:g, :g] -= 2 * np.outer(nn, nn)
                        done = done + t * (1 - done)
                        x = x + t * d
                        d = (1 - t) * (M @ d)
                        R = M @ R
                        skip = f
                        leg_reflect = True
                        break
                    return dict(end=x + t * d, fate='escaped', crossings=n, events=events, delicate=True, R=R)
            if not leg_reflect:
                return dict(end=x + d, fate='deleted' if absorbed else 'alive', crossings=n, events=events, delicate=delicate, R=R)
        return dict(end=x, fate='unfinished', crossings=n, events=events, delicate=True, R=R)
