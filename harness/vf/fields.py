"""Polynomial fields and exact-integer observations for the discrete-field checks (spec: Poly / Field)."""
import itertools
import math

import numpy as np

M = 32749
REF = {1: np.array([[0.0], [1.0]]), 2: np.array([[0.0, 0], [1, 0], [0, 1]]),
       3: np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])}
MINK = {"Lagrange": 1, "RT": 1, "BDM": 1, "N1E": 1, "N2E": 1}


def obs(v, scale):
    """scale * v as <<nearest integer mod M, distance in millionths>>"""
    x = float(v) * scale
    if not np.isfinite(x) or abs(x) > 2.0 ** 50:
        return [0, 10 ** 9]
    n = round(x)
    return [int(n % M), int(min(abs(x - n) * 1e6, 1e9))]


def exps(k, nv, exact=False):
    return [e + (0,) * (3 - nv) for e in itertools.product(range(k + 1), repeat=nv) if (sum(e) == k if exact else sum(e) <= k)]


def rand_poly(rng, k, nv, terms=4, exact=False, top=0.5):
    """random polynomial of degree at most k in the first nv variables: [[c, a, b, d], ...]"""
    E = exps(k, nv, exact)
    out = []
    for _ in range(rng.randint(1, terms)):
        pool = [e for e in E if sum(e) == k] if rng.random() < top else E
        out.append([rng.choice([-3, -2, -1, 1, 2, 3])] + list(rng.choice(pool)))
    return out


def times_x(p, i):
    return [[t[0]] + [a + (1 if j == i else 0) for j, a in enumerate(t[1:])] for t in p]


def neg(p):
    return [[-t[0]] + t[1:] for t in p]


def row_in_space(rng, family, k, dim, nv):
    """one component of a field of the space"""
    if family == "Lagrange":
        return [rand_poly(rng, k, nv)]
    if dim == 1:
        return [rand_poly(rng, k - 1 if family in ("RT", "N1E") else k, 1)]
    if family in ("BDM", "N2E"):
        return [rand_poly(rng, k, dim) for _ in range(dim)]
    row = [rand_poly(rng, k - 1, dim) for _ in range(dim)]
    if family == "RT":
        h = rand_poly(rng, k - 1, dim, 2, exact=True)
        return [r + times_x(h, i) for i, r in enumerate(row)]
    h = rand_poly(rng, k - 1, dim, 2, exact=True)
    i, j = rng.sample(range(dim), 2)       # rotation field in the plane of two axes
    row[i] = row[i] + times_x(h, j)
    row[j] = row[j] + neg(times_x(h, i))
    return row


def rand_row(rng, k, family, dim, nv):
    n = 1 if family == "Lagrange" else (1 if dim == 1 else dim)
    return [rand_poly(rng, k, nv if family == "Lagrange" else dim) for _ in range(n)]


def ev(p, x, y, z):
    r = 0.0 * x
    for c, a, b, d in p:
        r = r + c * x ** a * y ** b * z ** d
    return r


def diff(p, i):
    out = []
    for t in p:
        if t[1 + i] > 0:
            u = list(t)
            u[0] *= u[1 + i]
            u[1 + i] -= 1
            out.append(u)
    return out or [[0, 0, 0, 0]]


def div(row, dim):
    out = []
    for i in range(1 if len(row) == 1 else dim):
        out += diff(row[i], i)
    return out


def as_function(rows, family, s=1.0):
    """the callable the library expects; s: the mesh is scaled by 1/s"""
    if family == "Lagrange":
        return lambda x, y, z: np.array([ev(r[0], x * s, y * s, z * s) for r in rows])
    return lambda x, y, z: np.array([[ev(p, x * s, y * s, z * s) for p in r] for r in rows])


def as_divergence(rows, dim, s=1.0):
    return lambda x, y, z: np.array([s * ev(div(r, dim), x * s, y * s, z * s) for r in rows])


def as_gradient(rows, dim, s=1.0):
    def g(x, y, z):
        d = np.array([[s * ev(diff(r[0], i), x * s, y * s, z * s) for i in range(3)] for r in rows])
        return d[:, :dim] if dim > 1 else d * np.array([[1, 0, 0]])
    return g


def weight(V):
    """n! times the volume of an integer simplex"""
    if len(V) == 1:
        return 1
    A = np.array(V[1:], dtype=object) - np.array(V[0], dtype=object)
    G = A.dot(A.T).astype(float)
    return int(round(math.sqrt(abs(np.linalg.det(G)))))


def bary(rng, dim, q):
    """integer barycentric coordinates adding up to q"""
    cut = sorted(rng.randint(0, q) for _ in range(dim))
    return [b - a for a, b in zip([0] + cut, cut + [q])]


def bound(rows, P):
    """an upper bound of the values of the field on the mesh"""
    R = max(1, max(abs(a) for p in P for a in p))
    return max((sum(abs(t[0]) * R ** sum(t[1:]) for t in p) for r in rows for p in r), default=1)


def degree(rows):
    return max((sum(t[1:]) for r in rows for p in r for t in p), default=0)


def value_at(space, i, lams, alpha, dest):
    """field values at barycentric points of element i: array points x comp x dir"""
    el = space.elements[i]
    dim = el.data.cell.dimension
    pts = np.array(lams, float) @ REF[dim]
    _, jac, det, inv = el.evaluate_mapping(pts)
    phi = el.evaluate_basis(pts, jac, det, inv)[0]
    a = alpha[dest].reshape(phi.shape[1], space.n_comp)
    return np.einsum("pjd,jc->pcd", phi, a)


def directions(family, dim):
    return 1 if family == "Lagrange" or dim == 1 else dim


EMBED1 = [(1, 0, 0), (3, 4, 0), (1, 2, 2), (0, -1, 0), (2, -6, 3)]
EMBED2 = [((1, 0, 0), (0, 1, 0)), ((3, 4, 0), (0, 0, 5)), ((1, 2, 2), (2, 1, -2)), ((0, 0, 1), (0, 1, 0))]


def place(rng, pts, dim, flat):
    """integer coordinates: sheared or reflected, and for flat=False in an oblique line or plane"""
    sh = rng.choice([(0, 0, 0), (1, 0, 0), (0, -1, 1), (1, 1, 0)])
    off = [rng.randint(-1, 1) for _ in range(3)]
    out = []
    for p in pts:
        x, y, z = (int(a) for a in p)
        if dim == 1:
            d = (1, 0, 0) if flat else None
            out.append((x // 3, 0, 0))
            continue
        x, y, z = (x + sh[0] * y + sh[1] * z, y, z) if dim == 3 else (x + sh[0] * y, y + (0 if sh[0] else sh[1]) * x, 0)
        if dim == 3:
            y = y + sh[2] * z
        out.append((x, y, z))
    if dim == 1:
        u = (1, 0, 0) if flat else rng.choice(EMBED1)
        out = [tuple(x * a for a in u) for x, _, _ in out]
    elif dim == 2 and not flat:
        u, v = rng.choice(EMBED2)
        out = [tuple(x * a + y * b for a, b in zip(u, v)) for x, y, _ in out]
    return [[int(a) + (o if not (flat and dim < 3 and j >= dim) else 0) for j, (a, o) in enumerate(zip(p, off))] for p in out]
