"""Mesh inputs: .msh writing, random simplicial complexes, projection of Mesh objects."""
import itertools
import os

import numpy as np

GMSH_TYPE = {1: 15, 2: 1, 3: 2, 4: 4}  # number of nodes -> gmsh element type


def write_msh(path, points, simplices):
    """simplices: list of (node tuple, physical tag); order in the file is kept."""
    with open(path, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n" % len(points))
        for i, p in enumerate(points):
            f.write("%d %.17g %.17g %.17g\n" % (i + 1, p[0], p[1], p[2]))
        f.write("$EndNodes\n$Elements\n%d\n" % len(simplices))
        for i, (s, t) in enumerate(simplices):
            f.write("%d %d 2 %d %d %s\n" % (i + 1, GMSH_TYPE[len(s)], t, t, " ".join(str(int(n) + 1) for n in s)))
        f.write("$EndElements\n")


_counter = itertools.count()


def build_mesh(points, simplices, dim=None):
    from mesh.mesh import Mesh
    path = os.path.abspath("m%d.msh" % next(_counter))
    write_msh(path, points, simplices)
    if dim is None:
        dim = max(len(s) for s, _ in simplices) - 1
    try:
        m = Mesh(dimension=dim, file_name=path)
        m.build_conformal_mesh()
    finally:
        os.unlink(path)
    return m


def ints(a):
    return [int(x) for x in np.asarray(a).ravel()]


def project_cell(c):
    return {"id": -2 if c.id is None else int(c.id), "d": int(c.dimension), "nodes": ints(c.node_tags),
            "sub": [ints(s) for s in c.sub_cells_ids],
            "mat": -1 if c.material_id is None else int(c.material_id)}


NULL_CELL = {"id": -9, "d": -9, "nodes": [], "sub": [], "mat": -1}


def project(mesh):
    return [NULL_CELL if c is None else project_cell(c) for c in mesh.cells]


def int_points(pts):
    """points of a mesh built from integer coordinates, as exact integers (scaled by 2^10 when fractional)"""
    return [[int(round(x)) if float(x) == round(x) else int(round(x * 1024)) + 10 ** 8 for x in p] for p in np.asarray(pts)]


def sub_simplices(top):
    out = set()
    for s in top:
        for k in range(1, len(s) + 1):
            for c in itertools.combinations(sorted(s), k):
                out.add(c)
    return out


def grid2(rng, nx, ny, jitter=0, scale=1):
    """nx x ny quads split by random diagonals; integer coordinates."""
    idx = lambda i, j: j * (nx + 1) + i
    pts = [[scale * i, scale * j, 0] for j in range(ny + 1) for i in range(nx + 1)]
    tris = []
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
            if rng.random() < 0.5:
                tris += [(a, b, c), (a, c, d)]
            else:
                tris += [(a, b, d), (b, c, d)]
    return pts, tris


def grid3(rng, nx, ny, nz, scale=1):
    idx = lambda i, j, k: (k * (ny + 1) + j) * (nx + 1) + i
    pts = [[scale * i, scale * j, scale * k] for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)]
    tets = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                v = lambda a, b, c: idx(i + a, j + b, k + c)
                for perm in itertools.permutations((0, 1, 2)):   # Kuhn split: conforming
                    p = [0, 0, 0]
                    t = [v(*p)]
                    for ax in perm:
                        p[ax] = 1
                        t.append(v(*p))
                    tets.append(tuple(t))
    return pts, tets


def shuffle_nodes(rng, pts, tops):
    n = len(pts)
    perm = list(range(n))
    rng.shuffle(perm)
    npts = [None] * n
    for i, p in enumerate(perm):
        npts[p] = pts[i]
    return npts, [tuple(perm[v] for v in s) for s in tops]


def compact(pts, tops):
    used = sorted({v for s in tops for v in s})
    m = {v: i for i, v in enumerate(used)}
    return [pts[v] for v in used], [tuple(m[v] for v in s) for s in tops]


def grade(rng, pts):
    """move whole grid lines and planes apart: cells of different size, still conforming"""
    maps = []
    for d in range(3):
        vals = sorted({p[d] for p in pts})
        out, at = {}, vals[0]
        for a, b in zip(vals, vals[1:] + vals[-1:]):
            out[a] = at
            at += (b - a) * rng.choice([1, 1, 2])
        maps.append(out)
    return [[maps[d][p[d]] for d in range(3)] for p in pts]


def random_complex(rng, dim, size=3, delete=0.2, shuffle=True, order="random"):
    """(points, top simplices) with random local node order."""
    if dim == 1:
        n = rng.randint(2, 4 + size)
        pts = [[3 * i, 0, 0] for i in range(n + 1)]
        tops = [(i, i + 1) for i in range(n)]
    elif dim == 2:
        pts, tops = grid2(rng, rng.randint(1, size), rng.randint(1, size))
    else:
        pts, tops = grid3(rng, rng.randint(1, max(1, size - 1)), 1, 1)
    tops = [t for t in tops if rng.random() >= delete] or tops[:1]
    pts, tops = compact(pts, tops)
    if rng.random() < 0.7:
        pts = grade(rng, pts)
    if shuffle:
        pts, tops = shuffle_nodes(rng, pts, tops)
    out = []
    for t in tops:
        t = list(t)
        if order == "random":
            rng.shuffle(t)
        elif order == "sorted":
            t.sort()
        out.append(tuple(t))
    return pts, out


def declared_mesh(rng, dim, size=3, lower=0.4, tags=(1, 2, 3, 4, 5), delete=0.2, blocks="mixed", order="random", dangling=True):
    """Random list of declared simplices: all top cells plus a random set of lower cells."""
    pts, tops = random_complex(rng, dim, size, delete, order=order)
    decl = [(t, rng.choice(tags)) for t in tops]
    for s in sorted(sub_simplices(tops)):
        if len(s) <= dim and rng.random() < lower:
            s = list(s)
            rng.shuffle(s)
            decl.append((tuple(s), rng.choice(tags)))
    if dangling and rng.random() < 0.3 and dim > 1:
        # a lower-dimensional piece that no top cell contains
        n = len(pts)
        pts = pts + [[50, 50, 0], [51, 52, 0]]
        decl.append(((n, n + 1), rng.choice(tags)))
        if dim == 3 and rng.random() < 0.5:
            pts = pts + [[53, 50, 1]]
            decl.append(((n + 1, n, n + 2), rng.choice(tags)))
    if blocks == "mixed":
        rng.shuffle(decl)
    elif blocks == "up":
        decl.sort(key=lambda d: len(d[0]))
    else:
        decl.sort(key=lambda d: -len(d[0]))
    return pts, decl
