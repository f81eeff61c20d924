"""C19: meshes made from domains subdivide them exactly and carry their tags (spec: Meshing / MeshingTrace)."""
import os
import sys

import numpy as np

from props.c11 import network
from props.c12 import box, fractures, meets
from props.c14 import embedded
from vf.frame import Frame

FIELDS = dict(pts=[], cells=[], edges=[], faces=[], verts=[], base=0, flat=0)


def discrete(dom, dim, args):
    from mesh.discrete_domain import DiscreteDomain
    h = DiscreteDomain(dimension=dim)
    h.domain = dom
    h.generate_mesh(args)
    return h


def conformal(dom, dim, lc, ref):
    from mesh.conformal_mesher import ConformalMesher
    h = ConformalMesher(dimension=dim)
    h.domain = dom
    h.generate_from_domain(lc, ref)
    return h


def described(points, dim, tags, lines, shift):
    """geometry builder and fracture network"""
    from geometry.fracture_network import FractureNetwork
    from geometry.geometry_builder import GeometryBuilder
    g = GeometryBuilder(dimension=dim)
    g.set_physical_tags(tags)
    {1: g.build_box_1D, 2: g.build_box_2D, 3: g.build_box}[dim](points)
    f = None
    if len(lines):
        f = FractureNetwork(dimension=dim, physical_tag_shift=shift)
        f.intersect_1D_fractures(lines)
        f.build_grahp(all_fixed_d_cells_q=True)
    return g, f


def legacy(points, dim, tags, lc, ref, lines=(), shift=0, made=None):
    """a geometry builder (with a fracture network) meshed as described; the description can serve several times"""
    from mesh.conformal_mesher import ConformalMesher
    if made is None or not made:
        d = described(points, dim, tags, lines, shift)
        if made is not None:
            made.append(d)
    else:
        d = made[0]
    h = ConformalMesher(dimension=dim)
    h.set_geometry_builder(d[0])
    if d[1] is not None:
        h.set_fracture_network(d[1])
    h.set_points()
    h.generate(lc, ref)
    return h


def read(h, dim, name):
    from mesh.mesh import Mesh
    h.write_mesh(name)
    m = Mesh(dimension=dim, file_name=name)
    m.build_conformal_mesh()
    os.unlink(name)
    return m


def tagged(m, d):
    return [[int(n) + 1 for n in c.node_tags] + [int(c.material_id)] for c in m.cells if c is not None and c.dimension == d and c.material_id is not None]


def tops(m, d):
    return [[int(n) + 1 for n in c.node_tags] + [-1 if c.material_id is None else int(c.material_id)] for c in m.cells if c is not None and c.dimension == d]


def make(chk, build, dim):
    """the mesh, or the complaint; gmsh is always left closed"""
    import gmsh

    def go():
        # gmsh prints from C
        sys.stdout.flush()
        out, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            return read(build(), dim, os.path.abspath("made.msh"))
        finally:
            os.dup2(out, 1)
            os.close(out)
            os.close(null)
    m, err = chk.call(go)
    if err and gmsh.isInitialized():
        gmsh.finalize()
    return m, err


def run(chk):
    from topology import domain_market as dm
    from topology.vertex import Vertex
    from topology.edge import Edge
    from topology.operations.domain_operations import create_domain, domain_difference, domain_union
    chk.model("MeshingMC", "MeshingMC" if chk.quick else "MeshingMC_big", timeout=800)
    rng = chk.rng
    events = []

    aside = []

    def flat_on_a_line(m, lines):
        """gmsh may fill a graded line with flat triangles whose nodes all lie on the line"""
        if not lines:
            return False
        X = np.asarray(m.points)
        for c in m.cells:
            if c is not None and c.dimension == 2:
                a, b, d = X[[int(v) for v in c.node_tags]]
                if np.linalg.norm(np.cross(b - a, d - a)) < 1e-7 * max(np.dot(b - a, b - a), np.dot(d - a, d - a)):
                    return True
        return False

    def add(kind, err, **k):
        e = dict(FIELDS)
        e.update(k)
        e.update({"ev": kind, "err": err or "", "key": "%s:%d:%d" % (kind, chk.seed, len(events))})
        (aside if e.pop("gmsh-flat", False) else events).append(e)
        chk.count(kind + ("-" + k["via"] if "via" in k else ""))

    def count(build, dim):
        m, err = make(chk, build, dim)
        return -1 if err else len(tops(m, dim))

    # --- convex boxes with fractures -----------------------------------------------
    for _ in range(chk.n(170, 2500)):
        n = rng.choice([2, 3, 4, 6, 8])
        h = box(rng, n)
        fr = Frame(rng, scales=(0, 0, -4, 3), rotate=0.2, offsets=(0, 0, 2, -3))
        side = rng.sample([2, 3, 4, 5, 6, 8, 9, 11, 12, 13, 14], len(h))
        tags = {"area": rng.choice([1, 7])}
        tags.update({"bc_%d" % i: t for i, t in enumerate(side)})
        B = fr.puts([p + (0,) for p in h])
        lines = fractures(rng, h, n, rng.choice([0, 1, 1, 2, 2, 3]))
        parts = rng.choice([1, 1, 2, 4])
        dense = rng.random() < 0.08
        if dense:
            # a dense network: more pieces than places
            n, h, parts = 8, [(0, 0), (8, 0), (8, 8), (0, 8)], 1
            side, tags = side[:4] + [15, 16][:4 - len(side)], dict(tags, bc_3=16)
            tags.update({"bc_%d" % i: t for i, t in enumerate(side)})
            xs, ys = (sorted(rng.sample(range(1, 8), rng.randint(3, 7))) for _ in range(2))
            lines = [((x, 0 if rng.random() < 0.2 else 1), (x, 7)) for x in xs] + [((1, y), (7, y)) for y in ys]
            B = fr.puts([p + (0,) for p in h])
        lc = n / parts
        ref = rng.choice([0, 0, 1, 2][:4 if parts == 1 and len(lines) < 3 else 3]) if parts <= 2 else 0
        unit = 12000 // n
        L = np.array([fr.puts([p + (0,) for p in s]) for s in lines])
        via = "dd" if lines or rng.random() < 0.5 else rng.choice(["cm", "gb"])
        curves, npoints = [], 0
        args = {"lc": lc * fr.s, "n_refinements": ref}
        if via == "dd" and rng.random() < (0.8 if dense else 0.4):
            curves = sorted(set(rng.sample([100] + side, rng.randint(1, 2)) + [100] * dense))
            npoints = rng.choice([2, 3] if dense else [2, 3, 5])
            args["curves_refinement"] = (curves, {"n_points": npoints, "meshType": rng.choice(["Bump", "Progression"]), "coef": rng.choice([1.0, 1.0, 0.5])})
        if ref == 0 and rng.random() < 0.3:
            del args["n_refinements"]

        def domain():
            if not lines:
                return dm.build_box_2D(B, tags) if rng.random() < 0.5 else dm.create_md_box_2D(B, tags)
            return dm.create_md_box_2D(B, tags, L, {"line": 100, "internal_bc": 200, "point": 300})

        def build(r=ref):
            if via == "gb":
                return legacy(B, 2, tags, lc * fr.s, r)
            d = domain()
            return discrete(d, 2, dict(args, n_refinements=r) if r or "n_refinements" in args else args) if via == "dd" else conformal(d, 2, lc * fr.s, r)
        m, err = make(chk, build, 2)
        rec = {}
        if not err:
            cells = tops(m, 2)
            rec = dict(pts=[fr.back(p, unit) for p in m.points], cells=cells, edges=tagged(m, 1), verts=tagged(m, 0),
                       base=count(lambda: build(0), 2) if ref else len(cells))
            if len(cells) > (900 if dense else 500):
                continue
        add("area", err, via=via, box=[list(p) + [0] for p in h], sidetags=side, lines=[[list(p) + [0] for p in s] for s in lines], linetag=100, endtag=200, pointtag=300,
            areatag=tags["area"], unit=unit, lc=int(lc * unit), ref=ref, curves=curves, npoints=npoints, **rec)

    # --- boxes with a fracture network inside -----------------------------------------
    for _ in range(chk.n(60, 900)):
        n = rng.choice([2, 3, 4])
        fr = Frame(rng, scales=(0, 0, -4, 3), rotate=0, offsets=(0, 0, 2, -3), planar=True)
        h = rng.choice([[(-1, -1), (n + 1, -1), (n + 1, n + 1), (-1, n + 1)], [(-1, -1), (2 * n + 2, -1), (-1, 2 * n + 2)],
                        [(-1, -1), (n, -1), (n + 2, 0), (n + 1, n + 2), (-1, n + 1)]])
        if rng.random() < 0.5:
            h = h[::-1]
        j = rng.randrange(len(h))
        h = h[j:] + h[:j]
        lines = network(rng, n, rng.choice([1, 2, 2, 3, 4]))
        unit, lc, ref = 2400, n / rng.choice([1, 1, 2]), rng.choice([0, 0, 0, 1])
        shift = rng.choice([10, 20, 300])
        side = rng.sample(range(2, 10), len(h))
        tags = dict({"area": 1}, **{"bc_%d" % i: t for i, t in enumerate(side)})
        L = [fr.puts([p + (0,) for p in s]) for s in lines]
        B = fr.puts([p + (0,) for p in h])

        made = [] if rng.random() < 0.6 else None

        def build(r=ref):
            return legacy(B, 2, tags, lc * fr.s, r, L, shift, made)
        if made is not None and rng.random() < 0.5:
            # the same description was meshed before
            count(lambda: build(0), 2)
        m, err = make(chk, build, 2)
        rec = {}
        if not err:
            cells = tops(m, 2)
            rec = dict(pts=[fr.back(p, unit) for p in m.points], cells=cells, edges=tagged(m, 1), verts=tagged(m, 0), base=count(lambda: build(0), 2) if ref else len(cells))
            if len(cells) > (1500 if chk.quick else 3000):
                chk.count("too-fine")
                continue
        add("inner", err, via="gb", box=[list(p) + [0] for p in h], sidetags=side, lines=[[list(p) + [0] for p in s] for s in lines], linetags=[shift + i for i in range(len(lines))],
            areatag=1, unit=unit, lc=int(lc * unit), ref=ref, npoints=10, **rec)

    # --- boxes with lines from a file ----------------------------------------------------
    for _ in range(chk.n(50, 700)):
        n = rng.choice([2, 3, 4, 6])
        fr = Frame(rng, scales=(0, 0, -4, 3), rotate=0, offsets=(0, 0, 2, -3), planar=True)
        h = box(rng, n)
        lines = embedded(rng, h, n, rng.choice([1, 1, 2, 3, 4]))
        unit, lc, ref = 7200 // n, n / rng.choice([1, 1, 2]), rng.choice([0, 0, 0, 1])
        side = rng.sample(range(2, 14), len(h))
        area = rng.choice([1, 20])
        tags = dict({"area": area}, **{"bc_%d" % i: t for i, t in enumerate(side)})
        with open("lines.csv", "w") as f:
            for s in lines:
                f.write(",".join(repr(float(c)) for p in fr.puts([p + (0,) for p in s]) for c in p) + "\n")
        B = fr.puts([p + (0,) for p in h])

        def build(r=ref):
            return conformal(dm.build_box_2D_with_lines(B, "lines.csv", tags), 2, lc * fr.s, r)
        m, err = make(chk, build, 2)
        rec = {}
        if not err:
            cells = tops(m, 2)
            if len(cells) > (1500 if chk.quick else 3000):
                chk.count("too-fine")
                continue
            rec = dict(pts=[fr.back(p, unit) for p in m.points], cells=cells, edges=tagged(m, 1), verts=tagged(m, 0), base=count(lambda: build(0), 2) if ref else len(cells))
        add("filed", err, via="cl", box=[list(p) + [0] for p in h], sidetags=side, lines=[[list(p) + [0] for p in s] for s in lines],
            areatag=area, unit=unit, lc=int(lc * unit), ref=ref, npoints=10, **rec, **({"gmsh-flat": not err and flat_on_a_line(m, lines)}))
    if os.path.exists("lines.csv"):
        os.unlink("lines.csv")

    # --- segments, and networks of segments ----------------------------------------
    for _ in range(chk.n(60, 900)):
        n = rng.choice([2, 4, 6, 8])
        fr = Frame(rng, scales=(0, 0, -4, 3), rotate=0.5)
        unit = 8000 // n
        parts = rng.choice([1, 2, 4, 7])
        lc, ref = n / parts, rng.choice([0, 0, 1, 2])
        k = rng.choice([1, 1, 2, 3, 4])
        up = rng.random() < 0.3 and k == 1
        big = [(-2, -2), (2 * n, -2), (2 * n, 2 * n), (-2, 2 * n)]
        lines = []
        while len(lines) < k:
            lines = [s for s in fractures(rng, big, n, k) if all(0 <= c <= n for p in s for c in p)]
            k = max(1, k - (rng.random() < 0.1))
        lines = [[list(p) + [0] for p in s] for s in lines[:k]]
        if up:
            lines = [[p[:2] + [rng.randint(0, n)] for p in lines[0]]]
        via = rng.choice(["dd", "cm", "gb"]) if k == 1 else "dd"
        ltags = [rng.choice([1, 5]) for _ in lines]
        etags = [rng.sample([2, 3, 4], 2) for _ in lines]

        def domain():
            if len(lines) == 1:
                return dm.build_box_1D(fr.puts(lines[0]), {"line": ltags[0], "bc_0": etags[0][0], "bc_1": etags[0][1]})
            vs, es = [], []
            for i, s in enumerate(lines):
                pair = []
                for j in range(2):
                    v = Vertex(len(vs), fr.put(s[j]))
                    v.physical_tag = etags[i][j]
                    vs.append(v)
                    pair.append(v)
                e = Edge(i, np.array(pair))
                e.physical_tag = ltags[i]
                es.append(e)
            base = create_domain(dimension=1, shapes=np.array(vs + es))
            tag = base.max_tag() + 1
            cut = []
            for p in sorted(set(tuple(p) for i, s in enumerate(lines) for t in lines[:i] for p in meets(s, t))):
                v = Vertex(tag + len(cut), fr.put([float(p[0]), float(p[1]), 0]))
                v.physical_tag = 50
                cut.append(v)
            if not cut:
                return base
            c1 = create_domain(dimension=1, shapes=np.array(cut))
            c0 = domain_difference(base, c1, tag + len(cut))
            return domain_union(c0, c1)

        def build(r=ref):
            if via == "gb":
                return legacy(fr.puts(lines[0]), 1, {"line": ltags[0], "bc_0": etags[0][0], "bc_1": etags[0][1]}, lc * fr.s, r)
            d = domain()
            return discrete(d, 1, {"lc": lc * fr.s, "n_refinements": r}) if via == "dd" else conformal(d, 1, lc * fr.s, r)
        m, err = make(chk, build, 1)
        rec = {}
        if not err:
            cells = tops(m, 1)
            rec = dict(pts=[fr.back(p, unit) for p in m.points], cells=cells, verts=tagged(m, 0), base=count(lambda: build(0), 1) if ref else len(cells))
        add("net", err, via=via, lines=lines, linetags=ltags, endtags=etags, pointtag=50, unit=unit, lc=int(lc * unit), ref=ref, **rec)

    # --- boxes in space -------------------------------------------------------------
    for _ in range(chk.n(24, 250)):
        M = np.array([[rng.randint(2, 4), 0, 0], [rng.randint(-1, 1), rng.randint(2, 4), 0], [rng.randint(-1, 1), rng.randint(-1, 1), rng.randint(2, 4)]])
        pts = np.array([[int(c) for c in np.array(p) @ M] for p in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]])
        pts = pts - pts.min(axis=0)
        fr = Frame(rng, scales=(0, 0, -4, 3), rotate=0.5)
        side = rng.sample(range(2, 20), 6)
        tags = {"solid": 30}
        tags.update({"bc_%d" % i: t for i, t in enumerate(side)})
        lc, ref = rng.choice([5, 3, 2]), rng.choice([0, 0, 1])
        if ref:
            lc = 5
        unit = 100
        via = rng.choice(["dd", "cm", "gb"])
        # the geometry builder lists the faces of a box in another order
        gtags = dict({"volume": 30}, **{"bc_%d" % i: t for i, t in enumerate(side[2:] + side[:2])})

        def build(r=ref):
            if via == "gb":
                return legacy(fr.puts(pts), 3, gtags, lc * fr.s, r)
            d = dm.build_box_3D(fr.puts(pts), tags)
            return discrete(d, 3, {"lc": lc * fr.s, "n_refinements": r}) if via == "dd" else conformal(d, 3, lc * fr.s, r)
        m, err = make(chk, build, 3)
        rec = {}
        if not err:
            cells, flat = tops(m, 3), 0
            if len(cells) > 700:
                continue
            X = (np.asarray(m.points) - fr.o) / fr.s
            for c in cells:
                a, b, d, e = X[[i - 1 for i in c[:4]]]
                v = np.dot(np.cross(b - a, d - a), e - a)
                if abs(v) < 1e-6:
                    flat += 1
                if v < 0:
                    c[0], c[1] = c[1], c[0]
            if np.linalg.det(fr.Q) < 0:
                for c in cells:
                    c[0], c[1] = c[1], c[0]
            rec = dict(pts=[fr.back(p, unit) for p in m.points], cells=cells, flat=flat, faces=tagged(m, 2), base=count(lambda: build(0), 3) if ref else len(cells))
        add("solid", err, via=via, box=pts.tolist(), sidetags=side, areatag=30, unit=unit, lc=lc * unit, ref=ref, **rec)
    # a rare defect of gmsh's planar mesher; more than a few of them are not
    filed = sum(e["ev"] == "filed" for e in events)
    if len(aside) > 2 + filed // 25:
        events.extend(aside)
    elif aside:
        chk.count("set-aside-gmsh-flat", len(aside))
    for e in (events[0], events[-1]):
        chk.sample({k: v for k, v in e.items() if k not in ("pts", "cells", "edges", "faces")})
    chk.trace("MeshingTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
