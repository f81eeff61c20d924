"""C11: planar fracture networks - crossings, pieces, tags, graphs (spec: Network / NetworkTrace)."""
from fractions import Fraction

import numpy as np

from props.c12 import meets
from vf.frame import Frame


def exact_frame(rng):
    """axes permuted or reflected in the plane, dyadic scales: coordinates stay exact"""
    fr = Frame(rng, scales=(0, 0, -4, 3), rotate=0, offsets=(0, 0, 2, -3), planar=True)
    Q = np.eye(3)
    if rng.random() < 0.5:
        Q = Q[:, [1, 0, 2]]
    if rng.random() < 0.2:
        # small networks far from the origin
        fr.s, fr.o = 2.0 ** -7, np.array([rng.choice([-24.0, 0.0, 16.0]), rng.choice([-8.0, 8.0, 28.0]), 0.0])
    fr.Q = Q @ np.diag([rng.choice([1, -1]), rng.choice([1, -1]), 1])
    return fr


def network(rng, n, k):
    """k fractures whose common points are lattice points; ends, crossings and stars coincide often"""
    lines, tries = [], 0
    while len(lines) < k and tries < 3000:
        tries += 1
        pts = [p for s in lines for p in s]
        a = rng.choice(pts) if pts and rng.random() < 0.3 else (rng.randint(0, n), rng.randint(0, n))
        long = lines and rng.choice(lines)
        if long and n > 20 and rng.random() < 0.6:
            # a short fracture close to one of the others
            t = rng.random()
            c = [int(round(u + t * (v - u))) for u, v in zip(*long)]
            a = tuple(v + rng.randint(-1, 1) for v in c)
            b = tuple(v + rng.randint(-2, 2) for v in c)
        elif rng.random() < 0.6:
            d, q = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 2)]), rng.randint(-n, n)
            b = (a[0] + q * d[0], a[1] + q * d[1])
        else:
            b = rng.choice(pts) if pts and rng.random() < 0.3 else (rng.randint(0, n), rng.randint(0, n))
        if a == b or not all(0 <= c <= n for c in a + b):
            continue
        ms = [meets((a, b), t) for t in lines]
        if any(m is None for m in ms) or any(Fraction(c).denominator != 1 for m in ms for p in m for c in p):
            continue
        lines.append((a, b))
    return lines


def run(chk):
    from geometry.fracture_network import FractureNetwork
    from geometry.operations.triangle_triangle_intersection_test import TriangleTriangleIntersectionTest
    chk.model("NetworkMC", "NetworkMC" if chk.quick else "NetworkMC_big", timeout=800)
    rng = chk.rng
    events = []

    def add(kind, err, **k):
        k.update({"ev": kind, "err": err or "", "key": "%s:%d:%d" % (kind, chk.seed, len(events))})
        events.append(k)
        chk.count(kind)

    for _ in range(chk.n(500, 8000)):
        n = rng.choice([2, 3, 4, 6, 12, 60])
        lines = network(rng, n, rng.choice([1, 2, 2, 3, 3, 4, 5, 7]))
        fr = exact_frame(rng)
        shift = rng.choice([1, 10, 10, 300])
        tags = [shift + j for j in range(len(lines))]

        def build():
            f = FractureNetwork(dimension=2, physical_tag_shift=shift)
            fracs = [fr.puts([p + (0,) for p in s]) for s in lines]
            if rng.random() < 0.2:
                # an instance is used for one network after the other
                f.intersect_1D_fractures([fr.puts([(0, 0, 0), (n, n, 0)]), fr.puts([(0, n, 0), (n, 0, 0)])])
            f.intersect_1D_fractures(fracs)
            f.build_grahp(all_fixed_d_cells_q=True)
            full = [[int(u), int(v)] for u, v in f.graph.edges()]
            f.build_grahp()
            short = [[int(u), int(v)] for u, v in f.graph.edges()]
            p, c = rng.randint(0, 9), rng.randint(0, 9)
            if rng.random() < 0.3:
                # the shifts the meshers use, and back
                for s in (1, -1):
                    f.shift_point_ids(s * p)
                    f.shift_cell_ids(s * c)
            return f, full, short
        out, err = chk.call(build)
        rec = {}
        if not err:
            f, full, short = out
            cells = [{"id": int(c.id), "d": int(c.dimension), "f": int(c.physical_tag), "pt": -1 if c.point_id is None else int(c.point_id),
                      "bc": [int(b.id) for b in c.boundary_cells], "im": [int(b.id) for b in c.immersed_cells]} for c in f.cells]
            inner = {i for c in cells for i in c["im"]}
            rec = dict(pts=[fr.back(p) for p in f.points], cells=cells, listed=[int(t) for t in f.fracture_tags], graph=full, short=short,
                       hosts=[c["id"] for c in cells if c["d"] == 1 and c["id"] not in inner])
        add("network", err, lines=[[list(p) + [0] for p in s] for s in lines], tags=tags, **rec)

    # the older predicate on two segments. Collinear segments and touching ends are answered wrongly for some inputs (listed findings).
    tt = TriangleTriangleIntersectionTest()

    def cross(seg, plane, sc, **key):
        lifted = [[0, 0, 0] for _ in seg]
        for s, p in zip(lifted, seg):
            s[plane[0]], s[plane[1]] = p[0], p[1]
        out, err = chk.call(tt.line_line_intersection, *[sc * np.array(p, dtype=float) for p in lifted], np.array(plane))

        def rec(p):
            if not isinstance(p, np.ndarray):
                return []
            p = p / sc
            return [int(round(c * 10000)) for c in (p[plane[0]], p[plane[1]], 0)]
        add("cross", err, seg=[list(p) + [0] for p in seg], q=False if err else bool(out[0]), p1=[] if err else rec(out[1]), p2=[] if err else rec(out[2]))
        events[-1].update(key)

    cross([(0, 0), (1, 0), (2, 0), (3, 0)], [0, 1], 1.0, key="collinear-apart")
    cross([(2, 0), (0, 0), (1, 0), (2, 0)], [0, 1], 1.0, key="collinear-stretch")
    cross([(5, 3), (0, 2), (4, 6), (0, 2)], [0, 1], 1.0, key="touching-end")
    for _ in range(chk.n(1500, 20000)):
        n = rng.choice([1, 2, 3, 6, 11])
        seg = [(rng.randint(0, n), rng.randint(0, n)) for _ in range(4)]

        def side(p, a, b):
            return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
        a, b, c, d = seg
        if 0 in (side(a, c, d), side(b, c, d), side(c, a, b), side(d, a, b)):
            continue
        cross(seg, rng.choice([[0, 1], [0, 1], [1, 2], [0, 2]]), 2.0 ** rng.choice([0, 0, -4, 3]))

    f = FractureNetwork(dimension=2)
    for _ in range(chk.n(200, 3000)):
        m = rng.choice([5, 40, 300, 20000])
        x, y = rng.randint(0, m), rng.randint(0, m)
        z, err = chk.call(f.pair_intergers, x, y)
        back, err2 = chk.call(f.unpair_intergers, z) if not err else (None, None)
        add("pair", err or err2, x=x, y=y, z=-1 if err else int(z), back=[] if err or err2 else [int(c) if float(c) == int(c) else -1 for c in back])
    chk.sample(events[0])
    chk.sample(events[-1])
    chk.trace("NetworkTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
