"""C09: polygons - convexity, normals, triangulation, membership and segments (spec: Polygons / PolygonsTrace)."""
import numpy as np

from vf.frame import UNIT, Frame


class Skew(Frame):
    """polygon coordinates (x, y, height) -> integer vectors u, w, n -> similarity"""

    def __init__(self, rng, u, w, n, **k):
        super().__init__(rng, **k)
        self.M = np.array([u, w, n], dtype=float).T
        self.Mi = np.linalg.inv(self.M)

    def put(self, p):
        return super().put(self.M @ np.asarray(p, dtype=float))

    def back(self, x, unit=UNIT):
        y = self.Mi @ (self.Q.T @ (np.asarray(x, dtype=float) - self.o)) / self.s * unit
        if not np.all(np.isfinite(y)) or np.max(np.abs(y)) > 2e8:
            return [10 ** 8] * 3
        return [int(round(v)) for v in y]


def cr(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on(p, a, b):
    return cr(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meet(a, b, c, d):
    sg = np.sign
    return on(a, c, d) or on(b, c, d) or on(c, a, b) or on(d, a, b) or (
        sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 and sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0)


def simple(h):
    n = len(h)
    if len(set(h)) < n:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            a, b, c, d = h[i], h[(i + 1) % n], h[j], h[(j + 1) % n]
            if b == c:
                if on(d, a, b) or on(a, c, d):
                    return False
            elif d == a:
                if on(c, a, b) or on(b, c, d):
                    return False
            elif meet(a, b, c, d):
                return False
    return True


def strictly_convex(h):
    n = len(h)
    t = [cr(h[i], h[(i + 1) % n], h[(i + 2) % n]) for i in range(n)]
    return all(x > 0 for x in t) or all(x < 0 for x in t)


def incircle(a, b, c, d):
    m = [[x[0] - d[0], x[1] - d[1], (x[0] - d[0]) ** 2 + (x[1] - d[1]) ** 2] for x in (a, b, c)]
    det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
           + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    return det * (1 if cr(a, b, c) > 0 else -1)


def delaunay_sides(h):
    n = len(h)
    for i in range(n):
        a, b = h[i], h[(i + 1) % n]
        left, right = [p for p in h if cr(a, b, p) > 0], [p for p in h if cr(a, b, p) < 0]
        if not all(incircle(a, b, r, s) < 0 for r in left for s in right):
            return False
    return True


def hull(ps):
    ps = sorted(set(ps))

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and cr(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    return half(ps)[:-1] + half(ps[::-1])[:-1]


def polygon(rng, n):
    while True:
        k = rng.randint(3, 8)
        h = [(rng.randint(0, n), rng.randint(0, n)) for _ in range(k)]
        if rng.random() < 0.5:
            h = hull(h)
        elif k > 5:
            # order the vertices around an inner point: mostly star-shaped polygons
            c = (rng.random() * n, rng.random() * n)
            h.sort(key=lambda p: np.arctan2(p[1] - c[1], p[0] - c[0]))
        if len(h) < 3 or not simple(h):
            continue
        if rng.random() < 0.5:
            h.reverse()
        r = rng.randrange(len(h))
        return h[r:] + h[:r]


AXES = [((1, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 0, 1)), ((0, 0, 1), (1, 0, 0)), ((1, 0, 0), (0, 0, -1)), ((0, -1, 0), (1, 0, 0))]


def run(chk):
    from geometry.operations import line_geometry_operations as lg
    from geometry.operations import point_geometry_operations as pg
    from geometry.operations import polygon_geometry_operations as gg
    chk.model("PolygonsMC", "PolygonsMC" if chk.quick else "PolygonsMC_big")
    rng = chk.rng
    events = []

    def add(kind, err, key=None, **k):
        k.update({"ev": kind, "err": err or "", "key": key or "%s:%d:%d" % (kind, chk.seed, len(events))})
        events.append(k)
        chk.count(kind)

    def frame(conv):
        if conv and rng.random() < 0.6:
            while True:
                u, w = [rng.randint(-2, 3) for _ in range(3)], [rng.randint(-2, 3) for _ in range(3)]
                n = np.cross(u, w)
                if np.any(n):
                    break
            return Skew(rng, u, w, n, scales=(0, 0, -4), offsets=(0, 0, 2, -3))
        u, w = rng.choice(AXES)
        return Skew(rng, u, w, np.cross(u, w), scales=(0, 0, -4, 3), rotate=0.3 if conv else 0, offsets=(0, 0, 2, -3))

    def flat(out, fr):
        if out is None:
            return []
        out = np.asarray(out, dtype=float)
        return [[10 ** 8] * 3] if out.size % 3 else fr.backs(out)

    def segment(h, n):
        while True:
            p = [rng.randint(-1, n + 1), rng.randint(-1, n + 1), rng.choice([0, 0, 1, -1, 2])]
            q = [rng.randint(-1, n + 1), rng.randint(-1, n + 1), rng.choice([0, 0, 1, -1, -2])]
            r = rng.random()
            if r < 0.15:
                p[:2] = rng.choice(h)
            elif r < 0.25:
                p[:2], q[:2] = rng.choice(h), rng.choice(h)
            if r > 0.85:
                p[2] = q[2] = 0
            if p != q:
                return [int(x) for x in p], [int(x) for x in q]

    def one(h, n, conv, key=None, free=False):
        fr = frame(conv)
        P = fr.puts([p + (0,) for p in h])
        hh = [list(p) for p in h]
        k = dict(h=hh, free=free, key=key)
        if fr.M is not None and (conv or not fr.Q[0, 1]):
            out, err = chk.call(gg.convex_q, P)
            add("convex", err, answer=bool(out), **k)
        out, err = chk.call(gg.polygon_normal, P)
        det = np.linalg.det(fr.Q)
        ps = (fr.M @ np.array([p + (0,) for p in h], dtype=float).T).T
        add("normal", err, ps=[[int(round(v)) for v in p] for p in ps], key=key,
            n=[0, 0, 0] if err else [int(round(1000 * v)) for v in det * (fr.Q.T @ out)])
        out, err = chk.call(gg.triangulate_polygon, P)
        add("triangulation", err, tris=[] if err else [[fr.back(x, 100) for x in t] for t in out], **k)
        if conv:
            out, err = chk.call(gg.triangulate_convex_polygon, P)
            add("triangulation", err, tris=[] if err else [[fr.back(x, 100) for x in t] for t in out], **k)
        qs = []
        for _ in range(rng.randint(1, 8)):
            q = [rng.randint(-1, n + 1), rng.randint(-1, n + 1), rng.choice([0, 0, 0, 0, 0, 1, -1])]
            if rng.random() < 0.2:
                q[:2] = rng.choice(h)
            qs.append(q)
        qs = [[int(x) for x in q] for q in qs]
        out, err = chk.call(pg.points_polygon_intersection, fr.puts(qs), P)
        o1, e1 = chk.call(pg.point_polygon_intersection, fr.put(qs[0]), P)
        add("points", err or e1, qs=qs, mask=[] if err else [bool(x) for x in out[1]], pts=[] if err else fr.backs(out[0]), single=o1 is not None, **k)
        segs = [segment(h, n) for _ in range(4)]
        for p, q in segs:
            out, err = chk.call(lg.line_polygon_intersection, fr.puts([p, q]), P)
            add("line", err, p=p, q=q, pts=flat(out, fr), **k)
            if len(h) == 3:
                out, err = chk.call(lg.line_triangle_intersection, fr.puts([p, q]), *P)
                add("tri", err, p=p, q=q, pts=flat(out, fr), **k)
        # answers for several lines at once: rows of one array need answers of one shape
        same = [s for s in segs if s[0][2] or s[1][2]]
        for group in (segs, same):
            if group:
                out, err = chk.call(lg.lines_polygon_intersection, np.array([fr.puts(s) for s in group]), P)
                add("lines", err, lines=group, mask=[] if err else [bool(x) for x in out[1]], outs=[] if err else [flat(o, fr) for o in out[0]], **k)
                if len(h) == 3:
                    out, err = chk.call(lg.lines_triangle_intersection, np.array([fr.puts(s) for s in group]), *P)
                    add("tris", err, lines=group, mask=[] if err else [bool(x) for x in out[1]], outs=[] if err else [flat(o, fr) for o in out[0]], **k)

    done = 0
    target = chk.n(250, 5000)
    while done < target:
        n = rng.choice([2, 3, 4, 6])
        h = polygon(rng, n)
        conv = strictly_convex(h)
        if conv or delaunay_sides(h):
            one(h, n, conv)
            done += 1
    # a side that is no Delaunay edge of the vertices: the triangulation leaves part of the polygon out
    h = [(5, 1), (3, 3), (1, 6), (0, 2), (1, 1), (1, 3)]
    hh = [list(p) for p in h]
    P = np.array([p + (0,) for p in h], dtype=float)
    fr = Skew(rng, (1, 0, 0), (0, 1, 0), (0, 0, 1), scales=(0,), rotate=0, offsets=(0,))
    out, err = chk.call(gg.triangulate_polygon, P)
    add("triangulation", err, h=hh, free=True, key="hollow-polygon", tris=[] if err else [[fr.back(x, 100) for x in t] for t in out])
    qs = [[x, y, 0] for x in range(-1, 7) for y in range(-1, 8)]
    out, err = chk.call(pg.points_polygon_intersection, fr.puts(qs), P)
    o1, e1 = chk.call(pg.point_polygon_intersection, fr.put(qs[0]), P)
    mask = [] if err else [bool(x) for x in out[1]]
    add("points", err or e1, h=hh, free=True, key="hollow-polygon", qs=qs, mask=mask, pts=[] if err else fr.backs(out[0]), single=o1 is not None)
    chk.sample(events[0])
    chk.sample(events[-1])
    chk.trace("PolygonsTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
