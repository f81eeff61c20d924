"""C08: point, segment and triangle predicates (spec: Segments / SegmentsTrace)."""
import numpy as np

from vf.frame import Frame


def run(chk):
    from geometry.operations import line_geometry_operations as lg
    from geometry.operations import point_geometry_operations as pg
    chk.model("Segments", "Segments2")
    chk.model("Segments", "Segments3" if chk.quick else "Segments3_big")
    rng = chk.rng
    events = []

    def add(kind, err, **k):
        k.update({"ev": kind, "err": err or "", "key": "%s:%d:%d" % (kind, chk.seed, len(events))})
        events.append(k)
        chk.count(kind)

    def flat(out, fr):
        if out is None:
            return []
        if isinstance(out, tuple):
            out = out[0]
        return fr.backs(out)

    def rnd(flat_q, n):
        return [rng.randint(0, n), rng.randint(0, n), 0 if flat_q else rng.randint(0, n)]

    def segment(flat_q, n):
        while True:
            a, b = rnd(flat_q, n), rnd(flat_q, n)
            if a != b:
                return a, b

    def on_line(a, b, n):
        """a grid point on the line ab, or None"""
        g = np.gcd.reduce(np.array(b) - np.array(a))
        d = (np.array(b) - np.array(a)) // g
        ks = [k for k in range(-n, 2 * n + 1) if all(0 <= a[i] + k * d[i] <= n for i in range(3))]
        k = rng.choice(ks)
        return [int(a[i] + k * d[i]) for i in range(3)]

    def pair(flat_q, n):
        a, b = segment(flat_q, n)
        c, d = segment(flat_q, n)
        r = rng.random()
        if r < 0.15:
            c = rng.choice([a, b])
        elif r < 0.3:
            c = on_line(a, b, n)
        elif r < 0.5:
            c, d = on_line(a, b, n), on_line(a, b, n)
        elif r < 0.6:
            a = on_line(c, d, n)
        return (a, b, c, d) if a != b and c != d else pair(flat_q, n)

    for _ in range(chk.n(2500, 60000)):
        flat_q = rng.random() < 0.5
        n = rng.choice([2, 3, 5] if flat_q else [1, 2, 4])
        fr = Frame(rng, scales=(0, 0, -4, -8, 3, -12) if flat_q else (0, 0, -4, -8, 3))
        a, b, c, d = pair(flat_q, n)
        A, B, C, D = [fr.put(x) for x in (a, b, c, d)]
        out, err = chk.call(lg.line_line_intersection, A, B, C, D)
        add("segments", err, a=a, b=b, c=c, d=d, pts=flat(out, fr))

    for _ in range(chk.n(1200, 20000)):
        flat_q = rng.random() < 0.5
        n = rng.choice([3, 12, 40])
        fr = Frame(rng, scales=(0, 0, -4, -8, 3))
        a, b = segment(flat_q, n)
        p = on_line(a, b, n) if rng.random() < 0.4 else rnd(flat_q, n)
        if rng.random() < 0.3:
            p = [min(n, max(0, x + rng.choice([-1, 0, 1]))) if i < 2 or not flat_q else 0 for i, x in enumerate(on_line(a, b, n))]
        out, err = chk.call(pg.point_line_intersection, fr.put(p), fr.put(a), fr.put(b))
        on, e2 = chk.call(pg.point_line_incidence, fr.put(p), fr.put(a), fr.put(b))
        add("point", err or e2, p=p, a=a, b=b, hit=out is not None, pt=[0, 0, 0] if out is None else fr.back(out), online=bool(on))
        n = rng.choice([1, 2, 3, 5])
        (a, b), c = segment(flat_q, n), rnd(flat_q, n)
        if np.any(np.cross(np.array(b) - a, np.array(c) - a)):
            q = rng.choice([rnd(flat_q, n), on_line(a, b, n), on_line(b, c, n), on_line(c, a, n), a, b, c])
            # a point of the plane of the triangle
            if rng.random() < 0.4:
                u, v = rng.randint(-2, 3), rng.randint(-2, 3)
                q = [a[i] + (u * (b[i] - a[i]) + v * (c[i] - a[i])) // 2 for i in range(3)]
            fr = Frame(rng, scales=(0, 0, -4), offsets=(0, 0, 2, -3))
            out, err = chk.call(pg.point_triangle_intersection, fr.put(q), fr.put(a), fr.put(b), fr.put(c))
            on, e2 = chk.call(pg.point_triangle_incidence, fr.put(q), fr.put(a), fr.put(b), fr.put(c))
            add("triangle", err or e2, p=q, a=a, b=b, c=c, hit=out is not None, pt=[0, 0, 0] if out is None else fr.back(out), inplane=bool(on))

    for _ in range(chk.n(250, 4000)):
        flat_q = rng.random() < 0.5
        n = rng.choice([2, 3, 5] if flat_q else [2, 4])
        fr = Frame(rng)
        a, b = segment(flat_q, n)
        ps = [on_line(a, b, n) if rng.random() < 0.4 else rnd(flat_q, n) for _ in range(rng.randint(1, 8))]
        out, err = chk.call(pg.points_line_intersection, fr.puts(ps), fr.put(a), fr.put(b))
        add("points", err, ps=ps, a=a, b=b, c=a, mask=[] if err else [bool(x) for x in out[1]], pts=[] if err else fr.backs(out[0]))
        c = rnd(flat_q, n)
        if np.any(np.cross(np.array(b) - a, np.array(c) - a)):
            out, err = chk.call(pg.points_triangle_intersection, fr.puts(ps), fr.put(a), fr.put(b), fr.put(c))
            add("triangles", err, ps=ps, a=a, b=b, c=c, mask=[] if err else [bool(x) for x in out[1]], pts=[] if err else fr.backs(out[0]))
        rev = rng.random() < 0.5
        fr0 = Frame(rng, rotate=0)
        idx, err = chk.call(pg.points_line_argsort, fr0.puts(ps), fr0.put(a), fr0.put(b), rev)
        add("sort", err, ps=ps, a=a, b=b, rev=rev, idx=[] if err else [int(i) for i in idx])

    def overlap(s, t):
        (a, b), (c, d) = s, t
        if np.any(np.cross(np.array(b) - a, np.array(d) - c)) or np.any(np.cross(np.array(b) - a, np.array(c) - a)):
            return False
        ax = max(range(3), key=lambda i: abs(b[i] - a[i]))
        lo, hi = max(min(a[ax], b[ax]), min(c[ax], d[ax])), min(max(a[ax], b[ax]), max(c[ax], d[ax]))
        return hi > lo

    for _ in range(chk.n(220, 4000)):
        flat_q = rng.random() < 0.7
        n = rng.choice([2, 3, 4])
        fr = Frame(rng, scales=(0, 0, -3, 3))   # coordinates away from ties of the 10-decimal rounding (see the fixed case below)
        lines = []
        for _ in range(rng.randint(1, 6)):
            s = list(segment(flat_q, n))
            if not any(overlap(s, t) for t in lines):
                lines.append(s)
        s = list(segment(flat_q, n))
        if not any(overlap(s, t) for t in lines):
            out, err = chk.call(lg.lines_line_intersection, np.array([fr.puts(t) for t in lines]), fr.put(s[0]), fr.put(s[1]))
            add("list", err, lines=lines, a=s[0], b=s[1], out=[] if err else fr.backs(out))
        else:
            singles = [flat(chk.call(lg.line_line_intersection, fr.put(t[0]), fr.put(t[1]), fr.put(s[0]), fr.put(s[1]))[0], fr) for t in lines]
            out, err = chk.call(lg.lines_line_intersection, np.array([fr.puts(t) for t in lines]), fr.put(s[0]), fr.put(s[1]))
            add("overlaplist", err, lines=lines, a=s[0], b=s[1], singles=singles, out=[] if err else fr.backs(out))
        objects = lines if rng.random() < 0.4 else []
        while not objects:
            s = list(segment(flat_q, n))
            if not any(overlap(s, t) for t in lines):
                objects = [s]
        T, O = np.array([fr.puts(t) for t in lines]), np.array([fr.puts(t) for t in objects])
        outs, err = chk.call(lg.lines_lines_intersection, T, O)
        add("lists", err, tools=lines, objects=objects, dedupe=False, outs=[] if err else [fr.backs(o) for o in outs], out=[])
        if flat_q:
            out, err = chk.call(lg.lines_lines_intersection, T, O, True)
            add("lists", err, tools=lines, objects=objects, dedupe=True, outs=[], out=[] if err else fr.backs(out))
    # two computations of one crossing point on either side of a rounding tie
    fr = Frame(rng, scales=(-8,), rotate=0, offsets=(0,))
    lines = [[[3, 3, 0], [3, 0, 0]], [[0, 2, 0], [0, 1, 0]], [[3, 0, 0], [1, 3, 0]], [[2, 0, 0], [2, 2, 0]], [[3, 2, 0], [1, 0, 0]], [[2, 3, 0], [0, 2, 0]]]
    T = np.array([fr.puts(t) for t in lines])
    out, err = chk.call(lg.lines_lines_intersection, T, T, True)
    add("lists", err, tools=lines, objects=lines, dedupe=True, outs=[], out=[] if err else fr.backs(out))
    events[-1]["key"] = "rounding-tie"
    chk.sample(events[0])
    chk.sample(events[-1])
    groups = [events[i::8] for i in range(8)]
    chk.trace("SegmentsTrace", None, traces=len(events), chunk=groups)
