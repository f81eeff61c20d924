"""C12: domain builders - boxes, fractures embedded in boxes, wires (spec: DomainOps / DomainMarketTrace)."""
from fractions import Fraction

import numpy as np

from props.c09 import cr, hull, strictly_convex
from vf.frame import Frame


def meets(s, t):
    """common points of two planar segments as fractions; None when they overlap"""
    (a, b), (c, d) = s, t
    u, w, r = (b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1]), (c[0] - a[0], c[1] - a[1])
    den = u[0] * w[1] - u[1] * w[0]
    if den:
        x, y = Fraction(r[0] * w[1] - r[1] * w[0], den), Fraction(r[0] * u[1] - r[1] * u[0], den)
        if 0 <= x <= 1 and 0 <= y <= 1:
            return [(a[0] + x * u[0], a[1] + x * u[1])]
        return []
    if u[0] * r[1] - u[1] * r[0]:
        return []
    k = 0 if u[0] else 1
    lo, hi = max(min(a[k], b[k]), min(c[k], d[k])), min(max(a[k], b[k]), max(c[k], d[k]))
    if lo > hi:
        return []
    if lo < hi:
        return None
    return [p for p in (a, b) if p[k] == lo][:1]


def box(rng, n):
    while True:
        h = hull([(rng.randint(0, n), rng.randint(0, n)) for _ in range(rng.randint(3, 8))]) if rng.random() < 0.6 else [(0, 0), (n, 0), (n, n), (0, n)]
        if len(h) >= 3 and strictly_convex(h) and abs(cr(h[0], h[1], h[2])) > 0:
            if rng.random() < 0.4:
                h = h[::-1]
            k = rng.randrange(len(h))
            return h[k:] + h[:k]

def fractures(rng, h, n, k):
    """lines with integral meeting points among themselves and with the sides"""
    sides = [(h[i], h[(i + 1) % len(h)]) for i in range(len(h))]
    # candidate ends: anywhere, on the sides, at corners
    lines, tries = [], 0
    while len(lines) < k and tries < 4000:
        tries += 1
        a = (rng.randint(-1, n + 1), rng.randint(-1, n + 1))
        r = rng.random()
        if r < 0.4:
            s = rng.choice(sides)
            g = np.gcd(s[1][0] - s[0][0], s[1][1] - s[0][1])
            t = rng.randint(0, int(g))
            a = (int(s[0][0] + t * (s[1][0] - s[0][0]) // g), int(s[0][1] + t * (s[1][1] - s[0][1]) // g))
        elif r < 0.6 and lines:
            a = rng.choice(rng.choice(lines))
        if rng.random() < 0.6:
            d = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 2)])
            q = rng.randint(-n - 1, n + 1)
            b = (a[0] + q * d[0], a[1] + q * d[1])
            if not all(-1 <= c <= n + 1 for c in b):
                continue
        else:
            b = (rng.randint(-1, n + 1), rng.randint(-1, n + 1))
        if a == b:
            continue
        ms = [meets((a, b), t) for t in sides + lines]
        if any(m is None for m in ms) or any(c.denominator != 1 for m in ms for p in m for c in (Fraction(p[0]), Fraction(p[1]))):
            continue
        lines.append((a, b))
    return lines


def run(chk):
    from topology import domain_market as dm
    chk.model("DomainOpsMC", "DomainOpsMC" if chk.quick else "DomainOpsMC_big")
    rng = chk.rng
    events = []

    def add(kind, err, key=None, **k):
        k.update({"ev": kind, "err": err or "", "key": key or "%s:%d:%d" % (kind, chk.seed, len(events))})
        events.append(k)
        chk.count(kind)

    def vrec(v, fr):
        return {"t": int(v.tag), "f": int(v.physical_tag or 0), "p": fr.back(v.point)}

    def erec(e, fr):
        return {"t": int(e.tag), "f": int(e.physical_tag or 0), "v": [vrec(v, fr) for v in e.boundary_shapes]}

    def wrec(w, fr):
        out = []
        for e, o in zip(w.immersed_shapes, w.orientation):
            r = erec(e, fr)
            r["o"] = int(o)
            out.append(r)
        return out

    def with_graph(dom, err):
        if err:
            return []
        _, e = chk.call(dom.build_grahp)
        return [[int(c) for c in (u[0], u[1], v[0], v[1])] for u, v in dom.graph.edges()] if not e else [[-1, -1, -1, -1]]

    def describe(dom, fr):
        wires = [s for s in dom.shapes[1] if s.composite]
        faces = list(dom.shapes[2])
        assert len(wires) == 1 and len(faces) == 1
        w, f = wires[0], faces[0]
        return dict(edges=[erec(e, fr) for e in dom.shapes[1] if not e.composite], verts=[vrec(v, fr) for v in dom.shapes[0]],
                    wire=wrec(w, fr), wiretag=int(w.tag), wirebc=[int(s.tag) for s in w.boundary_shapes], facetag=int(f.physical_tag or 0), faceid=int(f.tag),
                    facewires=[int(s.tag) for s in f.boundary_shapes], faceedges=[int(s.tag) for s in f.immersed_shapes], graph=with_graph(dom, None))
    EMPTY = dict(edges=[], verts=[], wire=[], wiretag=0, wirebc=[], facetag=0, faceid=0, facewires=[], faceedges=[], graph=[])

    for _ in range(chk.n(350, 6000)):
        n = rng.choice([3, 4, 6, 12])
        h = box(rng, n)
        fr = Frame(rng, scales=(0, 0, -4, 3), rotate=0.2, offsets=(0, 0, 2, -3))
        tags = {"area": rng.choice([1, 7])}
        side = rng.sample([2, 3, 4, 5, 6, 8, 9, 11, 12, 13, 14], len(h))
        if rng.random() < 0.25:   # sides that share a tag
            side = [rng.choice(side[:2]) for _ in side]
        for i, t in enumerate(side):
            tags["bc_%d" % i] = t
        if rng.random() < 0.25:   # the documented default tags
            tags, side = None, ([2, 3, 4, 5] + [0] * len(h))[:len(h)]
        B = fr.puts([p + (0,) for p in h])
        lines = fractures(rng, h, n, rng.choice([0, 1, 1, 2, 2, 3, 4]))
        ft = {"line": 100, "internal_bc": 200, "point": 300}
        base = dict(box=[list(p) + [0] for p in h], sidetags=side, lines=[[list(p) + [0] for p in s] for s in lines], linetag=100, endtag=200, pointtag=300, areatag=tags["area"] if tags else 1)
        if not lines:
            dom, err = chk.call(dm.build_box_2D, B, tags)
            if rng.random() < 0.5:
                dom, err = chk.call(dm.create_md_box_2D, B, tags)
        else:
            L = np.array([fr.puts([p + (0,) for p in s]) for s in lines])
            dom, err = chk.call(dm.create_md_box_2D, B, tags, L, ft if rng.random() < 0.8 else None)
        add("box", err, **base, **(EMPTY if err else describe(dom, fr)))

    for _ in range(chk.n(30, 300)):
        fr = Frame(rng)
        a, b = [rng.randint(0, 5) for _ in range(3)], [rng.randint(0, 5) for _ in range(3)]
        if a == b:
            continue
        own = rng.random() < 0.7
        dom, err = chk.call(dm.build_box_1D, fr.puts([a, b]), {"line": 8, "bc_0": 4, "bc_1": 3} if own else None)
        add("line", err, box=[a, b], linetag=8 if own else 1, sidetags=[4, 3] if own else [2, 3], edges=[] if err else [erec(e, fr) for e in dom.shapes[1]], verts=[] if err else [vrec(v, fr) for v in dom.shapes[0]])
        # a sheared box
        M = np.array([[rng.randint(1, 4), 0, 0], [rng.randint(-2, 2), rng.randint(1, 4), 0], [rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(1, 4)]])
        pts = [[int(c) for c in np.array(p) @ M] for p in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]
        side = rng.sample(range(2, 20), 6)
        tags = {"solid": 30}
        tags.update({"bc_%d" % i: t for i, t in enumerate(side)})
        if rng.random() < 0.3:   # the documented default tags
            side, tags = [2, 3, 4, 5, 6, 7], None
        dom, err = chk.call(dm.build_box_3D, fr.puts(pts), tags)
        faces = []
        if not err:
            for f in dom.shapes[2]:
                if not f.composite:
                    faces.append({"t": int(f.tag), "f": int(f.physical_tag or 0), "wire": wrec(f.boundary_shapes[0], fr)})
        add("solid", err, box=pts, sidetags=side, areatag=30 if tags else 1, faces=faces,
            wires=[] if err else [{"t": int(w.tag), "b": [int(v.tag) for v in w.boundary_shapes], "e": [int(e.tag) for e in w.immersed_shapes]} for w in dom.shapes[1] if w.composite],
            shelltag=0 if err else int(dom.shapes[3][0].boundary_shapes[0].tag), solidid=0 if err else int(dom.shapes[3][0].tag),
            facewires=[] if err else [[int(f.tag), int(f.boundary_shapes[0].tag)] for f in dom.shapes[2] if not f.composite],
            graph=[] if err else (with_graph(dom, None) if rng.random() < 0.5 else [[int(c) for c in (u[0], u[1], v[0], v[1])] for u, v in dom.graph.edges()]),
            verts=[] if err else [vrec(v, fr) for v in dom.shapes[0]], edges=[] if err else [erec(e, fr) for e in dom.shapes[1] if not e.composite],
            solidtag=0 if err else int(dom.shapes[3][0].physical_tag or 0),
            shell=[] if err else [int(s.tag) for s in dom.shapes[3][0].boundary_shapes[0].immersed_shapes])
    chk.sample(events[0])
    chk.sample(events[-1])
    chk.trace("DomainMarketTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
