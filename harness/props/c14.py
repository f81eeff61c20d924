"""C14: boxes with lines read from a file, split into shared pieces (spec: FracBox / FracBoxTrace)."""
import os

import numpy as np

from props.c11 import exact_frame
from props.c12 import box, meets
from fractions import Fraction
from vf.frame import Frame


def inside(p, h):
    s = [(b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) for a, b in zip(h, h[1:] + h[:1])]
    return all(v >= 0 for v in s) or all(v <= 0 for v in s)


def embedded(rng, h, n, k):
    """k lines inside the box whose common points, also with the sides, are lattice points"""
    sides = [(h[i], h[(i + 1) % len(h)]) for i in range(len(h))]
    spots = [(x, y) for x in range(n + 1) for y in range(n + 1) if inside((x, y), h)]
    rim = [p for p in spots if any(meets((p, p), s) for s in sides)]
    lines, tries = [], 0
    while len(lines) < k and tries < 3000:
        tries += 1
        ends = [p for s in lines for p in s]
        a = rng.choice(rim) if rim and rng.random() < 0.3 else rng.choice(ends) if ends and rng.random() < 0.3 else rng.choice(spots)
        b = rng.choice(rim) if rim and rng.random() < 0.3 else rng.choice(spots)
        if a == b:
            continue
        ms = [meets((a, b), t) for t in sides + lines]
        if any(m is None for m in ms) or any(Fraction(c).denominator != 1 for m in ms for p in m for c in p):
            continue
        lines.append((a, b))
    return lines


def run(chk):
    from topology import domain_market as dm
    from topology.edge import Edge
    chk.model("FracBoxMC", "FracBoxMC" if chk.quick else "FracBoxMC_big", timeout=800)
    rng = chk.rng
    events = []
    name = os.path.abspath("lines.csv")

    def add(kind, err, key=None, **k):
        k.update({"ev": kind, "err": err or "", "key": key or "%s:%d:%d" % (kind, chk.seed, len(events))})
        events.append(k)
        chk.count(kind)

    def write(rows):
        with open(name, "w") as f:
            for r in rows:
                f.write(",".join(repr(float(c)) for p in r for c in p) + "\n")

    def one(h, lines, fr, side, area, key=None):
        write([fr.puts([p + (0,) for p in s]) for s in lines])
        tags = dict({"area": area}, **{"bc_%d" % i: t for i, t in enumerate(side)})
        dom, err = chk.call(dm.build_box_2D_with_lines, fr.puts([p + (0,) for p in h]), name, tags)

        def vrec(v):
            return {"t": int(v.tag), "f": int(v.physical_tag or 0), "p": fr.back(v.point)}

        def erec(e):
            return {"t": int(e.tag), "f": int(e.physical_tag or 0), "v": [vrec(v) for v in e.boundary_shapes]}
        rec = {}
        if not err:
            plain = [e for e in dom.shapes[1] if isinstance(e, Edge)]
            pieces = {id(p) for e in plain for p in e.immersed_shapes}
            hosts = [e for e in plain if id(e) not in pieces]
            wire, = [w for w in dom.shapes[1] if w.composite]
            face, = dom.shapes[2]
            rec = dict(verts=[vrec(v) for v in dom.shapes[0]], edges=[dict(erec(e), pieces=[erec(p) for p in e.immersed_shapes]) for e in hosts],
                       frags=[int(e.tag) for e in plain if id(e) in pieces], wire=[dict(erec(e), o=int(o)) for e, o in zip(wire.immersed_shapes, wire.orientation)],
                       wiretag=int(wire.tag), wirebc=[int(v.tag) for v in wire.boundary_shapes], faceid=int(face.tag), facetag=int(face.physical_tag or 0),
                       facewires=[int(w.tag) for w in face.boundary_shapes], faceedges=[int(e.tag) for e in face.immersed_shapes],
                       graph=[[int(c) for c in u + v] for u, v in dom.graph.edges()])
        add("fracbox", err, key, box=[list(p) + [0] for p in h], sidetags=side, lines=[[list(p) + [0] for p in s] for s in lines], areatag=area, **rec)

    for _ in range(chk.n(400, 6000)):
        n = rng.choice([2, 3, 4, 6, 12])
        h = box(rng, n)
        fr = exact_frame(rng) if rng.random() < 0.7 else Frame(rng, scales=(0, 0, -4, 3), rotate=1, planar=True)
        side = rng.sample([2, 3, 4, 5, 6, 8, 9, 11, 12, 13, 14], len(h))
        one(h, embedded(rng, h, n, rng.choice([1, 1, 2, 2, 3, 4, 6, 9])), fr, side, rng.choice([1, 7, 20]))
    for _ in range(chk.n(20, 200)):
        k = rng.choice([2, 2, 4])
        rows = [[[rng.choice([rng.uniform(-2, 2), rng.randint(-3, 3), 1e-7 * rng.random()]) for _ in range(3)] for _ in range(k)] for _ in range(rng.randint(1, 5))]
        write(rows)
        got, err = chk.call(dm.read_fractures_file, k, name)
        add("read", err, want=[[[float(c).hex() for c in p] for p in r] for r in rows], got=[] if err else [[[float(c).hex() for c in p] for p in r] for r in got])
    # vertices put on an edge: on it, at its ends, on its line but outside
    from topology.shape_manipulation import embed_vertex_in_edge
    from topology.vertex import Vertex
    for _ in range(chk.n(120, 1500)):
        fr = Frame(rng, scales=(0, 0, -4, 3), rotate=0.4)
        d = [rng.randint(-2, 2) for _ in range(3)]
        if not any(d):
            continue
        m, a = rng.randint(1, 9), [rng.randint(-3, 3) for _ in range(3)]
        at = [[x + k * y for x, y in zip(a, d)] for k in range(-3, m + 4)]
        where = [rng.randint(0, m + 6) for _ in range(rng.randint(0, 6))]
        ends = [Vertex(0, fr.put(at[3])), Vertex(1, fr.put(at[m + 3]))]
        e = Edge(5, np.array(ends))
        vs = [Vertex(10 + i, fr.put(at[k])) for i, k in enumerate(where)]
        if not vs:
            continue
        got, err = chk.call(embed_vertex_in_edge, np.array(vs), e, 40)
        add("embed", err, edge=[at[3], at[m + 3]], points=[at[k] for k in where], **({} if err else dict(
            ends=[fr.back(v.point) for v in e.boundary_shapes], endtags=[int(v.tag) for v in e.boundary_shapes],
            pieces=[{"t": int(p.tag), "v": [{"t": int(v.tag), "p": fr.back(v.point)} for v in p.boundary_shapes]} for p in e.immersed_shapes], got=[fr.back(v.point) for v in got])))
    if os.path.exists(name):
        os.unlink(name)
    chk.sample(events[0])
    chk.sample(events[-1])
    chk.trace("FracBoxTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
