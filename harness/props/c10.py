"""C10: one-dimensional domains cut at points and reconnected (spec: DomainOps / DomainOpsMC / DomainOpsTrace)."""
import numpy as np

from vf.frame import Frame


def run(chk):
    from topology.domain import Domain  # noqa: F401
    from topology.edge import Edge
    from topology.operations import domain_operations as dops
    from topology.operations import edge_operations as eops
    from topology.operations import vertex_operations as vops
    from topology.vertex import Vertex
    chk.model("DomainOpsMC", "DomainOpsMC" if chk.quick else "DomainOpsMC_big")
    rng = chk.rng
    events = []

    def add(kind, err, key=None, **k):
        k.update({"ev": kind, "err": err or "", "key": key or "%s:%d:%d" % (kind, chk.seed, len(events))})
        events.append(k)
        chk.count(kind)

    def tagi(t):
        return int(t) if t is not None and float(t) == int(t) and abs(t) < 2 ** 31 else -999999

    def vrec(v, fr):
        p = np.asarray(v.point, dtype=float).reshape(-1, 3)[0]
        return {"t": tagi(v.tag), "f": int(v.physical_tag or 0), "p": fr.back(p)}

    def erec(e, fr):
        return {"t": tagi(e.tag), "f": int(e.physical_tag or 0), "v": [vrec(v, fr) for v in e.boundary_shapes]}

    def doms(d, fr):
        return [erec(e, fr) for e in d.shapes[1]], [vrec(v, fr) for v in d.shapes[0]]

    def pt(flat_q, n):
        return [rng.randint(0, n), rng.randint(0, n), 0 if flat_q else rng.randint(0, n)]

    def line_pt(a, b, n):
        g = np.gcd.reduce(np.array(b) - np.array(a))
        d = (np.array(b) - np.array(a)) // g
        ks = [k for k in range(-n, 2 * n + 1) if all(0 <= a[i] + k * d[i] <= n for i in range(3))]
        k = rng.choice(ks)
        return [int(a[i] + k * d[i]) for i in range(3)]

    def frame():
        return Frame(rng, scales=(0, 0, -4, 3), offsets=(0, 0, 0, 2, -3))

    def config(flat_q, n, fr):
        """edges over shared vertices, tools on and off them"""
        tag = rng.choice([0, 0, 7])
        pts = []
        for _ in range(rng.randint(2, 6)):
            p = pt(flat_q, n)
            if p not in pts or rng.random() < 0.05:
                pts.append(p)
        if len(set(map(tuple, pts))) < 2:
            return config(flat_q, n, fr)
        verts = []
        for p in pts:
            verts.append((tag, rng.choice([0, 2, 3]), p))
            tag += 1
        pairs = [(i, j) for i in range(len(pts)) for j in range(len(pts)) if i != j and pts[i] != pts[j]]
        rng.shuffle(pairs)
        seen, edges = set(), []
        for i, j in pairs:
            if (min(i, j), max(i, j)) in seen or len(edges) >= rng.randint(1, 5):
                continue
            seen.add((min(i, j), max(i, j)))
            edges.append((tag, rng.choice([1, 1, 5, 0]), (i, j)))
            tag += 1
        cand = []
        for _ in range(rng.randint(0, 6)):
            e = rng.choice(edges)
            a, b = pts[e[2][0]], pts[e[2][1]]
            r = rng.random()
            cand.append(line_pt(a, b, n) if r < 0.6 else rng.choice(pts) if r < 0.8 else pt(flat_q, n))
        cand = [list(x) for x in dict.fromkeys(map(tuple, cand))]
        tools = []
        tag += rng.choice([0, 3])
        for p in cand:
            tools.append((tag, rng.choice([0, 20, 30]), p))
            tag += 1
        return verts, edges, tools, tag

    def mk(cfg, fr, own):
        verts, edges, tools, tag = cfg

        def vert(t, f, p):
            v = Vertex(t, fr.put(p))
            v.physical_tag = f or None
            return v
        V = [vert(*v) for v in verts]
        E = []
        for t, f, (i, j) in edges:
            e = Edge(t, np.array([V[i], V[j]]))
            e.physical_tag = f or None
            E.append(e)
        used = sorted({k for e in edges for k in e[2]})
        order = used[:]
        rng.shuffle(order)
        dom = dops.create_domain(dimension=1, shapes=np.array([V[i] for i in order] + E))
        at = {tuple(v[2]): k for k, v in enumerate(verts)}
        tools = [verts[at[tuple(t[2])]] if own and tuple(t[2]) in at and at[tuple(t[2])] in used else t for t in tools]
        T = [V[at[tuple(t[2])]] if t in verts else vert(*t) for t in tools]
        dt = dops.create_domain(dimension=1, shapes=np.array(T))
        rec_e = []
        for (t, f, (i, j)), e in zip(edges, E):
            rec_e.append({"t": t, "f": f, "v": [{"t": verts[k][0], "f": verts[k][1], "p": verts[k][2]} for k in (i, j)]})
        rec_v = [{"t": verts[i][0], "f": verts[i][1], "p": verts[i][2]} for i in used]
        rec_t = [{"t": t, "f": f, "p": p} for t, f, p in tools]
        return dom, dt, rec_e, rec_v, rec_t

    for _ in range(chk.n(450, 9000)):
        flat_q = rng.random() < 0.6
        n = rng.choice([2, 3, 5])
        fr = frame()
        cfg = config(flat_q, n, fr)
        # some tools are the domain's own vertices
        own = rng.random() < 0.2 and len(set(tuple(v[2]) for v in cfg[0])) == len(cfg[0])
        tag = cfg[3] + rng.choice([0, 0, 11])
        dom, dt, re_, rv, rt = mk(cfg, fr, own)
        before = doms(dom, fr), doms(dt, fr)
        c0, err = chk.call(dops.domain_difference, dom, dt, tag)
        base = dict(edges=re_, tools=rt, tag=tag)
        kept = before == (doms(dom, fr), doms(dt, fr))
        c0e, c0v = ([], []) if err or c0 is None else doms(c0, fr)
        add("difference", err, c0=c0e, c0v=c0v, kept=kept, **base)
        if not err and c0 is not None:
            md, err = chk.call(dops.domain_union, c0, dt)
            kept = before == (doms(dom, fr), doms(dt, fr)) and (c0e, c0v) == doms(c0, fr)
            mde, mdv = ([], []) if err or md is None else doms(md, fr)
            add("union", err, c0=c0e, md=mde, mdv=mdv, kept=kept, **base)
        # operations on fresh copies of the same input
        dom, dt, re_, rv, rt = mk(cfg, fr, own)
        before = doms(dom, fr), doms(dt, fr)
        out, err = chk.call(dops.domain_intersection, dt, dom, tag)
        kept = before == (doms(dom, fr), doms(dt, fr))
        add("intersection", err, out=[] if err or out is None else [vrec(v, fr) for v in out.shapes[0]], kept=kept, **base)
        if len(set(tuple(v["p"]) for v in rv)) == len(rv):
            dom, dt, re_, rv, rt = mk(cfg, fr, own)
            before = doms(dom, fr), doms(dt, fr)
            md, err = chk.call(dops.domain_union, dom, dt)
            kept = before == (doms(dom, fr), doms(dt, fr))
            mde, mdv = ([], []) if err or md is None else doms(md, fr)
            add("plainunion", err, md=mde, mdv=mdv, kept=kept, **base)
        dom, dt, re_, rv, rt = mk(cfg, fr, own)
        ask = rng.choice([1, 2, 3, 5])
        maxtag, e1 = chk.call(dom.max_tag)
        has = any(x["f"] for x in re_ + rv)
        maxphys, e2 = chk.call(dom.max_physical_tag) if has else (0, None)
        by, e3 = chk.call(dom.shapes_with_physical_tag, ask)
        _, e4 = chk.call(dom.build_grahp)
        e5, look = None, []
        distinct = len(set(tuple(v["p"]) for v in rv)) == len(rv)
        for p in ([pt(flat_q, n), rv[0]["p"], rv[-1]["p"]] if distinct else []):
            v, e = chk.call(dom.lookup_vertex, fr.put(p))
            e5 = e5 or e
            look.append({"p": p, "t": -1 if v is None else int(v.tag)})
        err = e1 or e2 or e3 or e4 or e5
        add("registry", err, verts=rv, edges=re_, maxtag=0 if err else int(maxtag), maxphys=0 if err else int(maxphys), ask=ask,
            byphys=[] if err else [[s.dimension, int(s.tag)] for s in by], look=look,
            graph=[] if err else [[int(u[1]), int(v[1])] for u, v in dom.graph.edges() if (u[0], v[0]) == (0, 1)] + [[-1, -1] for u, v in dom.graph.edges() if (u[0], v[0]) != (0, 1)],
            listed=[[s.dimension, int(s.tag)] for d in dom.shapes for s in d])

    for _ in range(chk.n(900, 15000)):
        flat_q = rng.random() < 0.6
        n = rng.choice([1, 2, 3, 5])
        fr = frame()

        def vtx(t, p):
            v = Vertex(t, fr.put(p))
            f = rng.choice([0, 4, 9])
            v.physical_tag = f or None
            return v, {"t": t, "f": f, "p": p}

        def edge(t, a, b, ta, tb):
            (u, ur), (w, wr) = vtx(ta, a), vtx(tb, b)
            return Edge(t, np.array([u, w])), {"t": t, "f": 0, "v": [ur, wr]}
        tag = rng.choice([50, 0, 77])
        p, q = pt(flat_q, n), pt(flat_q, n)
        if rng.random() < 0.5:
            q = p
        (a, ar), (b, br) = vtx(1, p), vtx(rng.choice([1, 2, 2]), q)
        out, err = chk.call(vops.vertex_vertex_intersection, a, b, tag)
        add("vertexvertex", err, a=ar, b=br, tag=tag, out=[] if err or out is None else [vrec(out, fr)])
        out, err = chk.call(vops.collapse_vertex, a, b)
        add("collapse", err, a=ar, b=br, out=[] if err or out is None else [vrec(out, fr)], after=vrec(b, fr))
        while True:
            p, q, r, s = [pt(flat_q, n) for _ in range(4)]
            if p == q:
                continue
            if rng.random() < 0.3:
                r = line_pt(p, q, n)
            if rng.random() < 0.2:
                s = line_pt(p, q, n)
            if rng.random() < 0.2:
                r = rng.choice([p, q])
            if r != s:
                break
        e, er = edge(10, p, q, 3, 4)
        (a, ar) = vtx(rng.choice([3, 4, 5]), rng.choice([r, s, p, q]))
        out, err = chk.call(vops.vertex_edge_intersection, a, e, tag)
        add("vertexedge", err, a=ar, e=er, tag=tag, out=[] if err or out is None else [vrec(out, fr)])
        g, gr = edge(11, r, s, 6, 7)
        out, err = chk.call(eops.edge_edge_intersection, e, g, tag)
        if not err and out is not None and np.shape(out.point) != (3,):
            err = "the point of the vertex is not a point"
        add("edgeedge", err, e=er, g=gr, tag=tag, contact=False, out=[] if err or out is None else [vrec(out, fr)])
        # the same place, the very same, and one edge collapsed into another
        (p, q), ta, tb = rng.sample([r, s, p, q], 2), rng.choice([3, 8]), rng.choice([4, 5])
        if p == q:
            continue
        e, _ = edge(rng.choice([10, 11]), r, s, 3, 4)
        g, _ = edge(rng.choice([10, 11]), *((r, s) if rng.random() < 0.7 else (p, q)), *((3, 4) if rng.random() < 0.5 else (ta, tb)))
        for k in (e, g):
            k.physical_tag = rng.choice([None, 4, 9])

        def exact(k, pts):
            return dict(erec(k, fr), v=[{"t": int(v.tag), "f": int(v.physical_tag or 0), "p": pts[id(v)]} for v in k.boundary_shapes])
        pts = {id(v): fr.back(v.point, 1) for k in (e, g) for v in k.boundary_shapes}
        er, gr = exact(e, pts), exact(g, pts)
        same, e1 = chk.call(eops.edge_with_same_geometry_q, e, g)
        strong, e2 = chk.call(eops.edge_strong_equality_q, e, g)
        vsame, e3 = chk.call(vops.vertex_with_same_geometry_q, e.boundary_shapes[0], g.boundary_shapes[0])
        vstrong, e4 = chk.call(vops.vertex_strong_equality_q, e.boundary_shapes[0], g.boundary_shapes[0])
        out, e5 = chk.call(eops.collapse_edge, e, g)
        err = e1 or e2 or e3 or e4 or e5 or (None if out is None or out is g else "the collapsed edge is not the one given")
        add("edgecollapse", err, e=er, g=gr, same=bool(same), strong=bool(strong), vsame=bool(vsame), vstrong=bool(vstrong),
            out=[] if err or out is None else [erec(out, fr)], after=erec(g, fr), tool=erec(e, fr))
    # a contact at an end of the first edge ignores the requested tag
    fr = Frame(rng, scales=(0,), rotate=0, offsets=(0,))
    P = [[0, 0, 0], [4, 0, 0], [2, 0, 0], [2, 3, 0]]
    V = [Vertex(i, fr.put(p)) for i, p in enumerate(P)]
    vr = [{"t": i, "f": 0, "p": p} for i, p in enumerate(P)]
    out, err = chk.call(eops.edge_edge_intersection, Edge(5, np.array([V[2], V[3]])), Edge(4, np.array([V[0], V[1]])), 60)
    add("edgeedge", err, key="contact-tag", e={"t": 5, "f": 0, "v": vr[2:]}, g={"t": 4, "f": 0, "v": vr[:2]}, tag=60, contact=True,
        out=[] if err or out is None else [vrec(out, fr)])
    chk.sample(events[0])
    chk.sample(events[-1])
    chk.trace("DomainOpsTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
