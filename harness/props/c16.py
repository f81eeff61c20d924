"""C16: shapes and domains - equality, membership, assignment, graphs, queries, renumbering, wires (spec: Shapes / ShapesTrace)."""
import numpy as np

PLACE = [np.array(p, dtype=float) for p in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (2, 0, 0), (-1, 3, 2), (0.5, 0, 0), (1.001, 0, 0), (300, 0, 1), (300.1, 0, 1)]]


class Shaped:
    """shapes and what they are known as"""

    def __init__(self):
        self.s = []

    def add(self, shape):
        self.s.append(shape)
        return shape

    def id(self, shape):
        for k, t in enumerate(self.s):
            if t is shape:
                return k + 1
        return 0

    def ids(self, shapes):
        return [self.id(t) for t in shapes]

    def place(self, shape):
        if shape.dimension:
            return 0
        d = [float(np.max(np.abs(np.asarray(shape.point) - p))) for p in PLACE]
        return d.index(min(d)) + 1 if min(d) < 1e-12 else -1

    def view(self, raw=False):
        out = []
        for t in self.s:
            inner = t.immersed_shapes
            if raw and t.dimension == 1 and t.composite:
                inner = [self.s[k - 1] for k in self.given[self.id(t)]]
            out.append({"d": int(t.dimension), "t": int(t.tag), "f": int(t.physical_tag or 0), "a": bool(t.active), "c": bool(t.composite),
                        "b": self.ids(t.boundary_shapes), "i": self.ids(inner), "p": self.place(t)})
        return out


def answered(chk, f):
    """ok, refused (a complaint the interface announces), or what went wrong"""
    try:
        return f() or "ok"
    except ValueError:
        return "refused"
    except Exception as e:
        return "raised " + type(e).__name__


def run(chk):
    from topology.domain import Domain
    from topology.edge import Edge
    from topology.face import Face
    from topology.shell import Shell
    from topology.solid import Solid
    from topology.vertex import Vertex
    from topology.wire import Wire
    chk.model("ShapesMC", "ShapesMC" if chk.quick else "ShapesMC_big", timeout=800)
    rng = chk.rng
    events = []

    def add(kind, err, **k):
        k.update({"ev": kind, "err": err or "", "key": "%s:%d:%d" % (kind, chk.seed, len(events))})
        events.append(k)
        chk.count(kind)

    def arr(xs):
        a = np.empty(len(xs), dtype=object)
        for k, x in enumerate(xs):
            a[k] = x
        return a

    def heap(repeat):
        """a few shapes of every kind; tags repeat when asked"""
        H = Shaped()
        H.given = {}
        count = {0: 0, 1: 0, 2: 0, 3: 0}
        base = rng.choice([0, 0, 3])

        def tag(d):
            count[d] += 1
            return rng.randint(0, 2) if repeat else base + count[d]
        nv = rng.randint(3, 5)
        spots = rng.sample(range(len(PLACE)), nv)
        V = [H.add(Vertex(tag(0), PLACE[rng.randrange(4)] if repeat else PLACE[spots[k]])) for k in range(nv)]
        P = [H.add(Edge(tag(1), arr(rng.sample(V, 2)))) for _ in range(rng.randint(0, 2))]
        E = []
        for _ in range(rng.randint(2, 4)):
            e = H.add(Edge(tag(1), arr(rng.sample(V, 2))))
            if P and rng.random() < 0.3:
                e.immersed_shapes = arr(rng.sample(P, rng.randint(1, len(P))))
            E.append(e)
        W = []
        for _ in range(rng.randint(1, 3)):
            q = rng.sample(E, rng.randint(1, len(E)))
            kept = [list(p.immersed_shapes) for p in E]
            w = H.add(Wire(tag(1), arr(q), arr(rng.sample(V, rng.randint(1, 2)))))
            # these wires need not be paths: leave the pieces as they were
            for p, k in zip(E, kept):
                p.immersed_shapes = arr(k)
            H.given[H.id(w)] = H.ids(q)
            W.append(w)
        F = [H.add(Face(tag(2), arr(rng.sample(W, 1)))) for _ in range(rng.randint(1, 2))]
        for f in F:
            if rng.random() < 0.5:
                f.immersed_shapes = arr(rng.sample(E, rng.randint(1, len(E))))
        S, B = [], []
        if rng.random() < 0.6:
            S = [H.add(Shell(tag(2), arr(rng.sample(F, rng.randint(1, len(F)))), arr(rng.sample(W, rng.randint(1, len(W))))))]
            B = [H.add(Solid(tag(3), arr(S)))]
        for t in H.s:
            if rng.random() < 0.5:
                t.physical_tag = rng.randint(1, 5)
        H.kinds = {"V": V, "P": P, "E": E, "W": W, "F": F, "S": S, "B": B}
        return H

    below = {"V": "", "P": "V", "E": "VP", "W": "VE", "F": "VEW", "S": "EWF", "B": "FS"}
    for _ in range(chk.n(250, 4000)):
        H = heap(rng.random() < 0.7)
        K = H.kinds
        rec = {"heap": H.view(raw=True)}
        kind = {id(t): k for k, ts in K.items() for t in ts}
        ops, todo = [], []
        for _ in range(rng.randint(4, 18)):
            t, want, other = rng.choice(H.s), None, None
            if todo:
                t, want, other = todo.pop(0)
            elif rng.random() < 0.4:
                # made equal, then one of them changed, then compared
                pairs = [(x, y) for q in K.values() for x in q for y in q if x is not y]
                if pairs:
                    x, y = rng.choice(pairs)
                    change = (rng.choice([x, y]), rng.choice(["tag", "bound", "bound", "imm", "imm", "phys"]), None)
                    if rng.random() < 0.3 and len(y.boundary_shapes):
                        change = (rng.choice(list(y.boundary_shapes)), rng.choice(["tag", "place", "bound"]), None)
                    t, want, other = x, "assign", y
                    todo = [change, (x, "eq", y)]
            s, k = H.id(t), kind[id(t)]
            o = {"op": want or rng.choice(["tag", "phys", "active", "place", "bound", "imm", "assign", "assign", "eq", "eq", "eq", "ne", "in", "in"]), "s": s, "val": 0, "ms": []}
            if o["op"] == "place":
                if k != "V":
                    continue
                o["val"] = rng.randint(1, 4)

                def go():
                    t.point = PLACE[o["val"] - 1].copy()
            elif o["op"] in ("tag", "phys"):
                o["val"] = rng.randint(0, 3) + (o["op"] == "phys")

                def go():
                    setattr(t, "tag" if o["op"] == "tag" else "physical_tag", o["val"])
            elif o["op"] == "active":
                def go():
                    t.active = not t.active
            elif o["op"] in ("bound", "imm"):
                pool = [u for c in below[k] for u in K[c]]
                if k == "W" and o["op"] == "imm":
                    pool = K["E"]
                if rng.random() < 0.15:
                    # something of a higher dimension
                    pool = [u for u in H.s if u.dimension > t.dimension]
                if not pool:
                    continue
                if o["op"] == "bound" and k in "PE" and rng.random() < 0.8:
                    pool = K["V"]
                ms = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
                now = list(t.boundary_shapes if o["op"] == "bound" else t.immersed_shapes)
                if want and now and all(any(u is v for v in pool) for u in now):
                    # as many as there are, one of them another
                    ms = list(now)
                    ms[rng.randrange(len(ms))] = rng.choice(pool)
                o["ms"] = H.ids(ms)

                def go():
                    if o["op"] == "bound":
                        t.boundary_shapes = arr(ms)
                    else:
                        t.immersed_shapes = arr(ms)
            else:
                if o["op"] == "assign" and rng.random() < 0.85:
                    us = [u for u in K[k] if u is not t]
                else:
                    us = [u for u in H.s if u is not t or o["op"] != "assign"]
                    if o["op"] == "assign":
                        us = [u for u in us if (u.dimension, u.composite) != (t.dimension, t.composite)]
                if not us:
                    continue
                if o["op"] == "in" and rng.random() < 0.6 and len(t.boundary_shapes):
                    us = list(t.boundary_shapes) + list(t.immersed_shapes)
                u = other if other is not None else rng.choice(us)
                o["val"] = H.id(u)

                def go():
                    if o["op"] == "assign":
                        t.shape_assignment(u)
                    elif o["op"] == "in":
                        return "yes" if u in t else "no"
                    else:
                        return "yes" if (t == u if o["op"] == "eq" else t != u) else "no"
            o["ans"] = answered(chk, go)
            o["after"] = H.view()
            ops.append(o)
        add("history", "", ops=ops, **rec)

    for _ in range(chk.n(200, 3000)):
        H = heap(False)
        K = H.kinds
        dim = 3 if K["B"] else rng.choice([2, 2, 1])
        lists = [K["V"], K["P"] + K["E"] + K["W"], K["F"] + K["S"], K["B"]][:dim + 1]
        if rng.random() < 0.3:
            # listed in another order, not everything listed
            lists = [rng.sample(q, len(q)) for q in lists]
        dom = Domain(dim)
        rec = dict(heap=H.view(raw=True), dim=dim, lists=[H.ids(q) for q in lists])
        low = rng.randint(0, dim)

        def go():
            for q in lists:
                j = rng.randint(0, len(q))
                dom.append_shapes(arr(q[:j]))
                dom.append_shapes(arr(q[j:]))
            order = [H.id(t) for q in dom.shapes for t in q]
            dom.build_grahp(low)
            lower, nodes = [list(map(int, a + b)) for a, b in dom.graph.edges()], [list(map(int, a)) for a in dom.graph.nodes()]
            dom.build_grahp()
            asked = [rng.randint(1, 6) for _ in range(3)]
            places = [rng.randint(1, len(PLACE)) for _ in range(4)]
            found = [dom.lookup_vertex(PLACE[p - 1]) for p in places]
            phys = [t for q in lists for t in q if t.physical_tag is not None]
            return dict(graph=[list(map(int, a + b)) for a, b in dom.graph.edges()], lower=lower, nodes=nodes, maxtag=int(dom.max_tag()), maxphys=int(dom.max_physical_tag()) if phys else 0,
                        asked=asked, withtag=[H.ids(dom.shapes_with_physical_tag(f)) for f in asked], places=places, found=[0 if v is None else H.id(v) for v in found], order=order)
        out, err = chk.call(go)
        add("domain", err, low=low, **rec, **(out or {}))
        if not err:
            out, err = chk.call(dom.remove_vertex)
            add("drop", err, kept=[H.id(v) for v in dom.shapes[0]], **rec)
            if len(dom.shapes[0]):
                rec["lists"] = [H.ids(q) for q in dom.shapes]
                out, err = chk.call(dom.retag_shapes)
                add("retag", err, after=H.view(), **rec)

    # renumbering whatever the tags were
    for _ in range(chk.n(60, 800)):
        H = heap(True)
        K = H.kinds
        dim = 3 if K["B"] else 2
        lists = [rng.sample(q, len(q)) for q in [K["V"], K["P"] + K["E"] + K["W"], K["F"] + K["S"], K["B"]][:dim + 1]]
        dom = Domain(dim)
        rec = dict(heap=H.view(raw=True), dim=dim, lists=[H.ids(q) for q in lists])
        for q in lists:
            dom.append_shapes(arr(q))
        out, err = chk.call(dom.retag_shapes)
        add("retag", err, after=H.view(), **rec)
        if rng.random() < 0.1:
            names = {"Vertex": K["V"][0], "Edge": K["E"][0], "Wire": K["W"][0], "Face": K["F"][0]}
            for q, m in (("S", "Shell"), ("B", "Solid")):
                if K[q]:
                    names[m] = K[q][0]
            got, err = chk.call(lambda: [int(t.shape_dimension_by_type(m)) for m, t in names.items()])
            add("types", err, heap=rec["heap"], of=[H.id(t) for t in names.values()], got=got or [])

    # wires along paths, edges in any sense, some of them in pieces
    for _ in range(chk.n(150, 2500)):
        H = Shaped()
        H.given = {}
        n = rng.randint(1, 6)
        closed = n > 2 and rng.random() < 0.5
        tags = rng.sample(range(20), 8)
        V = [H.add(Vertex(tags[k], PLACE[k])) for k in range(7)]
        stops = V[:n] + [V[0] if closed else V[n]]
        E, path, t = [], [], 0
        spare = [V[7 - 1]] if n < 6 else []
        for k in range(n):
            a, b = stops[k], stops[k + 1]
            e = H.add(Edge(t, arr(rng.sample([a, b], 2))))
            t += 1
            if spare and rng.random() < 0.4:
                m = spare.pop()
                ps = [H.add(Edge(t, arr([a, m]))), H.add(Edge(t + 1, arr([m, b])))]
                t += 2
                e.immersed_shapes = arr(ps if e.boundary_shapes[0] is a else ps[::-1])
                # the path of a single edge starts where the edge does
                path += list(e.immersed_shapes) if n == 1 else ps
            else:
                path.append(e)
            E.append(e)
        bounds = [stops[0]] if closed else [stops[0], stops[-1]]
        w, err = chk.call(lambda: H.add(Wire(t, arr(E), arr(bounds))))
        if err:
            add("path", err, heap=[])
            continue
        if rng.random() < 0.5:
            w.orient_immersed_edges()
        H.given[H.id(w)] = H.ids(E)
        ends, err = chk.call(w.boundary_points)
        add("path", err, heap=H.view(raw=True), s=H.id(w), path=H.ids(path), shown=H.ids(w.immersed_shapes), signs=[int(o) for o in w.orientation],
            verts=H.ids(w.orient_immersed_vertices()), ends=[] if err else [[float(np.max(np.abs(p - q))) < 1e-12 for q in PLACE].index(True) + 1 for p in ends])
    chk.sample(events[0])
    chk.sample(events[-1])
    chk.trace("ShapesTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
