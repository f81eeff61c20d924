"""C02: incidence graphs and topological queries (spec: Incidence / IncidenceTrace)."""
import numpy as np

from vf import meshgen as mg


def gedges(g):
    return sorted([int(a[0]), int(a[1]), int(b[0]), int(b[1])] for a, b in g.edges())


def gnodes(g):
    return sorted([int(a[0]), int(a[1])] for a in g.nodes())


def run(chk):
    from mesh.mesh_topology import MeshTopology
    from mesh.topological_queries import find_higher_dimension_neighs, sub_entity_by_co_dimension
    chk.model("Incidence")
    rng = chk.rng
    groups = []
    ntr = 0
    for k in range(chk.n(40, 400)):
        dim = rng.choice([1, 2, 2, 3, 3])
        size = rng.choice([1, 2, 3] if dim < 3 else [1, 2])
        tags = rng.choice([(1, 2, 3), (5, 6), (10, 11, 12, 13, 1), (0, 1, 2)])
        pts, decl = mg.declared_mesh(rng, dim, size=size, lower=rng.choice([0.1, 0.5, 0.9]), tags=tags)
        key = "rand:%d:%d" % (chk.seed, k)
        m, err = chk.call(mg.build_mesh, pts, decl)
        if err:
            chk.violation("mesh-build", key, {"err": err, "points": pts, "declared": decl})
            continue
        ntr += 1
        evs = [{"ev": "mesh", "supp": [mg.ints(c.node_tags) for c in m.cells],
                "mat": [-1 if c.material_id is None else int(c.material_id) for c in m.cells], "key": key,
                "replay": {"points": pts, "declared": decl}}]
        if k < 2:
            chk.sample({"cells": len(m.cells), "dim": dim, "tags": tags})

        def graph(kind, fn, d, co, tags=(), ids=()):
            g, err = chk.call(fn)
            evs.append({"ev": "graph", "kind": kind, "dim": d, "codim": co, "tags": list(tags), "ids": list(ids),
                        "err": err or "", "edges": [] if g is None else gedges(g), "nodes": [] if g is None else gnodes(g), "key": key})
            chk.count("graph-" + kind)
        pairs = [(d, co) for d in range(dim + 1) for co in range(d + 1)]
        for d, co in pairs:
            graph("all", lambda: m.build_graph(d, co), d, co)
            graph("materials", lambda: m.build_graph_on_materials(d, co), d, co)
            ts = rng.sample(tags, rng.randint(1, len(tags)))
            graph("tags", lambda: m.build_graph_on_physical_tags(ts, d, co), d, co, tags=ts)
            ids = sorted(rng.sample(range(len(m.cells)), rng.randint(1, len(m.cells))))
            graph("ids", lambda: m.build_graph_from_cell_ids(np.array(ids), d, co), d, co, ids=ids)
        # topology views: one object per dimension, rebuilt repeatedly with other selections
        for d in list(range(dim + 1)) + [dim + 1]:
            topo, err = chk.call(MeshTopology, m, d)
            if topo is None or d > dim:
                evs.append({"ev": "topo", "dim": d, "meshdim": dim, "all": True, "tags": [], "err": err or "", "key": key,
                            "ents": [], "coents": [], "maps": [], "comaps": []})
                continue
            last = None
            for rep in range(rng.randint(1, 3)):
                allq = rng.random() < 0.35
                ts = [] if allq else rng.sample(tags, rng.randint(1, len(tags))) + ([77] if rng.random() < 0.2 else [])

                def build():
                    if allq:
                        topo.build_data()
                    else:
                        topo.build_data_on_pysical_tags(ts)
                    return ([[int(i) for i in topo.entities_by_dimension(e)] for e in range(d + 1)],
                            [[int(i) for i in topo.entities_by_codimension(e)] for e in range(d + 1)],
                            [gedges(topo.entity_map_by_dimension(e)) for e in range(d + 1)],
                            [gedges(topo.entity_map_by_codimension(e)) for e in range(d + 1)])
                out, err = chk.call(build)
                ents, coents, maps, comaps = out if out else ([], [], [], [])
                evs.append({"ev": "topo", "dim": d, "meshdim": dim, "all": allq, "tags": ts, "err": err or "", "key": key,
                            "ents": ents, "coents": coents, "maps": maps, "comaps": comaps})
                chk.count("topology-views")
                last = ents
                if last:
                    cand = [i for e in last for i in e]
                    for i in rng.sample(cand, min(12, len(cand))):
                        res, err = chk.call(find_higher_dimension_neighs, m.cells[i], topo)
                        evs.append({"ev": "higher", "cell": i, "err": err or "", "key": key,
                                    "res": [[int(a), int(b)] for a, b in (res or [])]})
                        chk.count("queries")
        for i in rng.sample(range(len(m.cells)), min(10, len(m.cells))):
            for co in range(m.cells[i].dimension + 1):
                res, err = chk.call(sub_entity_by_co_dimension, m.cells[i], co)
                evs.append({"ev": "sub", "cell": i, "codim": co, "err": err or "", "res": mg.ints(res if res is not None else []), "key": key})
        groups.append(evs)
    # spread cases over 8 parallel traces
    merged = [[] for _ in range(8)]
    for g in groups:
        min(merged, key=len).extend(g)
    chk.trace("IncidenceTrace", None, traces=ntr, chunk=merged)
