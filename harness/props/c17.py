"""C17: growing and rewiring a loaded mesh (spec: MeshEdit / MeshEditTrace)."""
import numpy as np

from vf import meshgen as mg


class Places:
    """exact identity of a point: equal numbers exactly when equal coordinates"""
    def __init__(self):
        self.ids = {}

    def of(self, p):
        return self.ids.setdefault(tuple(float(x) + 0.0 for x in p), len(self.ids))


def cell(c):
    return {"d": int(c.dimension), "id": -2 if c.id is None else int(c.id), "t": -1 if c.material_id is None else int(c.material_id),
            "x": mg.ints(c.node_tags), "s": [mg.ints(s) for s in c.sub_cells_ids]}


class History:
    def __init__(self, chk, m, key):
        self.chk, self.m, self.key = chk, m, key
        self.places, self.held, self.evs = Places(), [], []

    def state(self):
        m = self.m
        return {"cells": [cell(c) for c in m.cells], "pts": [self.places.of(p) for p in m.points], "held": [cell(c) for c in self.held],
                "nextid": int(m.max_cell_id()), "nextnode": int(m.max_node_tag())}

    def do(self, ev, fn, after=None, **k):
        out, err = self.chk.call(fn)
        if err is None and after:
            after(out)
        e = {"ev": ev, "err": err or "", "key": self.key}
        e.update(k)
        e.update(self.state())
        if ev == "double":
            e["res"] = [] if err else mg.ints(out)
        self.evs.append(e)
        self.chk.count(ev)
        return out, err

    def ask(self, ev, fn, shape, **k):
        out, err = self.chk.call(fn)
        e = {"ev": ev, "err": err or "", "key": self.key}
        e.update(k)
        e.update(shape(out) if err is None else shape(None))
        self.evs.append(e)
        self.chk.count(ev)


def run(chk):
    from mesh.mesh import Mesh
    from mesh.mesh_cell import MeshCell
    from mesh.mesh_operations import (duplicate_mesh_points_from_0d_cells, replace_node_in_grahp, replace_nodes_in_grahp,
                                      update_cells_with_cell_pairs)
    import networkx as nx
    chk.model("MeshEditMC", chk.n("MeshEditMC", "MeshEditMC_big"))
    rng = chk.rng
    groups, current = [], []

    def meshes(k):
        dim = [1, 2, 2, 3][k % 4]
        pts, decl = mg.declared_mesh(rng, dim, size=rng.choice([1, 2] if dim < 3 else [1]), lower=rng.choice([0.1, 0.6]), tags=(1, 2, 3))
        m, err = chk.call(mg.build_mesh, pts, decl)
        return m, err

    def history(k):
        key = "history:%d:%d" % (chk.seed, k)
        m, err = meshes(k)
        if err:
            groups.append([{"ev": "load", "err": err, "cells": [], "pts": [], "held": [], "key": key}])
            return
        H = History(chk, m, key)
        current.append(H)
        H.do("load", lambda: None)

        def copies(ids, tags, at):
            """clone the cells, give each its own identifier and tag"""
            new = []
            for i, t, j in zip(ids, tags, at):
                c = m.cells[i].clone()
                c.set_id(j) if rng.random() < 0.5 else setattr(c, "id", j)
                c.set_material_id(None if t == -1 else t)
                c.set_sub_cells_ids(c.dimension, np.array([j]))
                new.append(c)
            return new

        def copy(ids, tags, at):
            return H.do("copy", lambda: copies(ids, tags, at), after=H.held.extend, of=ids, tags=tags, ids=at)

        def give(ks, as_list=False):
            batch = [H.held[k - 1] for k in ks]

            def after(_):
                H.held[:] = [c for c in H.held if not any(c is b for b in batch)]
            return H.do("add", lambda: m.append_cells(batch if as_list else np.array(batch, dtype=object)), after=after, ks=ks)

        def own(ks):
            return H.do("own", lambda: duplicate_mesh_points_from_0d_cells([H.held[k - 1] for k in ks], m), ks=ks)

        def reroute(ids, pairs):
            arg = [None] * (len(pairs) + 1)
            top = len(pairs)
            for d, ps in enumerate(pairs):
                both = [(m.cells[a], m.cells[b]) for a, b in ps]
                arg[top - d] = zip([a for a, _ in both], [b for _, b in both]) if rng.random() < 0.5 else both
            cs = [m.cells[i] for i in ids]
            return H.do("reroute", lambda: update_cells_with_cell_pairs(np.array(cs) if rng.random() < 0.5 else cs, arg, m), cells0=ids, pairs=pairs)

        def split():
            """detach some cells of one dimension from the others at some vertices"""
            top = rng.choice([d for d in range(1, m.dimension + 1)])
            cand = [c for c in m.cells if c.dimension == top]
            if not cand:
                return
            S = rng.sample(cand, min(len(cand), rng.randint(1, 3)))
            V = sorted({int(v) for c in S for v in c.sub_cells_ids[0]})
            V = rng.sample(V, rng.randint(1, min(3, len(V))))
            faces = [V]
            for d in range(1, top):
                F = sorted({int(f) for c in S for f in c.sub_cells_ids[d] if set(mg.ints(m.cells[f].sub_cells_ids[0])) & set(V)})
                # sometimes only some of them
                faces.append(F if rng.random() < 0.7 or not F else rng.sample(F, rng.randint(1, len(F))))
            base = len(H.held)
            at, plan = m.max_cell_id(), []
            for F in faces:
                plan.append([(f, at + k) for k, f in enumerate(F)])
                at += len(F)
            flat = [p for ps in plan for p in ps]
            copy([a for a, _ in flat], [rng.choice([-1, 5, 6]) for _ in flat], [b for _, b in flat])
            own([base + k + 1 for k in range(len(V))])
            if rng.random() < 0.5:
                give([base + k + 1 for k in range(len(flat))], rng.random() < 0.5)
            else:
                for ps in plan:
                    if ps:
                        give([base + k + 1 for k in range(len(ps))])
            if rng.random() < 0.9:
                ids = [int(c.id) for c in S]
                reroute(ids, plan)
                # the new edges follow the new vertices
                E = [b for _, b in plan[1]] if len(plan) > 1 else []
                if E:
                    touched = {int(v) for e in E for v in m.cells[e].sub_cells_ids[0]}
                    sub = [(a, b) for a, b in plan[0] if a in touched]
                    if sub:
                        reroute(E, [sub])

        # maps of single cells leave the mesh inconsistent: last of all
        ops = [rng.choice(["split", "split", "points", "double", "strays", "bad", "mixed", "find", "graph"]) for _ in range(rng.randint(3, 7))]
        ops += [rng.choice(["mapfaces", "mapnodes", "find", "graph"]) for _ in range(rng.randint(0, 3))]
        for op in ops:
            if op == "split":
                split()
            elif op == "points":
                new = [[rng.randint(0, 9) / 4, rng.randint(0, 9) / 4, 0.0] for _ in range(rng.randint(1, 3))]
                ids = [H.places.of(p) for p in new]
                H.do("points", lambda: m.append_points(np.array(new)), new=ids)
            elif op == "double":
                v = rng.randrange(m.max_node_tag())
                H.do("double", lambda: m.duplicate_vertice(v), node=v)
            elif op == "strays":
                # copies are altered: the mesh does not follow
                ids = rng.sample(range(m.max_cell_id()), 3)
                copy(ids, [-1, 9, 9], [m.max_cell_id() + j for j in range(3)])
                for j, c in enumerate(list(H.held)):
                    x = list(range(50, 50 + len(c.node_tags)))
                    d = rng.randrange(c.dimension + 1)
                    f = list(range(70, 70 + len(c.sub_cells_ids[d])))

                    def edit():
                        for a, v in enumerate(x):
                            c.node_tags[a] = v
                        for a, v in enumerate(f):
                            c.sub_cells_ids[d][a] = v
                    H.do("edit", edit, k=j + 1, x=x, dim=d, faces=f)
                H.held.clear()
                H.do("drop", lambda: None)
            elif op == "bad":
                # a batch with one identifier already in use changes nothing
                n = rng.randint(1, 3)
                ids = rng.sample(range(m.max_cell_id()), n)
                at = [m.max_cell_id() + j for j in range(n)]
                at[rng.randrange(n)] = rng.choice([m.max_cell_id() - 1, rng.randrange(m.max_cell_id()), 0])
                copy(ids, [-1] * n, at)
                give([j + 1 for j in range(n)])
                H.held.clear()
                H.do("drop", lambda: None)
            elif op == "mixed":
                a = rng.choice([c for c in m.cells if c.dimension == m.dimension])
                b = rng.choice([c for c in m.cells if c.dimension != m.dimension])
                H.do("reroute", lambda: update_cells_with_cell_pairs([a, b], [None] + [[] for _ in range(m.dimension)], m),
                     cells0=[int(a.id), int(b.id)], pairs=[[] for _ in range(m.dimension)])
            elif op == "mapfaces":
                i = rng.randrange(m.max_cell_id())
                c = m.cells[i]
                if c.dimension == 0:
                    continue
                d = rng.randrange(c.dimension)
                other = [int(o.id) for o in m.cells if o.dimension == d and int(o.id) not in mg.ints(c.sub_cells_ids[d])]
                old = rng.sample(mg.ints(c.sub_cells_ids[d]), 1)
                if not other:
                    continue
                mp = {o: rng.choice(other) for o in old}
                mp[rng.choice(other)] = old[0]   # not a face of this cell: no effect
                H.do("mapfaces", lambda: m.update_entity_with_dimension(d, i, dict(mp)), cell=i, dim=d, map=[[a, b] for a, b in mp.items()])
            elif op == "mapnodes":
                i = rng.randrange(m.max_cell_id())
                x = mg.ints(m.cells[i].node_tags)
                other = [v for v in range(m.max_node_tag()) if v not in x]
                if not other:
                    continue
                mp = {rng.choice(x): rng.choice(other)}
                H.do("mapnodes", lambda: m.update_nodes_ids(i, dict(mp)), cell=i, map=[[a, b] for a, b in mp.items()])
            elif op == "find":
                for i in rng.sample(range(m.max_cell_id()), min(8, m.max_cell_id())):
                    c = m.cells[i]
                    v = rng.choice(mg.ints(c.node_tags) + [rng.randrange(m.max_node_tag())])
                    H.ask("find", lambda: c.node_tag_index(v), lambda r: {"res": -1 if r is None else int(r)}, kind="node", cell=i, dim=0, target=v)
                    d = rng.randrange(c.dimension + 1)
                    f = rng.choice(mg.ints(c.sub_cells_ids[d]) + [rng.randrange(m.max_cell_id())])
                    H.ask("find", lambda: c.sub_cell_index(d, f), lambda r: {"res": -1 if r is None else int(r)}, kind="face", cell=i, dim=d, target=f)
            else:
                d = rng.randint(0, m.dimension)
                e = rng.randint(0, d)
                H.ask("graph", lambda: m.build_graph(d, d - e),
                      lambda g: {"edges": [] if g is None else sorted([int(a[0]), int(a[1]), int(b[0]), int(b[1])] for a, b in g.edges())}, d=d, e=e)
        groups.append(H.evs)

    crash = []
    for k in range(chk.n(120, 1500)):
        n = len(groups)
        try:
            history(k)
        except (IndexError, KeyError, ValueError) as ex:
            # a mesh that went wrong cannot be continued; what was recorded tells
            crash.append(ex)
            if len(groups) == n:
                groups.append(current[-1].evs)
    nh = len(groups)

    # exchanging nodes of incidence graphs
    for k in range(chk.n(40, 400)):
        m, err = meshes(k)
        if err:
            continue
        g = m.build_graph(m.dimension, rng.randint(1, m.dimension)) if rng.random() < 0.7 else nx.compose(m.build_graph(m.dimension, 1), m.build_graph(1, 1))
        num = lambda v: int(v[0]) * 1000 + int(v[1])
        nodes = list(g.nodes())
        # a cell makes way for another of its dimension, new or already there
        pairs = [(o, rng.choice([(o[0], m.max_cell_id() + j)] + [v for v in nodes if v != o and v[0] == o[0]][:2]))
                 for j, o in enumerate(rng.sample(nodes, min(len(nodes), rng.randint(1, 3))))]
        if rng.random() < 0.3:
            pairs.append(((0, 900), (0, 901)))  # not in the graph: nothing happens
        before = [[num(a), num(b)] for a, b in g.edges()]
        nb = [num(v) for v in nodes]
        _, err = chk.call(lambda: replace_nodes_in_grahp(pairs, g) if rng.random() < 0.7 else [replace_node_in_grahp(p, g) for p in pairs])
        groups.append([{"ev": "exchange", "err": err or "", "key": "exchange:%d:%d" % (chk.seed, k), "edges": before, "nodes": nb,
                        "pairs": [[num(a), num(b)] for a, b in pairs], "edges2": [[num(a), num(b)] for a, b in g.edges()], "nodes2": [num(v) for v in g.nodes()]}])
        chk.count("exchange")

    # a mesh filled cell by cell
    for k in range(chk.n(200, 2000)):
        pts, decl = mg.declared_mesh(rng, 1, size=1, lower=0.1, tags=(1,))
        mg.write_msh("f.msh", pts, decl)
        focus = rng.randint(1, 4)
        # identifiers whose digits can be read in several ways, and others
        pool = rng.choice([list(range(6)), list(range(14)), [1, 2, 11, 12, 22, 112, 122, 1112], list(range(400))])
        m, err = chk.call(lambda: Mesh(dimension=3, file_name="f.msh"))
        keys, ids, objs, made = [], [], [], []
        for j in range(rng.randint(2, 40)):
            if keys and rng.random() < 0.3:
                sign, t, tags = rng.choice(keys)
            else:
                t = rng.randint(1, 4) if rng.random() < 0.4 else focus
                sign, tags = rng.choice([0, 0, 0, 0, 1, -1]), sorted(rng.sample(pool, t))
            c = MeshCell(t - 1)
            made.append(c)
            r, err = chk.call(lambda: m.insert_cell_data(c, m.mesh_cell_type_index(["vertex", "line", "triangle", "tetra"][t - 1]), tags, sign))
            if err:
                break
            keys.append((sign, t, tags))
            ids.append(int(r.id))
            objs.append([q is r for q in made].index(True))
        groups.append([{"ev": "insert", "err": err or "", "key": "insert:%d:%d" % (chk.seed, k), "keys": [[s, t] + list(x) for s, t, x in keys],
                        "ids": ids, "objs": objs, "count": int(m.max_cell_id())}])
        chk.count("insert")
    chk.sample({"operations": [e["ev"] for e in groups[0]]})
    merged = [[] for _ in range(8)]
    for g in groups:
        min(merged, key=len).extend(g)
    chk.trace("MeshEditTrace", None, traces=nh, chunk=merged)
    if crash and not chk.viol:
        raise crash[0]
