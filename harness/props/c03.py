"""C03: degree-of-freedom numbering (spec: DofLayout / DofLayoutTrace)."""
from vf import meshgen as mg

FAMS = {0: [("Lagrange", [0])],
        1: [("Lagrange", [1, 2, 3, 4]), ("RT", [1, 2]), ("BDM", [1, 2]), ("N1E", [1, 2]), ("N2E", [1, 2])],
        2: [("Lagrange", [1, 2, 3, 4]), ("RT", [1, 2, 3]), ("BDM", [1, 2, 3]), ("N1E", [1, 2, 3]), ("N2E", [1, 2])],
        3: [("Lagrange", [1, 2, 3, 4]), ("RT", [1, 2]), ("BDM", [1, 2]), ("N1E", [1, 2, 3]), ("N2E", [1, 2])]}


def mesh_event(m, key):
    return {"ev": "mesh", "cells": mg.project(m), "key": key}


def observe_space(chk, sp, dim, ncomp, family, k, disc, tags, btags, shift=0, err=""):
    e = {"ev": "space", "dim": dim, "ncomp": ncomp, "family": family, "k": k, "disc": disc,
         "tags": [-1 if t is None else t for t in tags], "btags": [-1 if t is None else t for t in btags],
         "shift": shift, "err": err, "ndof": 0, "elements": [], "dests": [], "bcelements": [], "bcdests": []}
    if err:
        return e

    def obs():
        e["ndof"] = int(sp.dof_map.dof_number())
        e["elements"] = [int(el.data.cell.id) for el in sp.elements]
        if [int(i) for i in sp.element_ids] != e["elements"] or any(
                sp.id_to_element[c] != i for i, c in enumerate(e["elements"])):
            e["elements"] = []
        e["dests"] = [{"id": c, "dest": mg.ints(sp.dof_map.destination_indices(c))} for c in e["elements"]]
        if dim > 0:
            e["bcelements"] = [int(el.data.cell.id) for el in sp.bc_elements]
            g = sp.mesh_topology.entity_map_by_dimension(dim - 1)
            for b in e["bcelements"]:
                for nb in list(g.predecessors((dim - 1, b))):
                    e["bcdests"].append({"b": b, "dest": mg.ints(sp.dof_map.bc_destination_indices(nb[1], b))})
    _, er = chk.call(obs)
    e["err"] = er or ""
    return e


def run(chk):
    from spaces.discrete_space import DiscreteSpace
    rng = chk.rng
    for fam in ("Lagrange", "RT", "BDM"):
        for k in (1, 2):
            chk.model("DofLayout", "DofLayout_%s_%d" % (fam, k))
    groups = []
    ntr = 0
    for it in range(chk.n(30, 240)):
        mdim = [1, 2, 3, 2, 3][it % 5]
        pts, decl = mg.declared_mesh(rng, mdim, size={1: 3, 2: rng.choice([1, 2, 3]), 3: rng.choice([1, 2])}[mdim],
                                     lower=rng.choice([0.3, 0.7]), tags=(1, 2, 3), delete=0.3 if mdim < 3 else 0.5)
        zero = rng.choice([0, 1, 2, 3])        # one of the tags may be the integer 0
        mp = lambda t: 0 if t is not None and t == zero else t
        decl = [(s, mp(t)) for s, t in decl]
        key0 = "rand:%d:%d" % (chk.seed, it)
        m, err = chk.call(mg.build_mesh, pts, decl)
        if err:
            chk.violation("mesh-build", key0, {"err": err})
            continue
        evs = [mesh_event(m, key0)]
        combos = [(d, f, k) for d in range(0, mdim + 1) for f, ks in FAMS[d] for k in ks]
        rng.shuffle(combos)
        combos.sort(key=lambda c: -c[0])
        half = combos[: len([c for c in combos if c[0] == mdim])]
        rng.shuffle(half)
        low = combos[len(half):]
        rng.shuffle(low)
        for d, f, k in half[: chk.n(5, 8)] + low[: chk.n(3, 5)]:
            ncomp = rng.choice([1, 1, 2, 3])
            disc = rng.random() < 0.25
            if f == "Lagrange" and d > 0 and rng.random() < 0.15:
                k, disc = 0, True
            tags = rng.choice([[1], [1, 2], [1, 2, 3], [3, 1], [2], [None], [None, 1, 2, 3], [1, 55]])
            tags = [mp(t) for t in tags]
            if not any(c.dimension == d and c.material_id in tags for c in m.cells):
                tags = [None, 0, 1, 2, 3]
            btags = [mp(t) for t in rng.choice([[], [2], [1, 3], [1, 2, 3]])] if d > 0 else []
            key = "%s:d%d:%s%d:c%d:%s:%s:%s" % (key0, d, f, k, ncomp, "D" if disc else "C", tags, btags)
            sp, err = chk.call(DiscreteSpace, d, ncomp, f, k, m)

            def build(tags, btags):
                if disc:
                    sp.make_discontinuous()
                sp.build_structures(tags)
                sp.build_boundary_structures(btags)
            if not err:
                if rng.random() < 0.3:   # history: an earlier build with another selection leaves nothing behind
                    chk.call(build, [None, 0, 1, 2, 3], rng.choice([[1, 2, 3], [2], btags]) if d > 0 else [])
                    chk.count("rebuilt")
                _, err = chk.call(build, tags, btags)
            e = observe_space(chk, sp, d, ncomp, f, k, disc, tags, btags, err=err or "")
            e["key"] = key
            e["replay"] = {"points": pts, "declared": decl}
            evs.append(e)
            chk.count("spaces")
            chk.count("family-%s" % f)
            ntr += 1
            if len(chk.samples) < 2:
                chk.sample({"key": key, "ndof": e["ndof"], "elements": len(e["elements"])})
            if not err and rng.random() < 0.4:
                # the same numbering with a base shift
                sh = rng.choice([1, 5, 1000])
                _, err = chk.call(sp.dof_map.build_entity_maps, n_components=ncomp, n_dof_shift=sh)
                e = observe_space(chk, sp, d, ncomp, f, k, disc, tags, btags, shift=sh, err=err or "")
                e["key"] = key + ":shift%d" % sh
                evs.append(e)
                chk.count("shifted")
        groups.append(evs)
    merged = [[] for _ in range(8)]
    size = lambda g: sum(len(str(e.get("dests", ""))) for e in g)
    for g in sorted(groups, key=size, reverse=True):
        min(merged, key=size).extend(g)
    chk.trace("DofLayoutTrace", None, traces=ntr, chunk=merged)
