"""C15: cell maps, facet embeddings, normals, facet traces and mesh metrics (spec: Geom / GeomMC / GeomTrace)."""
import itertools
import math

import numpy as np

from props.c13 import FAMS
from props.c18 import sample_mesh
from props.c23 import interpolate
from vf import fields as F
from vf import meshgen as mg


def near(v, scale=1.0):
    """nearest integer (not reduced) and distance in millionths"""
    x = float(v) * scale
    if not np.isfinite(x) or abs(x) > 2.0 ** 31 - 1:
        return [0, 10 ** 9]
    n = round(x)
    return [int(n), int(min(abs(x - n) * 1e6, 1e9))]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def outward(V, Fc, O):
    """integer normal used only to scale the observation (the specification recomputes it)"""
    d = [[a - b for a, b in zip(p, Fc[0])] for p in Fc] + [[a - b for a, b in zip(O, Fc[0])]]
    if len(Fc) == 1:
        n = [-a for a in d[1]]
    elif len(Fc) == 2:
        n = cross(d[1], cross(d[1], d[2]))
    else:
        n = cross(d[1], d[2])
    if sum(a * -b for a, b in zip(n, d[-1])) < 0:
        n = [-a for a in n]
    return n


def run(chk):
    from basis.basis_trace import trace_discrete_space, trace_product_space
    from basis.parametric_transformation import transform_lower_to_higher
    from geometry.compute_normal import normal
    from mesh.mesh_metrics import cell_centroid, cell_diam, mesh_size
    from mesh.topological_queries import find_higher_dimension_neighs
    from spaces.product_space import ProductSpace
    for n in (1, 2, 3):
        chk.model("GeomMC", "GeomMC%d%s" % (n, "_big" if n == 3 and not chk.quick else ""))
    rng = chk.rng
    events = []
    for it in range(chk.n(60, 500)):
        dim = rng.choice([1, 2, 2, 3, 3])
        fam, k = rng.choice(FAMS[dim])
        if rng.random() < 0.3:
            fam, k = "Lagrange", rng.choice([1, 2, 3])
        if dim == 3:
            k = min(k, 2)
        ncomp = rng.choice([1, 2, dim])
        P, tops = sample_mesh(rng, dim, fam, size={1: 3, 2: 2, 3: 1}[dim])
        s = rng.choice([0, 0, 4, -4, 9, -12])
        sc = 2.0 ** s
        fcs = sorted({f for t in tops for f in itertools.combinations(sorted(t), dim)})
        fcs = [tuple(rng.sample(f, len(f))) for f in fcs]
        tag2 = [f for f in fcs if rng.random() < 0.7] or fcs[:1]
        key = "%d%s%d:s%d:%d:%d" % (dim, fam, k, s, chk.seed, it)
        base = {"key": key, "err": "", "replay": {"points": P, "cells": tops, "facets": tag2, "scale": s, "family": fam, "k": k}}
        rows = [F.row_in_space(rng, fam, k, dim, 3) for _ in range(ncomp)]
        st = {}

        def build():
            tags = {t: rng.choice([1, 1, 7]) for t in tops}
            m = mg.build_mesh([[a / sc for a in p] for p in P], [(t, tags[t]) for t in tops] + [(f, 2) for f in tag2] + [(f, rng.choice([1, 7])) for f in fcs if f not in tag2], dim=dim)
            ps = ProductSpace({"w": (dim, 1, "Lagrange", 2, m), "u": (dim, ncomp, fam, k, m)})
            ps.build_structures({"w": [1, 7], "u": [1, 7]}, {"w": [2], "u": [2]})
            st.update(m=m, ps=ps, sp=ps.discrete_spaces["u"], tags=tags)
        _, err = chk.call(build)
        if err:
            events.append(dict(base, ev="cell", err=err))
            continue
        m, ps, sp = st["m"], st["ps"], st["sp"]

        def V(cell):
            return [P[int(a)] for a in cell.node_tags]
        # --- maps
        for el in rng.sample(list(sp.elements), min(len(sp.elements), chk.n(2, 4))) + rng.sample(list(sp.bc_elements), min(len(sp.bc_elements), 2)):
            cell = el.data.cell
            d = cell.dimension
            if d == 0:
                # a vertex of a 1D mesh: its own point, weight one
                e = dict(base, ev="cell", V=V(cell), lam=[[1]], x=[], jac=[], det=[], inv=[], positive=True)

                def look():
                    x, _, det, _ = el.evaluate_mapping(np.array([1.0]))
                    e["x"] = [[near(a, sc) for a in p] for p in x]
                    e["det"] = [near(a * a) for a in det]
                    e["positive"] = bool(np.all(np.asarray(det) > 0))
                _, er = chk.call(look)
                e["err"] = er or ""
                events.append(e)
                chk.count("vertex-map")
                continue
            q = rng.choice([3, 4, 6])
            lam = [F.bary(rng, d, q) for _ in range(3)]
            v = V(cell)
            det2 = round(float(np.linalg.det(np.array([[sum(a * b for a, b in zip(x, y)) for y in [[c - o for c, o in zip(p, v[0])] for p in v[1:]]]
                                                       for x in [[c - o for c, o in zip(p, v[0])] for p in v[1:]]], float))))
            e = dict(base, ev="cell", V=v, lam=lam, x=[], jac=[], det=[], inv=[], positive=True)

            def look():
                x, jac, det, inv = el.evaluate_mapping(np.array(lam, float) @ F.REF[d] / q)
                e["x"] = [[near(a, q * sc) for a in p] for p in x]
                e["jac"] = [[[near(a, sc) for a in r] for r in j] for j in jac]
                e["det"] = [near((a * sc ** d) ** 2) for a in det]
                e["positive"] = bool(np.all(np.asarray(det) > 0))
                e["inv"] = [[[near(a, det2 / sc) for a in r] for r in j] for j in inv]
            _, er = chk.call(look)
            e["err"] = er or ""
            events.append(e)
            chk.count("cell-map")
        alpha = None
        # --- facets
        for bi in rng.sample(range(len(sp.bc_elements)), min(len(sp.bc_elements), chk.n(3, 6))):
            bel = sp.bc_elements[bi]
            c1 = bel.data.cell
            q = rng.choice([3, 4, 6])
            lam = [F.bary(rng, dim - 1, q) for _ in range(3)] if dim > 1 else [[q]]
            ref = np.array(lam, float) @ F.REF[dim - 1] / q if dim > 1 else np.array([1.0])
            fv = V(c1)
            nb, er = chk.call(lambda: find_higher_dimension_neighs(c1, sp.dof_map.mesh_topology))
            if er:
                events.append(dict(base, ev="cell", err=er))
                continue
            for ni, (_, cid) in enumerate(nb):
                el = sp.elements[sp.id_to_element[cid]]
                v = V(el.data.cell)
                O = next(p for p in v if p not in fv)
                N = outward(v, fv, O)
                r = sum(a * a for a in N)
                e = dict(base, ev="facet", V=v, F=fv, q=q, lam=lam, r=r, mapped=[], normal=[])

                def look():
                    mp = transform_lower_to_higher(ref, bel.data, el.data)
                    e["mapped"] = [[near(a, q) for a in p] for p in np.asarray(mp)]
                    if np.asarray(mp).ndim == 1:
                        e["mapped"] = [[near(a, q)] for a in mp]
                    e["normal"] = [near(a, math.sqrt(r)) for a in normal(m, el.data.cell, c1)]
                _, er = chk.call(look)
                e["err"] = er or ""
                events.append(e)
                chk.count("facet")
                # --- traces
                deg = F.degree(rows)
                if F.bound(rows, P) * q ** deg * max(1, max(abs(a) for a in N)) > 1e10:
                    continue
                own = fam in ("RT", "BDM") and rng.random() < 0.5
                e = dict(base, ev="trace", V=v, F=fv, q=q, lam=lam, N=N, family=fam, k=k, rows=rows, all=not own, scale=q ** deg, obs=[])

                def look():
                    nonlocal alpha
                    if alpha is None:
                        alpha = np.zeros(ps.n_dof)
                        for d_, x_ in interpolate(m, ps, "u", rows, P, sc).items():
                            alpha[d_] = x_
                    if ni == 0 and rng.random() < 0.5:
                        phi = trace_product_space(["u"], ps, ref, bel.data, not own)["u"] if rng.random() < 0.5 else trace_discrete_space(sp, ref, bel.data, not own)
                    elif rng.random() < 0.5:
                        phi = trace_product_space(["u"], ps, ref, bel.data, not own, ni)["u"]
                    else:
                        phi = trace_discrete_space(sp, ref, bel.data, not own, ni)
                    dest = ps.bc_destination_indexes(bi, "u") if own else ps.destination_indexes(sp.id_to_element[cid], "u")
                    a = alpha[dest].reshape(phi.shape[2], ncomp)
                    nd = F.directions(fam, dim)
                    val = np.einsum("pjd,jc->pcd", phi[0, :, :, :nd], a)
                    if own:
                        val = val @ np.array(N[:nd] if dim > 1 else [1], float)[:, None]
                    e["obs"] = [[[F.obs(y, e["scale"]) for y in c] for c in p] for p in val]
                _, er = chk.call(look)
                e["err"] = er or ""
                if own and "bc_destination" in e["err"]:
                    continue
                events.append(e)
                chk.count("trace-own" if own else "trace-all")
        # --- metrics
        for d, tag in [(None, None), (dim, rng.choice([1, 7])), (rng.randint(1, dim), None), (dim - 1, 2), (dim - 1, rng.choice([1, 7]))]:
            cells = [c for c in m.cells if c.dimension == (dim if d is None else d) and (tag is None or c.material_id == tag)]
            if not cells or (d == 0):
                continue
            e = dict(base, ev="metric", cells=[V(c) for c in cells], centroid=[], diam=[], size=[])

            def look():
                e["centroid"] = [[near(a, len(c.node_tags) * sc) for a in cell_centroid(c, m)] for c in cells]
                e["diam"] = [near((cell_diam(c, m) * sc) ** 2) for c in cells]
                lo, mean, hi = mesh_size(m, d, tag) if tag is not None or rng.random() < 0.5 else mesh_size(m, dim=d)
                e["size"] = [near((lo * sc) ** 2), [int(math.floor(mean * sc * 10 * len(cells))), 0], near((hi * sc) ** 2)]
            _, er = chk.call(look)
            e["err"] = er or ""
            events.append(e)
            chk.count("metric")
        if len(chk.samples) < 2:
            chk.sample({k2: v2 for k2, v2 in events[-1].items() if k2 != "replay"})
    from mesh.mesh_cell import rotate_vector
    for k in range(chk.n(60, 600)):
        p, q, h = rng.choice([(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (4, 3, 5), (-3, 4, 5), (5, -12, 13), (-8, -15, 17)])
        v, axis = [rng.randint(-9, 9) for _ in range(3)], rng.choice([0, 1, 2])
        r, err = chk.call(rotate_vector, np.array(v, dtype=float), np.arctan2(q, p), *([] if axis == 2 and rng.random() < 0.5 else [axis]))
        obs = [] if err else [int(round(h * c)) if abs(h * c - round(h * c)) < 1e-9 else -10 ** 6 for c in r]
        events.append({"ev": "turn", "err": err or "", "key": "turn:%d:%d" % (chk.seed, k), "v": v, "axis": axis, "p": p, "q": q, "h": h, "obs": obs})
        chk.count("turn")
    chk.trace("GeomTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
