"""C23: reported errors and norms are the exact integrals (spec: Poly / Field / FieldTrace)."""
import math

import numpy as np

from props.c13 import FAMS
from props.c18 import cells_of, sample_mesh
from vf import fields as F
from vf import meshgen as mg


def interpolate(m, ps, name, rows, P, sc):
    """coefficients of a field of the space, cell by cell, from values at many points (not the library's projector)"""
    sp = ps.discrete_spaces[name]
    dim = sp.dimension
    alpha = {}
    for i, el in enumerate(sp.elements):
        n = 6
        lam = np.array([l for l in np.ndindex(*([n + 1] * dim)) if sum(l) <= n], float) / n
        x, jac, det, inv = el.evaluate_mapping(lam)
        phi = el.evaluate_basis(lam, jac, det, inv)[0]
        nd = F.directions(sp_family(sp), dim)
        want = np.array([[F.ev(r[d], *(x.T * sc)) for d in range(nd)] for r in rows])       # comp dir points
        A = phi[:, :, :nd].transpose(0, 2, 1).reshape(-1, phi.shape[1])
        sol = np.linalg.lstsq(A, want.transpose(2, 1, 0).reshape(-1, len(rows)), rcond=None)[0]
        dest = ps.destination_indexes(i, name)
        for j, d in enumerate(dest):
            alpha[int(d)] = sol.ravel()[j]
    return alpha


def sp_family(sp):
    return "Lagrange" if str(sp.family).endswith("P") else "other"


def run(chk):
    from postprocess import l2_error_post_processor as E
    from postprocess import solution_norms_post_processor as N
    from spaces.product_space import ProductSpace
    for n in (1, 2, 3):
        chk.model("PolyModelMC", "PolyModel%d" % n)
    rng = chk.rng
    events = []
    for it in range(chk.n(60, 600)):
        dim = rng.choice([1, 2, 2, 3])
        nf = rng.choice([1, 2, 2, 3])
        flux = rng.random() < 0.7
        tensor = flux and dim > 1 and rng.random() < 0.4     # stress-like fields: deviatoric part
        spaces = {}
        for j in range(nf):
            fam = rng.choice(["Lagrange", "Lagrange", "N1E", "N2E"] + (["RT", "BDM"] * 3 if flux else []))
            k = rng.choice([1, 2, 2, 3] if dim < 3 else [1, 1, 2])
            ncomp = rng.choice([1, 2, 3]) if dim > 1 or not flux else 1
            if tensor and fam in ("RT", "BDM"):
                ncomp, k = dim, 1 if dim == 3 else rng.choice([1, 2])
            spaces[rng.choice("pqruvw") + str(j)] = (dim, ncomp, fam, k)
        flat = True
        if any(v[2] != "Lagrange" for v in spaces.values()):
            fam0 = "RT" if flux else "N1E"
            P, tops = sample_mesh(rng, dim, fam0, size=rng.choice([1, 2]), flat=True)
            if not flux and dim == 1:
                tops = [tuple(sorted(t, key=lambda v: P[v][0])) for t in tops]
        else:
            flat = dim == 3 or rng.random() < 0.5
            P, tops = sample_mesh(rng, dim, "Lagrange", size=rng.choice([1, 2]), flat=flat)
        kmax = max(v[3] for v in spaces.values())
        names = list(spaces)
        rng.shuffle(names)
        s = rng.choice([0, 0, 0, 2, 6, -3])
        sc = 2.0 ** s
        shift = rng.choice([0, 0, 5])
        disc = {n: rng.random() < 0.2 for n in names}
        have = {n: [F.row_in_space(rng, spaces[n][2], spaces[n][3], dim, 3) for _ in range(spaces[n][1])] for n in names}
        want = {n: [F.rand_row(rng, rng.randint(0, kmax), spaces[n][2], dim, 3) for _ in range(spaces[n][1])] for n in names}
        for n in names:
            if rng.random() < 0.15:
                want[n] = have[n]
        deg = 2 * max(F.degree(r) for d in (have, want) for r in d.values())
        D = math.factorial(deg + dim)
        big = max(F.bound(r, P) for d in (have, want) for r in d.values())
        vol = 60 if dim > 1 else 300
        key = "%d:%s:s%d:%d:%d" % (dim, ",".join("%s%d" % (spaces[n][2], spaces[n][3]) for n in names), s, chk.seed, it)
        if D * big ** 2 * vol > 1e13:
            chk.count("too-large")
            continue
        skip0 = [n for n in names if rng.random() < 0.2]
        state = {}

        def go():
            m = mg.build_mesh([[a / sc for a in p] for p in P], [(t, 1) for t in tops], dim=dim)
            ps = ProductSpace({n: spaces[n] + (m,) for n in names})
            ps.make_subspaces_discontinuous(disc)
            ps.build_structures({n: [1] for n in names}, {n: [] for n in names})
            alpha = np.zeros(ps.n_dof)
            for n in names:
                for d, v in interpolate(m, ps, n, have[n], P, sc).items():
                    alpha[d] = v
            state.update(m=m, ps=ps, alpha=alpha)
        _, err = chk.call(go)
        cells = cells_of(state["m"], state["ps"].discrete_spaces[names[0]], P) if not err else []
        # on lines every space is the scalar one
        funcs = {n: F.as_function(want[n], spaces[n][2] if dim > 1 else "Lagrange", sc) for n in names}
        funcs.update({"div_" + n: F.as_divergence(want[n], dim, sc) for n in names})
        flux_names = [n for n in names if spaces[n][2] in ("RT", "BDM")]
        funcs.update({"grad_" + n: F.as_gradient(want[n], dim, sc) for n in names if spaces[n][2] == "Lagrange"})
        W = sum(F.weight(c) for c in cells)
        for kind in (["grad"] if flat and (dim > 1 or all(v[2] == "Lagrange" for v in spaces.values())) else []) + (["devia_error", "devia_norm"] if tensor and flux_names else []) + (["div_scaled"] if dim > 1 and flux_names else []) + ["error", "projected", "norm", "div_error", "div_norm"]:
            # in one dimension only flux fields have a divergence
            skip = skip0 + [n for n in names if kind == "div_error" and dim == 1 and spaces[n][2] == "Lagrange" and n not in skip0]
            e = {"ev": "error", "kind": kind, "dim": dim, "cells": cells, "s": deg // 2, "scale": D, "obs": [], "err": err or "", "key": kind + ":" + key,
                 "fields": [{"family": spaces[n][2], "k": spaces[n][3], "skip": n in skip, "have": have[n], "exact": want[n]} for n in names],
                 "replay": {"points": P, "cells": tops, "spaces": spaces, "names": names, "scale": s, "shift": shift, "skip": skip}}

            if kind.startswith("devia"):
                D1 = math.factorial(deg // 2 + dim)
                e["scale"] = math.lcm(D, D1 * D1) * dim * W
                if e["scale"] * big ** 2 * vol > 1e13:
                    continue
            if kind == "grad":
                skip = []
                for f in e["fields"]:
                    f["skip"] = False

            if kind == "div_scaled":
                # the divergence of gamma times the field, gamma affine: exactly known for some fields
                gam = F.rand_poly(rng, rng.choice([0, 1, 1]), dim)
                prod = {n: [[[[a[0] * b[0]] + [u + v for u, v in zip(a[1:], b[1:])] for a in gam for b in q] for q in r] for r in have[n]] for n in flux_names}
                goal = {n: prod[n] if rng.random() < 0.3 else want[n] for n in flux_names}
                if D * max(F.bound(r, P) for g in (goal, prod) for r in g.values()) ** 2 * vol > 1e13:
                    continue
                for f, n in zip(e["fields"], names):
                    f["exact"] = goal.get(n, want[n])
                e["gamma"] = gam
                wide = rng.choice([2, 3])
                scaled = {"div_" + n: F.as_divergence(goal[n], dim, sc) for n in flux_names}
                scaled["l"] = lambda x, y, z: F.ev(gam, x * sc, y * sc, z * sc)
                scaled["grad_l"] = lambda x, y, z: np.array([sc * F.ev(F.diff(gam, i), x * sc, y * sc, z * sc) + 0 * x for i in range(max(dim, wide))])

            def meas():
                ps, a = state["ps"], state["alpha"]
                ps.dof_shift = shift
                a = np.concatenate([np.full(shift, 1e3), a])
                try:
                    if kind == "error":
                        r = E.l2_error(dim, ps, funcs, a, skip)
                    elif kind == "projected":
                        r = E.l2_error_projected(dim, ps, a[shift:] if shift else a, skip, -shift)
                    elif kind == "norm":
                        r = N.l2_norm(dim, ps, funcs, skip)
                    elif kind == "grad":
                        r = E.grad_error(dim, ps, funcs, a)
                    elif kind == "devia_error":
                        r = E.devia_l2_error(dim, ps, funcs, a, skip)
                    elif kind == "devia_norm":
                        r = N.devia_l2_norm(dim, ps, funcs, skip)
                    elif kind == "div_scaled":
                        r = E.div_scaled_error(dim, ps, scaled, a, skip)
                    elif kind == "div_error":
                        r = E.div_error(dim, ps, funcs, a, skip)
                    else:
                        r = N.div_norm(dim, ps, funcs, skip)
                finally:
                    ps.dof_shift = 0
                u = sc ** dim * (sc ** -2 if kind in ("div_error", "div_norm", "div_scaled", "grad") else 1.0)
                e["obs"] = [F.obs(v * v * u, e["scale"]) for v in r]
            if not err:
                _, er2 = chk.call(meas)
                e["err"] = er2 or ""
            events.append(e)
            chk.count(kind)
        if len(chk.samples) < 2:
            chk.sample({k2: v for k2, v in events[-1].items() if k2 != "replay"})
    chk.trace("FieldTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
