"""Inputs and observations for the weak form checks (spec: WeakForms / WeakFormsTrace)."""
import importlib
import itertools
import math

import numpy as np

from props.c18 import cells_of, sample_mesh
from props.c23 import interpolate
from vf import fields as F
from vf import meshgen as mg

try:
    # the installed auto_diff (0.4.1) uses a name that the installed numpy (2.x) removed
    import auto_diff
    for _m in (auto_diff.true_np, np):
        if not hasattr(_m, "product"):
            _m.product = np.prod
except ImportError:
    pass

FLUX, LAG = ("RT", "BDM"), ("Lagrange",)
ROT = {2: 1, 3: 3}
BETA = 1.0e12


def lay(form, dim):
    """fields of a form in its own order: name -> (components, families)"""
    if form.startswith("laplace_primal"):
        return {"p": (1, LAG)}
    if form.startswith(("laplace_dual", "unscaled")):
        return {"u": (1, FLUX), "p": (1, LAG)}
    if form.startswith(("degenerate", "scaled_to")):
        return {"v": (1, FLUX), "q": (1, LAG)}
    if form.startswith("le_taylor_hood"):
        return {"u": (dim, LAG), "p": (1, LAG)}
    if form.startswith(("le_dual", "le_riesz")):
        return {"s": (dim, FLUX), "u": (dim, LAG), "t": (ROT[dim], LAG)}
    if form.startswith("lce_primal"):
        return {"u": (dim, LAG), "t": (ROT[dim], LAG)}
    if form.startswith("lce"):
        return {"s": (dim, FLUX), "m": (ROT[dim], FLUX), "u": (dim, LAG), "t": (ROT[dim], LAG)}
    return {"u": (dim, LAG)}


def bc_fields(form, dim):
    """fields carrying boundary unknowns in a boundary form"""
    if form.startswith(("laplace_primal",)):
        return ["p"]
    if form.startswith("degenerate"):
        return ["v"]
    if form.startswith("le_dual"):
        return ["s"]
    if form.startswith(("lce_dual", "lce_scaled")):
        return ["s", "m"]
    if form.startswith("lce_primal"):
        return ["u", "t"]
    return ["u"]


CLASSES = {
    "laplace_primal": ("laplace_primal_weak_form", "LaplacePrimalWeakForm", (1, 2, 3), False),
    "laplace_dual": ("laplace_dual_weak_form", "LaplaceDualWeakForm", (1, 2, 3), False),
    "degenerate": ("degenerate_elliptic_weak_form", "DegenerateEllipticWeakForm", (1, 2, 3), False),
    "unscaled": ("unscaled_elliptic_weak_form", "UnscaledEllipticWeakForm", (1, 2, 3), False),
    "scaled_to_physical": ("scaled_to_physical_l2_projection", "ScaledToPhysicalL2Projection", (1, 2, 3), False),
    "le_primal": ("le_primal_weak_form", "LEPrimalWeakForm", (2, 3), False),
    "le_stress_constraint": ("le_primal_stress_constraint_weak_form", "LEPrimalStressConstraintWeakForm", (2, 3), False),
    "le_taylor_hood": ("le_taylor_hood_weak_form", "LETaylorHoodWeakForm", (2,), False),
    "le_dual": ("le_dual_weak_form", "LEDualWeakForm", (2, 3), True),
    "le_riesz": ("le_riesz_map_weak_form", "LERieszMapWeakForm", (2, 3), True),
    "lce_primal": ("lce_primal_weak_form", "LCEPrimalWeakForm", (2, 3), False),
    "lce_dual": ("lce_dual_weak_form", "LCEDualWeakForm", (2, 3), True),
    "lce_scaled_dual": ("lce_scaled_dual_weak_form", "LCEScaledDualWeakForm", (2, 3), True),
    "lce_riesz": ("lce_riesz_map_weak_form", "LCERieszMapWeakForm", (2, 3), True),
    "lce_scaled_riesz": ("lce_scaled_riesz_map_weak_form", "LCEScaledRieszMapWeakForm", (2, 3), True),
    "laplace_primal_bc": ("laplace_primal_weak_form", "LaplacePrimalWeakFormBCDirichlet", (1, 2, 3), False),
    "laplace_dual_bc": ("laplace_dual_weak_form", "LaplaceDualWeakFormBCDirichlet", (1, 2, 3), False),
    "degenerate_bc": ("degenerate_elliptic_weak_form", "DegenerateEllipticWeakFormBCDirichlet", (1, 2, 3), False),
    "unscaled_bc": ("unscaled_elliptic_weak_form", "UnscaledEllipticWeakFormBCDirichlet", (1, 2, 3), False),
    "le_primal_bc": ("le_primal_weak_form", "LEPrimalWeakFormBCDirichlet", (2, 3), False),
    "le_neumann": ("le_primal_weak_form", "LEPrimalWeakFormBCNeumann", (2, 3), False),
    "le_normal_bc": ("le_primal_weak_form", "LEPrimalWeakFormBCNormalDirichlet", (2, 3), False),
    "le_taylor_hood_bc": ("le_taylor_hood_weak_form", "LETaylorHoodWeakFormBCDirichlet", (2, 3), False),
    "le_dual_bc": ("le_dual_weak_form", "LEDualWeakFormBCDirichlet", (2, 3), False),
    "le_dual_neumann": ("le_dual_weak_form", "LCEDualWeakFormBCNeumann", (2, 3), False),
    "lce_primal_bc": ("lce_primal_weak_form", "LCEPrimalWeakFormBCDirichlet", (2, 3), False),
    "lce_dual_bc": ("lce_dual_weak_form", "LCEDualWeakFormBCDirichlet", (2, 3), False),
    "lce_dual_neumann": ("lce_dual_weak_form", "LCEDualWeakFormBCNeumann", (2, 3), False),
    "lce_scaled_dual_bc": ("lce_scaled_dual_weak_form", "LCEScaledDualWeakFormBCDirichlet", (2, 3), False),
    "lce_scaled_dual_neumann": ("lce_scaled_dual_weak_form", "LCEDualWeakFormBCNeumann", (2, 3), False),
}
PENALTY = {"laplace_primal_bc", "le_primal_bc", "le_normal_bc", "le_taylor_hood_bc", "le_dual_neumann", "lce_primal_bc", "lce_dual_neumann",
           "lce_scaled_dual_neumann"}
NEEDS_AREA = PENALTY | {"le_neumann"}


class Poly:
    """random coefficient polynomials"""

    def __init__(self, rng, dim, P):
        self.rng, self.dim = rng, dim
        self.R = max(1, max(abs(a) for p in P for a in p))

    def const(self, lo=1, hi=4):
        return [[self.rng.choice([c for c in range(lo, hi + 1) if c]), 0, 0, 0]]

    def unit(self, i):
        return [1 if j == i else 0 for j in range(3)]

    def positive(self, deg):
        """positive on the mesh"""
        rng = self.rng
        if deg <= 0 or rng.random() < 0.15:
            return self.const()
        a = [rng.choice([-1, 0, 1, 1]) for _ in range(self.dim)]
        lin = [[c] + self.unit(i) for i, c in enumerate(a) if c]
        p = [[sum(abs(c) for c in a) * self.R + rng.randint(1, 3), 0, 0, 0]] + lin
        if deg >= 2 and rng.random() < 0.5:
            i = rng.randrange(self.dim)
            p = p + [[1] + [2 * e for e in self.unit(i)]]
        return p

    def any(self, deg, terms=3):
        return F.rand_poly(self.rng, max(deg, 0), 3, terms)

    def ratio(self, deg):
        """r with |r| < den / (2 dim): lambda / (2 mu + dim lambda) = r / den"""
        rng = self.rng
        if deg <= 0 or self.dim * self.R > 9 or rng.random() < 0.3:
            return [[rng.choice([-8, -4, 4, 8]), 0, 0, 0]]
        return [[rng.choice([1, 2]), 0, 0, 0]] + [[rng.choice([-1, 1])] + self.unit(rng.randrange(self.dim))]


def fn(p, s=1.0):
    return lambda x, y, z: F.ev(p, x, y, z)


def vec(rows):
    return lambda x, y, z: np.array([F.ev(r[0], x, y, z) for r in rows])


def facets(tops):
    n = {}
    for t in tops:
        for f in itertools.combinations(sorted(t), len(t) - 1):
            n.setdefault(f, []).append(t)
    return {f: ts[0] for f, ts in n.items() if len(ts) == 1}


def rational(V):
    if len(V) in (1, 4):
        return True
    A = [[int(b) - int(a) for a, b in zip(V[0], v)] for v in V[1:]]
    if len(A) == 1:
        q = sum(a * a for a in A[0])
    else:
        (a, b, c), (d, e, f) = A
        q = (b * f - c * e) ** 2 + (c * d - a * f) ** 2 + (a * e - b * d) ** 2
    return math.isqrt(q) ** 2 == q


def make(chk, rng, form, dim, key, kmax=None):
    module, cls, _, vecd = CLASSES[form]
    boundary = form.endswith(("_bc", "_neumann"))
    layout = lay(form, dim)
    kmax = kmax or rng.choice([1, 1, 2, 2, 3] if dim < 3 and not form.startswith("lce") else [1, 1, 1, 2] if len(layout) < 3 else [1])
    if dim == 2 and form.startswith("lce") and rng.random() < 0.3:
        kmax = 2
    spaces, fam0 = {}, "Lagrange"
    for f, (nc, fams) in layout.items():
        fam = rng.choice(fams)
        k = rng.randint(1, kmax)
        if fam != "Lagrange":
            fam0 = fam
        spaces[f] = (dim, nc, fam, k)
    if max(v[3] for v in spaces.values()) < kmax:
        f = rng.choice(list(spaces))
        spaces[f] = spaces[f][:3] + (kmax,)
    P, tops = sample_mesh(rng, dim, fam0, size=1 if dim > 1 else 2, flat=True)
    # small coordinates keep the integers small
    lo = [min(p[i] for p in P) for i in range(3)]
    off = [rng.choice([0, 0, 1]) if i < dim else 0 for i in range(3)]
    P = [[a - b + o for a, b, o in zip(p, lo, off)] for p in P]
    c = Poly(rng, dim, P)
    # vector families in the reference order, scalar ones of any degree
    w = {f: [F.row_in_space(rng, v[2], v[3], dim, dim) for _ in range(v[1])] for f, v in spaces.items()}
    v = {f: [F.row_in_space(rng, u[2], u[3], dim, dim) for _ in range(u[1])] for f, u in spaces.items()}
    dw, dv = max(F.degree(r) for r in w.values()), max(F.degree(r) for r in v.values())
    kq = 2 * kmax + 1
    cB, cL = max(kq - dw - dv, 0), max(kq - dv, 0)
    coef, funcs, rhs, given, dry = {}, {}, [], {}, False
    ncomp_u = layout["u"][0] if "u" in layout else 1
    nrhs = {"laplace_primal": 1, "laplace_dual": 1, "degenerate": 1, "unscaled": 1, "le_primal": dim, "le_taylor_hood": dim}.get(form)
    if form in ("le_dual", "lce_primal", "lce_dual", "lce_scaled_dual"):
        nrhs = dim + ROT[dim]

    def material(cb):
        """q, rho, k of a stress; (lambda, mu, kappa) as functions"""
        dq = rng.randint(0, cb)
        q, r, k = c.positive(dq), c.ratio(cb - dq), c.positive(cb)

        def mu(x, y, z):
            return 1.0 / (2.0 * F.ev(q, x, y, z)) + 0.0 * x

        def lam(x, y, z):
            rho = F.ev(r, x, y, z) / 64.0
            return 2.0 * mu(x, y, z) * rho / (1.0 - dim * rho)
        return q, r, k, lam, mu, lambda x, y, z: 1.0 / (2.0 * F.ev(k, x, y, z))

    if nrhs:
        rhs = [[c.any(rng.randint(0, cL))] for _ in range(nrhs)]
        if form == "unscaled":
            rhs = [[c.any(max(cL - 1, 0))]]
        funcs["rhs"] = vec(rhs)
    if form == "laplace_primal":
        coef["kappa"] = c.any(min(cB + 2, 2))
        funcs["kappa"] = fn(coef["kappa"])
    elif form == "laplace_dual":
        coef["k"] = c.positive(cB)
        funcs["kappa"] = lambda x, y, z: 1.0 / F.ev(coef["k"], x, y, z)
    elif form in ("degenerate", "scaled_to_physical", "degenerate_bc"):
        dry = rng.random() < 0.2
        room = cB + 1 if form == "degenerate" else cL - (dw if form == "scaled_to_physical" else 0)
        dg = rng.randint(0, max(0, min(1, room)))
        coef["g"], coef["delta"] = c.positive(dg), c.any(max(0, min(2, room - dg)))
        funcs["porosity"] = (lambda x, y, z: 0.0 * x) if dry else (lambda x, y, z: F.ev(coef["g"], x, y, z) ** -2.0)
        funcs["d_phi"] = fn(coef["delta"])
        funcs["grad_d_phi"] = lambda x, y, z: np.array([F.ev(F.diff(coef["delta"], i), x, y, z) for i in range(3)])
    elif form == "unscaled":
        coef["h"], coef["g"] = c.positive(cB // 2), c.positive(min(cB // 2, 1))
        funcs["porosity"] = lambda x, y, z: F.ev(coef["g"], x, y, z) ** 2.0
        funcs["d_phi"] = lambda x, y, z: 1.0 / F.ev(coef["h"], x, y, z)
        funcs["grad_d_phi"] = lambda x, y, z: np.array([0.0 * x, 0.0 * x, 0.0 * x])
    elif form in ("le_primal", "le_stress_constraint"):
        for n in ("lambda", "mu"):
            coef[n] = c.any(min(cB + 2, 2))
            funcs[n] = fn(coef[n])
        if form == "le_stress_constraint":
            rhs = [[c.any(cL) for _ in range(dim)] for _ in range(dim)]
            funcs["s_target"] = lambda x, y, z: np.array([[F.ev(p, x, y, z) for p in r] for r in rhs])
    elif form == "le_taylor_hood":
        coef["h"], coef["mu"] = c.positive(cB), c.any(min(cB + 2, 2))
        funcs["mu"] = fn(coef["mu"])
        funcs["lambda"] = lambda x, y, z: 1.0 / F.ev(coef["h"], x, y, z) - F.ev(coef["mu"], x, y, z)
    elif form in ("le_dual", "le_riesz"):
        coef["q"], coef["rho"], _, funcs["lambda"], funcs["mu"], _ = material(cB)
        funcs.setdefault("rhs", lambda x, y, z: np.array([0.0 * x] * (dim + ROT[dim])))
    elif form == "lce_primal":
        for n in ("lambda", "mu", "kappa"):
            coef[n] = c.any(cB)
            funcs[n] = fn(coef[n])
        coef["gamma"] = c.any(min(cB + 2, 2))
        funcs["gamma"] = fn(coef["gamma"])
    elif form in ("lce_dual", "lce_scaled_dual", "lce_riesz", "lce_scaled_riesz"):
        coef["q"], coef["rho"], coef["k"], funcs["lambda_s"], funcs["mu_s"], funcs["kappa_s"] = material(cB)
        scaled = "scaled" in form
        dl = 0 if scaled else rng.randint(0, cB)
        coef["qo"], coef["rhoo"], coef["ko"], funcs["lambda_o"], funcs["mu_o"], funcs["kappa_o"] = material(cB - dl)
        coef["so"] = c.positive(cB - dl)
        if dim == 2:
            th = rng.choice([0.25, 0.5, 0.75])
            funcs["mu_o"] = lambda x, y, z: th / F.ev(coef["so"], x, y, z)
            funcs["kappa_o"] = lambda x, y, z: (1 - th) / F.ev(coef["so"], x, y, z)
        if scaled:
            coef["l"] = c.positive(min((cB + 2) // 2 if form == "lce_scaled_riesz" else cB + 1, 2))
            funcs["l"] = fn(coef["l"])
            ng = rng.choice([dim, 3])
            funcs["grad_l"] = lambda x, y, z: np.array([F.ev(F.diff(coef["l"], i), x, y, z) for i in range(ng)])
        else:
            coef["li"] = c.positive(dl)
            funcs["l"] = lambda x, y, z: 1.0 / F.ev(coef["li"], x, y, z)
        funcs.setdefault("rhs", lambda x, y, z: np.array([0.0 * x] * (dim + ROT[dim])))
    extra = 0
    if boundary:
        bf = bc_fields(form, dim)
        n1 = layout[bf[0]][0]
        if form == "degenerate_bc":
            rhs = [[c.any(max(0, cL - F.degree([[coef["g"]]]) - F.degree([[coef["delta"]]])))]]
        else:
            if form == "lce_scaled_dual_bc":
                coef["l"] = c.positive(rng.randint(1, 2))
                funcs["l"], funcs["grad_l"] = fn(coef["l"]), lambda x, y, z: np.array([0.0 * x] * 3)
                extra = F.degree([[coef["l"]]])
            rhs = [[c.any(max(0, cL - extra))] for _ in range(sum(layout[f][0] for f in bf))]
        data = [vec(rhs[:n1]), vec(rhs[n1:])]
        names = {"laplace_dual_bc": ["p"], "laplace_primal_bc": ["p"], "unscaled_bc": ["p"], "degenerate_bc": ["q"], "le_neumann": ["t"],
                 "le_dual_neumann": ["s"], "lce_dual_neumann": ["s", "m"], "lce_scaled_dual_neumann": ["s", "m"],
                 "lce_dual_bc": ["u", "t"], "lce_scaled_dual_bc": ["u", "t"], "lce_primal_bc": ["u", "t"]}.get(form, ["u"])
        for n, d in zip(names, data):
            funcs[n] = d
    if form == "scaled_to_physical":
        given = {f: [F.row_in_space(rng, u[2], u[3], dim, dim) for _ in range(u[1])] for f, u in spaces.items()}
        room = cL - max([F.degree(r) for r in given.values()])
        coef["g"], coef["delta"] = c.positive(max(0, min(1, room))), c.any(max(0, min(2, room)))
        funcs["d_phi"] = fn(coef["delta"])
    e = {"ev": "form", "form": form, "dim": dim, "s": kmax, "key": "%s:%d:%s" % (form, dim, key), "err": "", "dry": dry,
         "spaces": {f: {"family": u[2], "k": u[3]} for f, u in spaces.items()}, "w": w, "v": v, "given": given or {"none": []},
         "coef": coef or {"none": []}, "rhs": rhs, "cells": [], "opp": [], "scale": [], "vec": vecd and dim > 0,
         "obs": {"b": [], "r": [], "a": []}, "vobs": {"b": [], "r": [], "a": []},
         "replay": {"form": form, "points": P, "cells": tops, "spaces": spaces}}
    deg = kq
    big = max(F.bound(r, P) for r in w.values()) * max(F.bound(r, P) for r in v.values())
    cbig = max([F.bound([[p]], P) for p in coef.values()] or [1])
    if given:
        cbig *= max(F.bound(r, P) for r in given.values())
    base = math.factorial(deg + dim) * (128 if form.startswith(("le_dual", "le_riesz", "lce")) and not form.startswith("lce_primal") else 2) * (2 if form == "le_taylor_hood" else 1)
    if boundary:
        base = math.factorial(deg + dim - 1)
    if base * big * cbig > 3e12 or base * max(F.bound(r, P) for r in v.values()) * F.bound(rhs or [[[[0, 0, 0, 0]]]], P) * cbig > 3e12:
        return None
    bnd = facets(tops)
    tagged = [f for f in bnd if form not in NEEDS_AREA or rational([P[i] for i in f])] if boundary else []
    if boundary and not tagged:
        return None

    def go():
        from spaces.product_space import ProductSpace
        m = mg.build_mesh([list(map(float, p)) for p in P], [(t, 1) for t in tops] + [(f, 2) for f in tagged], dim=dim)
        ps = ProductSpace({f: u + (m,) for f, u in spaces.items()})
        ps.make_subspaces_discontinuous({f: (not boundary) and rng.random() < 0.3 for f in spaces})
        bf = bc_fields(form, dim) if boundary else []
        ps.build_structures({f: [1] for f in spaces}, {f: [2] if f in bf else [] for f in spaces})

        def coefs(rows):
            a = np.zeros(ps.n_dof)
            for f in spaces:
                for d, x in interpolate(m, ps, f, rows[f], P, 1.0).items():
                    a[d] = x
            return a
        aw, av = coefs(w), coefs(v)
        ag = coefs(given) if given else None
        wf = getattr(importlib.import_module("weak_forms." + module), cls)(ps)
        wf.functions = funcs
        sp = ps.discrete_spaces[bf[0] if bf else next(iter(spaces))]
        els = sp.bc_elements if boundary else sp.elements
        top = {x.data.cell.id: x for x in sp.elements}
        # a zero state carries the load, another one the matrix
        for i, el in enumerate(els):
            nt = [int(a) for a in el.data.cell.node_tags]
            e["cells"].append([P[a] for a in nt])
            if boundary:
                t = bnd[tuple(sorted(nt))]
                e["opp"].append(P[[a for a in t if a not in nt][0]])
            dest = ps.bc_destination_indexes(i) if boundary else ps.destination_indexes(i)
            sc = base * (F.weight(e["cells"][-1]) if form in NEEDS_AREA else 1)
            e["scale"].append(sc)
            div = BETA if form in PENALTY else 1.0e6 if form == "le_stress_constraint" else 1.0
            # the 3D stress form exists only vectorized
            one = "evaluate_form" if (form, dim) != ("le_dual", 3) else "evaluate_form_vectorized"
            for name, o in [(one, e["obs"])] + ([("evaluate_form_vectorized", e["vobs"])] if e["vec"] else []):
                call = getattr(wf, name)
                more = (ag[dest],) if given else ()
                r0 = call(i, np.zeros(len(dest)), *more)[0]
                r1, J = call(i, aw[dest], *more)
                o["a"].append(F.obs(av[dest] @ r1 / div, sc))
                o["r"].append(F.obs(av[dest] @ r0 / div, sc))
                o["b"].append(F.obs(av[dest] @ J @ aw[dest] / div, sc))
    _, err = chk.call(go)
    e["err"] = err or ""
    return e
