"""C21: problems whose solution lies in the discrete spaces are solved exactly (spec: Solve / SolveMC / SolveTrace)."""
import importlib
import itertools
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from props.c18 import cells_of, sample_mesh
from vf import fields as F
from vf import forms as W
from vf import meshgen as mg

# ---- polynomials as lists of terms [coefficient, a, b, c]


def add(*ps):
    out = {}
    for p in ps:
        for t in p:
            out[tuple(t[1:])] = out.get(tuple(t[1:]), 0) + t[0]
    return [[c] + list(x) for x, c in out.items() if c] or [[0, 0, 0, 0]]


def mul(p, q):
    return add([[a[0] * b[0]] + [x + y for x, y in zip(a[1:], b[1:])] for a in p for b in q])


def con(k):
    return [[k, 0, 0, 0]]


def times(k, p):
    return mul(con(k), p)


def grad(p, d):
    return [F.diff(p, i) for i in range(d)]


def div(r):
    return add(*[F.diff(p, i) for i, p in enumerate(r)])


def law(lam, mu, kap, E):
    tr = add(*[E[i][i] for i in range(len(E))])
    return [[add(mul(add(mu, kap), E[c][i]), mul(add(mu, times(-1, kap)), E[i][c]), mul(lam, tr) if c == i else con(0))
             for i in range(len(E))] for c in range(len(E))]


def rot(t, d):
    if d == 2:
        return [[con(0), times(-1, t[0])], [t[0], con(0)]]
    return [[con(0), times(-1, t[2]), t[1]], [t[2], con(0), times(-1, t[0])], [times(-1, t[1]), t[0], con(0)]]


def asym(s):
    if len(s) == 2:
        return [add(s[1][0], times(-1, s[0][1]))]
    return [add(s[2][1], times(-1, s[1][2])), add(s[0][2], times(-1, s[2][0])), add(s[1][0], times(-1, s[0][1]))]


FORMS = ["laplace_primal", "laplace_dual", "unscaled", "degenerate", "le_primal", "le_taylor_hood", "le_dual", "lce_primal", "lce_dual", "lce_scaled_dual"]
DIRICHLET = {"laplace_primal": ["p"], "laplace_dual": ["p"], "unscaled": ["p"], "degenerate": ["q"], "le_primal": ["u"], "le_taylor_hood": ["u"], "le_dual": ["u"]}
FLOWS = {"le_primal": ("le_neumann", ["t"]), "le_dual": ("le_dual_neumann", ["s"]), "lce_dual": ("lce_dual_neumann", ["s", "m"]),
         "lce_scaled_dual": ("lce_scaled_dual_neumann", ["s", "m"])}


# lengths divided by sc: powers of sc by which functions and fields grow when the coefficients named are adapted
FUNCS = {"laplace_primal": {"rhs": 2}, "laplace_dual": {"rhs": 2}, "unscaled": {"d_phi": -1}, "degenerate": {"d_phi": -1}, "le_primal": {"rhs": 2, "flow": 1},
         "le_taylor_hood": {"rhs": 2}, "le_dual": {"rhs": 2, "flow": 1}, "lce_primal": {"gamma": -2}, "lce_dual": {"l": -2}, "lce_scaled_dual": {"l": -1}}
GROWTH = {"laplace_dual": {"u": 1}, "unscaled": {"u": -1}, "le_taylor_hood": {"p": 1}, "le_dual": {"s": 1, "t": 1}, "lce_primal": {"t": 1},
          "lce_dual": {"s": 1, "t": 1}, "lce_scaled_dual": {"s": 1, "m": 1, "t": 1}}


def stretched(f, sc, factor=1.0):
    def g(x, y, z):
        v = np.asarray(f(x * sc, y * sc, z * sc), dtype=float)
        return np.asarray(factor).reshape((-1,) + (1,) * (v.ndim - 1)) * v if np.ndim(factor) else factor * v
    return g


class Dense:
    """a matrix as the assembler uses it"""

    def __init__(self, n):
        self.a = np.zeros((n, n))

    def setValue(self, row, col, value, addv=None):
        self.a[row, col] += value


def solve(a, b):
    """dense solution with equilibrated rows (conditions imposed by penalties are twelve orders larger) and refinement"""
    s = np.maximum(np.abs(a).max(axis=1), 1e-300)
    a, b = a / s[:, None], b / s
    x = np.linalg.solve(a, b)
    for _ in range(2):
        r = (b.astype(np.longdouble) - a.astype(np.longdouble) @ x.astype(np.longdouble)).astype(float)
        x = x + np.linalg.solve(a, r)
    return x


def pose(rng, form, dim):
    """spaces, fields, coefficients and load of a problem; None if the draw is not usable"""
    big = dim == 3
    k = rng.choice({"laplace_primal": [1, 2] if big else [1, 2, 3], "laplace_dual": [1, 2] if big else [1, 2, 3], "unscaled": [1, 2], "degenerate": [1, 2, 2],
                    "le_primal": [1, 2] if big else [1, 2, 3], "le_taylor_hood": [2, 3], "le_dual": [2] if big else [2, 2, 3], "lce_primal": [1, 2],
                    "lce_dual": [2] if big else [2, 2, 3], "lce_scaled_dual": [2] if big else [2, 2, 3]}[form])
    fam = "BDM" if dim == 1 else rng.choice(["RT", "BDM"])
    disc = set()
    nrot = W.ROT.get(dim, 0)
    z = con(0)

    def any_(deg, terms=3):
        return add(F.rand_poly(rng, max(deg, 0), dim, terms))
    c, funcs = {}, {}
    P, tops = sample_mesh(rng, dim, fam if form not in ("laplace_primal", "le_primal", "le_taylor_hood", "lce_primal") else "Lagrange",
                          size=1 if dim == 3 or (dim == 2 and form.startswith("l") and "dual" in form and form != "laplace_dual") else rng.choice([1, 2]), flat=True)
    lo = [min(p[i] for p in P) for i in range(3)]
    off = [rng.choice([0, 0, 1]) if i < dim else 0 for i in range(3)]
    P = [[a - b + o for a, b, o in zip(p, lo, off)] for p in P]
    co = W.Poly(rng, dim, P)
    if form == "laplace_primal":
        spaces = {"p": (dim, 1, "Lagrange", k)}
        p = any_(k)
        c["kappa"] = co.positive(rng.choice([0, 1, 2]))
        w = {"p": [[p]]}
        rhs = [[times(-1, div([mul(c["kappa"], g) for g in grad(p, dim)]))]]
        funcs["kappa"] = W.fn(c["kappa"])
    elif form == "laplace_dual":
        spaces = {"u": (dim, 1, fam, k), "p": (dim, 1, "Lagrange", k - 1)}
        disc.add("p")
        n = rng.randint(1, 4)
        p0 = any_(k - 1)
        c["k"] = con(n)
        w = {"u": [[times(-1, g) for g in grad(p0, dim)]], "p": [[times(n, p0)]]}
        rhs = [[div(w["u"][0])]]
        funcs["kappa"] = lambda x, y, z: 1.0 / n + 0.0 * x
    elif form == "unscaled":
        kp = rng.choice([1, 2])
        spaces = {"u": (dim, 1, fam, k), "p": (dim, 1, "Lagrange", kp)}
        if rng.random() < 0.5:
            disc.add("p")
        h, g = rng.randint(1, 3), rng.randint(1, 3)
        p0 = any_(min(kp, k + (fam == "BDM")))
        c["h"], c["g"] = con(h), con(g)
        w = {"u": [[times(-g, q) for q in grad(p0, dim)]], "p": [[times(h * h * g, p0)]]}
        rhs = [[add(times(-1, div(grad(p0, dim))), times(g * g * h * h, p0))]]
        funcs["porosity"] = lambda x, y, z: g * g + 0.0 * x
        funcs["d_phi"] = lambda x, y, z: 1.0 / h + 0.0 * x
        funcs["grad_d_phi"] = lambda x, y, z: np.array([0.0 * x, 0.0 * x, 0.0 * x])
    elif form == "degenerate":
        kp = rng.choice([1, 2])
        spaces = {"v": (dim, 1, fam, k), "q": (dim, 1, "Lagrange", kp)}
        if rng.random() < 0.5:
            disc.add("q")
        dg = rng.choice([0, 0, 1])
        c["g"], c["delta"] = co.positive(dg), any_(rng.choice([0, 1]) if dg else rng.choice([0, 1, 2]), 2)
        q = any_(rng.choice([0, 1, kp]))
        v = [times(-1, mul(c["delta"], t)) for t in grad(mul(c["g"], q), dim)]
        w = {"v": [v], "q": [[q]]}
        rhs = [[add(q, mul(c["g"], div([mul(c["delta"], t) for t in v])))]]
        kmax = max(k, kp)
        most = k if fam == "BDM" or dim == 1 else k - 1
        dd, dG = F.degree([[c["delta"]]]), F.degree([[c["g"]]])
        if F.degree([v]) > most or F.degree(rhs) > kmax + 1 or dd + dG > 2 or dG + dd + F.degree([[q]]) > kmax + 1:
            return None
        funcs["porosity"] = lambda x, y, z: F.ev(c["g"], x, y, z) ** -2.0
        funcs["d_phi"] = W.fn(c["delta"])
        funcs["grad_d_phi"] = lambda x, y, z: np.array([F.ev(F.diff(c["delta"], i), x, y, z) for i in range(3)])
    elif form == "le_primal":
        spaces = {"u": (dim, dim, "Lagrange", k)}
        u = [any_(k) for _ in range(dim)]
        c["lambda"], c["mu"] = co.positive(rng.choice([0, 1])), co.positive(rng.choice([0, 1]))
        w = {"u": [[p] for p in u]}
        s = law(c["lambda"], c["mu"], z, [grad(p, dim) for p in u])
        rhs = [[div(r)] for r in s]
        funcs.update({"lambda": W.fn(c["lambda"]), "mu": W.fn(c["mu"])})
    elif form == "le_taylor_hood":
        spaces = {"u": (dim, dim, "Lagrange", k), "p": (dim, 1, "Lagrange", k - 1)}
        u = [any_(k) for _ in range(dim)]
        total = co.R * 3 + 12
        c["mu"] = co.positive(rng.choice([0, 1]))
        c["lambda"] = add(con(total), times(-1, c["mu"]))
        G = [grad(p, dim) for p in u]
        s = law(c["lambda"], c["mu"], z, G)
        w = {"u": [[p] for p in u], "p": [[times(total, add(*[G[i][i] for i in range(dim)]))]]}
        rhs = [[div(r)] for r in s]
        funcs.update({"lambda": W.fn(c["lambda"]), "mu": W.fn(c["mu"])})
    else:
        nu = k if form == "lce_primal" else k - 1
        u = [any_(nu) for _ in range(dim)]
        t = [any_(nu) for _ in range(nrot)]
        if form == "le_dual":
            spaces = {"s": (dim, dim, "BDM", k), "u": (dim, dim, "Lagrange", nu), "t": (dim, nrot, "Lagrange", nu)}
            u = [times(2, p) for p in u]
            lam, mu = rng.randint(0, 3), rng.randint(1, 3)
            c["lambda"], c["mu"] = con(lam), con(mu)
            G = [grad(p, dim) for p in u]
            s = law(c["lambda"], c["mu"], z, G)
            t = [[[-a[0] // 2] + a[1:] for a in p] for p in asym(G)]
            w = {"s": s, "u": [[p] for p in u], "t": [[p] for p in t]}
            rhs = [[div(r)] for r in s] + [[z] for _ in range(nrot)]
            funcs.update({"lambda": W.fn(c["lambda"]), "mu": W.fn(c["mu"])})
            disc |= {"u", "t"}
        elif form == "lce_primal":
            spaces = {"u": (dim, dim, "Lagrange", k), "t": (dim, nrot, "Lagrange", rng.choice([1, k]))}
            t = [any_(spaces["t"][3]) for _ in range(nrot)]
            for n in ("lambda", "mu", "kappa", "gamma"):
                c[n] = co.positive(rng.choice([0, 1]))
                funcs[n] = W.fn(c[n])
            G = [grad(p, dim) for p in t]
            s = law(c["lambda"], c["mu"], c["kappa"], [[add(a, b) for a, b in zip(x, y)] for x, y in zip([grad(p, dim) for p in u], rot(t, dim))])
            m = [[mul(c["gamma"], g) for g in r] for r in G]
            w = {"u": [[p] for p in u], "t": [[p] for p in t]}
            rhs = [[div(r)] for r in s] + [[add(div(r), times(-1, a))] for r, a in zip(m, asym(s))]
        else:
            fm = rng.choice(["RT", "BDM"])
            spaces = {"s": (dim, dim, "BDM", k), "m": (dim, nrot, fm, k), "u": (dim, dim, "Lagrange", nu), "t": (dim, nrot, "Lagrange", nu)}
            disc |= {"u", "t"}
            for n, lo_ in (("lambda", 0), ("mu", 1), ("kappa", 1), ("lambdao", 0), ("muo", 1), ("kappao", 1)):
                c[n] = con(rng.randint(lo_, 3))
            scaled = form == "lce_scaled_dual"
            c["l"] = co.positive(rng.choice([0, 1])) if scaled else con(rng.randint(1, 3))
            G = [grad(p, dim) for p in t]
            s = law(c["lambda"], c["mu"], c["kappa"], [[add(a, b) for a, b in zip(x, y)] for x, y in zip([grad(p, dim) for p in u], rot(t, dim))])
            o = [[times(c["muo"][0][0] + c["kappao"][0][0], g) for g in r] for r in G] if dim == 2 else law(c["lambdao"], c["muo"], c["kappao"], G)
            m = [[mul(c["l"], g) for g in r] for r in o]
            if fm == "RT" and F.degree(m) > k - 1:
                return None
            w = {"s": s, "m": m, "u": [[p] for p in u], "t": [[p] for p in t]}
            dm = [div([mul(c["l"], g) for g in r]) if scaled else div(r) for r in m]
            rhs = [[div(r)] for r in s] + [[add(d, times(-1, a))] for d, a in zip(dm, asym(s))]
            for n in ("lambda", "mu", "kappa"):
                funcs[n + "_s"], funcs[n + "_o"] = W.fn(c[n]), W.fn(c[n + "o"])
            funcs["l"] = W.fn(c["l"])
            funcs["grad_l"] = lambda x, y, z: np.array([F.ev(F.diff(c["l"], i), x, y, z) for i in range(dim)])
    funcs["rhs"] = W.vec(rhs)
    return spaces, disc, w, c, funcs, rhs, P, tops


def flow_rows(form, w, c, n):
    """integer polynomial rows of the flow through a facet with integer normal n"""
    d = len(n)
    if form == "le_primal":
        s = law(c["lambda"], c["mu"], con(0), [grad(r[0], d) for r in w["u"]])
        return [[times(-1, add(*[times(a, p) for a, p in zip(n, r)]))] for r in s]
    return [[add(*[times(a, p) for a, p in zip(n, r)])] for f in ("s", "m") if f in w for r in w[f]]


def normal(V, opp):
    V, opp = np.array(V), np.array(opp)
    n = np.cross(V[1] - V[0], V[2] - V[0]) if len(V) == 3 else np.array([V[1][1] - V[0][1], V[0][0] - V[1][0], 0])
    return [int(a) for a in (n if np.dot(n, V[0] - opp) > 0 else -n)]


def make(chk, rng, form, dim, key):
    sc = 2.0 ** rng.choice([0, 0, 0, 3, -3, 6, 6 if form in ("laplace_primal", "le_primal", "le_taylor_hood", "lce_primal") else 9])
    got = pose(rng, form, dim)
    if got is None:
        return None
    spaces, disc, w, c, funcs, rhs, P, tops = got
    grow = {f: sc ** GROWTH.get(form, {}).get(f, 0) for f in spaces}
    fac = {n: sc ** k for n, k in FUNCS[form].items()}
    if form.startswith("lce"):
        fac["rhs"] = np.array([sc ** 2] * dim + [sc] * W.ROT[dim])
    funcs = {n: stretched(f, sc, fac.get(n, 1.0)) for n, f in funcs.items()}
    if max(F.bound(r, P) * 6 ** F.degree(r) for r in w.values()) > 3e7:
        return None
    names = list(spaces)
    bnd = W.facets(tops)
    faces = sorted(bnd)
    flows = []
    if form in FLOWS and rng.random() < 0.6:
        flows = [f for f in rng.sample(faces, rng.randint(1, 2)) if W.rational([P[i] for i in f])][:len(faces) - 1]
    bc_form = form + "_bc"
    bf = W.bc_fields(bc_form, dim)
    values = [r for f in DIRICHLET.get(form, ["u", "t"]) for r in w[f]]
    e = {"ev": "solve", "form": form, "dim": dim, "key": "%s:%d:x%g:%s" % (form, dim, sc, key), "err": "", "w": w, "law": c, "rhs": rhs, "values": values,
         "spaces": {f: {"family": u[2], "k": u[3]} for f, u in spaces.items()}, "cells": [], "flows": [], "samples": [],
         "replay": {"points": P, "cells": tops, "spaces": spaces, "flows": flows, "scale": sc}}
    tag = {f: 3 + i for i, f in enumerate(flows)}

    def go():
        from assembly.SequentialAssembler import SequentialAssembler
        from spaces.product_space import ProductSpace
        m = mg.build_mesh([[a / sc for a in p] for p in P], [(t, 1) for t in tops] + [(f, tag.get(f, 2)) for f in faces], dim=dim)
        ps = ProductSpace({f: u + (m,) for f, u in spaces.items()})
        ps.make_subspaces_discontinuous({f: f in disc for f in names})
        tags = sorted({tag.get(f, 2) for f in faces})
        ps.build_structures({f: [1] for f in names}, {f: tags if f in bf else [] for f in names})
        sp0 = ps.discrete_spaces[bf[0]]

        def weak(name, fs):
            module, cls = W.CLASSES[name][:2]
            o = getattr(importlib.import_module("weak_forms." + module), cls)(ps)
            o.functions = fs
            return o
        alpha = np.zeros(ps.n_dof)
        jac, res = Dense(ps.n_dof), np.zeros(ps.n_dof)
        body = weak(form, funcs)
        if (form, dim) == ("le_dual", 3) or (form in ("le_dual", "lce_dual", "lce_scaled_dual") and rng.random() < 0.3):
            body.evaluate_form = body.evaluate_form_vectorized
        todo = {"body": ["form", list(range(len(ps.discrete_spaces[names[0]].elements))), body, alpha]}
        near = dict(funcs)
        at, data = 0, values
        for f in DIRICHLET.get(form, ["u", "t"]):
            near[f] = stretched(W.vec(data[at:at + len(w[f])]), sc, grow[f])
            at += len(w[f])
        where = {tuple(sorted(int(a) for a in el.data.cell.node_tags)): i for i, el in enumerate(sp0.bc_elements)}
        assert sorted(where) == faces
        rest = [where[f] for f in faces if f not in tag]
        rng.shuffle(rest)
        todo["values"] = ["bc_form", rest, weak(bc_form, near), alpha]
        for f in flows:
            V, opp = [P[i] for i in f], P[[a for a in bnd[f] if a not in f][0]]
            n = normal(V, opp)
            rows = flow_rows(form, w, c, n[:dim])
            e["flows"].append({"at": V, "opp": opp, "rows": rows})
            name, labels = FLOWS[form]
            size = float(np.linalg.norm(n))
            fs = dict(funcs)
            for lb, part in zip(labels, [rows[:dim], rows[dim:]]):
                fs[lb] = stretched(W.vec(part), sc, (grow["m"] if lb == "m" else sc) / size)
            todo["flow%d" % tag[f]] = ["bc_form", [where[f]], weak(name, fs), alpha]
        a = SequentialAssembler(ps, jac, res)
        a.form_to_input_list = todo
        a.scatter_forms()
        x = solve(jac.a, -res)
        for n in names:
            sp = ps.discrete_spaces[n]
            e["cells"] = cells_of(m, sp, P)
            nd = F.directions(spaces[n][2], dim)
            for i in rng.sample(range(len(sp.elements)), min(len(sp.elements), 3)):
                q = rng.choice([4, 5, 6])
                lam = F.bary(rng, dim, q)
                v = F.value_at(sp, i, [[b / q for b in lam]], x, ps.destination_indexes(i, n))[0] / grow[n]
                scale = q ** F.degree(w[n])
                e["samples"].append({"field": n, "cell": i + 1, "lam": lam, "q": q, "scale": scale,
                                     "obs": [[F.obs(v[cc][d], scale) for d in range(nd)] for cc in range(v.shape[0])]})
    _, err = chk.call(go)
    e["err"] = err or ""
    return e


def run(chk):
    rng = chk.rng
    events = []
    with ThreadPoolExecutor(1) as pool:
        models = [pool.submit(chk.model, "SolveMC", "SolveMC%d%s" % (n, "" if chk.quick else "_big"), timeout=2400) for n in (1, 2, 3)]
        for it in range(chk.n(11, 60)):
            for form, dim in itertools.product(FORMS, (1, 2, 3)):
                if dim not in W.CLASSES[form][2]:
                    continue
                for _ in range(12):
                    e = make(chk, rng, form, dim, "%d:%d" % (chk.seed, it))
                    if e:
                        break
                if e is None:
                    chk.count("too-large")
                    continue
                events.append(e)
                chk.count(form)
        for m in models:
            m.result()
    for e in events[:2]:
        chk.sample({k: v for k, v in e.items() if k != "replay"})
    chk.trace("SolveTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
