"""C13: neighbouring cells agree on shared basis functions (spec: Orientation / ConformityTrace)."""
import numpy as np

from vf import meshgen as mg
from vf.frame import Frame

SCALE = 10 ** 6
FAMS = {1: [("Lagrange", k) for k in (1, 2, 3, 4)] + [(f, k) for f in ("RT", "BDM", "N1E", "N2E") for k in (1, 2)],
        2: [("Lagrange", k) for k in (1, 2, 3, 4, 5)] + [(f, k) for f in ("RT", "BDM", "N1E", "N2E") for k in (1, 2, 3)],
        3: [("Lagrange", k) for k in (1, 2, 3, 4)] + [(f, k) for f in ("RT", "BDM", "N1E", "N2E") for k in (1, 2)] + [("N1E", 3)]}
REF = {0: [[]], 1: [[0.0], [1.0]], 2: [[0.0, 0], [1, 0], [0, 1]], 3: [[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]}
LAM = {0: [[1.0]], 1: [[0.15, 0.85], [0.4, 0.6], [0.5, 0.5], [0.77, 0.23]],
       2: [[0.2, 0.3, 0.5], [0.6, 0.15, 0.25], [0.1, 0.72, 0.18], [0.33, 0.33, 0.34], [0.05, 0.05, 0.9]]}
IV = lambda v: int(round(min(max(v * SCALE, -2e8), 2e8)))


def orient(dim, pts, tops, sign):
    """same orientation for every cell (of a flat mesh)"""
    A = np.array(pts, float)
    out = []
    for t in tops:
        t = list(t)
        if np.linalg.det((A[t[1:]] - A[t[0]])[:, :dim]) * sign < 0:
            t[-1], t[-2] = t[-2], t[-1]
        out.append(tuple(t))
    return out


def sample_mesh(rng, dim, family, flat=False):
    """points in space and cells; contravariant families need equally oriented cells"""
    pts, tops = mg.random_complex(rng, dim, {1: 2, 2: rng.choice([2, 3]), 3: 2}[dim], 0.15)
    oriented = family in ("RT", "BDM") or (dim == 1 and family != "Lagrange")
    if oriented:
        tops = orient(dim, pts, tops, rng.choice([1, -1]) if dim > 1 else 1)
    fr = Frame(rng, scales=(0, 0, 0, -1, 1), rotate=0.0 if flat or (dim == 1 and oriented) else 0.5)
    return pts, tops, fr


def traces(sp, m, i, facet, family, dim, dest, ncomp):
    """rows <<index, component, values>> of one element on a facet (sorted node tags)"""
    el = sp.elements[i]
    cell = el.data.cell
    pos = [list(cell.node_tags).index(v) for v in facet]
    ref = np.array(REF[dim])
    pts = np.array([np.array(lam) @ ref[pos] for lam in LAM[dim - 1]])
    _, jac, det, inv = el.evaluate_mapping(pts)
    phi = el.evaluate_basis(pts, jac, det, inv)[0]
    X = m.points[list(facet)]
    if phi.shape[2] == 1 or family == "Lagrange" or dim == 1:
        val = phi[:, :, :1]
    else:
        P = X[1:] - X[0]
        if family in ("N1E", "N2E"):
            T = np.array([p / np.linalg.norm(p) for p in P])
            val = phi[:, :, :3] @ T.T if phi.shape[2] == 3 else phi[:, :, :2] @ T.T[:2]
        else:
            others = m.points[[v for v in cell.node_tags if v not in facet][0]] - X[0]
            q, _ = np.linalg.qr(np.array(P).T)
            n = others - q @ (q.T @ others)
            n = n / np.linalg.norm(n)
            # one normal for both sides: fixed by its first clearly non-zero coordinate
            s = np.sign(n[np.argmax(np.abs(n) > 1e-6)])
            val = (phi @ (s * n)[: phi.shape[2]])[:, :, None]
    rows = []
    for j in range(val.shape[1]):
        for c in range(ncomp):
            rows.append([int(dest[c + ncomp * j]), c] + [IV(v) for v in val[:, j, :].ravel()])
    return rows


def derivative_rows(sp, i, family, dim, rng):
    """per function: difference quotients of the mapped values next to the delivered derivatives, mapped alike"""
    el = sp.elements[i]
    lam = sorted(rng.random() for _ in range(dim))
    p = np.diff(np.array([0.0] + lam)) * 0.9 + 0.02
    h = 2.0 ** -12

    def at(pts):
        x, jac, det, inv = el.evaluate_mapping(pts)
        return el.evaluate_basis(pts, jac, det, inv), jac, det, inv
    rows = []
    for d in range(dim):
        q = np.array([p, p + h * np.eye(dim)[d], p - h * np.eye(dim)[d], p + 2 * h * np.eye(dim)[d], p - 2 * h * np.eye(dim)[d]])
        tab, jac, det, inv = at(q)
        v = tab[0]
        fd = (8 * (v[1] - v[2]) - (v[3] - v[4])) / (12 * h)
        dv = tab[1 + d, 0]
        if dim > 1 and family in ("RT", "BDM"):
            dv = dv[:, :dim] @ jac[0].T / det[0]
        elif dim > 1 and family in ("N1E", "N2E"):
            dv = dv[:, :dim] @ inv[0]
        elif dim == 1 and family != "Lagrange":
            fd, dv = fd[:, :1], dv[:, :1] * np.sign(jac[0][0, 0])
        rows.append([[IV(a) for a in r] for r in fd])
        rows.append([[IV(a) for a in r[: fd.shape[1]]] for r in dv])
    return rows


def order_event(chk, rng, key):
    """positions of the face and edge functions of one tetrahedron with arbitrary tags"""
    from basis.element_data import ElementData
    from spaces.discrete_space import DiscreteSpace
    tet = tuple(rng.sample(range(4), 4))
    pts = [[0, 0, 0]] * 4
    for v, p in zip(tet, ([0, 0, 0], [2, 0, 0], [0, 3, 0], [0, 0, 1])):
        pts[v] = p
    e = {"ev": "orient", "faces": [], "edges": [], "err": "", "key": key}

    def go():
        m = mg.build_mesh(pts, [(tet, 1)])
        sp = DiscreteSpace(3, 1, "Lagrange", 4, m)
        sp.build_structures([1])
        el = sp.elements[0]
        P = el.basis_generator.points
        _, j, d, i = el.evaluate_mapping(P)
        phi = el.evaluate_basis(P, j, d, i)[0][:, :, 0]
        ref = np.array(REF[3])
        tags = [int(v) for v in el.data.cell.node_tags]
        for dim, name in ((2, "faces"), (1, "edges")):
            for k, dofs in enumerate(el.data.dof.entity_dofs[dim]):
                nodes = [int(v) for v in tags if v in [int(w) for w in m.cells[el.data.cell.sub_cells_ids[dim][k]].node_tags]]
                nxt = []
                for q in dofs:
                    at = P[int(np.argmax(np.abs(phi[:, q])))]
                    nxt.append(tags[int(np.argmin(np.linalg.norm(ref - at, axis=1)))])
                e[name].append({"nodes": nodes, "next": nxt if dim == 2 else [nxt[0], nxt[-1]]})
    _, err = chk.call(go)
    e["err"] = err or ""
    return e


def run(chk):
    from spaces.product_space import ProductSpace
    chk.model("Orientation")
    rng = chk.rng
    events = []
    for k in range(chk.n(24, 240)):
        events.append(order_event(chk, rng, "orient:%d:%d" % (chk.seed, k)))
        chk.count("orders")
    combos = [(d, f, k) for d in (1, 2, 3) for f, k in FAMS[d]]
    for it in range(chk.n(6, 20)):
        for dim, family, k in combos:
            pts, tops, fr = sample_mesh(rng, dim, family)
            decl = [(t, 1) for t in tops]
            for s in mg.sub_simplices(tops):
                if len(s) <= dim and rng.random() < 0.2:
                    s = list(s)
                    rng.shuffle(s)
                    decl.append((tuple(s), 2))
            if rng.random() < 0.7:
                rng.shuffle(decl)
            ncomp = rng.choice([1, 1, 2])
            disc = rng.random() < 0.12
            key = "%d%s%d:c%d:%s:%d:%d" % (dim, family, k, ncomp, "D" if disc else "C", chk.seed, it)
            X = [list(map(float, fr.put(p))) for p in pts]

            def build():
                m = mg.build_mesh(X, decl, dim=dim)
                ps = ProductSpace({"q": (dim, 1, "Lagrange", 1, m), "u": (dim, ncomp, family, k, m)})
                if disc:
                    ps.make_subspaces_discontinuous({"u": True})
                ps.build_structures({"q": [1], "u": [1]}, {"q": [], "u": [2] if dim > 1 and rng.random() < 0.5 else []})
                return m, ps
            r, err = chk.call(build)
            base = {"ev": "facet", "dim": dim, "family": family, "k": k, "ncomp": ncomp, "disc": disc, "err": err or "",
                    "left": [], "right": [], "key": key, "replay": {"points": X, "declared": decl}}
            if err:
                events.append(base)
                continue
            m, ps = r
            sp = ps.discrete_spaces["u"]
            owners = {}
            for i, el in enumerate(sp.elements):
                tags = [int(v) for v in el.data.cell.node_tags]
                for j in range(dim + 1):
                    owners.setdefault(tuple(sorted(tags[:j] + tags[j + 1:])), []).append(i)
            facets = [f for f, o in owners.items() if len(o) == 2]
            rng.shuffle(facets)
            for f in facets[: chk.n(4, 10) if dim < 3 or k < 3 else chk.n(2, 4)]:
                e = dict(base)

                def obs():
                    for side, i in zip(("left", "right"), owners[f]):
                        e[side] = traces(sp, m, i, f, family, dim, ps.destination_indexes(i, "u"), ncomp)
                _, err = chk.call(obs)
                e["err"] = err or ""
                events.append(e)
                chk.count("facets")
                chk.count("family-" + family)
            e = dict(base, ev="deriv", rows=[])

            def der():
                e["rows"] = derivative_rows(sp, rng.randrange(len(sp.elements)), family, dim, rng)
            _, err = chk.call(der)
            e["err"] = err or ""
            events.append(e)
            chk.count("derivatives")
            if len(chk.samples) < 2 and facets:
                chk.sample({"key": key, "facets": len(facets), "left": events[-1]["left"][:2]})
    chk.trace("ConformityTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
