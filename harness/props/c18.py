"""C18: the L2 projection reproduces fields of the space and keeps moments (spec: Poly / Field / FieldTrace)."""
import math

import numpy as np

from props.c13 import FAMS, orient
from vf import fields as F
from vf import meshgen as mg


def sample_mesh(rng, dim, family, size=None, delete=0.15, flat=False):
    """integer points and cells"""
    pts, tops = mg.random_complex(rng, dim, size or {1: 2, 2: 2, 3: 1}[dim], delete)
    flat = flat or family != "Lagrange" or rng.random() < 0.5
    P = F.place(rng, pts, dim, flat)
    if family in ("RT", "BDM") and dim > 1:
        tops = orient(dim, P, tops, rng.choice([1, -1]))
    if dim == 1 and family != "Lagrange":
        tops = [tuple(sorted(t, key=lambda v: P[v][0])) for t in tops]
    return P, tops


def cells_of(m, sp, P):
    return [[P[int(v)] for v in el.data.cell.node_tags] for el in sp.elements]


def run(chk):
    from postprocess.projectors import l2_projector
    from spaces.product_space import ProductSpace
    import basix
    from basis.element_type import type_by_dimension
    for n in (1, 2, 3):
        chk.model("PolyModelMC", "PolyModel%d" % n)
    rng = chk.rng
    events = []
    combos = [(d, f, k) for d in (1, 2, 3) for f, k in FAMS[d]] + [(d, "Lagrange", 0) for d in (1, 2, 3)]
    for it in range(chk.n(5, 14)):
        for dim, family, k in combos:
            if dim == 3 and k > 2 and it % 3 and chk.quick:
                continue
            f2 = rng.choice(["Lagrange", "N2E"] if dim > 1 else ["Lagrange"])
            P, tops = sample_mesh(rng, dim, family, flat=f2 != "Lagrange")
            s = rng.choice([0, 0, 0, 0, 3, -3, 9, 12]) if it or rng.random() < 0.5 else 0
            sc = 2.0 ** s
            disc = k == 0 or rng.random() < 0.2
            ncomp = rng.choice([1, 1, 2, 3]) if family == "Lagrange" else rng.choice([1, 1, 2, 3])
            shift = rng.choice([0, 0, 0, 7])
            sym = rng.random() < 0.7
            second = rng.random() < 0.4
            key = "%d%s%d:c%d:%s:s%d:%d:%d" % (dim, family, k, ncomp, "D" if disc else "C", s, chk.seed, it)
            decl = [(t, 1) for t in tops]
            spaces = {"u": (dim, ncomp, family, k)}
            if second:
                spaces["w" if rng.random() < 0.5 else "a"] = (dim, 1, f2, rng.choice([1, 2]))
            names = list(spaces)
            if rng.random() < 0.5:
                names.reverse()
            exact = rng.random() < 0.65
            nv = 3
            rows = {n: [F.row_in_space(rng, spaces[n][2], spaces[n][3], dim, nv) for _ in range(spaces[n][1])] for n in names}
            if not exact:
                kk = min(k + 1, 2 * max(v[3] for v in spaces.values()) + 1 - k)
                rows["u"] = [F.rand_row(rng, kk, family, dim, nv) for _ in range(ncomp)]
            state = {}

            def go():
                m = mg.build_mesh([[a / sc for a in p] for p in P], decl, dim=dim)
                ps = ProductSpace({n: spaces[n] + (m,) for n in names})
                ps.make_subspaces_discontinuous({"u": disc})
                ps.build_structures({n: [1] for n in names}, {n: [] for n in names})
                funcs = {n: F.as_function(rows[n], spaces[n][2], sc) for n in names}
                ps.dof_shift = shift
                alpha = l2_projector(ps, funcs, *([-shift] if rng.random() < 0.5 else []), symmetric_solver_q=sym)
                assert ps.dof_shift == shift
                ps.dof_shift = 0
                state.update(m=m, ps=ps, alpha=np.array(alpha))
            _, err = chk.call(go)
            base = {"dim": dim, "key": key, "err": err or "", "replay": {"points": P, "declared": decl, "spaces": spaces, "names": names, "rows": rows, "scale": s, "shift": shift}}
            todo = [n for n in names if (n != "u" or exact) and F.bound(rows[n], P) * 6 ** F.degree(rows[n]) < 1e9]
            for n in todo:
                e = dict(base, ev="project", family=spaces[n][2], k=spaces[n][3], rows=rows[n], cells=[], samples=[])

                def look():
                    sp = state["ps"].discrete_spaces[n]
                    e["cells"] = cells_of(state["m"], sp, P)
                    nd = F.directions(spaces[n][2], dim)
                    for i in rng.sample(range(len(sp.elements)), min(len(sp.elements), chk.n(3, 6))):
                        for _ in range(2):
                            q = rng.choice([4, 5, 6])
                            lam = F.bary(rng, dim, q)
                            v = F.value_at(sp, i, [[a / q for a in lam]], state["alpha"], state["ps"].destination_indexes(i, n))[0]
                            scale = q ** F.degree(rows[n])
                            e["samples"].append({"cell": i + 1, "lam": lam, "q": q, "scale": scale,
                                                 "obs": [[F.obs(v[c][d], scale) for d in range(nd)] for c in range(v.shape[0])]})
                if not err:
                    _, er2 = chk.call(look)
                    e["err"] = er2 or ""
                events.append(e)
                chk.count("project-" + spaces[n][2])
            if not exact:
                tests = [[F.row_in_space(rng, family, k, dim, nv) for _ in range(ncomp)] for _ in range(2)]
                if family in ("RT", "N1E") and dim > 1:   # stay within the library's own quadrature degree
                    tests = [[[F.rand_poly(rng, k - 1, dim) for _ in range(dim)] for _ in range(ncomp)] for _ in range(2)]
                deg = F.degree(rows["u"]) + max(F.degree(t) for t in tests)
                if math.factorial(deg + dim) * len(tops) * 30 * F.bound(rows["u"], P) * max(F.bound(t, P) for t in tests) > 1e11:
                    chk.count("moment-too-large")
                    continue
                e = dict(base, ev="moment", family=family, k=k, disc=disc, rows=rows["u"], tests=tests, cells=[], obs=[],
                         s=deg // 2, scale=math.factorial(deg + dim))

                def look():
                    sp = state["ps"].discrete_spaces["u"]
                    e["cells"] = cells_of(state["m"], sp, P)
                    pts, w = basix.make_quadrature(type_by_dimension(dim), max(deg, 2 * k + 2, 1))
                    nd = F.directions(family, dim)
                    per = np.zeros((len(tests), len(sp.elements)))
                    for i, el in enumerate(sp.elements):
                        x, _, det, _ = el.evaluate_mapping(pts)
                        lam = np.hstack([1 - pts.sum(axis=1, keepdims=True), pts])
                        v = F.value_at(sp, i, lam, state["alpha"], state["ps"].destination_indexes(i, "u"))
                        for t, test in enumerate(tests):
                            tv = np.array([[F.ev(test[c][d], *(x.T * sc)) for d in range(nd)] for c in range(ncomp)])
                            per[t, i] = np.einsum("pcd,cdp,p->", v[:, :, :nd], tv, w * det) * sc ** dim
                    if not disc:
                        per = per.sum(axis=1, keepdims=True)
                    e["obs"] = [[F.obs(v, e["scale"]) for v in r] for r in per]
                if not err:
                    _, er2 = chk.call(look)
                    e["err"] = er2 or ""
                events.append(e)
                chk.count("moment-" + family)
            if len(chk.samples) < 2:
                chk.sample({k2: v for k2, v in events[-1].items() if k2 != "replay"})
    chk.trace("FieldTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
