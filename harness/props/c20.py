"""C20: exported results and meshes (spec: Export / ExportMC / ExportTrace)."""
import os

import meshio
import numpy as np

from props.c13 import FAMS
from props.c18 import sample_mesh
from props.c23 import interpolate
from vf import fields as F
from vf import meshgen as mg

KIND = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}


def whole(a, sc):
    """exact integer coordinates"""
    out = []
    for p in np.asarray(a, float):
        q = [float(x) * sc for x in p] + [0.0] * (3 - len(p))
        out.append([int(x) if x == int(x) else 10 ** 8 for x in q])
    return out


def look_at(v, scale):
    return [-1, 0] if np.isnan(v) else F.obs(v, scale)


def read(path, dim, sc):
    f = meshio.read(path)
    conn = [mg.ints(r) for b in f.cells if b.type == KIND[dim] for r in b.data]
    extra = sum(len(b.data) for b in f.cells if b.type != KIND[dim])
    return f, whole(f.points, sc), conn + [[0]] * extra


def columns(a, n, w):
    a = np.asarray(a, float).reshape(n, -1)
    return a[:, :w] if a.shape[1] >= w else a


def run(chk):
    from postprocess import solution_post_processor as W
    from spaces.product_space import ProductSpace
    chk.model("ExportMC", "ExportMC" + ("" if chk.quick else "_big"))
    rng = chk.rng
    events = []
    # --- results
    for it in range(chk.n(60, 600)):
        dim = rng.choice([1, 2, 2, 3])
        spec = {}
        flat = False
        for j in range(rng.choice([1, 1, 2])):
            fam, k = rng.choice(FAMS[dim])
            if rng.random() < 0.6:
                fam, k = "Lagrange", rng.choice([1, 2, 3])
            if rng.random() < 0.2:
                fam, k = "Lagrange", 0
            k = min(k, 2) if dim == 3 else k
            flat = flat or fam != "Lagrange"
            spec[rng.choice("pqruvw") + str(j)] = [fam, k, rng.choice([1, 1, 2, 3])]
        fams = [f for f, _, _ in spec.values()]
        P, tops = sample_mesh(rng, dim, "RT" if flat else "Lagrange", size={1: 3, 2: 2, 3: 1}[dim], flat=flat)
        s = rng.choice([0, 0, 4, -4])
        sc = 2.0 ** s
        tags = [rng.choice([1, 1, 7]) for _ in tops]
        lower = [(f, rng.choice([1, 2, 7])) for f in sorted(mg.sub_simplices(tops)) if len(f) <= dim and rng.random() < 0.3]
        key = "%d%s:s%d:%d:%d" % (dim, "+".join("%s%dc%d" % tuple(v) for v in spec.values()), s, chk.seed, it)
        base = {"key": key, "err": "", "replay": {"points": P, "cells": tops, "tags": tags, "lower": lower, "scale": s, "fields": spec}}
        group = {n: rng.randint(0, 1) for n in spec}
        if len(set(group.values())) == 1:
            group = {n: 0 for n in spec}
        g_tags = [rng.choice([[t] for t in sorted(set(tags))] + [[1, 7]]) for _ in range(2)]
        on_tags = {n: g_tags[group[n]] for n in spec}
        disc = {n: rng.random() < 0.4 or spec[n][1] == 0 for n in spec}
        st = {}

        def build():
            decl = list(zip(tops, tags)) + lower
            if rng.random() < 0.5:
                rng.shuffle(decl)
            m = mg.build_mesh([[a / sc for a in p] for p in P], decl, dim=dim)
            pss, shift = [], rng.choice([0, 0, 5])
            for g in sorted(set(group.values())):
                own = [n for n in spec if group[n] == g]
                ps = ProductSpace({n: (dim, spec[n][2], spec[n][0], spec[n][1], m) for n in own})
                ps.make_subspaces_discontinuous({n: disc[n] for n in own})
                ps.build_structures({n: on_tags[n] for n in own}, {n: [] for n in own})
                ps.dof_shift = shift
                shift += ps.n_dof
                pss.append(ps)
            st.update(m=m, pss=pss, n=shift)
        _, err = chk.call(build)
        if err:
            events.append(dict(base, ev="mesh", err=err))
            continue
        m, pss = st["m"], st["pss"]
        cells = [list(map(int, t)) for t in tops]
        index = {frozenset(t): j + 1 for j, t in enumerate(cells)}
        fld, exact, alpha = {}, {}, np.full(st["n"], 999.0)
        for n, (fam, k, c) in spec.items():
            polys = [[F.row_in_space(rng, fam, k, dim, 3) for _ in range(c)] for _ in range(3 if disc[n] else 1)]
            which = [rng.randint(1, len(polys)) for _ in cells]
            nd = len(polys[0][0])
            exact[n] = [[F.rand_poly(rng, 2, 3) for _ in range(nd)] for _ in range(c)]
            fld[n] = {"polys": polys, "which": which, "nd": nd, "on": [j + 1 for j, t in enumerate(tags) if t in on_tags[n]]}
            ps = pss[group[n]]
            vals = [interpolate(m, ps, n, rows, P, sc) for rows in polys]
            for i, el in enumerate(ps.discrete_spaces[n].elements):
                j = index[frozenset(int(a) for a in el.data.cell.node_tags)]
                for d in ps.destination_indexes(i, n):
                    alpha[int(d)] = vals[which[j - 1] - 1][int(d)]
        fun = {n: F.as_function(exact[n], spec[n][0] if fld[n]["nd"] > 1 else ("Lagrange" if spec[n][0] == "Lagrange" else "vector"), sc) for n in spec}
        for writer in ("h", "he", "spaces", "error", "exact"):
            ps = rng.choice(pss)
            names = list(spec) if writer in ("spaces", "exact") else list(ps.discrete_spaces)
            cc = [n for n in names if rng.random() < 0.4]
            path = os.path.abspath("out.vtk")
            e0 = dict(base, key=writer + ":" + key)

            def write():
                if writer == "h":
                    W.write_vtk_file(path, m, ps, alpha, cc) if cc or rng.random() < 0.5 else W.write_vtk_file(path, m, ps, alpha)
                elif writer == "he":
                    W.write_vtk_file_with_exact_solution(path, m, ps, fun, alpha, cc)
                elif writer == "spaces":
                    W.write_fe_spaces_on_vtk_file_with_exact_solution(path, m, pss, fun, alpha, cc or None)
                elif writer == "error":
                    W.write_vtk_file_pointwise_l2_error(path, m, ps, fun, alpha, cc)
                else:
                    W.write_vtk_file_exact_solution(path, m, {n: spec[n][2] * fld[n]["nd"] for n in names}, fun)
                return read(path, dim, sc)
            out, err = chk.call(write)
            if err:
                events.append(dict(e0, ev="mesh", err=err))
                continue
            f, pts, conn = out
            os.unlink(path)
            every = list(range(1, len(cells) + 1))
            shown = sorted({j for n in names for j in fld[n]["on"]}) if writer == "he" else every
            events.append(dict(e0, ev="mesh", P=P, points=pts, cells=cells, conn=conn, on=shown))
            chk.count("file-" + writer)
            for n in names:
                fam, k, c = spec[n]
                w = c * fld[n]["nd"]
                on = every if writer == "exact" else fld[n]["on"]
                fl = "nan" if writer == "spaces" else "zero"
                big = max(max(F.bound(r, P) for r in fld[n]["polys"]), F.bound(exact[n], P))
                for kind, suffix in {"h": [("h", "_h")], "exact": [("e", "_e")], "error": [("error", "_error")]}.get(writer, [("h", "_h"), ("e", "_e")]):
                    w2 = 1 if kind == "error" else w
                    e = dict(e0, ev="cell" if n in cc and writer != "exact" else "point", kind=kind, family=fam, k=k, dim=dim, P=P, cells=cells, on=on,
                             polys=fld[n]["polys"], which=fld[n]["which"], exact=exact[n], fill=fl, obs=[], n=[], conn=[], scale=1)

                    def look():
                        if e["ev"] == "point":
                            a = columns(f.point_data[n + suffix], len(f.points), w2)
                            e["n"] = [sum(1 for j in on if v in cells[j - 1]) for v in range(len(P))]
                            if kind == "error":
                                e["obs"] = [[look_at(x * x, max(q, 1) ** 2) for x in r] for q, r in zip(e["n"], a)]
                            else:
                                e["obs"] = [[look_at(x, max(q, 1)) for x in r] for q, r in zip(e["n"], a)]
                        else:
                            e["conn"] = conn
                            a = columns(np.concatenate([np.asarray(b, float).reshape(len(b), -1) for b in f.cell_data[n + suffix]]), len(conn), w2)
                            e["scale"] = (dim + 1) ** max(max(F.degree(r) for r in fld[n]["polys"]), 2)
                            e["obs"] = [[look_at(x * x if kind == "error" else x, e["scale"] ** (2 if kind == "error" else 1)) for x in r] for r in a]
                    _, er = chk.call(look)
                    e["err"] = er or ""
                    lim = big * (12 if e["ev"] == "point" else e["scale"])
                    if (lim * lim * w if kind == "error" else lim) > 1e9:
                        continue
                    events.append(e)
                    chk.count(e["ev"] + "-" + kind + ("-partial" if len(on) < len(cells) else ""))
        if len(chk.samples) < 2:
            chk.sample({k2: v2 for k2, v2 in events[-1].items() if k2 != "replay"})
    # --- meshes
    for it in range(chk.n(60, 500)):
        dim = rng.choice([1, 2, 2, 3])
        pts, decl = mg.declared_mesh(rng, dim, {1: 3, 2: 2, 3: 1}[dim], blocks=rng.choice(["mixed", "up", "down"]))
        pts = [[int(a) for a in p] for p in pts]
        base = {"key": "mesh%d:%d:%d" % (dim, chk.seed, it), "err": "", "replay": {"points": pts, "declared": decl}, "P": pts,
                "decl": [{"nodes": list(map(int, t)), "tag": int(g)} for t, g in decl]}
        m, err = chk.call(lambda: mg.build_mesh(pts, decl, dim=dim))
        if err:
            events.append(dict(base, ev="file", err=err))
            continue
        pre = rng.choice([None, "some"])
        _, err = chk.call(lambda: m.write_vtk(pre) if pre else m.write_vtk())
        if err:
            events.append(dict(base, ev="file", err=err))
        else:
            for d in range(4):
                path = os.path.abspath("%s_%dd.vtk" % (pre or "geometric_mesh", d))
                e = dict(base, ev="file", d=d, exists=os.path.exists(path), points=[], conn=[], phys=[], lib=[])

                def look():
                    if e["exists"]:
                        f, e["points"], e["conn"] = read(path, d, 1.0)
                        e["phys"] = [int(a) for b in f.cell_data["physical_tag"] for a in np.ravel(b)]
                        e["lib"] = [mg.ints(m.cells[int(a)].node_tags) for b in f.cell_data["entity_tag"] for a in np.ravel(b)]
                        os.unlink(path)
                _, er = chk.call(look)
                e["err"] = er or ""
                events.append(e)
                chk.count("mesh-file" if e["exists"] else "no-mesh-file")
        e = dict(base, ev="dump", points=[], cells=[], count=-1, dims=[])

        def dump():
            m.write_data("d.txt") if rng.random() < 0.5 else (m.write_data(), os.rename("gmesh.txt", "d.txt"))
            for ln in open("d.txt"):
                name, _, rest = ln.partition(":")
                w = rest.split()
                if name.endswith("entity dimension") or name.endswith("with physical tag"):
                    e["dims"].append(int(w[0]))
                elif name == "tag":
                    e["points"] += whole([[float(a) for a in w[1:]]], 1.0)
                elif name == "Number_of_cells":
                    e["count"] = int(w[0])
                elif name == "Dimension":
                    e["cells"].append({"d": int(w[0]), "id": -1, "mat": -1, "nodes": [], "sub": []})
                elif name == "Tag":
                    e["cells"][-1]["id"] = int(w[0])
                elif name == "Physical_tag":
                    e["cells"][-1]["mat"] = -1 if w[0] == "None" else int(w[0])
                elif name == "Node_tags":
                    e["cells"][-1]["nodes"] = [int(a) for a in w]
                elif name.startswith("Entities of dimension"):
                    e["cells"][-1]["sub"].append([int(a) for a in w])
        _, er = chk.call(dump)
        e["err"] = er or ""
        events.append(e)
        chk.count("dump")
    chk.trace("ExportTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])
