"""C06: cutting along fractures and embedded shapes (spec: FractureCut / FractureCutTrace)."""
from types import SimpleNamespace

import numpy as np

from vf import cuts, meshgen as mg


def run(chk):
    from geometry.fracture_network import FractureNetwork
    from topology.edge import Edge
    from topology.vertex import Vertex
    chk.model("FractureCutMC", None if chk.quick else "FractureCutMC_big")
    rng = chk.rng
    events = []
    for k in range(chk.n(110, 1200)):
        kind = "network" if k % 2 == 0 else "embed"
        nf = rng.choice([1, 1, 2, 3, 4])
        c = cuts.case(rng, nf, maxn=rng.choice([2, 3, 5]), inside=rng.random() < 0.35)
        if not c["chains"]:
            continue
        n = len(c["chains"])
        tags = [10 + i for i in range(n)] if kind == "network" else rng.sample([10, 11, 12, 20, 33, 7], n)
        extra = rng.choice([0.0, 0.0, 0.4])
        decl, tips, tagged_other = cuts.declare(rng, c, tags, tags, tip_boundary=rng.choice([0, 1, 0.5]), extra=extra)
        key = "%s:%d:%d" % (kind, chk.seed, k)
        m, err = chk.call(mg.build_mesh, c["points"], decl)
        if err:
            chk.violation("mesh-build", key, {"err": err})
            continue
        before = mg.project(m)
        pts = mg.int_points(m.points)
        scale = 10 if kind == "network" else 1000
        fr = []
        for ch, t in zip(c["chains"], tags):
            fr.append({"tag": t, "a": c["points"][ch[0]], "b": c["points"][ch[-1]], "edges": cuts.edges_of(m, t),
                       "tipmat": t, "ptag": scale * t + 1, "ntag": scale * t - 1})
        lines = [np.array([c["points"][ch[0]], c["points"][ch[-1]]], dtype=float) for ch in c["chains"]]
        closable = not tagged_other and all(v not in c["boundary"] for v in (c["chains"][0][0], c["chains"][0][-1])) \
            and all(v not in c["boundary"] for ch in c["chains"] for v in (ch[0], ch[-1]))
        if kind == "network":
            def cut():
                fn = FractureNetwork(dimension=2, physical_tag_shift=10)
                fn.intersect_1D_fractures(lines)
                fn.build_grahp(all_fixed_d_cells_q=True)
                m.set_conformal_mesher(SimpleNamespace(fracture_network=fn, domain=None))
                return m.cut_conformity_on_fractures_mds_ec()
            circ = "circulate_internal_bc"
        else:
            def cut():
                imm = []
                for i, (ln, t) in enumerate(zip(lines, tags)):
                    ed = Edge(100 + i, np.array([Vertex(2 * i, ln[0]), Vertex(2 * i + 1, ln[1])]))
                    ed.physical_tag = t
                    imm.append(ed)
                dom = SimpleNamespace(shapes=[[], [], [SimpleNamespace(immersed_shapes=np.array(imm))]])
                m.set_conformal_mesher(SimpleNamespace(fracture_network=None, domain=dom))
                return m.cut_conformity_on_embed_shapes()
            circ = "circulate_internal_bc_from_domain"
        out, err = chk.call(cut)
        pairs = [] if err else [[int(a), int(p), int(q)] for a, (p, q) in (out or {}).items()]
        closed = "n/a"
        if closable and not err:
            r, e2 = chk.call(getattr(m, circ))
            closed = e2 if e2 else ("yes" if r in ([True], True) else "no")
            chk.count("circulated")
        events.append(cuts.event(kind, before, mg.project(m), m, pts, fr, pairs, err, closed, key,
                                 {"replay": {"points": c["points"], "declared": decl, "chains": c["chains"], "tags": tags}}))
        chk.count("cut-" + kind)
        chk.count("fractures", n)
        if len(events) <= 2:
            chk.sample({"kind": kind, "fractures": n, "cells": len(before)})
    groups = [[] for _ in range(8)]
    for e in events:
        min(groups, key=lambda g: sum(len(x["before"]) for x in g)).append(e)
    chk.trace("FractureCutTrace", None, traces=len(events), chunk=groups)
