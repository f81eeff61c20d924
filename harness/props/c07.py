"""C07: cutting along straight lines (spec: FractureCut / FractureCutTrace, kind "line")."""
import numpy as np

from vf import cuts, meshgen as mg


def run(chk):
    from mesh.mesh_operations import cut_conformity_along_c1_lines
    chk.model("FractureCutMC", None if chk.quick else "FractureCutMC_big")
    rng = chk.rng
    events = []
    for k in range(chk.n(110, 1200)):
        c = cuts.case(rng, rng.choice([1, 1, 2, 3]), maxn=rng.choice([2, 3, 5]), inside=rng.random() < 0.25)
        if not c["chains"]:
            continue
        n = len(c["chains"])
        tags = {"line": 5, "point": 6, "line_clones": 50, "point_clones": 60, "internal_bc": rng.choice([7, 77])}
        decl, tips, _ = cuts.declare(rng, c, [5] * n, [tags["internal_bc"]] * n, tip_boundary=rng.choice([0, 1, 0.5]),
                                     extra=rng.choice([0.0, 0.4]), other_tags=(1, 2, 3), keep=(6, 2))
        key = "line:%d:%d" % (chk.seed, k)
        m, err = chk.call(mg.build_mesh, c["points"], decl)
        if err:
            chk.violation("mesh-build", key, {"err": err})
            continue
        before = mg.project(m)
        pts = mg.int_points(m.points)
        byset = {tuple(sorted(x["nodes"])): x["id"] for x in before}
        fr = []
        for ch in c["chains"]:
            fr.append({"tag": 5, "a": c["points"][ch[0]], "b": c["points"][ch[-1]],
                       "edges": [byset[tuple(sorted(e))] for e in zip(ch, ch[1:])],
                       "tipmat": tags["internal_bc"], "ptag": 50, "ntag": 50})
        lines = [np.array([c["points"][ch[0]], c["points"][ch[-1]]], dtype=float) for ch in c["chains"]]
        out, err = chk.call(cut_conformity_along_c1_lines, lines, tags, m)
        pairs = []
        if not err:
            for it in out:
                if it is None:
                    continue
                pairs += [[int(a.id), int(p.id), int(q.id)] for a, p, q in zip(*it["c1"])]
        events.append(cuts.event("line", before, mg.project(m), m, pts, fr, pairs, err, "n/a", key,
                                 {"pointtag": 6, "pointclones": 60,
                                  "replay": {"points": c["points"], "declared": decl, "chains": c["chains"], "tags": tags}}))
        chk.count("lines", n)
        chk.count("single-edge-two-tips", sum(1 for ch in c["chains"] if len(ch) == 2 and ch[0] in tips and ch[1] in tips))
        if len(events) <= 2:
            chk.sample({"lines": n, "cells": len(before)})
    groups = [[] for _ in range(8)]
    for e in events:
        min(groups, key=lambda g: sum(len(x["before"]) for x in g)).append(e)
    chk.trace("FractureCutTrace", None, traces=len(events), chunk=groups)
