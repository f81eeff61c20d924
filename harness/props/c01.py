"""C01: conforming mesh construction (spec: MeshBuild / MeshBuildTrace)."""
import json
import re

from vf import meshgen as mg


def events_for(chk, pts, decl, key, dim=None):
    evs = [{"ev": "new", "key": key}]
    for s, t in decl:
        evs.append({"ev": "declare", "s": list(s), "t": t, "key": key})
    m, err = chk.call(mg.build_mesh, pts, decl, dim)
    e = {"ev": "built", "key": key, "err": err or "", "inpoints": mg.int_points(pts), "points": [], "cells": [],
         "replay": {"points": pts, "declared": decl}}
    if m is not None:
        e["points"] = mg.int_points(m.points)
        e["cells"] = mg.project(m)
    evs.append(e)
    return evs


def run(chk):
    chk.model("MeshBuild")
    # behaviours of the specification, replayed: every set of declared simplices TLC reaches
    r = chk.model("MeshBuildGen", cfg="MeshBuildGen")
    gen = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^"(\[.*\])"$', r.out, re.M)]
    chk.count("behaviours_generated", len(gen))
    cases = []
    for g in gen:
        decl = [(tuple(s), t) for s, t in g]
        if max(len(s) for s, _ in decl) < 2:
            continue
        used = sorted({v for s, _ in decl for v in s})
        mm = {v: i for i, v in enumerate(used)}
        decl = [(tuple(mm[v] for v in s), t) for s, t in decl]
        cases.append((len(used), decl))
    chk.rng.shuffle(cases)
    cases = cases[: chk.n(500, 6000)]
    groups = []
    cur = []
    for n, decl in cases:
        decl = [(tuple(chk.rng.sample(s, len(s))), t) for s, t in decl]
        pts = [[i * i, 3 * i, (i * 7) % 5] for i in range(n)]
        key = "gen:" + json.dumps(decl)
        cur += events_for(chk, pts, decl, key)
        if len(cur) > 1200:
            groups.append(cur)
            cur = []
    # random complexes
    for k in range(chk.n(60, 600)):
        dim = chk.rng.choice([1, 2, 2, 3, 3])
        pts, decl = mg.declared_mesh(chk.rng, dim, size=chk.rng.choice([1, 2, 3, 4 if dim < 3 else 3]),
                                     lower=chk.rng.choice([0, 0.2, 0.6, 1.0]),
                                     tags=chk.rng.choice([(1,), (1, 2, 3), (10, 23, 100, 4), (0, 1, 2)]),
                                     blocks=chk.rng.choice(["mixed", "up", "down"]))
        if chk.rng.random() < 0.2:
            decl = [(s, 0 if chk.rng.random() < 0.3 else t) for s, t in decl]
        key = "rand:%d:%d" % (chk.seed, k)
        evs = events_for(chk, pts, decl, key)
        if k < 2:
            chk.sample({"points": len(pts), "declared": decl[:12], "cells": len(evs[-1]["cells"])})
        cur += evs
        if len(cur) > 1200:
            groups.append(cur)
            cur = []
    groups.append(cur)
    ntr = sum(1 for g in groups for e in g if e["ev"] == "built")
    chk.trace("MeshBuildTrace", None, traces=ntr, chunk=groups)
