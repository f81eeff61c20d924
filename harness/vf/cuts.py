"""Inputs for the fracture and line cuts: integer grids with straight chains of edges."""
import itertools

from . import meshgen as mg


def chains(nx, ny, edges):
    """maximal straight chains of grid vertices joined by mesh edges, per direction"""
    out = []
    for d in ((1, 0), (0, 1), (1, 1), (1, -1)):
        for i in range(nx + 1):
            for j in range(ny + 1):
                if (i - d[0], j - d[1]) in edges.get((i, j), ()):
                    continue
                c = [(i, j)]
                while (c[-1][0] + d[0], c[-1][1] + d[1]) in edges.get(c[-1], ()):
                    c.append((c[-1][0] + d[0], c[-1][1] + d[1]))
                if len(c) > 1:
                    out.append(c)
    return out


def case(rng, nfrac, maxn=5, kuhn=None, inside=False):
    """-> dict with points, triangles, chains (node lists, oriented) or None"""
    nx, ny = rng.randint(2, maxn), rng.randint(2, maxn)
    pts, tris = mg.grid2(rng, nx, ny)
    kuhn = rng.random() < 0.5 if kuhn is None else kuhn
    if kuhn:
        idx = lambda i, j: j * (nx + 1) + i
        tris = []
        for j in range(ny):
            for i in range(nx):
                a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
                tris += [(a, b, c), (a, c, d)]
    pos = {i: (p[0], p[1]) for i, p in enumerate(pts)}
    inv = {p: i for i, p in pos.items()}
    adj = {}
    for t in tris:
        for a, b in itertools.permutations(t, 2):
            adj.setdefault(pos[a], set()).add(pos[b])
    bnd = lambda p: p[0] in (0, nx) or p[1] in (0, ny)
    side = lambda p, q: (p[0] == q[0] and p[0] in (0, nx)) or (p[1] == q[1] and p[1] in (0, ny))
    cand = [c for c in chains(nx, ny, adj) if not side(c[0], c[1])]
    if inside:
        cand = [[p for p in c if not bnd(p)] for c in cand]
        cand = [c for c in cand if len(c) > 1]
    chosen = []
    for _ in range(40):
        if len(chosen) == nfrac or not cand:
            break
        c = rng.choice(cand)
        lo = rng.randrange(len(c) - 1)
        hi = rng.randrange(lo + 1, len(c))
        if rng.random() < 0.6:
            lo, hi = rng.choice([(0, len(c) - 1), (min(1, len(c) - 2), len(c) - 1)])
        c = c[lo:hi + 1]
        if rng.random() < 0.5:
            c = c[::-1]
        ok = True
        for o in chosen:
            common = set(c) & set(o)
            if len(common) > 1 or common & {c[0], c[-1], o[0], o[-1]}:
                ok = False
        if ok:
            chosen.append(c)
    # integer shear / affine map
    while True:
        A = [rng.randint(-3, 4) for _ in range(4)]
        if A[0] * A[3] - A[1] * A[2] != 0:
            break
    if rng.random() < 0.35:
        A = [1, 0, 0, 1]
    off = [rng.randint(-5, 5), rng.randint(-5, 5)]
    npts = [[A[0] * p[0] + A[1] * p[1] + off[0], A[2] * p[0] + A[3] * p[1] + off[1], 0] for p in pts]
    perm = list(range(len(pts)))
    rng.shuffle(perm)
    q = [None] * len(pts)
    for i, k in enumerate(perm):
        q[k] = npts[i]
    tr = []
    for t in tris:
        t = [perm[v] for v in t]
        rng.shuffle(t)
        tr.append(tuple(t))
    fr = [[perm[inv[p]] for p in c] for c in chosen]
    onb = {perm[inv[p]] for p in pos.values() if bnd(p)}
    bed = [tuple(sorted((perm[inv[p]], perm[inv[r]]))) for p in adj for r in adj[p] if p < r and side(p, r)]
    return {"points": q, "tris": tr, "chains": fr, "boundary": onb, "bedges": sorted(set(bed))}


def declare(rng, c, ftag, vertex_tip_tag, tip_boundary=0.5, extra=0.3, other_tags=(1, 2, 3, 4), keep=()):
    """declared simplices; ftag[i]: tag of chain i; vertex_tip_tag[i]: tag marking the tips of chain i"""
    decl = [(t, rng.choice((1, 1, 5))) for t in c["tris"]]
    fe = set()
    for i, ch in enumerate(c["chains"]):
        for a, b in zip(ch, ch[1:]):
            fe.add(tuple(sorted((a, b))))
            decl.append(((a, b) if rng.random() < 0.5 else (b, a), ftag[i]))
    tips = {}
    for i, ch in enumerate(c["chains"]):
        for v in (ch[0], ch[-1]):
            if v not in c["boundary"] or rng.random() < tip_boundary:
                tips[v] = vertex_tip_tag[i]
    for v, t in tips.items():
        decl.append(((v,), t))
    tagged_other = False
    for s in sorted(mg.sub_simplices(c["tris"])):
        if len(s) == 1 and s[0] not in tips and rng.random() < extra:
            decl.append((s, rng.choice(keep or other_tags)))
        elif len(s) == 2 and s not in fe:
            if s in set(c["bedges"]):
                if rng.random() < 0.7:
                    decl.append((s, rng.choice(other_tags)))
            elif rng.random() < extra * 0.5:
                decl.append((s, rng.choice(other_tags)))
                tagged_other = True
    if rng.random() < 0.5:
        rng.shuffle(decl)
    else:
        decl.sort(key=lambda d: len(d[0]))
    return decl, tips, tagged_other


def event(kind, before, after, m, pts_before, fr, pairs, err, closed, key, extra):
    e = {"ev": "cut", "kind": kind, "before": before, "after": after, "points": pts_before,
         "newpoints": [] if m is None else mg.int_points(m.points), "fr": fr, "pairs": pairs, "err": err or "",
         "closed": closed, "key": key, "pointtag": -7, "pointclones": -7}
    e.update(extra)
    return e


def edges_of(m, tag, nodes=None):
    out = []
    for c in m.cells:
        if c.dimension == 1 and c.material_id == tag:
            out.append(int(c.id))
    return out
