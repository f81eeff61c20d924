"""C04: product spaces -- block destinations, base shift, boundary destinations, rebuilds (spec: DofLayoutTrace)."""
from vf import meshgen as mg
from props.c03 import FAMS


def observe_product(chk, ps, names, key):
    e = {"ev": "product", "expecterr": False, "err": "", "shift": int(ps.dof_shift), "ndof": int(ps.n_dof),
         "fields": [], "dests": [], "bcdests": [], "key": key}

    def obs():
        sps = [ps.discrete_spaces[n] for n in names]
        for s in sps:
            e["fields"].append({"ndof": int(s.dof_map.dof_number()), "nbc": len(s.bc_elements),
                                "els": [int(x.data.cell.id) for x in s.elements],
                                "bcs": [int(x.data.cell.id) for x in s.bc_elements]})
        for i in range(min(len(s.elements) for s in sps)):
            own = [mg.ints(s.dof_map.destination_indices(s.elements[i].data.cell.id)) for s in sps]
            mp = ps.discrete_spaces_destination_indexes(i)
            e["dests"].append({"own": own, "byname": [mg.ints(ps.destination_indexes(i, n)) for n in names],
                               "bymap": [mg.ints(mp[n]) for n in names], "whole": mg.ints(ps.destination_indexes(i))})
        wb = [s for s in sps if len(s.bc_elements)]
        for i in range(min((len(s.bc_elements) for s in wb), default=0)):
            own, by = [], []
            for n, s in zip(names, sps):
                if not len(s.bc_elements):
                    own.append([])
                    by.append([])
                    continue
                b = int(s.bc_elements[i].data.cell.id)
                g = s.mesh_topology.entity_map_by_dimension(s.dimension - 1)
                nb = list(g.predecessors((s.dimension - 1, b)))[0][1]
                own.append(mg.ints(s.dof_map.bc_destination_indices(nb, b)))
                by.append(mg.ints(ps.bc_destination_indexes(i, n)))
            e["bcdests"].append({"own": own, "byname": by, "whole": mg.ints(ps.bc_destination_indexes(i))})
    _, er = chk.call(obs)
    e["err"] = er or ""
    return e


def run(chk):
    from spaces.product_space import ProductSpace
    rng = chk.rng
    chk.model("ProductLayout")
    groups = []
    ntr = 0
    for it in range(chk.n(36, 300)):
        mdim = [1, 2, 3, 2][it % 4]
        pts, decl = mg.declared_mesh(rng, mdim, size={1: 3, 2: 2, 3: 2}[mdim], lower=rng.choice([0.3, 0.8]), tags=(1, 2, 3),
                                     delete=0.3)
        key0 = "rand:%d:%d" % (chk.seed, it)
        m, err = chk.call(mg.build_mesh, pts, decl)
        if err:
            chk.violation("mesh-build", key0, {"err": err})
            continue
        for rep in range(2):
            nf = rng.choice([1, 2, 2, 3, 4])
            names = rng.sample(["q", "p", "u", "t", "s", "zz", "a"], nf)
            same = rng.random() < 0.6
            data, tags, btags, disc = {}, {}, {}, {}
            for n in names:
                d = mdim if same else rng.randint(0, mdim)
                f, ks = rng.choice(FAMS[d])
                data[n] = (d, rng.choice([1, 2, 3]), f, rng.choice(ks[:2]), m)
                tg = [1, 2, 3] if same else rng.choice([[1, 2, 3], [2, 1], [None, 1, 2, 3]])
                if not any(c.dimension == d and c.material_id in tg for c in m.cells):
                    tg = [None, 1, 2, 3]
                tags[n] = tg
                btags[n] = rng.choice([[], [2], [1, 3]]) if d > 0 else []
                disc[n] = rng.random() < 0.25
            key = key0 + ":%d:" % rep + "+".join("%s-%d%s%dx%d" % (n, v[0], v[2], v[3], v[1]) for n, v in data.items())
            ps, err = chk.call(ProductSpace, data)
            base = {"ev": "product", "expecterr": False, "err": "", "shift": 0, "ndof": 0, "fields": [], "dests": [], "bcdests": [], "key": key}
            if err:
                groups.append([dict(base, err=err)])
                continue
            evs = []
            steps = [("build",)] + rng.choice([[], [("shift", rng.choice([1, 7, 500]))], [("badshift", rng.choice([-1, 2.5, "3", None]))],
                                               [("shift", 13), ("build",)], [("shift", 4), ("badshift", -3)],
                                               [("rebuild",), ("shift", 3), ("shift", 0)]])
            ps.make_subspaces_discontinuous(disc)
            cur_shift = 0
            for st in steps:
                err = None
                if st[0] == "build":
                    _, err = chk.call(ps.build_structures, tags, btags)
                elif st[0] == "rebuild":
                    bt = {n: (rng.choice([[], [3]]) if data[n][0] > 0 else []) for n in names}
                    _, err = chk.call(ps.build_structures, tags, bt)
                    btags = bt
                elif st[0] == "shift":
                    _, err = chk.call(setattr, ps, "dof_shift", st[1])
                    cur_shift = st[1]
                elif st[0] == "badshift":
                    _, err = chk.call(setattr, ps, "dof_shift", st[1])
                    evs.append(dict(base, expecterr=True, err=err or "", key=key + ":badshift=%r" % (st[1],)))
                    err = None
                if err:
                    evs.append(dict(base, err=err, key=key + ":" + st[0]))
                    break
                e = observe_product(chk, ps, names, key + ":" + "-".join(map(str, st)))
                e["wantshift"] = cur_shift
                cells = {c.id: c.material_id for c in m.cells}
                for f, n in zip(e["fields"], names):
                    d = data[n][0]
                    f["sig"] = "%d:%s" % (d, sorted(map(str, tags[n])))
                    f["bsig"] = "%s:%s" % (f["sig"], sorted(map(str, btags[n])))
                    f["dim"] = d
                evs.append(e)
                chk.count("products")
                chk.count("fields-%d" % nf)
            groups.append(evs)
            ntr += 1
            if len(chk.samples) < 2:
                chk.sample({"key": key, "events": len(evs)})
    merged = [[] for _ in range(8)]
    size = lambda g: sum(len(str(e)) for e in g)
    for g in sorted(groups, key=size, reverse=True):
        min(merged, key=size).extend(g)
    chk.trace("DofLayoutTrace", None, traces=ntr, chunk=merged)
