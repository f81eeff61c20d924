"""C05: global assembly is exactly the sum of the scattered element contributions (spec: Assembly / AssemblyTrace)."""
import numpy as np
from vf import meshgen as mg

TYPES = ["form", "bc_form", "interface_form", "bc_interface_form", "time_dependent_form", "time_dependent_bc_form"]


def dyad(v):
    """values are small integers carried in floats: exact"""
    return [int(x) for x in np.asarray(v).ravel()]


def run(chk):
    from spaces.product_space import ProductSpace
    from assembly.SequentialAssembler import SequentialAssembler
    from weak_forms.weak_from import WeakForm
    from petsc4py import PETSc
    chk.model("AssemblyModel")
    rng = chk.rng
    log = []

    class Probe(WeakForm):
        name = ""
        kind = ""
        rng = None

        def evaluate_form(self, *a):
            if self.kind in ("form", "bc_form"):
                args, states, t = [a[0]], [a[1]], 0
            elif self.kind == "time_dependent_form":
                args, states, t = [a[0]], [a[1], a[2]], a[3]
            elif self.kind == "time_dependent_bc_form":
                args, states, t = [a[0]], [a[1]], a[2]
            elif self.kind == "interface_form":
                args, states, t = [a[0], a[1][0], a[1][1]], [a[2][0], a[2][1]], 0
            else:
                args, states, t = [a[0], a[1]], [a[2]], 0
            n = sum(len(s) for s in (states[:1] if self.kind == "time_dependent_form" else states))
            r = self.rng.integers(-9, 10, n).astype(float)
            j = self.rng.integers(-9, 10, (n, n)).astype(float)
            log.append({"ev": "eval", "form": self.name, "args": [int(x) for x in args], "states": [dyad(s) for s in states],
                        "time": int(t), "r": dyad(r), "j": [dyad(row) for row in j]})
            return r, j

    groups = []
    ntr = 0
    for it in range(chk.n(48, 400)):
        dim = [1, 2, 2, 3][it % 4]
        pts, decl = mg.declared_mesh(rng, dim, size={1: 3, 2: 2, 3: 1}[dim], lower=0.6, tags=(1,), delete=0.3, dangling=False)
        decl = [(s, 1 if len(s) == dim + 1 else 2 if len(s) == dim else 3) for s, _ in decl]
        key0 = "rand:%d:%d" % (chk.seed, it)
        m, err = chk.call(mg.build_mesh, pts, decl)
        if err:
            chk.violation("mesh-build", key0, {"err": err})
            continue
        nf = rng.choice([1, 2])
        fams = {1: [("Lagrange", 1), ("Lagrange", 2)], 2: [("Lagrange", 1), ("RT", 1), ("Lagrange", 2), ("BDM", 1)],
                3: [("Lagrange", 1), ("RT", 1)]}[dim]
        data = {}
        for n in rng.sample(["u", "q", "p", "aa"], nf):
            f, k = rng.choice(fams)
            data[n] = (dim, rng.choice([1, 1, 2]) if dim < 3 else 1, f, k, m)
        key = key0 + ":" + "+".join("%s-%d%s%dx%d" % (n, v[0], v[2], v[3], v[1]) for n, v in data.items())

        def setup():
            ps = ProductSpace(data)
            ps.make_subspaces_discontinuous({n: rng.random() < 0.2 for n in data})
            ps.build_structures({n: [1] for n in data}, {n: [2] for n in data})
            return ps
        ps, err = chk.call(setup)
        if err:
            chk.violation("space-build", key, {"err": err})
            continue
        shift = rng.choice([0, 0, 3])
        ps.dof_shift = shift
        ndof = ps.n_dof + shift + rng.choice([0, 2])
        first = ps.discrete_spaces[list(data)[0]]
        nel, nbc = len(first.elements), len(first.bc_elements)
        pr = np.random.default_rng(rng.randrange(1 << 30))
        alphas = [pr.integers(-9, 10, ndof).astype(float) for _ in range(3)]
        res = pr.integers(-5, 6, ndof).astype(float) if rng.random() < 0.5 else np.zeros(ndof)
        work, inputs = [], {}
        mat0 = []
        A = PETSc.Mat().createDense([ndof, ndof]) if rng.random() < 0.3 else PETSc.Mat().createAIJ([ndof, ndof])
        A.setUp()
        A.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
        if rng.random() < 0.4:
            for i, j in {(rng.randrange(ndof), rng.randrange(ndof)) for _ in range(3)}:
                v = rng.randint(1, 5)
                A.setValue(i, j, v, addv=True)
                mat0.append([i, j, v])
        kinds = rng.sample(TYPES, rng.choice([1, 2, 3]))
        if rng.random() < 0.2:
            kinds.append(kinds[0])
        dest = lambda i: mg.ints(ps.destination_indexes(i))
        bdest = lambda i: mg.ints(ps.bc_destination_indexes(i))
        for fi, kind in enumerate(kinds):
            p = Probe(ps)
            p.name = "f%d" % fi
            p.kind = kind
            p.rng = pr
            ai = rng.sample(range(3), 2)
            w0 = {"form": p.name, "type": kind, "alpha": dyad(alphas[ai[0]]), "alpha2": dyad(alphas[ai[1]]), "t": 0,
                  "idx": 0, "idxp": 0, "idxn": 0, "dest": [], "destp": [], "destn": []}
            t = rng.randint(-4, 9)
            if kind in ("form", "time_dependent_form"):
                seq = list(range(nel))
                if rng.random() < 0.3:
                    rng.shuffle(seq)
                    seq = seq[: rng.randint(0, nel)] + ([0] if rng.random() < 0.5 else [])
                for i in seq:
                    work.append(dict(w0, idx=i, dest=dest(i)))
            elif kind in ("bc_form", "time_dependent_bc_form"):
                seq = list(range(nbc))
                for i in seq:
                    work.append(dict(w0, idx=i, dest=bdest(i)))
            elif kind == "interface_form":
                seq = [(rng.randint(0, 9), (rng.randrange(nel), rng.randrange(nel))) for _ in range(rng.randint(1, 4))]
                for i, (a, b) in seq:
                    work.append(dict(w0, idx=i, idxp=a, idxn=b, destp=dest(a), destn=dest(b)))
            else:
                seq = [(rng.randint(0, 9), rng.randrange(nel)) for _ in range(rng.randint(1, 4))]
                for i, a in seq:
                    work.append(dict(w0, idx=i, idxp=a, dest=dest(a)))
            if rng.random() < 0.3:
                seq = tuple(seq)
            if "time" in kind:
                for w in work:
                    if w["form"] == p.name:
                        w["t"] = t
                inputs[p.name] = [kind, seq, p, (alphas[ai[0]], alphas[ai[1]]), t]
            else:
                inputs[p.name] = [kind, seq, p, alphas[ai[0]]]
            chk.count(kind)
        begin = {"ev": "begin", "ndof": ndof, "work": work, "res": dyad(res), "mat": mat0, "alphas": [dyad(a) for a in alphas], "key": key}
        del log[:]

        def go():
            asm = SequentialAssembler(ps, A, res)
            asm.form_to_input_list = inputs
            asm.scatter_forms()
            A.assemble()
            ia, ja, va = A.convert("aij").getValuesCSR() if A.getType().endswith("dense") else A.getValuesCSR()
            return [[i, int(ja[k]), int(va[k])] for i in range(ndof) for k in range(ia[i], ia[i + 1])]
        mat, err = chk.call(go)
        evs = [begin] + [dict(x, key=key) for x in log] + [{"ev": "end", "err": err or "", "res": dyad(res), "mat": mat or [],
                                                           "alphas": [dyad(a) for a in alphas], "key": key}]
        evs[-1]["replay"] = {"points": pts, "declared": decl, "kinds": kinds}
        groups.append(evs)
        ntr += 1
        if len(chk.samples) < 2:
            chk.sample({"key": key, "kinds": kinds, "ndof": ndof, "work": len(work)})
    merged = [[] for _ in range(8)]
    size = lambda g: sum(len(str(e)) for e in g)
    for g in sorted(groups, key=size, reverse=True):
        min(merged, key=size).extend(g)
    chk.trace("AssemblyTrace", None, traces=ntr, chunk=merged)
