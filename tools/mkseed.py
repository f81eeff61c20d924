"""seed(...) plants one change in a copy of /repo, confirms it and stores it under seeded/<id>/.

python3 mkseed.py FILE.py ...: each FILE defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, tempfile, contextlib, io
sys.path.insert(0, os.path.join(os.getcwd(), "src")); sys.dont_write_bytecode = True
_tmp = tempfile.TemporaryDirectory(); os.chdir(_tmp.name)
import numpy as np
T = {1: 15, 2: 1, 3: 2, 4: 4}
def build_mesh(points, simplices):
    """simplices: (nodes, physical tag)"""
    from mesh.mesh import Mesh
    with open("m.msh", "w") as f:
        f.write("$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n%d\\n" % len(points))
        for i, p in enumerate(points):
            f.write("%d %.17g %.17g %.17g\\n" % (i + 1, *p))
        f.write("$EndNodes\\n$Elements\\n%d\\n" % len(simplices))
        for i, (s, t) in enumerate(simplices):
            f.write("%d %d 2 %d %d %s\\n" % (i + 1, T[len(s)], t, t, " ".join(str(n + 1) for n in s)))
        f.write("$EndElements\\n")
    m = Mesh(dimension=max(len(s) for s, _ in simplices) - 1, file_name="m.msh")
    m.build_conformal_mesh()
    return m
def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)
'''
SH = '#!/bin/bash\n. /opt/vp/env.sh 2>/dev/null\nexec /opt/venv/bin/python -B "$(dirname "$(readlink -f "$0")")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    return d


def demo(d, dd):
    return subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=290)


def do(path):
    ns = runpy.run_path(path)
    out = os.path.join(VERIF, "seeded", ns["ID"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "demo.py"), "w").write(PRE + ns["DEMO"])
    open(os.path.join(out, "demo.sh"), "w").write(SH)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    d = copy()
    ok = True
    try:
        r0 = demo(d, out)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns["ID"], "EDIT MATCHES", s.count(old), "TIMES", repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if ok:
            diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            r1 = demo(d, out)
            t = subprocess.run("cp /opt/vp/test.sh /dev/null; cd %s && . /opt/vp/env.sh && /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -2" % d, shell=True, capture_output=True, text=True)
            good = r0.returncode == 0 and r1.returncode != 0 and "91 passed" in t.stdout
            print(ns["ID"], "OK" if good else "NOT OK", "clean=%d patched=%d tests=%s" % (r0.returncode, r1.returncode, t.stdout.strip().splitlines()[-1:]))
            if not good:
                print("--clean", (r0.stdout + r0.stderr)[-600:], "\n--patched", (r1.stdout + r1.stderr)[-600:])
                ok = False
    finally:
        shutil.rmtree(d)
    if not ok:
        shutil.rmtree(out)
    return ok


if __name__ == "__main__":
    for a in sys.argv[1:]:
        do(a)
