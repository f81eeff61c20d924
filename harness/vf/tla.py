"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    ok = False
    why = ""
    out = ""
    generated = 0
    distinct = 0
    secs = 0.0
    end = None
    bad = ()
    last_l = 0
    eval_error = False


EVAL = re.compile(r"Attempted to|evaluating|The (first|second) argument of|not in the domain|"
                  r"does not exist|TLC was unable|Cannot|StackOverflow|is not a|applied|CHOOSE", re.I)


def run(module, cfg=None, env=None, workers=8, timeout=600, simulate=None, depth=None, scratch="/tmp",
        seed=1, heap="6g", extra=()):
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "-DTLA-Library=" + SPEC, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config",
           os.path.join(SPEC, (cfg or module) + ".cfg"), "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    r = Result()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        r.out = p.stdout
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        r.out = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        rc = -1
        r.why = "timeout"
    r.secs = time.time() - t
    m = re.findall(r"(\d+) states generated, (\d+) distinct states", r.out.replace(",", "")) or \
        re.findall(r"(\d+) states generated, (\d+) distinct", r.out)
    mm = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", r.out)
    if mm:
        r.generated, r.distinct = [int(x.replace(",", "")) for x in mm[-1]]
    else:
        ms = re.findall(r"The number of states generated: ([\d,]+)", r.out)
        if ms:
            r.generated = r.distinct = int(ms[-1].replace(",", ""))
    r.ok = rc == 0
    if not r.ok and not r.why:
        errs = [l for l in r.out.splitlines() if "Error" in l or "violated" in l or EVAL.search(l)]
        r.why = "rc=%d %s" % (rc, " | ".join(errs[:6]))[:800]
    shutil.rmtree(d, ignore_errors=True)
    return r


BAD = re.compile(r'^<<"BAD", (\d+), (\{.*\})>>$')
END = re.compile(r'^<<"END", (\d+)>>$')


def joined(out):
    """TLC wraps long PrintT values over several lines; rejoin them."""
    res, cur = [], None
    for line in out.splitlines():
        if cur is not None:
            cur += " " + line.strip()
            if cur.count("<<") == cur.count(">>"):
                res.append(re.sub(r"\s+", " ", cur).replace("<< ", "<<").replace(" >>", ">>").replace("{ ", "{").replace(" }", "}"))
                cur = None
            continue
        if line.startswith("<<") and line.count("<<") != line.count(">>"):
            cur = line
            continue
        res.append(line)
    return res


def run_trace(module, cfg, path, scratch, timeout, heap):
    r = run(module, cfg, env={"TRACE": path}, workers=1, timeout=timeout, scratch=scratch, heap=heap)
    bad = []
    end = None
    for line in joined(r.out):
        m = BAD.match(line)
        if m:
            bad.append((int(m.group(1)), re.findall(r'"([^"]+)"', m.group(2))))
            continue
        m = END.match(line)
        if m:
            end = int(m.group(1))
    r.bad = sorted(set((a, tuple(b)) for a, b in bad))
    r.end = end
    ls = re.findall(r"^/\\ l = (\d+)", r.out, re.M) + re.findall(r"^l = (\d+)", r.out, re.M)
    r.last_l = max([int(x) for x in ls] + [0]) - 1 if ls else 0
    r.eval_error = end is None and r.why != "timeout" and bool(
        re.search(r"TLC threw an unexpected exception|Evaluating|evaluating|Attempted|The error occurred", r.out)) \
        and "Parsing" not in r.why and "OutOfMemory" not in r.out and "Could not find" not in r.out \
        and "Semantic error" not in r.out and "*** Errors" not in r.out
    return r


def run_many(jobs, scratch, timeout, heap, par):
    heap1 = heap if len(jobs) == 1 else "2500m"
    with ThreadPoolExecutor(max_workers=min(par, max(1, len(jobs)))) as ex:
        return list(ex.map(lambda j: run_trace(j[0], j[1], j[2], scratch, timeout, heap1), jobs))
