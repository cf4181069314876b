"""Running TLC on batches of recorded sessions (and on other models)."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class TLCError(Exception):
    pass


def classpath():
    for d in (os.path.dirname(JAR), "/opt/veriftools/tla"):
        cps = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar")]
        if cps:
            return ":".join([JAR] + [c for c in cps if c != JAR])
    return JAR


def java(module, cfg, tmp, env=None, workers=1, heap="3g", timeout=850, extra=(), stack="512m"):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=tmp)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss" + stack,
           "-cp", classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout,
                           errors="replace")
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return None, o.decode("latin-1") if isinstance(o, bytes) else o
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def stats(out):
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out.replace(",", ""))
    m = m or re.findall(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def verdicts(out):
    """<<"ACCEPT", sid, ip, pos, what>> tuples, which TLC may fold."""
    res = {}
    flat = re.sub(r"\n\s+", " ", out)
    for m in re.finditer(r'<<\s*"(ACCEPT|REJECT|UNSUP)",\s*(\d+),\s*(\d+),\s*(\d+),\s*(.*?)\s*>>(?=\n|$)', flat):
        sid = int(m.group(2))
        res.setdefault(sid, set()).add((m.group(1), int(m.group(3)), int(m.group(4)), m.group(5)))
    return res


def brief(out):
    """The error of a TLC run, without the state dump."""
    i = out.find("Error:")
    e = out[i:] if i >= 0 else out[-3000:]
    j = e.find("Error: The behavior up to this point")
    k = e.find("Error: The error occurred when")
    return e[: min(j if j > 0 else 3000, 3000)] + "\n" + (e[k: k + 6000] if k > 0 else "")


def validate(sessions, tmp, procs=8, timeout=850, module="EdTrace"):
    """Each recorded session against the specification.  Returns a list of
    (verdict, ip, pos, what) per session and (generated, distinct) totals."""
    n = max(1, min(procs, len(sessions)))
    order = sorted(range(len(sessions)), key=lambda i: -len(sessions[i].inp) - len(sessions[i].out))
    groups = [order[i::n] for i in range(n)]

    def one(g):
        f = tempfile.mktemp(prefix="tr.", suffix=".json", dir=tmp)
        with open(f, "w") as h:
            json.dump([sessions[i].json(k + 1) for k, i in enumerate(g)], h)
        rc, out = java(module + ".tla", module + ".cfg", tmp, {"EDTRACE": f}, timeout=timeout)
        os.unlink(f)
        return rc, out

    with ThreadPoolExecutor(n) as p:
        rs = list(p.map(one, groups))
    res, gen, dist = [None] * len(sessions), 0, 0
    for g, (rc, out) in zip(groups, rs):
        if rc is None:
            raise TLCError("TLC timed out")
        if rc != 0:
            raise TLCError(brief(out))
        a, b = stats(out)
        gen, dist = gen + a, dist + b
        v = verdicts(out)
        for k, i in enumerate(g):
            vs = v.get(k + 1, {("REJECT", 0, 0, "no verdict")})
            acc = [x for x in vs if x[0] == "ACCEPT"]
            uns = [x for x in vs if x[0] == "UNSUP"]
            rej = [x for x in vs if x[0] == "REJECT"]
            res[i] = (acc or uns or rej)[0]
    return res, gen, dist
