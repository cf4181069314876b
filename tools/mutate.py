#!/usr/bin/env python3
"""Development aid: small changes to ed's source that neither the test suite
nor the sessions of the checks notice.

mutate.py OUT.json COUNT SEED SESSIONS [FILE.c ...]

What a session should print is taken from the unchanged editor, whose sessions
the specification explains; so this needs no TLC.  Runs in /tmp only."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from multiprocessing import Pool, current_process
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import profiles
from session import Session, NOBODY

FILES = "aux buf cmds exec glbl io main page parse re signal sub undo utf8".split()
REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "),
       (" + 1", ""), (" - 1", ""), (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), ("|=", "&="), ("!", ""),
       ("++", "--"), ("--", "++"), (" ? ", " && 0 ? "), (" ? ", " || 1 ? ")]


def code(src):
    """src with comments, strings and preprocessor lines blanked."""
    def blank(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    s = re.sub(r"/\*.*?\*/", blank, src, flags=re.S)
    s = re.sub(r'"(\\.|[^"\\\n])*"', blank, s)
    s = re.sub(r"'(\\.|[^'\\\n])+'", blank, s)
    return re.sub(r"^[ \t]*#.*?(?<!\\)$", blank, s, flags=re.S | re.M)


def candidates(src):
    c = code(src)
    out = []
    for a, b in REL:
        for m in re.finditer(re.escape(a), c):
            i = m.start()
            if a in ("!",) and c[i + 1] == "=":
                continue
            if a in ("&&",) and c[i:i + 3] == "&&\n":
                pass
            out.append((i, len(a), b))
    for m in re.finditer(r"(?<![\w.])([01])(?![\w.xX])", c):
        out.append((m.start(), 1, "1" if m.group(1) == "0" else "0"))
        if m.group(1) == "1":
            out.append((m.start(), 1, "2"))
    for m in re.finditer(r"\b(if|while) (?=\()", c):
        j, d = m.end(), 0
        while j < len(c):
            d += (c[j] == "(") - (c[j] == ")")
            j += 1
            if d == 0:
                break
        if d or j - m.end() > 400:
            continue
        for neg in ("!", "0 && ", "1 || "):
            if m.group(1) == "while" and neg != "0 && ":
                continue
            out.append((m.end(), j - m.end(), "(" + neg + src[m.end():j] + ")"))
    for m in re.finditer(r"(?<=[;{}:)\n])(\s+)((?:\*|\+\+|--|\()?[a-zA-Z_][^;{}]*;)", c):
        t = m.group(2)
        if re.match(r"(static|extern|int|char|unsigned|off_t|size_t|const|ed_|FILE|regex|struct|case|default|else|if|while|for|do|goto|return \w*;)\b", t) and not t.startswith("return"):
            continue
        if t.count("(") != t.count(")"):
            continue
        out.append((m.start(2), len(t), ";"))
    return out


def setup(a):
    global W, REF, CLEANOBJ
    REF = a[1]
    W = os.path.join(a[0], current_process().name)
    os.mkdir(W)
    os.chmod(W, 0o755)
    shutil.copytree("/repo", W + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    t = W + "/repo/testsuite"
    sh = lambda c: subprocess.run(c, shell=True, cwd=t, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    sh("make clean; rm -rf testsuite.dir testsuite.log ed; make atconfig ed testsuite; mkdir %s/bin" % W)
    with open(W + "/bin/ed", "w") as h:
        h.write(f"#!/bin/bash\nexec timeout -k 2 10 {W}/repo/src/ed \"$@\"\n")
    os.chmod(W + "/bin/ed", 0o755)
    os.environ["ED_SCRATCH"] = W


CF = "-O1 -w -DHAVE_CONFIG_H -I.. -I../lib -I../include -I. -DLOCALEDIR=\"x\"".split()


def text(o):
    return subprocess.run(["objdump", "-d", "-j", ".text", "-r", o], capture_output=True).stdout.split(b"\n", 3)[-1]


def one(job):
    f, off, n, new, lim = job
    d = W + "/repo/src"
    p = f"{d}/{f}.c"
    src = open("/repo/src/" + f + ".c").read()
    mut = src[:off] + new + src[off + n:]
    ln = src.count("\n", 0, off) + 1
    res = dict(f=f, line=ln, old=src[off:off + n], new=new, ctx=src.split("\n")[ln - 1].strip(), off=off)
    gcc = lambda o: subprocess.run(["gcc", *CF, "-c", f + ".c", "-o", o], cwd=d, capture_output=True).returncode
    try:
        ref = f"{d}/{f}.ref.o"
        if not os.path.exists(ref):
            gcc(ref)
        open(p, "w").write(mut)
        if gcc(f"{d}/{f}.mut.o"):
            return dict(res, r="nocompile")
        if text(ref) == text(f"{d}/{f}.mut.o"):
            return dict(res, r="same")
        objs = [x for x in sorted(os.listdir(d)) if x.endswith(".o") and x.count(".") == 1 and x != f + ".o"]
        k = subprocess.run(["gcc", *objs, f + ".mut.o", "-o", "ed", "../lib/libgnu.a", "-lcrypto"], cwd=d, capture_output=True)
        if k.returncode:
            return dict(res, r="nolink", e=k.stderr.decode()[-300:])
        os.makedirs(d + "/r", exist_ok=True)
        shutil.copy(d + "/ed", d + "/r/red")
        for i, (dump, want) in enumerate(REF[:lim]):
            s = Session.load(json.loads(dump))
            try:
                s.run(d + "/ed", 4)
            except Exception as e:
                return dict(res, r="killed", by=i, e=str(e))
            if obs(s) != want:
                return dict(res, r="killed", by=i, tag=s.tag)
        t = subprocess.run(f"timeout 200 ./testsuite -j2 AUTOTEST_PATH={W}/bin </dev/null", shell=True, cwd=W + "/repo/testsuite",
                           capture_output=True)
        if b"All 152 tests were successful" not in t.stdout:
            return dict(res, r="tests")
        return dict(res, r="SURVIVED")
    finally:
        shutil.copy("/repo/src/" + f + ".c", p)


def obs(s):
    return [s.out.decode("latin-1"), s.status, sorted((k.decode("latin-1"), v.decode("latin-1")) for k, v in s.fin.items()), [str(x) for x in s.left]]


def ref(dump):
    r = []
    for _ in range(2):
        s = Session.load(json.loads(dump))
        s.run("/tmp/w/clean/src/ed", 10)
        r.append(obs(s))
    return (dump, r[0]) if r[0] == r[1] else None


def main():
    out, count, seed, per = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
    files = [x.replace(".c", "") for x in sys.argv[5:]] or FILES
    subprocess.run("mkdir -p /tmp/w/clean/src/r; cp /tmp/w/clean/src/ed /tmp/w/clean/src/r/red; chmod 755 /tmp/w /tmp/w/clean /tmp/w/clean/src", shell=True)
    S = []
    for p in profiles.PROPS:
        b = profiles.batch(p, seed, per)
        for s in b:
            if s.tag == "large":
                continue
            s.user = NOBODY
            d = dict(s.dump())
            S.append(json.dumps(d))
    random.Random(1).shuffle(S)
    tmp = tempfile.mkdtemp(prefix="edmut.")
    os.chmod(tmp, 0o755)
    os.environ["ED_SCRATCH"] = tmp
    try:
        with Pool(8) as p:
            R = [x for x in p.map(ref, S, chunksize=50) if x]
        print("sessions", len(S), "stable", len(R), flush=True)
        jobs = []
        for f in files:
            src = open(f"/repo/src/{f}.c").read()
            jobs += [(f, *c, len(R)) for c in candidates(src)]
        r = random.Random(seed)
        r.shuffle(jobs)
        print("candidates", len(jobs), flush=True)
        jobs = jobs[:count]
        res = []
        with Pool(int(os.environ.get("JOBS", "8")), setup, ((tmp, R),)) as p:
            for x in p.imap_unordered(one, jobs):
                res.append(x)
                if x["r"] == "SURVIVED":
                    print(f"SURVIVED {x['f']}.c:{x['line']}: [{x['old'][:80]!r} -> {x['new'][:80]!r}]  {x['ctx']}", flush=True)
                json.dump(res, open(out, "w"))
        import collections
        print(collections.Counter(x["r"] for x in res))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
