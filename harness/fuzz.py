"""Development aid: fuzz.py PROFILE N SEED SHOW [ED] - print what the specification does not explain."""
import collections, os, re, sys, tempfile, time, shutil
import profiles, pool, tlc, build


def dec(x):
    return re.sub(r"<<([\d, ]*)>>", lambda m: repr(bytes(int(v) for v in m.group(1).split(",") if v.strip())) if m.group(1).strip() else "''", x)


def main():
    prof, n, seed, show = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
    tmp = tempfile.mkdtemp(prefix="edfz.")
    os.chmod(tmp, 0o755)
    try:
        ed = sys.argv[5] if len(sys.argv) > 5 else build.build(tmp)
        f = profiles.PROFILES.get(prof)
        S = [f(seed, i) for i in range(n)] if f else profiles.batch(prof, seed, n)
        t = time.time()
        S = pool.run(S, ed)
        t1 = time.time()
        res, a, b = tlc.validate(S, tmp)
        print(f"run {t1 - t:.1f} tlc {time.time() - t1:.1f} states {b}", collections.Counter(r[0] for r in res))
        k = 0
        for i, (s, r) in enumerate(zip(S, res)):
            if s.status is not None and s.status > 1000:
                print("CRASH", s.status, i)
            if r[0] == "REJECT" and k < show:
                k += 1
                print("=====", i, s.tag, s.how, s.flags, s.args, s.addrs, "rows", s.rows, "cols", s.cols, "fsz", s.fsz, s.suffix, s.prompt)
                print(s.inp)
                print({n: f.data[:60] for n, f in s.files.items()})
                ls = s.lines()
                print("ip", r[1], "line:", ls[r[1] - 2:r[1]] if r[1] - 1 <= len(ls) else None, "| expected", dec(r[3])[:700])
                print("GOT", s.out[r[2]:r[2] + 200], s.status, s.err, {k: v[:80] for k, v in s.fin.items()}, s.left)
        print(collections.Counter(dec(r[3])[:60] for r in res if r[0] == "UNSUP").most_common(8))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
