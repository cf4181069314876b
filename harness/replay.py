"""replay.py FILE: run a saved violation again and show it."""
import json, os, shutil, sys, tempfile
import build, tlc
from check import short
from session import Session


def main():
    d = json.load(open(sys.argv[1]))
    tmp = tempfile.mkdtemp(prefix="edrp.")
    os.chmod(tmp, 0o755)
    try:
        ed = build.build(tmp)
        if d["kind"] != "session":
            import extra
            return extra.replay(d, ed, tmp)
        s = Session.load(d["session"])
        s.run(ed)
        r, _, _ = tlc.validate([s], tmp, 1)
        print("arguments:", [a.decode("latin-1") if isinstance(a, bytes) else a for a in s.argv("ed")])
        print("files:", {n: (f.data, f.kind) for n, f in s.files.items()})
        print("input:\n" + s.inp.decode("latin-1"))
        print("output:", s.out[-2000:], "status", s.status)
        print("specification:", short(str(r[0]), 3000))
        print("after line", r[0][1], "having explained", r[0][2], "bytes; next output is", s.out[r[0][2]:][:200])
        return 1 if r[0][0] == "REJECT" else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
