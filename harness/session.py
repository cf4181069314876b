"""Sessions of the editor: what they consist of, running them on the real
program, and their JSON form for the specification (module EdTrace)."""
import os, resource, selectors, shutil, signal, subprocess, tempfile, time

NOBODY = 65534


def B(x):
    return x if isinstance(x, bytes) else x.encode("latin-1")


MB = 1 << 20


def talk(p, inp, timeout):
    """As communicate(), but with an end to what the program may print."""
    sel = selectors.DefaultSelector()
    got = {p.stdout: [], p.stderr: []}
    room = {p.stdout: 4 * MB, p.stderr: MB}
    for f in got:
        sel.register(f, selectors.EVENT_READ)
    if inp is not None:
        os.set_blocking(p.stdin.fileno(), False)
        if inp:
            sel.register(p.stdin, selectors.EVENT_WRITE)
        else:
            p.stdin.close()
    pos, end = 0, time.time() + timeout
    ok = True
    while sel.get_map() and ok:
        left = end - time.time()
        ev = sel.select(max(0, left))
        if left <= 0 or not ev:
            ok = False
        for k, _ in ev:
            f = k.fileobj
            if f is p.stdin:
                try:
                    pos += os.write(f.fileno(), inp[pos:pos + 4096])
                except BlockingIOError:
                    continue
                except BrokenPipeError:
                    pos = len(inp)
                if pos == len(inp):
                    sel.unregister(f)
                    f.close()
            else:
                b = os.read(f.fileno(), 65536)
                if not b:
                    sel.unregister(f)
                    continue
                got[f].append(b)
                room[f] -= len(b)
                ok = ok and room[f] > 0
    sel.close()
    if ok:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            ok = False
    if not ok:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.kill()
    p.wait()
    for f in (p.stdin, p.stdout, p.stderr):
        if f:
            try:
                f.close()
            except BrokenPipeError:
                pass
    return b"".join(got[p.stdout]), b"".join(got[p.stderr]), p.returncode if ok else -999


class File:
    def __init__(self, data=b"", kind="reg", r=True, w=True):
        self.data, self.kind, self.r, self.w = B(data), kind, r, w


class Session:
    """One run of ed.  inp: bytes given as commands, how: where they come from
    (pipe | file | e | f); files: name -> File; sh: shell commands by text."""

    def __init__(self, inp, files=None, args=(), how="pipe", flags="", sh=None,
                 prompt=None, suffix=None, addrs=(), red=False, user=None,
                 cols=80, rows=24, fsz=-1, cwdw=True, tag=""):
        self.inp, self.files, self.args, self.how = B(inp), dict(files or {}), [B(a) for a in args], how
        self.flags, self.sh, self.prompt, self.suffix = flags, dict(sh or {}), prompt, suffix
        self.addrs, self.red, self.user = list(addrs), red, user
        self.cols, self.rows, self.fsz, self.cwdw, self.tag = cols, rows, fsz, cwdw, tag
        self.out = self.status = self.fin = self.err = None
        self.note = ""

    def dump(self):
        """As a JSON-able value, to be saved for replay."""
        d = dict(self.__dict__)
        l1 = lambda x: x.decode("latin-1") if isinstance(x, bytes) else x
        d["inp"] = l1(self.inp)
        d["args"] = [l1(a) for a in self.args]
        if getattr(self, "exprs", None):
            d["exprs"] = [l1(a) for a in self.exprs]
        d["files"] = {n: [f.data.decode("latin-1"), f.kind, f.r, f.w] for n, f in self.files.items()}
        d["fin"] = {l1(n): l1(x) for n, x in (self.fin or {}).items()}
        for k in ("out", "err"):
            d[k] = l1(d[k])
        return d

    @staticmethod
    def load(d):
        s = Session("")
        s.__dict__.update(d)
        s.inp = B(s.inp)
        s.args = [B(a) for a in s.args]
        s.files = {n: File(*f) for n, f in s.files.items()}
        return s

    # -- the specification's view ------------------------------------------
    def lines(self):
        s, ls = self.inp, []
        if self.how == "e" or self.how == "f" and s:
            s = s if s.endswith(b"\n") else s + b"\n"
        while s:
            i = s.find(b"\n")
            if i < 0:
                ls.append(s)
                break
            ls.append(s[: i + 1])
            s = s[i + 1:]
        return ls

    def json(self, sid):
        opt = dict(ere="E" in self.flags, red=self.red,
                   scr="s" in self.flags or self.how in "ef",
                   eoe=self.how in ("file", "e", "f"), ipl=self.suffix is not None or "i" in self.flags,
                   sfx=dict(has=bool(self.suffix), n=list(B(self.suffix or ""))),
                   script=list(b"../script") if self.how == "f" else [],
                   cols=self.cols, rows=self.rows, scroll=True, fsz=self.fsz, cwdw=self.cwdw,
                   home=list(b"home"), verb="v" in self.flags, prompt=self.prompt is not None,
                   ptxt=list(B("*" if self.prompt is None else self.prompt)))
        adr = []
        for a in self.addrs:
            adr.append(list(B(a)[1:] + b"\n"))
        fs = [dict(n=list(B(n)), k=f.kind, d=list(f.data), r=f.r, w=f.w) for n, f in self.files.items()]
        sh = []
        for c, d in self.sh.items():
            sh.append(dict(c=list(B(c)), k=d["k"], d=list(B(d.get("d", b""))), f=list(B(d.get("f", b""))),
                           st=d.get("st", 0), sig=d.get("sig", "")))
        return dict(id=sid, **{"in": [list(l) for l in self.lines()]}, opt=opt,
                    args=[list(a) for a in self.args], adr=adr, fs=fs, sh=sh,
                    out=list(self.out), status=self.status,
                    fin=[dict(n=list(n), d=list(d)) for n, d in sorted(self.fin.items())],
                    left=[list(B(x)) for x in self.left])

    # -- the real thing ----------------------------------------------------
    def setup(self, top):
        cwd, tmp = os.path.join(top, "cwd"), os.path.join(top, "tmp")
        os.mkdir(cwd)
        os.mkdir(tmp)
        later = []
        for n, f in self.files.items():
            p = os.path.join(os.fsencode(cwd), B(n))
            if f.kind == "dir":
                os.mkdir(p)
            elif f.kind == "fifo":
                os.mkfifo(p)
            elif f.kind == "null":
                os.symlink("/dev/null", p)
            elif f.kind == "link":      # to a regular file of the session
                os.symlink(os.path.basename(B(f.data)), p)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as h:
                    h.write(f.data)
            if not (f.r and f.w):
                later.append((p, (0o444 if f.r else 0) | (0o222 if f.w else 0) | (0o111 if f.kind == "dir" else 0)))
        if self.user:
            for d, ds, fs in os.walk(top):
                for x in [d] + [os.path.join(d, y) for y in fs]:
                    os.chown(x, self.user, self.user)
        for p, m in later:
            os.chmod(p, m)
        if not self.cwdw:
            os.chmod(cwd, 0o555)
        return cwd, tmp

    def argv(self, ed):
        exe = os.path.join(os.path.dirname(ed), "r", "red") if self.red else ed
        av = [exe]
        if self.suffix:
            av.append("-i" + self.suffix)
        av += ["-" + c for c in self.flags]
        if self.prompt is not None:
            av += ["-p", self.prompt]
        if self.how == "e":
            ls = self.inp[:-1] if self.inp.endswith(b"\n") else self.inp
            for x in (getattr(self, "exprs", None) or [ls]):
                av += ["-e", B(x)]
        if self.how == "f":
            av += ["-f", "../script"]
        return av + [B(a) for a in self.addrs] + [a for a in self.args]

    def run(self, ed, timeout=20, env=None, keep=None):
        top = tempfile.mkdtemp(prefix="eds.", dir=os.environ.get("ED_SCRATCH"))
        os.chmod(top, 0o755)
        try:
            cwd, tmp = self.setup(top)
            e = {"PATH": os.environ["PATH"], "LC_ALL": "C", "TMPDIR": tmp, "HOME": "home",
                 "LINES": str(self.rows), "COLUMNS": str(self.cols), "SHELL": "/bin/sh"}
            e.update(env or {})
            if self.how in ("file", "f"):
                with open(os.path.join(top, "script"), "wb") as h:
                    h.write(self.inp)
                os.chmod(os.path.join(top, "script"), 0o666)
            stdin = (open(os.path.join(top, "script"), "rb") if self.how == "file"
                     else subprocess.PIPE if self.how == "pipe" else subprocess.DEVNULL)

            def pre():
                os.umask(0o022)
                os.setsid()
                if self.fsz >= 0:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (self.fsz, self.fsz))
                else:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (32 * MB, 32 * MB))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if not os.environ.get("ED_ASAN"):
                    resource.setrlimit(resource.RLIMIT_AS, (1024 * MB, 1024 * MB))
                if self.user:
                    os.setgroups([])
                    os.setgid(self.user)
                    os.setuid(self.user)

            if self.user:
                os.chmod(top, 0o755)
            p = subprocess.Popen(self.argv(ed), cwd=cwd, env=e, stdin=stdin,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
            o, x, st = talk(p, self.inp if self.how == "pipe" else None, timeout)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if stdin not in (subprocess.PIPE, subprocess.DEVNULL):
                stdin.close()
            self.out, self.err = o, x
            self.status = st if st >= 0 else 1000 - st
            self.fin = {}
            for d, ds, fs in os.walk(os.fsencode(cwd)):
                for x in ds:
                    self.fin[os.path.relpath(os.path.join(d, x), os.fsencode(cwd))] = b""
                for x in fs:
                    q = os.path.join(d, x)
                    n = os.path.relpath(q, os.fsencode(cwd))
                    if os.path.isfile(q):
                        with open(q, "rb") as h:
                            self.fin[n] = h.read(1 << 20)
                    else:
                        self.fin[n] = b""
            self.left = sorted(os.listdir(tmp)) + sorted(
                x for x in os.listdir(top) if x not in ("cwd", "tmp", "script"))
        finally:
            if not self.cwdw:
                os.chmod(os.path.join(top, "cwd"), 0o755)
            shutil.rmtree(top, ignore_errors=True)
        return self
