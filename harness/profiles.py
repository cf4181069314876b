"""Sessions for each property: which kinds of command, files and options."""
import random
from gen import Gen, build_lines, to_inp, BRE, ERE
from session import Session, File, NOBODY

W = dict(
    edit=dict(a=4, c=2, d=3, j=2, m=4, t=3, k=2, u=2, p=3, nl=1, eq=1, probe=2, marks=1, bad=1),
    lines=dict(a=5, i=2, c=4, d=5, j=3, m=6, t=5, r=1, sh=1, probe=5, dot=2, u=1, k=1, marks=1, g=1),
    sub=dict(a=1, s=8, sr=3, u=2, p=1, probe=2, g=1, bad=1, nl=1, marks=1, k=1, d=1),
    subonly=dict(s=10, sr=1, u=1, probe=1, p=1),
    remember=dict(s=5, sr=6, emptypat=5, g=2, u=1, p=1, probe=1, bad=2, c=1, macro=1, e=1, k=1),
    glob=dict(g=6, G=2, a=1, u=2, probe=2, k=1, d=1, marks=1, s=1, sr=1),
    reg=dict(reg=8, a=1, d=2, probe=2, u=1, g=1, marks=1, k=1),
    regs=dict(reg=9, regshow=3, a=1, d=2, c=1, j=1, u=2, s=1, probe=2, w=1, e=1, q=0.3),
    mac=dict(macro=5, run=2, a=1, probe=2, u=1, d=1, g=1),
    file=dict(w=5, r=4, e=3, f=2, a=2, d=2, u=2, s=1, probe=2, q=1, H=1, bad=1),
    dirty=dict(w=4, wpart=3, r=2, e=3, f=1, a=2, d=2, u=4, s=1, g=1, m=1, reg=1, q=5, sh=1, H=.5, badw=1.5),
    sh=dict(sh=8, a=1, d=1, u=1, probe=2, w=1, f=1, marks=1, k=1),
    z=dict(z=8, p=1, nl=2, a=1, d=1, dot=2, u=1),
    zz=dict(z=8, zwalk=2, nl=1, dot=3, k=.2, m=.2, p=.4),
    bad=dict(bad=6, a=1, d=1, s=1, sr=1, u=1, probe=2, H=1, marks=1, k=1, w=1, f=1, reg=1),
    badall=dict(bad=8, badm=5, a=1, d=1, s=1, k=1, reg=1, fullprobe=3, u=1, w=.5),
    undo=dict(a=3, c=2, d=3, j=2, m=3, t=2, s=3, sr=.5, g=3, k=1, u=9, probe=5, marks=1, reg=2, r=1, sh=1, w=.7,
              macro=.7, e=.4, G=.4),
    marks=dict(k=6, marks=6, a=2, c=2, d=3, j=2, m=3, t=2, s=3, u=4, g=2, reg=1, r=.5, sh=.5, e=.4, kaddr=2),
    addr=dict(addr=10, k=1.5, dot=1, a=.3, s=.3, m=.3, d=.2, j=.1),
    err=dict(bad=5, badm=1, H=4, a=1, d=1, p=1, w=1, e=.6, q=.7, sh=1, s=1, u=.5),
    show=dict(p=6, pl=6, nl=2, dot=2, s=1, d=.5, t=.7),
    rw=dict(w=6, r=5, wpart=3, e=2, f=1, a=1, d=1, s=.5, cat=2, probe=1, wsh=1),
)


class Gen2(Gen):
    """Further commands, for particular properties."""

    def c_emptypat(self):
        p = self.pick("//", "??", "s//X/", "s//&&/g", "g//p", "v//p", "//p", "/o/p", "?b?", "s//%/", "s//%/g", "//,//p",
                      "g/a/s//b/", "g//s//Y/", "s/%/z/", "s/o/%/", "s/a/%x/", ";//p", "s//", "s//o", "g/o/s", "//s//z/p")
        return [self.pick("", "", ",", "1,2", "$", ".") * (p[0] in "sgv") + p]

    def c_regshow(self):
        q = self.pick("", "1", "2", "3", "0", "9")
        return [f"<{q}t{self.pick('$', '0', '', '.')}", ",n", "u"] if self.r.random() < .7 else [f"<{q}t$"]

    def c_zwalk(self):
        return [self.pick("1", "1p", "2p", "$") + ""] + ["z" + self.pick("", "3", "4")] + ["z", ".="] * self.r.randint(1, 4) + \
            [self.pick("Z", "Z", "Z2", "[", "]"), ".="]

    def c_wpart(self):
        return [self.pick("1w f1", "2,$w f1", "1,2w g", "1,2w", "2,$W f2", "1,$w f2", "1,$w", ",w f1", "$w", ".w f2", "W", "1W g")]

    def c_badw(self):
        return [self.pick("w nodir/x", "w d", "99w f1", "1w nodir/x", "W d", "2,1w f1", "wz", "w/f1")]

    def c_wsh(self):
        return [self.range() + "w !" + self.pick("cat", "tr a-z A-Z", "cat >s1", "wc -l")]

    def c_cat(self):
        return ["!" + self.pick("cat f1", "cat f2", "cat g", "cat s1")] if self.k.get("cat") else ["!echo one"]

    def c_kaddr(self):
        a, b = self.pick("'a", "'b", "'c"), self.pick("'a", "'b", "'c")
        return [self.pick(f"{a}p", f"{a},{b}p", f"{a}=", f"{a};{b}n", f"{a}d", f"{a}m{b}", f"{a}t.", f"{a}+1p", f"{a}-1n",
                          f"/o/k{a[1]}", f"m{a}", f"{a}k{b[1]}", f"{a},{a}+1j", f"{a}s/$/x/p", f"{a}i\nz\n.")]

    def c_addr(self):
        return [self.range() + self.pick("p", "n", "=", "n", "n", "", "l")]

    def c_fullprobe(self):
        """Everything that a rejected command must leave alone."""
        return [",n", ".=", "f"] + ["'" + m + "n" for m in MK] + ["<1t$", "<2t0", "u"] + \
            [self.pick("s", "sg", "//", "!cat f1;:", "1t.", "u", "u", "=")]

    def c_badm(self):
        """A rejected command of every kind, made by spoiling a good one."""
        r = self.r
        good = self.pick("a", "i", "c", "d", "j", "m0", "m$", "t0", "t.", "p", "n", "l", "k", "s/o/X/", "s", "g/o/p", "v/o/d",
                         "w f1", "W f1", "r f1", "e f1", "E f1", "f f2", "q", "u", "=", "h", "H", "P", "z", "Z", "@1",
                         "m>1", "t>1", "m>>2", "<1m>2", "<1t>2", "<1m0", "<2t.", "!echo one", "&", "#", "Q", "s//x/", "sr")
        how = r.randrange(6)
        if how == 0:
            return [self.pick("99", "9,1", "3,2", "'z", "/nomatch/", "?nomatch?", "-9", "+9", "1,99", "$+1,$", "//z/") + good]
        if how == 1:
            return [good + self.pick("x", "5", "!", " f1", "pz", "~", "%", ";", "q", "/")] if good not in (
                "a", "i", "c", "w f1", "W f1", "r f1", "e f1", "E f1", "f f2", "!echo one", "&", "#", "q", "Q") else \
                [good[0] + self.pick("x", "5z", "p!", "~")]
        if how == 2:
            return [self.pick("~", "<", "<3", "<<") + good] if good[0] not in "erwWfE<" else ["<" + good]
        if how == 3:
            return [self.pick("1", "1,2", ".", "$") + self.pick("e f1", "E f1", "f f2", "q", "Q", "u", "h", "H", "P", "f", "e")]
        if how == 4:
            return [self.pick("s/[/x/", "s/\\(/x/", "s/a\\{/b/", "s/a/b/0z", "s/a/\\", "g/[/p", "/[z/", "s/a/b/gx", "s/nomatch/x/",
                              "s aab", "g xpx", "s/*\\{2/", "g/o/", "s/a\\)/x/", "s/\\1/x/", "v/\\(/d", "s/a/b/-", "s/a/b/$$",
                              "s/o\\{2,1\\}/x/", "s/[[:foo:]]/x/", "s/[b-a]/x/")]
        return [self.pick("m", "t", "k", "j") + self.pick("99", "'q", "/nomatch/", "$+1", "-9", "A", "?nomatch?", "9m", "+99")]

    def c_pl(self):
        return [self.range() + self.pick("l", "l", "nl", "n", "p", "ln", "pl", ",l"[1:])]

    def c_H(self):
        return [self.pick("H", "h", "h", "P", "h")]


MK = "abc"


def G(tag, prof, i, **kw):
    g = Gen2(f"{tag}:{prof}:{i}", ere=(i % 5 == 4), **kw)
    return g


FILES = lambda: {"f1": File("foo\nbar\n"), "f2": File("l1\nzz"), "g": File("a\0b\nend"), "d": File(kind="dir")}
SH = dict(Gen.SH)
for _n in ("f1", "f2", "g"):
    SH["cat " + _n] = dict(k="read", f=_n)
SH["cat f1;:"] = dict(k="read", f="f1")


def noNul(g):
    g.pats = [x for x in g.pats if "." not in x and "[^" not in x]


def plain(prof, how=(.82, .06, .06, .06), lo=4, hi=14, nul=None):
    nul = prof in ("file", "sh", "bad", "rw", "dirty", "undo", "marks", "err", "badall", "regs", "lines", "remember") if nul is None else nul

    def mk(tag, i):
        g = G(tag, prof, i, cat=prof == "rw")
        if nul:
            noNul(g)
        lines = ["a"] + g.text(3, 6) + ["."]
        if prof in ("zz", "z"):
            lines = ["a"] + [f"n{j}" for j in range(g.r.randint(5, 22))] + ["."]
        if g.r.random() < .1:
            lines = ["r f1", "r f2"]
        if g.r.random() < .03:
            lines = []
        if prof == "badall":
            lines += ["1t>1", "$t>2", "1ka", "2kb", "s/o/0/p", "w f2"][: g.r.randint(0, 6)]
        lines += build_lines(g, W[prof], g.r.randint(lo, hi)) + [",n", ".=", "f"] + ([] if g.r.random() < .15 else ["Q"])
        fl = ("E" if g.ere else "") + g.pick("", "", "v", "s", "v")
        rows = g.pick(24, 6, 5, 8, 4, 10) if prof in ("z", "zz") else 24
        h = g.r.choices(["pipe", "file", "f", "e"], how)[0]
        inp = to_inp(lines)
        if h == "e" and "\0" in inp:
            h = "f"
        return Session(inp, files=FILES(), how=h, flags=fl, sh=SH, rows=rows, tag=prof,
                       prompt=g.pick(None, None, None, "*", "% ") if h == "pipe" else None)
    mk.__name__ = prof
    return mk


def single(tag, i):
    """An unchanged buffer, one command, and then an attempt to leave it."""
    g = G(tag, "single", i)
    noNul(g)
    r = g.r
    n = r.randint(1, 5)
    ls = r.sample(["foo", "bar", "boo", "aab", "ox", "zz"], n)
    fs = dict(FILES(), st=File("\n".join(ls) + "\n"), empty=File(""))
    nn = lambda lo=0: str(r.randint(lo, n))
    def rg(lo=1):
        a, b = sorted((r.randint(lo, n), r.randint(lo, n)))
        return r.choice([f"{a},{b}", f"{a},{b}", str(a), "", ",", "$"])
    one = [lambda: rg() + "t" + nn(), lambda: rg() + "m" + nn(), lambda: rg() + "j", lambda: rg() + "d", lambda: rg() + "s/o/0/",
           lambda: rg() + "s/o/&/g", lambda: rg() + "s/[ao]/\\\n/", lambda: nn() + r.choice("ai") + "\n" + r.choice(["", "x\n", "x\ny\n"]) + ".",
           lambda: rg() + "c\n" + r.choice(["", "x\n"]) + ".", lambda: nn() + "r " + r.choice(["f1", "f2", "empty", "none", "st"]),
           lambda: nn() + "r !" + r.choice(["echo one", "true", "printf abc"]), lambda: r.choice([rg() or ".", nn(1)]) + "!" + r.choice(["cat", "tac", "cat >/dev/null", "echo one", "sort"]),
           lambda: "g/o/" + r.choice(["d", "m0", "t.", "s//X/", "p", "m.", "j", "ka", "a\\\nx", "t>1", "=", "1d", "r f1", "u", "w f1"]),
           lambda: "v/o/" + r.choice(["d", "m$", "t0", "p", "s/a/b/"]), lambda: rg() + r.choice(["m>1", "t>1", "m>>1", "m>", "t>>"]),
           lambda: rg() + "t>1\n<1" + r.choice("mt") + nn(), lambda: "<2t$", lambda: rg() + "t>1\n<1t>2", lambda: "u", lambda: nn(1) + "ka",
           lambda: rg() + r.choice("pnl"), lambda: "f f2", lambda: r.choice(["w", "w f1", "1w f1", "1w", "W", "W f1", ",w", "w !cat", "1,$w f2", "w d"]),
           lambda: r.choice(["e f1", "E f1", "e none", "e d", "E none", "e !echo one", "e"]), lambda: "zork", lambda: "!echo one", lambda: "=", lambda: nn(1) + "z2",
           lambda: "G/o/\n" + r.choice(["s//X/", "d", "p", "t.", "m0"]) + "\n&\n&\n&\n&", lambda: rg() + "s/nomatch/x/", lambda: nn() + "kb\n'bp"]
    seq = [r.choice(one)() for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3]))]
    tail = r.choice([["q"], ["q"], ["e f2"], [], ["wq"], ["w", "q"], ["u", "q"], ["u", "u", "q"], ["1w", "q"], ["u", "e f2"], ["wq st"], ["w", "u", "q"],
                     ["1,$w st", "q"], ["q", "p", "q"], ["~wn"], ["q", "$d", "q"], ["w", "u", "u", "q"], ["q", "u", "q"]])
    pre = r.choice([[], [], [], ["w st"], ["$t$", "w st"], ["1d", "u"], ["1t.", "w", "u", "u"], ["d", "w st", "u", "w st"]])
    return Session(to_inp(pre + seq + tail + [".=", ",n", "q", "Q"]), files=fs, args=[b"st"], flags=r.choice(["", "", "v", "s"]), sh=SH, tag="single")


# -- line contents ----------------------------------------------------------
def odd_line(r, n=None, nul=True):
    k = r.randrange(6)
    n = n if n is not None else r.choice([0, 1, 2, 3, 7, 20, 60, 64, 65, 71, 72, 73, 79, 80, 81, 100, 150])
    if k == 0:
        return bytes(r.choice([c for c in range(256) if c != 10 and (nul or c)]) for _ in range(n))
    if k == 1:
        return bytes(r.choice(b"abc$\\\t\b\a\f\v\r") for _ in range(n))
    if k == 2:
        return "".join(r.choice("aé€z$\\—😀ü ") for _ in range(n // 2)).encode()
    if k == 3:
        return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz    .,;") for _ in range(n))
    if k == 4:
        return bytes(r.choice(b"wxyz") for _ in range(n)) + r.choice([b"$", b"\\", b"\t", b" ", b"", b"\xff", b"\x7f"])
    return b"x" * n


def show(tag, i):
    """Lines of any content and length, shown by p, n and l."""
    g = G(tag, "show", i)
    r = g.r
    nul = r.random() < .3
    ls = [odd_line(r, nul=nul) for _ in range(r.randint(1, 12))]
    data = b"\n".join(ls) + (b"\n" if r.random() < .8 else b"")
    cmds = ["r f1"] if r.random() < .6 else []
    if not cmds:
        if any(l == b"." for l in ls):
            ls = [l for l in ls if l != b"."]
        pre = b"a\n" + b"".join(l + b"\n" for l in ls) + b".\n"
    else:
        pre = b""
    g.pats = ["x", "w", "a", "zz", "q"]
    lines = cmds + build_lines(g, W["show"], r.randint(4, 9)) + [",p", ",l", ",n", "Q"]
    return Session(pre + to_inp(lines).encode("latin-1"), files={"f1": File(data)}, flags=r.choice(["", "s", "v"]),
                   cols=r.choice([80, 80, 40, 132, 60, 20, 30]), tag="show")


def data_of(r, big=False):
    k = r.randrange(8)
    if k == 0:
        return b""
    if k == 1:
        return b"\n" * r.randint(1, 4)
    n = r.randint(1, 9)
    ls = [odd_line(r, nul=k < 4) for _ in range(n)]
    d = b"\n".join(ls)
    if r.random() < .6:
        d += b"\n"
    if r.random() < .12:
        d += bytes(r.choice(b"ab\n") for _ in range(r.choice([1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000])))
    return d


def fidelity(tag, i):
    """Any bytes in and out of files."""
    g = G(tag, "fidelity", i)
    r = g.r
    fs = {n: File(data_of(r)) for n in ("f1", "f2", "g")}
    lines = []
    for _ in range(r.randint(3, 9)):
        x = r.random()
        n = r.choice(["f1", "f2", "g", "new"])
        if x < .25:
            lines.append(r.choice(["", "", "0", "$", "1", ".", "2"]) + "r " + n)
        elif x < .55:
            lines.append(r.choice(["", "", "", ",", "1", "$", "2,$", "1,2", "1,$-1"]) + r.choice("wwwW") + " " + n)
        elif x < .65:
            lines.append("E " + n)
        elif x < .72:
            lines += ["a", "txt", "."]
        elif x < .78:
            lines.append(r.choice(["$d", "1d", "1m$", "$m0", "1t$", "$t0", "1,2j", "u", "$t$", "1d"]))
        elif x < .85:
            lines.append(r.choice(["w", "W", "r", "E", "f f2", "f"]))
        elif x < .9:
            lines.append(r.choice(["1,2m>1", "<1t$", ",t>2", "<2m0", "$t>3", "<3t$", "1t>3"]))
        else:
            lines.append(",n")
    fl = r.choice(["", "", "s", "v"])
    s = Session(to_inp(lines + [",n", "w out", "Q"]), files=fs, flags=fl, tag="fidelity")
    if r.random() < .4:
        s.args = [r.choice([b"f1", b"f2", b"g", b"none"])]
    return s


def large(tag, i):
    """Data that is larger than the buffers in ed and stdio."""
    g = G(tag, "large", i)
    r = g.r
    n = r.choice([300, 700, 1200])
    w = r.choice([3, 7, 15])
    line = lambda j: f"{j:0{w}d}" + ("x" * r.choice([0, 0, 1]))
    data = "\n".join(line(j) for j in range(n)) + "\n"
    fs = {"f1": File(data), "f2": File("z\n")}
    ops = ["1!cat", "2!tr a-z A-Z", ",!cat", "5,200!sed p", "$!wc -l", "3,4!tac", "w f2", "0r f1", "$r f1", "1,250w f2", "W f2",
           "100,200m0", "1,150t$", "10,290d", "u", ",t>1", "<1t0", "w !wc -l", "1,280w !cat >s1", "r s1", "1,299!tac",
           "g/7$/d", "g/5$/m0", ",s/0/Q/", "290,299j", "r !cat f1"]
    lines = ["r f1"] + [r.choice(ops) for _ in range(r.randint(2, 4))] + ["$=", "$n", "1n", "150n", "w out", "Q"]
    return Session(to_inp(lines), files=fs, sh=SH, tag="large", flags=r.choice(["", "s"]))


def addrs(tag, i):
    """Addresses, over a fixed buffer."""
    g = G(tag, "addr", i)
    g.k["maxline"] = 8
    txt = ["foo", "bar", "boo", "aab", "foo bar", "ox"][: g.r.choice([0, 1, 2, 3, 4, 5, 6, 6, 6])]
    lines = (["a"] + txt + ["."] if txt else []) + ["1ka", "2kb", "$kc"][: g.r.randint(0, 3)]
    lines += build_lines(g, W["addr"], g.r.randint(15, 30)) + ["Q"]
    return Session(to_inp(lines), files=FILES(), sh=SH, flags=("E" if g.ere else "") + g.pick("", "s", "v"), tag="addr")


# -- errors and exit status --------------------------------------------------
def errors(tag, i):
    g = G(tag, "err", i)
    noNul(g)
    r = g.r
    lines = ["a"] + g.text(2, 4) + ["."] if r.random() < .8 else []
    lines += build_lines(g, W["err"], r.randint(1, 8))
    end = r.random()
    lines += ["Q"] if end < .2 else ["q"] if end < .35 else ["q", "q"] if end < .45 else ["w f1", "q"] if end < .6 else ["wq f2"] if end < .7 else []
    how = r.choices(["pipe", "file", "f", "e"], [.5, .15, .2, .15])[0]
    inp = to_inp(lines)
    if r.random() < .06:
        inp = inp[:-1] + r.choice(["", "p", "\np", "\na\nzz", "\n1"]) if how != "e" else inp
    s = Session(inp, files=FILES(), how=how, flags=("E" if g.ere else "") + r.choice(["", "", "v", "s", "v", "sv"]), sh=SH, tag="err",
                prompt=r.choice([None, None, "*", ">>"]) if how == "pipe" else None)
    if r.random() < .3:
        s.args = [r.choice([b"f1", b"none", b"f2", b"d", b"nodir/x"])]
    if r.random() < .15 and s.args:
        s.addrs = [r.choice(["+1", "+2", "+/o", "+9", "+?a", "+/nomatch", "+?o.", "+/^b"])]
    return s


def status(tag, i):
    """A refused command, then one that clears the exit status - or does not."""
    g = G(tag, "status", i)
    noNul(g)
    r = g.r
    fs = dict(FILES(), empty=File(""), one=File("one\n"), nonl=File("x"))
    bad = ["zork", "99p", "s/nomatch/x/", "r none", "w d", "!!", "'zp", "q5", "e none", "w nodir/x", "1u", "m9", "E d", "g/a/g/b/p"]
    clr = ["e empty", "E empty", "e f1", "E f1", "w f1", "w", "1w f1", "$w one", "e none", "E none", "wq f1", "e nonl", "e", "E",
           "w !cat", "e !true", "E !echo one", "r f1", "r empty", "W f1", "W", ",w one", "1W f1", "w empty", "e d", "f f2", "p", "H", "=",
           "!exit 3", "!true", "u", "d", "$t0", ",d", "a\nx\n."]
    lines = []
    for _ in range(r.randint(1, 3)):
        lines += r.sample(bad, r.choice([1, 1, 2])) + r.choices(clr, k=r.choice([0, 1, 1, 2]))
    lines += r.choice([["q"], ["Q"], ["q", "q"], [], ["w f1", "q"], ["E empty", "q"], ["wq"], ["e empty"]])
    how = r.choices(["pipe", "file"], [.85, .15])[0]
    s = Session(to_inp(lines), files=fs, how=how, flags=r.choice(["", "", "v", "s"]), sh=SH, tag="status")
    if r.random() < .6:
        s.args = [r.choice([b"f1", b"none", b"empty", b"one", b"nonl", b"d"])]
    return s


# -- restricted mode ----------------------------------------------------------
RNAMES = ["f1", "f2", "..", "../x", "./f1", "d", "d/f", "/etc/passwd", "/dev/null", "../script", "sub/../f1", "new", "nof",
          "a..b", "..f1", "f1..", ".", "/", "//", "~", "!", "!echo one", "!cat >s1", ".f1", "p", "d/../f1", "../cwd/f1",
          "nul", "nul", "ff", "ff"]


def restricted(tag, i):
    g = G(tag, "red", i)
    noNul(g)
    r = g.r
    lines = (["a"] + g.text(2, 4) + ["."]) * r.choice([0, 1, 1])
    for _ in range(r.randint(4, 12)):
        n = r.choice(RNAMES) if r.random() < .8 else r.choice(["f1", "f2", "new"])
        x = r.random()
        if x < .6:
            c = r.choice(["w", "W", "r", "e", "E", "f", "wq", "1w", "0r", "1,2W"])
            lines.append(c + " " + n)
        elif x < .7:
            lines.append(r.choice(["!echo one", "!cat >s1", ",!cat", "r !echo one", "w !cat >s1", "e !echo one", "!!", "r!echo one",
                                   "1!tac", "f !echo one", "w!cat >s1", "W !cat >s1", "E !echo one", "1,2w !cat >s1", ". !cat", "g/o/!cat >s1",
                                   "g/o/w ../x", "g/./e ../x", "v/q/r ../script", "G/o/\n!cat >s1\n#"]))
        elif x < .78:
            lines.append(r.choice(["~e ", "~r ", "~w ", "~f ", "~E "]) + r.choice(["f1", "f2", "../x", "..", "f1 f2", "f1 ../script", "d/f", "/etc/passwd", "f*"]))
        elif x < .85:
            lines += ["a", r.choice(["!cat >s1", "w ../x", "e ../script", "f ../x", "r /etc/passwd", "w .."]), ".", ".m>1", "@1"]
        else:
            lines += build_lines(g, W["edit"], 1)
    how = r.choices(["pipe", "f", "e", "file"], [.8, .08, .06, .06])[0]
    fs = {"f1": File("foo\nbar\n"), "f2": File("l1\nzz"), "d": File(kind="dir"), "d/f": File("secret\n"),
          "nul": File(kind="null"), "ff": File(kind="fifo")}
    s = Session(to_inp(lines + [",n", "f", "Q"]), files=fs, how=how, flags=r.choice(["", "v", "s"]), sh=SH, red=True, tag="red", user=NOBODY)
    if r.random() < .25:
        s.args = [x.encode() for x in r.sample(["f1", "f2", "../script", "..", "d/f", "/etc/passwd", "new", "d", "nul", "ff"], r.choice([1, 1, 2]))]
    return s


# -- file lists ---------------------------------------------------------------
def lists(tag, i):
    g = G(tag, "lists", i)
    noNul(g)
    r = g.r
    names = ["aa", "bb", "cc", "dd"][: r.randint(1, 4)]
    fs = {n: File("".join(f"{n}{j}\n" for j in range(r.randint(0, 3))) + ("" if r.random() < .8 else "end")) for n in names}
    lines = []
    for _ in range(r.randint(3, 12)):
        x = r.random()
        nm = r.choice(names)
        if x < .45:
            lines.append(r.choice(["~en", "~ep", "~wn", "~wp", "~En", "~Ep", "~en", "~wn", "~ep", "~fn", "~fp"]))
        elif x < .6:
            lines.append("~" + r.choice("eEf") + " " + r.choice([nm, "*", "?b", " ".join(names), nm + " " + r.choice(names), "none", "z*"]))
        elif x < .66:
            lines.append("~" + r.choice(["e", "E", "f", "r", "w", "W"]))
        elif x < .72:
            lines.append("~" + r.choice(["r", "w"]) + " " + r.choice([nm, "b*", "none"]))
        elif x < .8:
            lines.append(r.choice(["w", "w " + nm, "e " + nm, "E " + nm, "r " + nm, "f " + nm, "f"]))
        elif x < .9:
            lines += r.choice([["a", "new", "."], ["1d"], ["s/$/!/"], ["$d"], ["1t."], ["u"], ["0a", "top", "."]])
        else:
            lines.append(r.choice(["f", "~f", ",n", "q", ".="]))
    lines += [",n", "f", "~f", "Q"]
    how = r.choices(["pipe", "file", "f", "e"], [.7, .1, .1, .1])[0]
    s = Session(to_inp(lines), files=fs, how=how, flags=r.choice(["", "v", "s", ""]), tag="lists")
    x = r.random()
    if x < .6:
        s.args = [n.encode() for n in r.sample(names, r.randint(1, len(names)))]
        if r.random() < .15:
            s.args.append(b"none")
    return s


def inplace(tag, i):
    g = G(tag, "inplace", i)
    noNul(g)
    r = g.r
    names = ["aa", "bb", "cc", "dd"][: r.randint(1, 4)]
    fs = {n: File("".join(f"{n}{j} {g.pick('foo', 'bar', 'oo')}\n" for j in range(r.randint(1, 4)))) for n in names}
    fs["zz"] = File("other\n")
    lines = []
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < .5:
            lines += r.choice([["$a", "tail", "."], ["1d"], ["s/o/0/g"], [",s/$/!/"], ["1m$"], ["1i", "top", "."], ["$d"], ["g/foo/d"],
                               ["v/foo/d"], ["1,$j"], ["1t$"], [",p"], ["$="], ["g/o/s//0/"], ["u"]])
        elif x < .62:
            lines.append(r.choice(["r zz", "w zz", "1w zz", "1t>1", "<1t$", "W zz", "f", "f zz", "e zz", "w", "h"]))
        elif x < .72:
            lines.append(r.choice(["~wn", "~en", "~wp", "~ep", "~f", "q", "Q", "wq"]))
        elif x < .78:
            lines.append(r.choice(["99p", "s/nomatch/x/", "zork", "/nomatch/"]))
        else:
            lines += build_lines(g, dict(s=1, d=1, a=1, g=1, m=1, t=1, j=1, k=.3, sr=.3, u=.3), 1)
    how = r.choice("fe")
    sfx = r.choice([None, None, ".bak", "~", ".o"])
    fl = r.choice(["", "", "s", "v"]) + ("" if sfx else r.choice(["i", "i", "i", ""]))
    s = Session(to_inp(lines), files=fs, how=how, flags=fl, suffix=sfx, tag="inplace")
    s.args = [n.encode() for n in r.sample(names, r.randint(1, len(names)))]
    if how in ("e",) and len(lines) > 1 and r.random() < .4:
        # several -e options
        k = [j for j, l in enumerate(lines)]
        s.exprs = [to_inp([l])[:-1].encode() for l in lines]
    return s


# -- write faults ---------------------------------------------------------------
def faults(tag, i):
    """Writes that cannot be stored, then the same after the obstacle is gone."""
    g = G(tag, "faults", i)
    r = g.r
    k = r.randrange(5)
    sh = dict(SH)
    sh["rm -f f1"] = dict(k="rm", f="f1")
    sh["chmod 444 f1"] = dict(k="mode", f="f1", d="r-")
    sh["chmod 644 f1"] = dict(k="mode", f="f1", d="rw")
    sh["chmod 0 f2"] = dict(k="mode", f="f2", d="--")
    sh["chmod 644 f2"] = dict(k="mode", f="f2", d="rw")
    sh["mkdir nodir"] = dict(k="mkdir", f="nodir")
    fs = {"f1": File("foo\nbar\n"), "f2": File("l1\nzz\n"), "d": File(kind="dir"), "ro": File("ro\n", w=False), "wo": File("wo\n", r=False)}
    tgts = ["/dev/full", "ro", "d", "nodir/x", "f1", "f2", "new", "wo", "/dev/null"]
    doubles = r.choice([0, 0, 3, 7, 9]) if k else r.choice([6, 7, 8])
    lines = ["a", "line one of text", "second", "."] + ["f " + r.choice(["f1", "f2", "new", "ro"])] * (r.random() < .7) + [",t$"] * doubles
    for _ in range(r.randint(3, 9)):
        x = r.random()
        if x < .45:
            lines.append(r.choice(["w", "W", "1w", "1,2w", "w", "w", ",w", "$W", "wq"]) + " " + r.choice(tgts))
        elif x < .55:
            lines.append(r.choice(["w", "w", "W", "1w"]))
        elif x < .62:
            lines.append("f " + r.choice(tgts))
        elif x < .74:
            lines.append(r.choice(["q", "e f1", "q", "e f2"]))
        elif x < .82:
            lines.append(r.choice(["$d", "s/e/E/", "1t$", "u", "a\nmore\n."]))
        elif x < .92:
            lines.append("!" + r.choice(["chmod 444 f1", "chmod 644 f1", "chmod 0 f2", "chmod 644 f2", "rm -f f1", "mkdir nodir"]))
        else:
            lines.append(r.choice(["r ro", "r wo", "r d", "r nodir/x", "r f1", "E ro", "E f1"]))
    lines += ["$=", "w f2", "q", "h", "Q"]
    s = Session(to_inp(lines), files=fs, sh=sh, flags=r.choice(["", "v", "v", "s"]), tag="faults", user=NOBODY)
    if r.random() < .3:
        s.args = [r.choice([b"f1", b"ro", b"wo", b"f2"])]
    if k == 0:
        s.fsz = r.choice([100, 1000, 4096, 6000])
        s.sh = sh
    if k == 1 and r.random() < .6:
        s.cwdw = False
    return s


# -- shell command texts --------------------------------------------------------
def bang(tag, i):
    """What %, \\% and ! stand for in shell commands, and what is remembered."""
    g = G(tag, "bang", i)
    noNul(g)
    r = g.r
    how = r.choices(["pipe", "f", "file"], [.7, .15, .15])[0]
    words = ["echo", "%", "\\%", "%-", "x", "%%", "\\%%", "%\\%", "a%b", "!", "5", "-", "%", "x%"]
    sh = dict(SH)
    def cmd():
        return "echo " + " ".join(r.choice(words[1:]) for _ in range(r.randint(1, 3)))
    pool = [cmd() for _ in range(4)] + ["cat %", "echo one", "echo %", "exit 3"]
    lines = ["a"] + g.text(1, 3) + ["."] if r.random() < .8 else []
    for _ in range(r.randint(4, 10)):
        x = r.random()
        if x < .35:
            lines.append("!" + r.choice(pool))
        elif x < .6:
            lines.append(r.choice(["!!", "!!", "!! more", "r !!", "0r !!", "!! %", "!! \\%", "!!!"]))
        elif x < .75:
            lines.append("f " + r.choice(["f1", "f2", "other", "n1", "%", "x!"]))
        elif x < .85:
            lines.append(r.choice(["r !", "0r !", "1r !"]) + r.choice(pool))
        elif x < .9:
            lines.append(r.choice(["g/./!", "g/o/!", "v/o/!"]) + r.choice(pool + ["!", "! y"]))
        elif x < .95:
            lines += ["!" + r.choice(["echo one", "echo %"]) + "\\", r.choice(["echo two", "echo % x", "echo \\% !", "echo"]), "!!"]
        else:
            lines.append(r.choice(["e f1", "1d", ",n", "u", "w f2", "f", "zork", "1!tac", "1!!"]))
    lines += ["!!", ",n", "Q"]
    s = Session(to_inp(lines), files=FILES(), how=how, flags=r.choice(["", "", "v", "s"]), sh=sh, tag="bang")
    if r.random() < .85:
        s.args = [r.choice([b"f1", b"f2"])]
    return s


# -- endings --------------------------------------------------------------------
def endings(tag, i):
    """Every way to end, with registers, macros, globals and scripts in use."""
    g = G(tag, "end", i)
    noNul(g)
    r = g.r
    sh = dict(SH)
    sh["kill -HUP $PPID"] = dict(k="const", d="", sig="hup")
    sh["kill -INT $PPID"] = dict(k="const", d="", sig="int")
    lines = ["a"] + g.text(2, 4) + ["."] if r.random() < .9 else []
    lines += build_lines(g, dict(reg=3, macro=3, g=2, sh=1, w=1, e=1, d=1, s=1, G=.5, u=1, r=1), r.randint(0, 5))
    x = r.random()
    lines += (["Q"] if x < .12 else ["q"] if x < .24 else ["q", "q"] if x < .32 else ["wq f1"] if x < .4 else
              ["!kill -HUP $PPID", "p"] if x < .62 else ["!kill -INT $PPID"] if x < .7 else ["zork"] if x < .78 else
              ["a", "Q", ".", ".m>1", "@1"] if x < .82 else ["a", "!kill -HUP $PPID", ".", ".m>1", "@1"] if x < .87 else
              ["g/o/!kill -HUP $PPID"] if x < .91 else ["a", "unfinished"] if x < .95 else [])
    how = r.choices(["pipe", "file", "f", "e"], [.45, .15, .2, .2])[0]
    s = Session(to_inp(lines), files=FILES(), how=how, flags=r.choice(["", "v", "s"]), sh=sh, tag="end")
    if r.random() < .3:
        s.args = [r.choice([b"f1", b"none", b"f2", b"d"])]
    if r.random() < .15 and how in "ef":
        s.suffix = ".bak"
        s.args = [b"f1", b"f2"]
    return s


PROFILES = {k: plain(k) for k in W if k not in ("addr", "show", "err")}
PROFILES["mac"] = plain("mac", (.6, .15, .15, .1))
PROFILES.update(show=show, fidelity=fidelity, large=large, addrs=addrs, errors=errors, single=single, status=status, bang=bang, restricted=restricted, lists=lists,
                inplace=inplace, faults=faults, endings=endings)

# What the check of each property draws from (weights).
PROPS = {
    "C01": dict(lines=5, edit=3, sh=1, large=.05),
    "C02": dict(addrs=1),
    "C03": dict(undo=1),
    "C04": dict(glob=1),
    "C05": dict(marks=1),
    "C06": dict(sub=2, subonly=3),
    "C07": dict(fidelity=5, rw=3, file=1, large=.05),
    "C08": dict(dirty=3, single=4),
    "C09": dict(badall=4, bad=2),
    "C10": dict(regs=3, reg=2),
    "C11": dict(mac=1),
    "C13": dict(restricted=1),
    "C14": dict(errors=4, bad=1, status=4),
    "C15": dict(show=1),
    "C16": dict(zz=2, z=2),
    "C17": dict(lists=3, inplace=3),
    "C18": dict(sh=5, bang=4, large=.2),
    "C19": dict(faults=4, dirty=1),
    "C20": dict(endings=5, inplace=1, mac=1),
    "C21": dict(remember=4, sub=1),
}


def batch(prop, seed, n):
    """n sessions for property prop."""
    r = random.Random(f"{prop}/{seed}")
    names, ws = list(PROPS[prop]), list(PROPS[prop].values())
    return [PROFILES[p](f"{prop}/{seed}", i) for i, p in enumerate(r.choices(names, ws, k=n))]
