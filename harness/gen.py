"""Random sessions, by profile.  A profile says which kinds of commands occur
and how often; every choice comes from the generator's own random source."""
import random
from session import Session, File, NOBODY

WORDS = ["foo", "bar", "boo", "aab", "abab", "oo", "x", "Foo Bar", "a.b", "a/b", "end", "ox", "b", "zz top", "a*b"]
BRE = ["o", "a", "b", "foo", "oo*", "^", "$", "^f", "r$", ".", "[ab]", "[^o]", r"a\(b\)", r"\(a\)\(b\)",
       "x*", r"o\{2\}", "[[:digit:]]", r"\.", "^l", "l[0-9]", "ab", "zz*", r"\(o\)\1", "[a-f]o", "..", "^.*$",
       "b*", r"a\{1,2\}", "o$", "nomatch", " ", "[]x]", "top", "1", "2", "3"]
ERE = ["o", "a", "foo", "o+", "(a|b)", "a?b", "^f", "r$", ".", "[ab]+", "(a)(b)", "(foo|bar)", "o{2}", "(ab)",
       "x*", "l[0-9]", "^", "$", "fo?", "(o)\\1", "nomatch", "b+", "1|2", "(f|b)(o|a)"]
TPL = ["X", "", "&", "[&]", "<\\1>", "\\&", "Y&Y", "\\u&", "\\U&\\E!", "\\L&", "\\l&z", "a\\\nb", "&\\\n", "\\\n",
       "\\2\\1", "o", "q", "\\Ua&b\\Ec", "-", "a", "%%", "\\0"]
MARKS = "abcxyz"


class Gen:
    def __init__(self, seed, ere=False, **kw):
        self.r = random.Random(seed)
        self.ere = ere
        self.n = 0
        self.names = ["f1", "f2", "g"]
        self.k = kw
        self.pats = ERE if ere else BRE

    # -- pieces --------------------------------------------------------------
    def pick(self, *xs):
        return self.r.choice(xs)

    def word(self):
        self.n += 1
        w = self.r.choice(WORDS)
        return self.pick(w, f"l{self.n}", f"l{self.n} {w}", w + self.r.choice(WORDS))

    def text(self, lo=0, hi=3):
        return [self.word() if self.r.random() < .93 else "" for _ in range(self.r.randint(lo, hi))]

    def pat(self):
        return self.r.choice(self.pats)

    def delim(self, s):
        ds = [d for d in "/////,|!;:#=_" if d not in s]
        return self.r.choice(ds or ["\x01"])

    def off(self):
        return self.pick("", "", "", "", "+1", "-1", "+", "-", "+2", "-2", "--", "++", " 1", "^", "+-", "2+1")

    def one(self):
        x = self.r.random()
        if x < .40:
            a = str(self.r.randint(0, self.k.get("maxline", 7)))
        elif x < .55:
            a = "$"
        elif x < .68:
            a = "."
        elif x < .80:
            a = "'" + self.r.choice(MARKS[:3] if self.r.random() < .9 else MARKS)
        elif x < .95:
            d = self.pick("/", "/", "?")
            p = "" if self.r.random() < .12 else self.pat().replace("/", "\\/").replace("?", "\\?" if d == "?" and not self.ere else "?")
            if d == "?" and "?" in p:
                d = "/"
            a = d + p + d
        else:
            return self.pick("+", "-", "+2", "--", "++", "$-1", "^", "+0", "1 1")
        return a + self.off()

    def addr(self):
        """An address for commands that take one."""
        x = self.r.random()
        return "" if x < .3 else self.one() if x < .96 else self.range()

    def range(self):
        x = self.r.random()
        if x < .25:
            return ""
        if x < .50:
            return self.one()
        if x < .62:
            return self.pick(",", "%", ";", "1,$", "1,3", "2,$", "1,.", ".,$", "2,3", "$-1,$", ",2", "2,", ";+1", ".;+1", ",.")
        if x < .92:
            a, b = self.one(), self.one()
            if self.r.random() < .35:
                u, v = sorted((self.r.randint(1, 6), self.r.randint(1, 6)))
                a, b = str(u), str(v)
            return a + self.pick(",", ",", ";", ";", "%") + b
        return self.pick(",", ";").join(self.one() for _ in range(3))

    def sfx(self, p=.15):
        return self.pick("p", "n", "l", "np", "pl") if self.r.random() < p else ""

    def sp(self):
        return " " if self.r.random() < .05 else ""

    # -- commands: lists of physical lines -----------------------------------
    def c_a(self):
        return [self.addr() + self.sp() + self.pick("a", "a", "i", "c") + self.sfx(.1)] + self.text() + ["."]

    def c_i(self):
        return [self.addr() + "i" + self.sfx(.1)] + self.text() + ["."]

    def c_c(self):
        return [self.range() + "c" + self.sfx(.1)] + self.text() + ["."]

    def c_d(self):
        return [self.range() + "d" + self.sfx()]

    def c_j(self):
        return [self.range() + "j" + self.sfx()]

    def c_m(self):
        return [self.range() + "m" + self.addr() + self.sfx()]

    def c_t(self):
        return [self.range() + "t" + self.addr() + self.sfx()]

    def c_k(self):
        return [self.addr() + "k" + self.r.choice(MARKS[:3])]

    def c_u(self):
        return ["u" + self.sfx()]

    def c_p(self):
        return [self.range() + self.pick("p", "n", "l", "p", "n", "pn", "nl")]

    def c_nl(self):
        return [self.addr()]

    def c_eq(self):
        return [self.addr() + "=" + self.sfx(.1)]

    def c_probe(self):
        return [",n", ".="]

    def c_dot(self):
        return [".="]

    def c_marks(self):
        return ["'" + m + self.pick("p", "n", "=") for m in MARKS[:3]]

    def mods(self):
        return self.pick("", "", "", "", "g", "g", "2", "3", "$", "-1", "$-1", "g2", "2g", "g2g", "1g2", "g$", "g-1",
                         "$g", "+1", "2g3", "1", "g3")

    def c_s(self):
        p, t = self.pat(), self.r.choice(TPL)
        if self.r.random() < .1:
            p = ""
        if self.r.random() < .06:
            t = "%"
        d = self.delim(p + t)
        end = d + self.mods() + self.sfx(.3) if self.r.random() < .9 else ""
        s = self.range() + "s" + d + p + d + t + end
        return s.split("\n")

    def c_sr(self):     # repeat a substitution
        return [self.range() + "s" + self.pick("", "", "g", "p", "gp", "r", "rg", "2", "3", "g2", "rp", "$", "gg", "pp", "-1", "4g", "gr")]

    def simple(self, s):
        """A command for the list of a global: text with escaped newlines."""
        return s

    def gcmd(self):
        x = self.r.random()
        if x < .2:
            return self.c_s_list()
        if x < .3:
            return [self.pick("d", "d", ".,+1d", "-d", "+d", "1d", "$d")]
        if x < .42:
            return [self.pick("m0", "m$", "m.+1", "m-2", ".,+1m0", "m1", "1m.", "+m0", "m2")]
        if x < .52:
            return [self.pick("t.", "t0", "t$", ".,+1t$", "-t.", "1t.")]
        if x < .62:
            return [self.pick("a", "i", "c") ] + self.text(0, 2) + ["."]
        if x < .7:
            return [self.pick("j", ".,+1j", "-,.j")]
        if x < .78:
            return [self.pick("p", "n", ".=", "l", "-p", "=")]
        if x < .82:
            return ["k" + self.r.choice(MARKS[:3])]
        if x < .86:
            return [self.pick("m>1", "t>>1", "m>>", "t>", "<1t.", "<m0", "t>2", "d")]
        if x < .90:
            return ["u"]
        if x < .94:
            return [self.pick("s", "sg", "s2", "sgp", "sp")]
        if x < .97:
            return ["/" + self.pat().replace("/", "\\/") + "/" + self.pick("p", "d", "m0", "t.", "s//X/")]
        return [self.one() + self.pick("p", "d", "n")]

    def c_s_list(self):
        p, t = self.pat(), self.pick("X", "", "&", "[&]", "o", "-", "\\u&", "a\\\nb")
        if self.r.random() < .2:
            p = ""
        d = self.delim(p + t)
        return ("s" + d + p + d + t + d + self.mods() + self.sfx(.2)).split("\n")

    def glist(self):
        ls = []
        for _ in range(self.pick(1, 1, 1, 2, 2, 3)):
            ls += self.gcmd()
        return ls

    def c_g(self):
        d = self.delim("".join(self.pats[:0]))
        p = self.pat() if self.r.random() < .92 else ""
        d = self.delim(p)
        head = self.range_g() + self.pick("g", "g", "v") + d + p + d
        if self.r.random() < .08:
            return [head]
        ls = self.glist()
        # within a list every newline but the last is escaped
        out = []
        for i, l in enumerate(ls):
            esc = l.replace("\\", "\\\\") if l.endswith("\\") else l
            out.append(esc + ("\\" if i < len(ls) - 1 else ""))
        return [head + out[0]] + out[1:]

    def range_g(self):
        return self.pick("", "", "", "", "", ",", "1,3", "2,$", ".,$", "%", "2,4", self.range())

    def c_G(self):
        p = self.pat()
        d = self.delim(p)
        out = [self.range_g() + self.pick("G", "V") + d + p + d + self.pick("", "", "n", "l")]
        for _ in range(self.r.randint(5, 7)):
            x = self.r.random()
            if x < .2:
                out.append("")
            elif x < .4:
                out.append("&")
            else:
                ls = self.gcmd()
                out += [l.replace("\\", "\\\\") + "\\" if l.endswith("\\") else l + "\\" for l in ls[:-1]] + [ls[-1]]
        return out + ["#"]

    # registers and macros
    def reg(self):
        return self.pick("", "1", "2", "3", "1", "2", "0", "9")

    def c_reg(self):
        x = self.r.random()
        q, w = self.reg(), self.reg()
        app = self.pick(">", ">", ">>")
        if x < .3:
            return [self.range() + self.pick("m", "t", "t") + app + q + self.sfx(.05)]
        if x < .6:
            return ["<" + q + self.pick("m", "t", "t") + self.addr() + self.sfx(.1)]
        if x < .9:
            return ["<" + q + self.pick("m", "t") + app + w]
        return [self.range() + "d", "<t" + self.addr()]

    def macro_body(self, depth=0):
        ls = []
        for _ in range(self.r.randint(1, 3)):
            f = self.r.choice([self.c_a, self.c_d, self.c_m, self.c_t, self.c_s, self.c_p, self.c_j, self.c_k,
                               self.c_sr, self.c_g, self.c_nl, self.c_u, self.c_reg, self.c_eq])
            ls += f()
        if self.r.random() < .15:
            ls.append(self.pick("q", "Q", "99p", "@4", "@2", "zork"))
        return ls

    def c_macro(self):
        """Put commands into a register (in the buffer first), then run it."""
        q = self.pick("1", "2", "3", "4", "")
        body = self.macro_body()
        # text that would end the input: a lone period is made by substitution
        put = [self.pick("$a", "0a", "a")]
        fix = []
        for i, l in enumerate(body):
            put.append("%." if l == "." else l)
        n = len(body)
        out = put + ["."]
        if "%." in put:
            out.append(f"-{n - 1},.s/^%\\.$/./" if n > 1 else "s/^%\\.$/./")
            if n > 1:
                out[-1] = f"g/^%\\.$/s//./"
                out += ["/./", "$"] if put[0] == "$a" else []
                out += [f"{n}"] if put[0] == "0a" else []
        if put[0] == "a" and "%." in put:
            out[0] = "$a"
            out += ["$"]
        rng = f".-{n - 1},.m>{q}"
        out.append(rng if q else f".-{n - 1},.m>")
        for _ in range(self.pick(1, 1, 2)):
            out.append(self.addr() + "@" + q)
        return out

    def c_run(self):
        return [self.addr() + "@" + self.reg()]

    # files
    def name(self):
        return self.r.choice(self.names) if self.r.random() < .93 else self.pick("new", "nodir/f")

    def c_w(self):
        x = self.r.random()
        if x < .45:
            return [self.pick("w", "W") + " " + self.name()]
        if x < .6:
            return ["w"]
        return [self.range() + self.pick("w", "W") + " " + self.name()]

    def c_r(self):
        return [self.addr() + "r" + (" " + self.name() if self.r.random() < .85 else "")]

    def c_e(self):
        return [self.pick("e", "e", "E") + (" " + self.name() if self.r.random() < .85 else "")]

    def c_f(self):
        return ["f" + (" " + self.name() if self.r.random() < .5 else "")]

    def c_q(self):
        return [self.pick("q", "q", "q", "wq", "w f1", "Q")]

    # bad commands
    def c_bad(self):
        return [self.pick("99p", "3,1p", "z9z", "pq", "'zp", "/nomatch/d", "?nomatch?p", "kA", "k", "mfoo", "2,3m2",
                          "1,99d", "99a", "s/a", "s", "g/a/g/b/p", "99m0", "m99", "t99", "~p", "<1p", "<1w", "!!",
                          "\\", "up", "1u", "hx", "2h", "1q", "1e f1", "efoo", "wfoo", "s/[/x/", "s/\\(/x/", "/[/p",
                          "1,2k1", "~u", "<t", "d5", "j 3", "&", "o", "y", "D", "A", "S", "N", "99", "-99", "+99p",
                          "''p", "'Ap", "3;1p", "1,2,3", "1 2 3p", "c9", "a9", "99=", "1f", "1h", "1P", "1H", "1Q",
                          "9999999999p", "s/o/x/9x", "99s/a/b/", "99g/a/p", "w nodir/x", "r nofile", "99r f1",
                          "99w f1", "5,2w f1", "99!cat", "0!cat", "0d", "0p", "0j", "0s/a/b/", "0m1", "0t1", "0k", "g",
                          "v", "G", "g ", "s ", "G/a/x", "*", "\"", "`", "'")]

    def c_H(self):
        return [self.pick("H", "h", "h", "P")]

    def c_x(self):
        return ["#" + self.pick("", " comment", "p")]

    # shell
    SH = {"cat": dict(k="cat"), "tr a-z A-Z": dict(k="upper"), "tac": dict(k="rev"), "sort": dict(k="sort"),
          "sed -n 'n;p'": dict(k="even"), "sed p": dict(k="double"), "echo one": dict(k="const", d="one\n"),
          "printf 'p\\nq\\n'": dict(k="const", d="p\nq\n"), "cat - </dev/null": dict(k="const", d=""),
          "cat >/dev/null": dict(k="drop", d=""), "wc -l": dict(k="count"), "true": dict(k="const", d=""),
          "cat >s1": dict(k="save", f="s1"), "cat >>s1": dict(k="append", f="s1"), "cat s1": dict(k="read", f="s1"),
          "exit 3": dict(k="const", d="", st=3), "cat; exit 1": dict(k="cat", st=1),
          "printf abc": dict(k="const", d="abc"), "printf 'a\\000b\\n'": dict(k="const", d="a\0b\n")}

    def shcmd(self, plain, reads=False):
        if plain:
            return self.pick("echo one", "printf 'p\\nq\\n'", "true", "exit 3", "cat s1", "printf abc")
        return self.r.choice(["cat", "tr a-z A-Z", "tac", "sort", "sed -n 'n;p'", "sed p", "cat >/dev/null", "wc -l",
                              "cat >s1", "cat >>s1", "cat; exit 1"]
                             + ([] if reads else ["echo one", "printf 'p\\nq\\n'"]))

    def c_sh(self):
        # a command that reads standard input must not run as plain `!' or `r !'
        x = self.r.random()
        if x < .5:
            return [(self.range() or self.pick(".", "1,2", ",")) + "!" + self.shcmd(False)]
        if x < .6:
            return ["!" + self.shcmd(True)]
        if x < .75:
            return [self.addr() + "r !" + self.shcmd(True)]
        if x < .9:
            return [self.range() + "w !" + self.shcmd(False, True)]
        if x < .93:
            return ["!" + self.shcmd(True), self.pick("!!", "r !!", ".!!", "1,2!!"), self.pick("!!", "r !!")]
        if x < .96:
            return [self.pick(".!!", "1,2!!")]
        return [self.pick("e !printf 'p\\nq\\n'", "E !echo one")]

    # scrolling
    def c_z(self):
        n = self.pick("", "", "", "", "3", "5", "4", "2", "6")
        return [self.addr() + self.pick("z", "z", "z", "Z", "Z", "[", "]") + n + self.sfx(.2)]


def build_lines(g, weights, count):
    ks, ws = list(weights), list(weights.values())
    out = []
    for _ in range(count):
        out += getattr(g, "c_" + g.r.choices(ks, ws)[0])()
    return out


def to_inp(lines):
    return "\n".join(lines) + "\n"
