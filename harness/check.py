"""check.py PROP [TIER]: decide one property on /repo's working tree."""
import json, os, random, shutil, sys, tempfile, time, traceback
import build, pool, profiles, tlc
from session import Session

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "model_checking"
# sessions of the quick tier, chosen so that the check takes about a minute
QUICK = dict(C07=1500, C15=800, C19=700)
QUICK_N = 3000
THOROUGH_S = 720


class Run:
    """What a check has covered and found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.unjudged = 0
        self.samples, self.notes, self.violations, self.parts = [], {}, [], {}
        self.tmp = tempfile.mkdtemp(prefix="edck.")
        os.chmod(self.tmp, 0o755)
        os.environ["ED_SCRATCH"] = self.tmp
        self._ed = {}

    def left(self):
        return THOROUGH_S - (time.time() - self.t0)

    def ed(self, name="ed", flags=None):
        if name not in self._ed:
            self._ed[name] = build.build(self.tmp, name, *([flags] if flags else []))
        return self._ed[name]

    def sample(self, what):
        if len(self.samples) < 4:
            self.samples.append(what)

    def violation(self, kind, data, text):
        d = os.path.join(VERIF, "out")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        f = os.path.join(d, f"{self.prop}-{kind}-{n}.json")
        with open(f, "w") as h:
            json.dump(dict(kind=kind, prop=self.prop, **data), h)
        self.violations.append(f)
        if n < 5:
            print(text)
            print(f"VIOLATION property={self.prop} replay={f}", flush=True)

    # -- sessions against the specification ---------------------------------
    def sessions(self, S, ed=None, timeout=12, confirm=True):
        """Runs S on the editor and validates it; reports what the
        specification rejects twice."""
        ed = ed or self.ed()
        S = pool.run(S, ed, timeout)
        ran = [s for s in S if s.status != -1]
        res, gen, dist = tlc.validate(ran, self.tmp)
        self.transitions += gen
        self.states += dist
        bad = []
        for s, r in zip(ran, res):
            if r[0] == "ACCEPT":
                self.traces += 1
                if len(self.samples) < 3 and len(s.inp) < 400 and len(s.inp) > 60:
                    self.sample(dict(input=s.inp.decode("latin-1"), args=[a.decode("latin-1") for a in s.args], how=s.how,
                                     flags=s.flags, output=s.out.decode("latin-1")[:400], status=s.status))
            elif r[0] == "UNSUP":
                self.unjudged += 1
            else:
                bad.append((s, r))
        if not bad:
            return
        # the same again: a disagreement must be reproducible
        bad = bad[:24]
        again = [Session.load(json.loads(json.dumps(s.dump()))) for s, _ in bad for _ in range(2)]
        again = pool.run(again, ed, timeout, procs=4)
        r2, _, _ = tlc.validate(again, self.tmp)
        for k, (s, r) in enumerate(bad):
            if sum(r2[2 * k + j][0] == "REJECT" for j in (0, 1)) >= 1:
                self.violation("session", dict(session=s.dump(), verdict=list(r)),
                               f"-- the specification does not explain this session ({s.tag}; line {r[1]} of the input): {short(r[3])}")

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=LEVEL,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                                sessions_not_judged=self.unjudged, **self.notes),
                  assumptions=["the specification's environment: POSIX sh, Linux file system, glibc; C locale",
                               "TLC evaluates the specification correctly"],
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        for f in known(self.prop):
            print(f"KNOWN-FINDING: property={self.prop} {f}")
        print(f"{self.prop} {self.tier}: {self.traces} sessions of the real editor explained by the specification, "
              f"{self.unjudged} not judged, {self.states} states, {self.transitions} transitions, "
              f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


def short(x, n=600):
    import re
    x = re.sub(r"<<([\d, ]+)>>", lambda m: repr(bytes(int(v) % 256 for v in m.group(1).split(",") if v.strip()))[1:], x)
    return x[:n]


def known(prop):
    f = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(f):
        return []
    pre = f"KNOWN-FINDING: property={prop} "
    return [l[len(pre):].strip() for l in open(f) if l.startswith(pre)]


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2:] + [os.environ.get("VERIF_TIER", "quick")])[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Run(prop, tier, seed)
    try:
        import extra
        extra.run(r)
        if prop in profiles.PROPS:
            if tier == "quick":
                r.sessions(profiles.batch(prop, str(seed), QUICK.get(prop, QUICK_N)))
            else:
                k = 0
                while r.left() > 0 and not r.violations:
                    t = time.time()
                    r.sessions(profiles.batch(prop, f"{seed}.{k}", QUICK.get(prop, QUICK_N)))
                    k += 1
                    if r.left() < 1.3 * (time.time() - t):
                        break
    except BaseException:
        shutil.rmtree(r.tmp, ignore_errors=True)
        if r.violations:
            traceback.print_exc()
            return 1
        traceback.print_exc()
        return 2
    return r.finish()


if __name__ == "__main__":
    sys.exit(main())
