"""Check context: scratch space, seed, counters, verdicts, evidence, known findings."""
import hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
NCPU = max(2, min(8, os.cpu_count() or 2))
RUN_TIMEOUT = 60          # watchdog per process; firing is inconclusive unless it repeats


class HarnessError(Exception):
    """The check could not do its work: an error, never a verdict."""


class Res:
    __slots__ = ("rc", "out", "err", "timeout", "argv")

    def __init__(self, rc, out, err, timeout, argv):
        self.rc, self.out, self.err, self.timeout, self.argv = rc, out, err, timeout, argv

    def text(self, n=1500):
        return "rc=%s%s\n--stdout--\n%s\n--stderr--\n%s" % (
            self.rc, " TIMEOUT" if self.timeout else "",
            self.out[:n].decode("utf-8", "replace"), self.err[:n].decode("utf-8", "replace"))


class Hangs:
    """Programs under test that do not end. One that hits the watchdog twice is a violation of whatever
    property its check decides; when that goes on, the check ends early instead of waiting for all of them."""
    check, seen, confirmed, lock = None, 0, 0, threading.Lock()

    @classmethod
    def ours(cls, argv):
        """a program built from the code under test, maybe started through another one"""
        c = cls.check
        return c is not None and (str(argv[0]).startswith(c.dir + "/") or os.path.basename(str(argv[0])) in ("valgrind", "setarch", "setpriv", "timeout", "strace"))

    @classmethod
    def stop(cls):
        return cls.confirmed >= 2 or cls.seen >= 14

    @classmethod
    def note(cls, res, again):
        if not cls.ours(res.argv):
            return
        with cls.lock:
            cls.seen += 1
            cls.confirmed += again
        if again or cls.stop():
            cls.check.violation("hang", "does not end (%s watchdog): %s\n%s" % ("repeated" if again else "many programs hit the", " ".join(map(str, res.argv))[:600], res.text(600)), {"argv.txt": repr(res.argv)})


class Stop(HarnessError):
    """The check ends early; the violation was reported."""


def run(argv, stdin=b"", cwd=None, env=None, timeout=RUN_TIMEOUT, preexec=None, stdout=None, pass_fds=(), user=None, hang=True, again=False):
    """Run a process. rc is negative for signals. Never raises for process failures.
    hang: it is expected to end."""
    if Hangs.stop():
        raise Stop("programs under test do not end")
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    e["LC_ALL"] = "C.UTF-8"
    if env:
        e.update(env)
    p = subprocess.Popen([os.fspath(a) for a in argv], stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=stdout if stdout is not None else subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, env=e, preexec_fn=preexec,
                         start_new_session=True, pass_fds=pass_fds,
                         **({"user": user, "group": user, "extra_groups": []} if user is not None else {}))
    try:
        out, err = p.communicate(stdin if stdin is not None else None, timeout=timeout)
        return Res(p.returncode, out or b"", err or b"", False, argv)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            out, err = p.communicate(timeout=10)
        except Exception:
            out, err = b"", b""
        res = Res(None, out or b"", err or b"", True, argv)
        if hang:
            Hangs.note(res, again)
        return res


def run2(argv, **kw):
    """Like run(), but a run that hits the watchdog is repeated once (with a longer limit):
    only a repeated timeout is reported as one."""
    r = run(argv, **kw)
    if r.timeout:
        kw["timeout"] = 2 * kw.get("timeout", RUN_TIMEOUT)
        r = run(argv, again=True, **kw)
    return r


def pmap(fn, items, workers=NCPU):
    """Ordered parallel map over threads (the work is in subprocesses)."""
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


def sha(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return hashlib.sha256(b).hexdigest()[:16]


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vk.%s." % prop, dir="/tmp")
        os.chmod(self.dir, 0o755)
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.violations = []      # (key, text)
        self.known = []
        self.inconclusive = 0
        self.known_list = self._load_known()
        self.replay_dir = os.path.join(VERIF, "replays", prop)

    # ------------------------------------------------------------------ budget
    def n(self, quick, thorough):
        """Case count for the tier."""
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ counting
    def count(self, key, n=1):
        with self.lock:
            self.extra[key] = self.extra.get(key, 0) + n

    def case(self, ident, nontrivial=True):
        """One evaluated case; ident is what makes it distinct."""
        with self.lock:
            self.evaluations += 1
            if nontrivial:
                self.distinct.add(ident if isinstance(ident, str) and len(ident) <= 32 else sha(repr(ident)))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s if isinstance(s, (str, dict, list)) and len(str(s)) < 1500 else str(s)[:1500])

    # ------------------------------------------------------------------ verdicts
    def _load_known(self):
        res = []
        fn = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(fn):
            for line in open(fn):
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % self.prop):
                    # KNOWN-FINDING: property=ID key=<exact key> :: description
                    rest = line.split("key=", 1)
                    if len(rest) == 2:
                        key, _, desc = rest[1].partition(" :: ")
                        res.append((key.strip(), desc.strip()))
        return res

    def violation(self, key, text, files=None):
        """Report a violation. key identifies the specific failing input/site (matched against
        known_findings.txt); text explains it; files {name: bytes/str} make it replayable."""
        with self.lock:
            for k, desc in self.known_list:
                if k == key:
                    if k not in [x for x, _ in self.known]:
                        self.known.append((k, desc))
                    return
            if len(self.violations) >= 25:
                self.violations.append((key, ""))
                return
            d = os.path.join(self.replay_dir, "%03d" % len(self.violations))
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "what.txt"), "w", errors="surrogateescape") as f:
                f.write("property=%s seed=%d tier=%s\nkey=%s\n\n%s\n" % (self.prop, self.seed, self.tier, key, text))
            for name, data in (files or {}).items():
                mode = "wb" if isinstance(data, bytes) else "w"
                p = os.path.join(d, name.replace("/", "_"))
                with open(p, mode, **({} if mode == "wb" else {"errors": "surrogateescape"})) as f:
                    f.write(data)
            self.violations.append((key, d))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  key: %s" % key)
            for l in str(text).splitlines()[:12]:
                print("  | " + l[:300])
            sys.stdout.flush()

    def inconcl(self, why):
        with self.lock:
            self.inconclusive += 1
            self.extra.setdefault("inconclusive_reasons", [])
            if len(self.extra["inconclusive_reasons"]) < 5:
                self.extra["inconclusive_reasons"].append(str(why)[:300])

    # ------------------------------------------------------------------ end
    def evidence(self):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples}
        cov.update(self.extra)
        cov["inconclusive"] = self.inconclusive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def mkdir(self, *p):
        d = self.path(*p)
        os.makedirs(d, exist_ok=True)
        return d

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def main(prop, fn):
    """Run check function fn(c) for a property; exit 0 / 1 as documented, 2 on a harness error."""
    c = Hangs.check = Check(prop)
    shutil.rmtree(c.replay_dir, ignore_errors=True)
    code = 2
    try:
        fn(c)
        c.evidence()
        for k, d in c.known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, d, k))
        if c.violations:
            code = 1
        elif c.evaluations == 0 or not c.distinct:
            print("ERROR: nothing was observed")
            code = 2
        elif c.inconclusive > max(3, c.evaluations // 5):
            print("ERROR: %d of %d cases were inconclusive" % (c.inconclusive, c.evaluations))
            code = 2
        else:
            code = 0
        print("%s: %s tier=%s seed=%d evaluations=%d distinct=%d inconclusive=%d violations=%d %.1fs" % (
            prop, "held on what was observed" if code == 0 else "NOT OK", c.tier, c.seed, c.evaluations,
            len(c.distinct), c.inconclusive, len(c.violations), time.time() - c.t0))
    except HarnessError as e:
        # a violation that was already shown stays a violation
        print("ERROR: harness: %s" % e)
        c.extra["harness_error"] = str(e)[:500]
        c.evidence()
        code = 1 if c.violations else 2
    except Exception:
        traceback.print_exc()
        c.extra["harness_error"] = traceback.format_exc()[-500:]
        try:
            c.evidence()
        except Exception:
            pass
        code = 1 if c.violations else 2
    finally:
        c.cleanup()
    sys.stdout.flush()
    sys.exit(code)
