"""Builds translation units out of (pattern, words) tasks, runs them against
the reference model and turns what they print into verdicts and evidence."""
import concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("E_REGEX_REPO", "/repo")
SRC = os.path.join(REPO, "src")
LIB = os.path.join(VERIF, "lib")
CXX = "g++"
FLAGS = ["-std=c++23", "-w", "-O0", "-ftemplate-depth=4000", "-fconstexpr-ops-limit=2000000000",
         "-fconstexpr-loop-limit=10000000", "-fconstexpr-depth=20000", "-I" + SRC, "-I" + LIB]
JOBS = int(os.environ.get("E_REGEX_JOBS", str(os.cpu_count() or 4)))
MEMORY = 4 << 30
ENOUGH = 4          # violations after which exploring further is pointless

RUN, TREE, DESCRIBED, API, RANGE, WALK, CTAPI, EXPRESSION = 1, 2, 4, 8, 16, 32, 64, 128
MAINS = {"main": ["-O2"], "main_big": ["-O2", "-DREF_GROUPS=80"], "main_huge": ["-O2", "-DREF_GROUPS=300"]}   # the second one for patterns with many groups


class Broken(Exception):
    """The machinery itself could not do its work"""


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]     # how deep matching or compiling recurses is not what is checked
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 30 if hard == resource.RLIM_INFINITY else min(hard, 1 << 30), hard))
    os.setsid()


def call(cmd, timeout, cwd=None, stdin=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=limits,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, b"", b"timeout"


def lit(b):
    """bytes as a C++ string literal"""
    return '"' + "".join(chr(c) if chr(c).isalnum() and c < 128 else "\\%03o" % c for c in b) + '"'


def text(b):
    return "".join(chr(c) if 0x20 <= c < 0x7f else "\\x%02x" % c for c in b)


def word_count(letters, n):
    return sum(letters ** i for i in range(n + 1))


class Fam:
    """A set of words: all of those over alphabet up to max, or a list"""

    def __init__(self, alphabet=b"", max=0, words=None):
        self.alphabet, self.max, self.words = alphabet, max, None if words is None else tuple(words)

    def key(self):
        return (self.alphabet, self.max, self.words)

    def size(self):
        return len(self.words) if self.words is not None else word_count(len(self.alphabet), self.max)

    def all(self):
        if self.words is not None:
            return list(self.words)
        out, last = [b""], [b""]
        for _ in range(self.max):
            last = [w + bytes([c]) for w in last for c in self.alphabet]
            out += last
        return out

    def describe(self):
        if self.words is not None:
            return "%d listed words" % len(self.words)
        return "all words over '%s' up to length %d" % (text(self.alphabet), self.max)


class Task:
    """A pattern with the words it is explored on"""

    def __init__(self, pattern, fam, mode, flags=RUN, ct=0):
        self.pattern = pattern.encode("latin-1") if isinstance(pattern, str) else pattern
        self.fam, self.mode, self.flags, self.ct = fam, mode, flags, ct


class Lab:
    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix="e-regex-%s-" % prop)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.start = time.time()
        self.lock = threading.Lock()
        self.violations = []      # dicts
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, patterns=0, accepted=0,
                        rejected=0, outcomes=0, compiled_units=0)
        self.samples = []
        self.bounds = []
        self.extra = {}
        self.assumptions = []
        self.capped = False
        self.known = load_known(prop)
        self.known_seen = {}
        self.n = 0
        self.trees = None

    # -------------------------------------------------------------- building
    def path(self, *p):
        return os.path.join(self.dir, *p)

    def prepare(self):
        shutil.copy(os.path.join(LIB, "harness.hpp"), self.path("harness.hpp"))
        shutil.copy(os.path.join(LIB, "iface.hpp"), self.path("iface.hpp"))

        def pch():
            r = call([CXX] + FLAGS + ["-x", "c++-header", self.path("harness.hpp"), "-o", self.path("harness.hpp.gch")], 300)
            if r[0] != 0:
                raise Broken("the headers of /repo do not compile: " + first_error(r[2]))

        def main(name):
            done = os.path.join(VERIF, "build", name + ".o")
            srcs = [os.path.join(LIB, f) for f in ("main.cpp", "ref.hpp", "iface.hpp")]
            if os.path.exists(done) and all(os.path.getmtime(done) > os.path.getmtime(s) for s in srcs):
                shutil.copy(done, self.path(name + ".o"))
                return
            build_main(name, self.path(name + ".o"))

        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(pch)] + [ex.submit(main, n) for n in MAINS]:
                f.result()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def unit(self, tasks):
        fams, order = {}, []
        for t in tasks:
            k = t.fam.key()
            if k not in fams:
                fams[k] = len(order)
                order.append(t.fam)
        s = ['#include "harness.hpp"\n']
        if any(t.flags & TREE for t in tasks):
            s.append('#include "tree.hpp"\n')
        for i, f in enumerate(order):
            if f.words is not None:
                s.append("static constexpr std::string_view w%d[] = {%s};\n"
                         % (i, ", ".join("std::string_view(%s, %d)" % (lit(w), len(w)) for w in f.words) or "std::string_view()"))
        cts = {}
        for t in tasks:
            if t.ct:
                k = (fams[t.fam.key()], t.ct)
                if k not in cts:
                    cts[k] = "ct%d_%d" % k
                    ws = t.fam.all()[:t.ct]
                    s.append("static constexpr std::array<std::string_view, %d> %s {%s};\n"
                             % (len(ws), cts[k], ", ".join("std::string_view(%s, %d)" % (lit(w), len(w)) for w in ws)))
        s.append("const Family families[] = {\n")
        for i, f in enumerate(order):
            if f.words is not None:
                s.append("{nullptr, 0, 0, w%d, %d},\n" % (i, len(f.words)))
            else:
                s.append("{%s, %d, %d, nullptr, 0},\n" % (lit(f.alphabet), len(f.alphabet), f.max))
        s.append("};\nconst Entry entries[] = {\n")
        for t in tasks:
            p = lit(t.pattern)
            ct = ", " + cts[(fams[t.fam.key()], t.ct)] if t.ct else ""
            s.append("h::make<%s, %d%s>(%s, %d),\n" % (p, t.flags, ct, p, fams[t.fam.key()]))
        s.append("};\nconst int entries_count = %d;\n" % len(tasks))
        return "".join(s)

    def compile(self, tasks, name, timeout=400):
        cpp, obj, exe = self.path(name + ".cpp"), self.path(name + ".o"), self.path(name)
        with open(cpp, "w") as f:
            f.write(self.unit(tasks))
        r = call([CXX] + FLAGS + ["-include", self.path("harness.hpp"), "-I" + self.dir, "-c", cpp, "-o", obj], timeout)
        if r[0] == 0:
            main = "main" if not tasks[0].mode.startswith("walk") else "main_big" if all(t.pattern.count(b"(") <= 80 for t in tasks) else "main_huge"
            l = call([CXX, obj, self.path(main + ".o"), "-o", exe], 120)
            if l[0] != 0:
                raise Broken("link: " + first_error(l[2]))
            os.unlink(obj)
        else:
            # a compiler that was killed says nothing about /repo, unless it is alone and still dies
            pass
        os.unlink(cpp)
        return r[0] == 0, first_error(r[2]), exe

    def has_trees(self):
        """Whether the tree of a regex before any optimization can be had (see lib/tree.hpp)"""
        if self.trees is None:
            fam = Fam(words=[b"", b"ab"])
            self.trees = any(self.compile([Task(p, fam, "equivalent", RUN | TREE)], self.name(), 200)[0] for p in ("a", "(a*)b"))
        return self.trees

    # -------------------------------------------------------------- running
    def explore(self, tasks, label, per_unit=96):
        """Compile and run everything; fills violations and coverage"""
        units = [[]]
        for mode in dict.fromkeys(t.mode for t in tasks):
            some = [t for t in tasks if t.mode == mode]
            k = max(1, min(per_unit, -(-len(some) // JOBS)))
            units += [some[i:i + k] for i in range(0, len(some), k)]
        units = [u for u in units if u]
        fams = {}
        for t in tasks:
            fams[t.fam.describe()] = fams.get(t.fam.describe(), 0) + 1
        top = sorted(fams.items(), key=lambda x: -x[1])
        self.bounds.append({"what": label, "patterns": len(tasks), "modes": sorted({t.mode for t in tasks}),
                            "words": ["%s (%d patterns)" % x for x in top[:12]] + (["and %d other sets of words" % (len(top) - 12)] if len(top) > 12 else [])})
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futures = [ex.submit(self.work, u) for u in units]
            try:
                for f in futures:
                    f.result()
            except BaseException:
                for f in futures:
                    f.cancel()
                raise

    def name(self):
        with self.lock:
            self.n += 1
            return "u%d" % self.n

    def enough(self):
        return len(self.violations) >= ENOUGH

    def work(self, tasks):
        if self.enough():
            self.capped = True
            return
        ok, why, exe = self.compile(tasks, self.name(), max(40, 2.5 * len(tasks)) if len(tasks) > 1 else 120)
        if not ok:
            if len(tasks) == 1:
                self.fail(tasks[0], None, "is not accepted at compile time: " + why)
                return
            part = -(-len(tasks) // (8 if "timeout" in why else 2))
            for i in range(0, len(tasks), part):
                self.work(tasks[i:i + part])
            return
        mode = tasks[0].mode
        code, out, err = call([exe, mode], 3600)
        os.unlink(exe)
        lines = out.decode("latin-1").splitlines()
        if code != 0 or not lines or lines[-1] != "E":
            raise Broken("the runner ended with %s: %s %s" % (code, lines[-2:], err[-300:]))
        crashed = None
        for l in lines:
            f = l.split("\t")
            if f[0] == "V":
                w = b"" if f[2] == "-" else bytes.fromhex(f[2])
                if f[3].startswith("(outside"):
                    raise Broken(f[3])
                self.fail(tasks[int(f[1])], w, f[3])
                crashed = int(f[1])
            elif f[0] == "S":
                crashed = None
                with self.lock:
                    for k, v in zip(("states", "transitions", "traces_validated_against_impl", "accepted", "rejected", "outcomes"), f[1:7]):
                        self.cov[k] += int(v)
                    self.cov["patterns"] += len(tasks)
                    self.cov["compiled_units"] += 1
                    if f[7] and len(self.samples) < 8:
                        self.samples.append(f[7])
        if crashed is not None and crashed + 1 < len(tasks) and not self.enough():
            self.work(tasks[crashed + 1:])

    # ----------------------------------------------------------- violations
    def fail(self, task, word, what):
        known = self.known.get((task.pattern, word))
        with self.lock:
            if known is not None:
                self.known_seen[(task.pattern, word)] = known
                return
            if self.enough():
                return
        if what == "does not end" and self.slow(task, word):
            with self.lock:
                self.extra.setdefault("too_slow_to_decide", [])
                self.extra["too_slow_to_decide"].append("/%s/ on %d bytes and longer words" % (text(task.pattern), len(word)))
            return
        v = dict(property=self.prop, pattern=text(task.pattern), pattern_hex=task.pattern.hex(),
                 word=None if word is None else text(word), word_hex=None if word is None else word.hex(),
                 mode=task.mode, flags=task.flags, what=what)
        if task.ct:
            # compile time words are those of the task's family
            v["ct"] = task.ct
            v["fam"] = dict(alphabet=task.fam.alphabet.hex(), max=task.fam.max,
                            words=None if task.fam.words is None else [w.hex() for w in task.fam.words])
        again = self.replay(v)
        if again is None and not task.ct:
            # maybe only after the words before it
            f = task.fam
            v["fam"] = dict(alphabet=f.alphabet.hex(), max=f.max, words=None if f.words is None else [w.hex() for w in f.words])
            again = self.replay(v, alone=False)
        if again is None:
            raise Broken("a violation does not happen again when replayed alone: %r" % v)
        v["replayed"] = again
        with self.lock:
            self.violations.append(v)

    def slow(self, task, word):
        """Whether a history that was stopped would have ended, as the time that shorter words take tells"""
        if len(word) < 2000:
            return False
        ok, why, exe = self.compile([Task(task.pattern, Fam(words=[word[:len(word) >> k] for k in (1, 2, 3)]), task.mode, task.flags)], self.name(), 600)
        if not ok:
            return False
        try:
            for k in (1, 2, 3):
                start = time.time()
                code, out, err = call([exe, task.mode, "0", self.argument(word[:len(word) >> k])], 600)
                if b"does not end" not in out:
                    # what is stopped after 10 s and takes n^4 took more than this for half the word
                    return time.time() - start > 0.6
            return False
        finally:
            os.unlink(exe)

    def replay(self, v, alone=True):
        """Builds a unit with that pattern alone and runs that history; what fails, or None"""
        word = None if v["word_hex"] is None else bytes.fromhex(v["word_hex"])
        if v.get("fam"):
            f = v["fam"]
            fam = Fam(bytes.fromhex(f["alphabet"]), f["max"], None if f["words"] is None else [bytes.fromhex(w) for w in f["words"]])
        else:
            fam = Fam(words=[word or b""])
        t = Task(bytes.fromhex(v["pattern_hex"]), fam, v["mode"], v["flags"], v.get("ct", 0))
        ok, why, exe = self.compile([t], self.name(), 600)
        if not ok:
            return "is not accepted at compile time: " + why
        if word is None:
            return None
        code, out, err = call([exe, t.mode] + (["0", self.argument(word)] if alone else []), 600)
        for l in out.decode("latin-1").splitlines():
            f = l.split("\t")
            if f[0] == "V":
                return f[3]
        return None

    def argument(self, word):
        """A word as an argument of a runner"""
        if len(word) < 20000:
            return word.hex() or "-"
        path = self.path(self.name() + ".word")
        with open(path, "w") as f:
            f.write(word.hex())
        return "@" + path

    def custom_violation(self, what, details):
        """A violation found by other means than a task (already replayed)"""
        with self.lock:
            if not self.enough():
                self.violations.append(dict(property=self.prop, what=what, **details))

    # -------------------------------------------------------------- verdict
    def finish(self, notes=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples[:8] or ["(none)"]
        cov["exhaustive"] = not self.capped and not self.violations
        cov["bounds"] = self.bounds
        cov.update(self.extra)
        if notes:
            cov["notes"] = notes
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed,
                  level="model_checking", coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.start, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for (p, w), what in sorted(self.known_seen.items(), key=str):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for i, v in enumerate(self.violations):
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            if "pattern" in v:
                print("  /%s/ on %s %s" % (short(v["pattern"]), "any query" if v["word"] is None else "'%s'" % short(v["word"]), v["what"]))
            else:
                print("  " + v["what"])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s: %s; %d patterns, %d states, %d transitions, %d histories compared, %.1f s"
              % (self.prop, "violated" if self.violations else "holds on everything explored", cov["patterns"], cov["states"],
                 cov["transitions"], cov["traces_validated_against_impl"], time.time() - self.start))
        return 1 if self.violations else 0


def first_error(err):
    t = err.decode("latin-1")
    lines = t.splitlines()
    for l in lines:
        if "error:" in l or "timeout" in l or "fatal" in l:
            return l.strip()[-400:]
    return (lines[-1] if lines else "no message")[-400:]


def short(s):
    return s if len(s) <= 200 else s[:90] + "..." + s[-90:] + " (%d characters)" % len(s)


def build_main(name, out):
    r = call([CXX, "-std=c++23", "-w", "-I" + LIB] + MAINS[name] + ["-c", os.path.join(LIB, "main.cpp"), "-o", out], 600)
    if r[0] != 0:
        raise Broken("main.cpp: " + first_error(r[2]))


def setup():
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(build_main, n, os.path.join(VERIF, "build", n + ".o")) for n in MAINS]:
            f.result()


def load_known(prop):
    """known-findings.json: entries of this property with a pattern and a word suppress that one history"""
    out = {}
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        for k in json.load(f)["known"]:
            if k["property"] == prop:
                out[(bytes.fromhex(k["pattern_hex"]), None if k["word_hex"] is None else bytes.fromhex(k["word_hex"]))] = k["what"]
    return out
