#!/usr/bin/env python3
"""Runs one property's check: builds the monitors against /repo's working tree,
drives them, and judges how they end.

  run.py PROP            quick or thorough, by VERIF_TIER
  run.py setup           builds everything once
  run.py replay FILE     runs a case a check reported

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not run.
"""
import concurrent.futures, glob, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
DEEP = TIER == "thorough"
N = max(2, min(8, os.cpu_count() or 4))
GIB = 1 << 30
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST", "GQLMON", "ASAN_", "TSAN_", "MSAN_", "MIRI")) and k != "CARGO_HOME" and k != "RUSTUP_HOME":
            del e[k]
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


# name -> (toolchain, cargo arguments, rustflags, path of the binary)
BUILDS = {
    "main": (None, ["build", "--release"], "", "release/gqlmon"),
    "texts": (None, ["build", "--release", "--features", "texts"], "", "release/gqlmon"),
    # the library's edges and comparisons counted; see cov-rustc.sh
    "cov": (None, ["build", "--release", "--features", "cov"], "", "release/gqlmon"),
    "dev": (None, ["build"], "", "debug/gqlmon"),
    "plain": (None, ["build", "--profile", "plain"], "", "plain/gqlmon"),
    "asan": ("nightly", ["build", "--release", "--target", TRIPLE],
             "-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer", TRIPLE + "/release/gqlmon"),
    "tsan": ("nightly", ["build", "--release", "--target", TRIPLE],
             "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer", TRIPLE + "/release/gqlmon"),
    # the standard library as well: what it writes has to count as written
    "msan": ("nightly", ["build", "--release", "-Zbuild-std", "--target", TRIPLE],
             "-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cunsafe-allow-abi-mismatch=sanitizer", TRIPLE + "/release/gqlmon"),
    "miri": ("nightly", ["miri", "run", "--profile", "plain"], "", None),
}


def cargo(name, extra=()):
    tool, args, flags, _ = BUILDS[name]
    e = base_env()
    if tool:
        e["RUSTUP_TOOLCHAIN"] = tool
    if flags:
        e["RUSTFLAGS"] = flags
    if name == "cov":
        e["RUSTC_WRAPPER"] = os.path.join(HARNESS, "cov-rustc.sh")
    cmd = ["cargo"] + args + ["--offline", "--target-dir", os.path.join(TARGET, name)] + list(extra)
    return cmd, e


def forget(name):
    """cargo goes by file times; what is built must be what lies there now"""
    d = os.path.join(TARGET, name)
    for p in glob.glob(os.path.join(d, "*", ".fingerprint", "g*")) + glob.glob(os.path.join(d, "*", "*", ".fingerprint", "g*")):
        if re.search(r"/(graphql-parser|gqlmon|gqlinst)-[0-9a-f]+$", p):
            shutil.rmtree(p, ignore_errors=True)


def build(names):
    """builds at once; gives name -> command"""
    procs = {}
    for n in names:
        forget(n)
        os.makedirs(os.path.join(TARGET, n), exist_ok=True)
        if n == "miri":
            # the first run builds the sysroot and the harness
            cmd, e = cargo(n, ["--", "nothing"])
            e["MIRIFLAGS"] = MIRIFLAGS
        else:
            cmd, e = cargo(n)
        lg = open(os.path.join(TARGET, n + ".log"), "w")
        procs[n] = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=lg, stderr=subprocess.STDOUT)
    out = {}
    for n, p in procs.items():
        if p.wait() != 0:
            tail = open(os.path.join(TARGET, n + ".log"), errors="replace").read()[-20000:]
            raise CheckError("build %s failed:\n%s" % (n, tail))
        b = BUILDS[n][3]
        out[n] = [os.path.join(TARGET, n, b)] if b else None
    log("built", " ".join(names))
    return out


MIRIFLAGS = "-Zmiri-disable-isolation"


# ---------------------------------------------------------------- workers

class Violation(Exception):
    def __init__(self, message, case=None, extra=None):
        super().__init__(message)
        self.message, self.case, self.extra = message, case, extra


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def kill(p):
    """a worker and what it started"""
    if p.poll() is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def counter(path):
    try:
        with open(path, "rb") as f:
            return f.read(24).split(b"\n")[0]
    except OSError:
        return b""


def read_case(path):
    """the case without comment lines, cut to its length"""
    with open(path, "rb") as f:
        b = f.read()
    while b.startswith(b"%"):
        b = b[b.index(b"\n") + 1:]
    i = b.index(b"\n")
    n = int(b[:i].split()[2])
    return b[:i + 1 + n]


SANITIZER = re.compile(r"(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|error: deadlock[^\n]*|error: the main thread terminated[^\n]*)")


def sanitizer_report(text):
    m = SANITIZER.search(text)
    if not m:
        return None
    rest = text[m.start():]
    frames = re.findall(r"(?:#\d+ [^\n]*|--> [^\n]*)", rest)
    return m.group(1).strip() + " | " + " | ".join(f.strip() for f in frames[:8])


class Phase:
    def __init__(self, prop, name, cmd, count, secs, env=None, hang=30, workers=None, cwd=None, kind="native"):
        self.prop, self.name, self.cmd, self.count, self.secs = prop, name, cmd, count, secs
        self.env = base_env()
        self.env.update(env or {})
        self.hang, self.workers, self.cwd, self.kind = hang, workers or N, cwd, kind
        self.dir = tempfile.mkdtemp(prefix="%s-%s-" % (prop, name), dir=OUT)
        self.stats = {"evaluations": 0, "random": 0, "nontrivial": 0, "calls": 0}
        self.seen, self.samples, self.hashes, self.missing = {}, [], set(), 0

    def args(self, k):
        return self.cmd + ["run", self.prop, str(k), str(self.workers), str(SEED), TIER, str(self.count), str(self.secs), self.dir]

    def start(self):
        self.procs = {}
        for k in range(self.workers):
            err = open(os.path.join(self.dir, "%d.err" % k), "wb")
            self.procs[k] = subprocess.Popen(self.args(k), env=self.env, stdout=err, stderr=subprocess.STDOUT, cwd=self.cwd or self.dir, start_new_session=True)
        self.mark = {k: (b"", 0.0) for k in self.procs}
        self.done = {}

    def stop(self):
        for p in self.procs.values():
            kill(p)
        for p in self.procs.values():
            p.wait()

    def err(self, k):
        try:
            with open(os.path.join(self.dir, "%d.err" % k), errors="replace") as f:
                return f.read()[-200000:]
        except OSError:
            return ""

    def confirm(self, case, cpu):
        """runs one case in a process of its own"""
        f = os.path.join(self.dir, "confirm.case")
        with open(f, "wb") as o:
            o.write(case)
        lg = os.path.join(self.dir, "confirm.err")
        with open(lg, "wb") as e:
            p = subprocess.Popen(self.cmd + ["one", self.prop, f], env=self.env, stdout=e, stderr=subprocess.STDOUT, cwd=self.dir)
            wall = time.time()
            while p.poll() is None:
                time.sleep(0.05)
                if cpu_of(p.pid) > cpu or time.time() - wall > 20 * cpu:
                    slow = cpu_of(p.pid) > cpu
                    p.kill()
                    p.wait()
                    return ("hang" if slow else "stuck"), ""
        return p.returncode, open(lg, errors="replace").read()

    def judge(self, k, code):
        """how worker k ended"""
        err = self.err(k)
        d = self.dir
        if code == 0:
            rep = sanitizer_report(err)
            if rep:
                raise Violation(rep, extra=err)
            return
        if code == 10:
            msg = open("%s/%d.message" % (d, k), errors="replace").read()
            raise Violation(msg, open("%s/%d.fail" % (d, k), "rb").read())
        rep = sanitizer_report(err)
        cur = "%s/%d.current" % (d, k)
        try:
            case = read_case(cur)
        except (OSError, ValueError, IndexError):
            case = None
        if rep:
            raise Violation(rep, case, err)
        if code == 2:
            raise CheckError("worker: " + err[-1500:])
        if code == "hang":
            how, text = self.confirm(case, 2 * self.hang)
            if how == "hang":
                raise Violation("the call does not return (%d s of CPU time)" % (2 * self.hang), self.smaller(case))
            if how == 0:
                raise CheckError("worker made no progress, but the case alone does: inconclusive")
            raise CheckError("worker made no progress; the case alone ends with %s %s" % (how, text[-500:]))
        if isinstance(code, int) and code < 0:
            name = signal.Signals(-code).name
            for _ in range(2):
                how, text = self.confirm(case, 2 * self.hang)
                if how == 10:
                    raise Violation(text.strip(), case)
                if isinstance(how, int) and how < 0:
                    raise Violation("the process dies of %s: %s" % (signal.Signals(-how).name, last_line(text)), self.smaller(case))
            if name in ("SIGSEGV", "SIGABRT", "SIGBUS", "SIGILL", "SIGFPE", "SIGTRAP"):
                # does not happen to the case alone: the whole run is the witness
                p = subprocess.run(self.args(k), env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.dir)
                if p.returncode < 0 and p.returncode != -signal.SIGKILL:
                    raise Violation("the process dies of %s after %s cases (again when repeated): %s" % (name, counter(cur).decode()[1:], last_line(err)), case,
                                    "command: %s\n" % " ".join(self.args(k)))
            raise CheckError("worker died of %s, which does not happen again: inconclusive; %s" % (name, err[-300:]))
        raise CheckError("worker ended with %s: %s" % (code, err[-1500:]))

    def smaller(self, case):
        """a shorter case that still kills the process: halves only"""
        head, text = case.split(b"\n", 1)
        h = head.split()
        best = text
        end = time.time() + 40
        n = 2
        while time.time() < end and n <= 64 and len(best) > 1:
            size = max(1, len(best) // n)
            for i in range(0, len(best), size):
                t = best[:i] + best[i + size:]
                try:
                    t.decode()
                except UnicodeDecodeError:
                    continue
                c = b"%s %s %d\n" % (h[0], h[1], len(t)) + t
                how, _ = self.confirm(c, 5)
                if isinstance(how, int) and how < 0:
                    best = t
                    break
                if time.time() > end:
                    break
            else:
                n *= 2
        return b"%s %s %d\n" % (h[0], h[1], len(best)) + best

    def step(self):
        """one look at the workers; True while some run"""
        for k, p in self.procs.items():
            if k in self.done:
                continue
            c = p.poll()
            if c is not None:
                self.done[k] = c
                self.judge(k, c)
                self.collect(k)
                continue
            now, cpu = counter("%s/%d.current" % (self.dir, k)), cpu_of(p.pid)
            was, at = self.mark[k]
            if now != was:
                self.mark[k] = (now, cpu)
            elif cpu - at > self.hang:
                kill(p)
                p.wait()
                self.done[k] = "hang"
                if os.path.exists("%s/%d.result" % (self.dir, k)):
                    # it was shrinking a failure
                    self.judge(k, 10)
                self.judge(k, "hang")
        return len(self.done) < len(self.procs)

    def collect(self, k):
        with open("%s/%d.result" % (self.dir, k), errors="replace") as f:
            for l in f.read().split("\n"):
                x = l.split("\t")
                if x[0] in self.stats:
                    self.stats[x[0]] += int(x[1])
                elif x[0] == "seen":
                    self.seen[x[1]] = self.seen.get(x[1], 0) + int(x[2])
                elif x[0] == "sample" and len(self.samples) < 12:
                    self.samples.append(x[1][:300])
        with open("%s/%d.hashes" % (self.dir, k), "rb") as f:
            b = f.read()
        self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))


def last_line(t):
    l = [x for x in t.split("\n") if x.strip()]
    return " / ".join(l[-3:])[-400:]


def drive(phases):
    """runs phases, all their workers at once"""
    try:
        for p in phases:
            p.start()
        live = list(phases)
        while live:
            live = [p for p in live if p.step()]
            time.sleep(0.05)
    finally:
        for p in phases:
            if hasattr(p, "procs"):
                p.stop()
    for p in phases:
        log("%s/%s: %d cases (%d random), %d distinct" % (p.prop, p.name, p.stats["evaluations"], p.stats["random"], len(p.hashes)))
        if p.stats["evaluations"] == 0:
            raise CheckError("phase %s observed nothing" % p.name)


# ---------------------------------------------------------------- properties

RANDOM = {  # random cases of a quick run: about ten seconds on eight cores
    "T01": 120000, "L01": 1600000, "L02": 1600000, "A01": 1000000, "A02": 1000000, "V01": 1000000,
    "X01": 1000000, "X02": 1200000, "X03": 1000000, "X04": 1000000, "J01": 500000, "F01": 300000, "F02": 300000, "F03": 300000, "F04": 150000,
    "I01": 350000, "M01": 500000, "C01": 700000, "D01": 400000, "G01": 100000, "S01": 100000,
    "H01": 4000, "N01": 100000, "Q01": 150000, "E01": 3000000, "W01": 400,
}
GUIDED = {  # cases led by coverage, of a quick run
    "T01": 60000, "L01": 400000, "L02": 400000, "A01": 250000, "A02": 250000, "V01": 250000,
    "X01": 200000, "X02": 400000, "X03": 250000, "X04": 250000, "F01": 50000, "F02": 50000, "F04": 40000,
    "I01": 120000, "M01": 200000, "C01": 250000, "D01": 150000, "Q01": 30000, "N01": 40000,
}
RULE = {
    "T01": "a non-empty text through every entry point, printer, error and conversion, in an optimised and an unoptimised build",
    "L01": "a text of at least two tokens, judged by a reference lexer and parser of the query grammar",
    "L02": "a text of at least two tokens, judged by a reference lexer and parser of the type system grammar",
    "A01": "an accepted query document whose AST is compared, node by node, with the reference parser's",
    "A02": "an accepted schema document whose AST is compared, node by node, with the reference parser's",
    "V01": "a document with at least one literal or description, decoded by the reference decoder as well",
    "X01": "an accepted document with at least one position compared",
    "X02": "a rejected text whose error does not lie at its very start",
    "X03": "a rejected text whose error is about a token or the end, the expected tokens tried in its place",
    "X04": "a rejected text whose error is about an invalid token, a literal that cannot be decoded, an empty extension or a bad root operation",
    "J01": "two or more documents of which the first accepted ones and at most one error after them are compared with the joined text",
    "F01": "an accepted query document, printed in up to four styles and parsed again",
    "F02": "an accepted schema document, printed in up to four styles and parsed again",
    "F03": "an AST built in code from more than one character of input, printed in three styles and read by the reference parser",
    "F04": "an accepted document, printed in up to four styles and compared with an independent printer, byte by byte",
    "I01": "a text of at least two tokens, compared with three texts that differ in ignored text only",
    "M01": "an accepted document, or a text with an invalid token after at least one token, minified",
    "C01": "a text with at least one definition, or more than one token",
    "D01": "a text whose brackets nest at least two deep",
    "G01": "a text of at least two bytes, parsed and printed through four text representations",
    "Q01": "an accepted document compared with its clone and with the ASTs of texts that differ in one token",
    "S01": "a text of at least two bytes, with detached ASTs used after it was freed, natively, under AddressSanitizer, MemorySanitizer and Miri",
    "H01": "a group of at least two texts, each called in several histories, threads and places",
    "W01": "a construct or a random repetition, measured at two sizes a factor of 32 apart (nesting: 8 and 46 levels)",
    "N01": "a non-empty text through every entry point, printer, error and conversion, on a thread whose system calls are filtered",
    "E01": "a text tried as the name of a directive location",
}
SANITIZER_ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=77",
    "GQLMON_STACK": str(64 << 20),
    "RUST_MIN_STACK": str(64 << 20),
}


def phases_of(prop, bins):
    count = RANDOM[prop] * (40 if DEEP else 1)
    secs = 400 if DEEP else 60
    native = {"GQLMON_CAP": str(3 * GIB)}
    guided = []  # a list of one group
    if prop in GUIDED:
        e = dict(native, GQLMON_RANDOM_ONLY="1", GQLMON_GUIDED=str(GUIDED[prop] * (25 if DEEP else 1)))
        guided = [[Phase(prop, "guided", bins["cov"], 0, 250 if DEEP else 40, e)]]
    if prop == "T01":
        return [[Phase(prop, "optimised", bins["main"], count, secs, native)],
                [Phase(prop, "unoptimised", bins["dev"], count // 20, 150 if DEEP else 40, dict(native, GQLMON_EVERY="1" if DEEP else "7", GQLMON_MAX="200000"), hang=60)]] + guided
    if prop == "G01":
        return [[Phase(prop, "texts", bins["texts"], count, secs, native)]]
    if prop == "S01":
        miri_cmd, e = cargo("miri", ["-q", "--"])
        miri = {"RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": MIRIFLAGS, "GQLMON_NO_LEAKS": "1",
                "GQLMON_TINY": "1", "GQLMON_MAX": "200"}
        asan = dict(SANITIZER_ENV, GQLMON_NO_LEAKS="1", GQLMON_EVERY="1" if DEEP else "9")
        return [[Phase(prop, "native", bins["main"], count, 140 if DEEP else 30, native)],
                [Phase(prop, "asan", bins["asan"], count // 10, 150 if DEEP else 30, asan, hang=120)],
                [Phase(prop, "msan", bins["msan"], count // 10, 150 if DEEP else 20, asan, hang=120)],
                [Phase(prop, "miri", miri_cmd, 400 if DEEP else 60, 150 if DEEP else 16, miri, hang=10**9, cwd=HARNESS, kind="miri")]]
    if prop == "H01":
        tsan = dict(SANITIZER_ENV, GQLMON_EVERY="1" if DEEP else "6")
        return [[Phase(prop, "native", bins["main"], count, secs // 2, native)],
                [Phase(prop, "tsan", bins["tsan"], count // 10, 200 if DEEP else 20, tsan, hang=120)]]
    if prop == "W01":
        return [[Phase(prop, "screen", bins["plain"], count, 300 if DEEP else 90, native, hang=40)]]
    return [[Phase(prop, "native", bins["main"], count, secs, native)]] + guided


NEEDS = {"T01": ["main", "dev"], "G01": ["texts"], "S01": ["main", "asan", "msan", "miri"], "H01": ["main", "tsan"], "W01": ["plain"]}


def across_processes(bins, extra):
    """H01: the same texts in processes of their own and in other orders"""
    exe = bins["main"][0]
    d = tempfile.mkdtemp(prefix="H01-processes-", dir=OUT)
    f = os.path.join(d, "texts")
    count = 2000 if DEEP else 400
    subprocess.run([exe, "groups", str(SEED), str(count), f], env=base_env(), check=True, stdout=subprocess.DEVNULL)

    def run(order, **kw):
        e = base_env()
        e.update(kw.get("env", {}))
        p = subprocess.run([exe, "digest", f, str(order)], env=e, cwd=kw.get("cwd", d), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise Violation("a sequence of calls ends the process with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:]), extra=open(f).read())
        return dict(l.split() for l in p.stdout.decode().split("\n") if l)

    fwd = run("forward")
    texts = open(f, newline="").read().split("\x1d")

    def compare(other, how):
        for i, h in other.items():
            if fwd[i] != h:
                raise Violation("in another process (%s) the results for %r differ" % (how, texts[int(i)][:200]), extra="\x1d".join(texts))

    compare(run("forward"), "the same order")
    compare(run("forward", env={"GQLMON_MAIN": "1"}), "the first thread of the process")
    compare(run("reverse", env={"LC_ALL": "C", "TZ": "UTC", "RUST_BACKTRACE": "1", "LANG": "de_DE"}, cwd="/"), "reverse order, other environment")
    # what the sources call the environment by, if anything
    named = set()
    for r, _, fs in os.walk(os.path.join(REPO, "src")):
        for x in fs:
            if x.endswith(".rs"):
                src = open(os.path.join(r, x), errors="replace").read()
                named.update(re.findall(r'"([A-Za-z][A-Za-z0-9_.]{1,60})"', src))
    for v in ("1", "0", "true", "8"):
        compare(run("forward", env={n: v for n in sorted(named) if n not in ("PATH", "LD_PRELOAD")}), "every name in the sources set to %s in the environment" % v)
    extra["observed"]["names set in the environment"] = len(named)
    alone = min(len(texts), 600 if DEEP else 120)
    for i in range(alone):
        compare(run(i), "a fresh process")
    extra["observed"]["texts digested in two orders in processes"] = len(fwd)
    extra["observed"]["texts digested in a fresh process each"] = alone


def endure(prop, exe, extra):
    """H01 and S01: long lives of a process. Every result is compared with the
    first of its kind, and what is held with what was held before"""
    d = tempfile.mkdtemp(prefix="%s-processes-" % prop, dir=OUT)
    f = os.path.join(d, "texts")
    subprocess.run([exe, "groups", str(SEED), "400", f], env=base_env(), check=True, stdout=subprocess.DEVNULL)
    secs = 100 if DEEP else 16

    def one(k, secs=secs):
        cmd = [exe, "endure", f, str(secs), str(SEED * 100 + k)]
        try:
            return subprocess.run(cmd, env=base_env(), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=10 * secs + 60)
        except subprocess.TimeoutExpired:
            raise CheckError("a long life of the process does not end: " + " ".join(cmd))

    total = 0
    with concurrent.futures.ThreadPoolExecutor(N) as pool:
        runs = list(pool.map(one, range(N)))
    for k, p in enumerate(runs):
        out = p.stdout.decode(errors="replace")
        m = re.match(r"calls (\d+)\n", out)
        if p.returncode < 0 and p.returncode != -signal.SIGKILL:
            again = one(k)
            if again.returncode < 0 and again.returncode != -signal.SIGKILL:
                raise Violation("after many calls the process dies of %s" % signal.Signals(-p.returncode).name,
                                extra="gqlmon endure TEXTS %d %d\n%s" % (secs, SEED * 100 + k, out))
        if p.returncode not in (0, 10) or not m:
            raise CheckError("endure ends with %d: %s" % (p.returncode, out[-500:]))
        total += int(m.group(1))
        if p.returncode == 10:
            if prop == "H01":
                raise Violation(last_line(out), extra="gqlmon endure TEXTS %d %d\n%s" % (secs, SEED * 100 + k, out))
            log("results change over the calls: H01 reports that")
            continue
        held = [tuple(map(int, l.split()[1:])) for l in out.split("\n") if l.startswith("held")]
        blocks = [b for _, b in held]
        # what is set up once is set up by now; what grows every eighth is lost
        if prop == "S01" and len(held) == 8 and all(b > a for a, b in zip(blocks[1:], blocks[2:])) and blocks[-1] - blocks[1] > 100:
            raise Violation("memory is lost over many calls on the same few texts: blocks held after each eighth of %s calls: %s" % (m.group(1), blocks),
                            extra="gqlmon endure TEXTS %d %d\n%s" % (secs, SEED * 100 + k, out))
    extra["observed"]["calls in long lives of %d processes, compared with the first of their kind" % N] = total


def icount(exe, op, lang, f, cpu):
    """instructions executed; None if they take longer than so much CPU time"""
    o = f + "." + op + ".cg"
    try:
        p = subprocess.run(["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=" + o, exe, "op", op, lang, f],
                           env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20 * cpu,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu)))
    except subprocess.TimeoutExpired:
        raise CheckError("valgrind makes no progress")
    if p.returncode in (-signal.SIGKILL, -signal.SIGXCPU):
        return None
    m = re.search(r"I\s+refs:\s+([\d,]+)", p.stderr.decode(errors="replace"))
    if p.returncode != 0 or not m:
        raise CheckError("valgrind: " + p.stderr.decode(errors="replace")[-500:])
    return int(m.group(1).replace(",", ""))


def confirm_one(x, exe):
    """one suspect; gives a violation or None"""
    op, lang, kind, _, note, name = x[:6]
    files = [f for f in x[6:] if f]
    sizes = [os.path.getsize(f) for f in files]
    nested = len(files) == 3

    def bad(j, what):
        return Violation("%s: %s for %s" % (op, what, name),
                         b"%s 0 %d\n" % (lang.encode(), sizes[j]) + open(files[j], "rb").read())

    if kind == "memory":
        peaks = []
        for f in files:
            p = subprocess.run([exe, "op", op, lang, f], env=base_env(), stdout=subprocess.PIPE)
            m = re.search(r"Some\((-?\d+)\)", p.stdout.decode())
            peaks.append(int(m.group(1)) if m else 0)
        a, b = (0, 2) if nested else (1, 3)
        log("suspect %s of %s: peaks %s" % (op, name[:80], peaks))
        if peaks[b] / max(peaks[a], 65536) > 3.0 * sizes[b] / max(sizes[a], 1):
            return bad(b, "memory held grows faster than the text: peaks of %s bytes for texts of %s bytes," % (peaks, sizes))
        return None
    prep = "none-print" if op in ("print", "print-multiline", "clone-drop") else "none"
    costs = []
    for j, f in enumerate(files):
        c0, c1 = icount(exe, prep, lang, f, 60), icount(exe, op, lang, f, 60)
        if c0 is None or c1 is None:
            if j < 2:
                return bad(j, "even a text of %d bytes takes over 60 s of CPU time while instructions are counted" % sizes[j])
            break
        costs.append(max(1, c1 - c0))
        if j == 0:
            continue
        # nesting may cost its square (indentation); length only itself
        limit = 7.0 if nested else 1.7 * sizes[j] / max(1, sizes[j - 1])
        if costs[j] > 3_000_000 and costs[j] / costs[j - 1] > limit:
            return bad(j, "work grows faster than the text: %s instructions for texts of %s bytes," % (costs, sizes[:j + 1]))
    log("suspect %s of %s: instructions %s for %s bytes (%s): no finding" % (op, name[:80], costs, sizes, note))
    return None


def confirm_growth(phase, exe, extra):
    """W01: instruction counts decide, not clocks"""
    sus = []
    for s in glob.glob(phase.dir + "/*.suspect*"):
        if ".text" in s:
            continue
        x = open(s, errors="replace").read().split("\n")
        sus.append((float(x[3]), x))
    sus.sort(key=lambda s: -s[0])
    # the worst of each operation first, then the rest
    first, rest, ops = [], [], set()
    for _, x in sus:
        (rest if x[0] in ops else first).append(x)
        ops.add(x[0])
    todo = (first + rest)[:2 * N]
    extra["observed"]["suspects counted in instructions"] = len(todo)
    with concurrent.futures.ThreadPoolExecutor(N) as pool:
        found = [v for v in pool.map(lambda x: confirm_one(x, exe), todo) if v]
    if found:
        raise found[0]


def report(prop, v):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%d-%d.replay" % (prop, SEED, os.getpid()))
    head = "%%property %s\n%%%s\n" % (prop, v.message.replace("\n", " ")[:2000])
    with open(path, "wb") as f:
        f.write(head.encode())
        if v.case:
            f.write(v.case)
            if not v.case.endswith(b"\n"):
                f.write(b"\n")
        if v.extra:
            f.write(b"\n--- report\n" + v.extra[:100000].encode())
    print("  " + v.message[:1500])
    if v.case:
        print("  case: " + repr(v.case[:400].decode(errors="replace")))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def evidence(prop, phases, extra, violations):
    cov = {
        "evaluations": sum(p.stats["evaluations"] for p in phases),
        "distinct_nontrivial": len(set().union(*[p.hashes for p in phases])) if phases else 0,
        "rule": RULE[prop] + "; distinct by text; systematic cases first, then random ones from the seed",
        "samples": [s for p in phases for s in p.samples][:10],
        "observed": {},
        "phases": {},
    }
    for p in phases:
        cov["phases"][p.name] = dict(p.stats, distinct_nontrivial=len(p.hashes), workers=p.workers)
        for k, v in sorted(p.seen.items()):
            cov["observed"]["%s: %s" % (p.name, k) if len(phases) > 1 else k] = v
    cov["observed"].update(extra["observed"])
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    e = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
        "assumptions": extra.get("assumptions", ["the reference lexer, parser, decoder and printer in harness/src state the property"]),
        "wall_s": round(time.time() - T0, 1), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    f = os.path.join(VERIF, "evidence", prop + ".json")
    with open(f + ".tmp", "w") as o:
        json.dump(e, o, indent=1, ensure_ascii=True)
        o.write("\n")
    os.replace(f + ".tmp", f)


def check(prop):
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    need = NEEDS.get(prop, ["main"]) + (["cov"] if prop in GUIDED else [])
    try:
        bins = build(need)
    except CheckError as e:
        # the monitors send documents and errors to threads
        if prop == "H01" and "graphql_parser" in str(e) and re.search(r"cannot be (sent|shared) between threads safely", str(e)):
            evidence(prop, [], {"observed": {}}, 1)
            report(prop, Violation("what the library returns cannot be used from other threads: " + last_line(str(e)), extra=str(e)))
            return 1
        raise
    extra = {"observed": {}}
    ran = []
    bad = None
    try:
        for group in phases_of(prop, bins):
            ran += group
            drive(group)
            if prop == "W01":
                confirm_growth(group[0], bins["plain"][0], extra)
        if prop == "H01":
            across_processes(bins, extra)
        if prop in ("H01", "S01"):
            endure(prop, bins["main"][0], extra)
    except Violation as v:
        bad = v
    evidence(prop, ran, extra, 1 if bad else 0)
    for p in ran:
        shutil.rmtree(p.dir, ignore_errors=True)
    for d in glob.glob(OUT + "/*-processes-*"):
        shutil.rmtree(d, ignore_errors=True)
    if bad:
        report(prop, bad)
        return 1
    log("held")
    return 0


def replay(path):
    with open(path, "rb") as f:
        b = f.read()
    prop = b.split(b"\n", 1)[0].split()[1].decode()
    need = [n for n in NEEDS.get(prop, ["main"]) if n != "miri"]
    bins = build(need)
    code = 0
    for n in need:
        p = subprocess.run(bins[n] + ["one", prop, path], env=dict(base_env(), **(SANITIZER_ENV if n.endswith("san") else {})))
        print(n, "->", p.returncode)
        code = code or (1 if p.returncode else 0)
    return code


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    a = sys.argv[1]
    try:
        if a == "setup":
            os.makedirs(TARGET, exist_ok=True)
            os.makedirs(OUT, exist_ok=True)
            build(list(BUILDS))
            return 0
        if a == "replay":
            return replay(sys.argv[2])
        if a not in RANDOM:
            print("no such property")
            return 2
        return check(a)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
