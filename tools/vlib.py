"""Machinery shared by all checks: build an observer from /repo's headers, run it, have TLC judge what was observed."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

import respell

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def spec_text():
    return "".join(open(os.path.join(SPEC, f)).read() for f in sorted(os.listdir(SPEC)) if f.endswith((".tla", ".cfg")))


TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
CXX = os.environ.get("VERIF_CXX", "clang++")
CXX_OTHER = "g++"
CXXFLAGS = ["-std=c++20", "-O0", "-w", "-I", os.path.join(REPO, "include"), "-I", HARNESS]

KINDS = dict(view=1, ptr=2, string=4, deque=8, list=16, fwd=32, rev=64, chk=128, chkb=256, chkf=512, owned=1024,
             vec=2048, iter=4096, hist=8192, flist=65536, chars=131072, mut=262144, bytes=524288, forms=1048576, values=2097152)

FLAGS = ("icase", "dotall", "multiline", "ungreedy", "unroll")


class Infra(Exception):
    """The check itself could not do its work; says nothing about the property."""


class Violation(Exception):
    def __init__(self, what, detail, replay_files):
        super().__init__(what)
        self.what, self.detail, self.files = what, detail, replay_files


def mask(names):
    m = 0
    for n in names.split():
        m |= KINDS[n]
    return m


def b(s):
    """bytes of a pattern or input given as str (latin-1) or bytes"""
    return s if isinstance(s, bytes) else s.encode("latin-1")


def cstr(s):
    out = []
    for c in b(s):
        ch = chr(c)
        if ch.isalnum() and c < 128 or ch in " _-+*.,:;<>=!|()[]{}^$/@#%&~":
            out.append(ch)
        else:
            out.append("\\%03o" % c)
    # "??" would be a trigraph only in old standards
    return '"' + "".join(out) + '"'


class Def:
    """One regex and what to do with it."""
    __slots__ = ("id", "code", "ops", "frozen", "key", "weight", "desc", "args")

    def __init__(self, code, ops=(), frozen=(), key="", weight=1.0, desc=""):
        self.code, self.ops, self.frozen, self.key, self.weight, self.desc = code, list(ops), list(frozen), key, weight, desc
        self.id = None
        self.args = None


def flag_args(flags):
    return "".join(", vh::regex_flag::" + f for f in flags)


def pattern(pat, flags=(), kinds="view", ops=(), frozen=()):
    k = mask(kinds) if isinstance(kinds, str) else kinds
    n = bin(k).count("1")
    code = "vh::pattern<%du, %s%s>(id);" % (k, cstr(pat), flag_args(flags))
    if frozen:
        body = "".join(" vh::frozen_call<rx, %s>();" % cstr(t) for t in frozen)
        code += " if constexpr (vh::accepted<%s>) { using rx = meta::regex<%s%s>;%s }" % (cstr(pat), cstr(pat), flag_args(flags), body)
    d = Def(code, ops, frozen, key=("p", bytes(b(pat)), tuple(flags)), weight=1.0 + 0.5 * n + 0.3 * len(frozen) + 0.05 * len(b(pat)),
            desc="pattern %s flags %s" % (cstr(pat), ",".join(flags)))
    d.args = (pat, flags, kinds, ops, frozen)
    return d


def respelled(r, d):
    """The same observations of another spelling of the pattern."""
    if d.args is None: return d
    pat, flags, kinds, ops, frozen = d.args
    n = pattern(b(respell.respell(r, b(pat).decode("latin-1"))), flags, kinds, d.ops, frozen)
    n.weight = max(n.weight, d.weight)
    return n


def varied(r, d):
    """The same texts, the pattern with further flags, other input and iteration: whatever these are, the specification knows the answer."""
    if d.args is None or not isinstance(d.args[2], str) or d.frozen or any(len(o[1]) > 100 for o in d.ops): return d
    pat, flags, kinds = d.args[:3]
    flags = tuple(flags) + tuple(f for f in FLAGS if f not in flags and r.random() < 0.3)
    names, ops = kinds.split(), list(d.ops)
    if names == ["view"] and r.random() < 0.5:
        names.append(r.choice(["string", "deque", "list", "rev", "chk", "vec", "owned"]))
    if "iter" not in names and ops and r.random() < 0.5 and all(o[0] == "c" for o in ops):
        names.append("iter")
        ops += [("i", o[1], "") for o in r.sample(ops, min(4, len(ops)))]
    n = pattern(pat, flags, " ".join(names), ops)
    n.weight = max(n.weight, d.weight)
    return n


def verdict(pat):
    return Def("vh::verdict<%s>(id);" % cstr(pat), key=("v", bytes(b(pat))), weight=0.06, desc="pattern %s" % cstr(pat))


def described(cxx_type_expr, description, flags=(), kinds="view", ops=(), pre="", weight=2.0):
    k = mask(kinds) if isinstance(kinds, str) else kinds
    code = pre + "using rx_t = std::remove_cvref_t<decltype(%s)>; vh::described<%du, rx_t%s>(id, %s);" % (
        cxx_type_expr, k, flag_args(flags), rawstr(json.dumps(description, separators=(",", ":"))[1:-1]))
    return Def(code, ops, key=("x", cxx_type_expr, tuple(flags)), weight=weight, desc="expression %s flags %s" % (cxx_type_expr, ",".join(flags)))


def results(pat, names, texts):
    code = "vh::result_pattern<%s>(id);" % ", ".join([cstr(pat)] + [cstr(n) for n in names])
    return Def(code, calls(texts), key=("r", bytes(b(pat))), weight=12.0, desc="results of pattern %s" % cstr(pat))


def rawstr(s):
    return 'R"~(' + s + ')~"'


def calls(texts):
    return [("c", b(t), "") for t in texts]


def iters(texts):
    return [("i", b(t), "") for t in texts]


# ------------------------------------------------------------------------------------------------- building and running
def write_tu(path, defs, prelude=""):
    with open(path, "w") as f:
        f.write('#include "vh.hpp"\n' + prelude)
        for d in defs:
            f.write("static void d%d(long id) { %s }\n" % (d.id, d.code))
        f.write("static vh::entry const entries[] = {%s};\n" % ", ".join("{%d, d%d}" % (d.id, d.id) for d in defs))
        f.write("int main(int c, char **v) { return vh::main(c, v, entries, %d); }\n" % len(defs))


def write_prog(path, defs, sessions=()):
    with open(path, "w") as f:
        for threads, rounds, seed in sessions:
            f.write("W %d %d %d\n" % (threads, rounds, seed))
        for d in defs:
            f.write("D %d\n" % d.id)
            for kind, text, extra in d.ops:
                f.write("%s %s%s\n" % (kind, text.hex(), " " + extra if extra else ""))


def limited(seconds, mem_gb=6):
    def pre():
        import resource
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        except (ValueError, OSError):
            pass
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return dict(timeout=seconds, preexec_fn=pre)


def compile_tu(src, exe, cxx=None, extra=()):
    cmd = [cxx or CXX] + CXXFLAGS + list(extra) + [src, "-o", exe]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", **limited(400))
    except subprocess.TimeoutExpired:
        return False, "compiler did not finish"
    return p.returncode == 0, p.stderr


def run_exe(exe, prog, out, sanitized=False):
    """Returns (finished, note). The note of a crash or hang names what was going on."""
    try:
        p = subprocess.run([exe, prog, out], capture_output=True, text=True, errors="replace", **limited(600, 0 if sanitized else 8))
    except subprocess.TimeoutExpired:
        return False, "did not finish"
    if p.returncode == 0:
        return True, ""
    if p.returncode == 3:
        raise Infra("observer could not start: " + p.stderr)
    return False, "status %d %s" % (p.returncode, p.stderr.strip()[:600])


def thread_sanitizer_works():
    """Whether a program without races runs under the thread sanitizer, and one with a race is reported."""
    src = os.path.join(Scratch.dir, "tsan.cpp")
    exe = os.path.join(Scratch.dir, "tsan.exe")
    with open(src, "w") as f:
        f.write("#include <pthread.h>\nint x; void *w(void *p) { if (p) ++x; return 0; }\n"
                "int main(int c, char **) { pthread_t t[2]; void *p = c > 1 ? &x : 0; for (auto &i: t) pthread_create(&i, 0, w, p);\n"
                "for (auto &i: t) pthread_join(i, 0); return 0; }\n")
    ok, _ = compile_tu(src, exe, extra=("-fsanitize=thread",))
    if not ok:
        return False
    try:
        good = subprocess.run([exe], capture_output=True, timeout=60).returncode
        bad = subprocess.run([exe, "race"], capture_output=True, timeout=60).returncode
    except (subprocess.TimeoutExpired, OSError):
        return False
    return good == 0 and bad == 66


def tlc(module, cfg, env=None, workers=1, timeout=600, heap="2g", extra=(), cwd=SPEC):
    """Runs TLC and returns its output and exit code."""
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=Scratch.dir)
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:ActiveProcessorCount=%d" % max(workers, 2), "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dverif=1",
           "-cp", TLA_JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, "-noGenerateSpecTE"] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", cwd=cwd, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC did not finish: " + " ".join(cmd))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr, p.returncode


def tlc_counts(text):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Scratch:
    dir = None

    @classmethod
    def make(cls):
        cls.dir = tempfile.mkdtemp(prefix="verif-")
        return cls.dir

    @classmethod
    def drop(cls):
        if cls.dir and cls.dir.startswith(tempfile.gettempdir() + "/verif-"):
            shutil.rmtree(cls.dir, ignore_errors=True)


class Totals:
    def __init__(self):
        self.generated = self.distinct = self.traces = self.events = 0
        self.samples, self.models, self.notes = [], [], []
        self.defs = 0


def validate(trace, totals=None):
    """Has TLC judge one trace. Returns None if accepted, else (line number, explanation)."""
    out, rc = tlc("Trace.tla", "Trace.cfg", env={"TRACE_FILE": trace}, heap="3g", timeout=700)
    gen, dist = tlc_counts(out)
    if "Model checking completed. No error has been found." in out and "STOPPED" not in out:
        if totals is not None:
            totals.generated += gen
            totals.distinct += dist
        return None
    m = re.search(r'"STOPPED (\d+)"', out)
    mm = re.findall(r'"MISMATCH (\d+) (.*)"', out)
    if m and mm and int(mm[-1][0]) == int(m.group(1)):
        return int(m.group(1)), mm[-1][1].replace('\\"', '"')
    raise Infra("TLC failed on %s:\n%s" % (trace, out[-3000:]))


def event_context(trace, n):
    """The definition in force at line n (from 1) and the line itself."""
    last = None
    objs = {}
    for i, line in enumerate(open(trace), 1):
        if line.startswith('{"ev":"def"'):
            last = line
        if i == n:
            return last, line
    return last, None


def meaningless(pats):
    """Those of the patterns that the parser accepts although they mean nothing, as the specification has it."""
    pats = sorted(set(pats))
    n = max(1, min(JOBS, len(pats) // 40))

    def part(j):
        mine = pats[j::n]
        path = os.path.join(Scratch.dir, "filter%d.ndjson" % j)
        with open(path, "w") as f:
            for p in mine:
                f.write(json.dumps({"pat": list(p)}) + "\n")
        out, rc = tlc("Filter.tla", "Filter.cfg", env={"PATTERNS_FILE": path}, heap="2g")
        if "Model checking completed. No error has been found." not in out:
            raise Infra("cannot filter patterns:\n" + out[-2000:])
        return {mine[int(k) - 1] for k in re.findall(r'"ILL (\d+)"', out)}
    if not pats:
        return set()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return set().union(*ex.map(part, range(n)))


class Pipeline:
    """Builds, runs and judges a list of definitions."""

    def __init__(self, totals, prelude="", cxx=None, extra=(), sessions=()):
        self.totals, self.prelude, self.cxx, self.extra, self.sessions = totals, prelude, cxx, tuple(extra), tuple(sessions)
        self.sanitized = any(x.startswith("-fsanitize") for x in self.extra)

    def build(self, src, exe):
        """The library supports two compilers; what one of them cannot compile is tried with the other."""
        ok, err = compile_tu(src, exe, self.cxx, self.extra)
        if not ok and self.cxx is None:
            ok, err2 = compile_tu(src, exe, CXX_OTHER, self.extra)
            if not ok:
                err = err2 + "\n\n" + err
        return ok, err

    def shards(self, defs, per_tu):
        total = sum(d.weight for d in defs)
        n = JOBS * (int(total / per_tu / JOBS) + 1)
        n = min(n, len(defs)) or 1
        bins = [[] for _ in range(n)]
        load = [0.0] * n
        for d in sorted(defs, key=lambda d: -d.weight):
            i = load.index(min(load))
            bins[i].append(d)
            load[i] += d.weight
        for x in bins:
            x.sort(key=lambda d: d.id)
        return [x for x in bins if x]

    def run(self, defs, per_tu=120.0):
        seen, uniq = set(), []
        for d in defs:
            k = (d.code, tuple(d.ops))
            if k in seen:
                continue
            seen.add(k)
            uniq.append(d)
        defs = uniq
        # only a pattern with a range, a bounded repetition or a reference can be without meaning
        drop = meaningless(d.key[1] for d in defs if d.key and d.key[0] in "pvr" and any(x in d.key[1] for x in (b"-", b"{", b"\\")))
        if drop:
            defs = [d for d in defs if not (d.key and d.key[0] in "pvr" and d.key[1] in drop)]
            self.totals.notes.append("%d patterns without meaning were left out" % len(drop))
        for i, d in enumerate(defs):
            d.id = i
        by_id = {d.id: d for d in defs}
        work = tempfile.mkdtemp(prefix="suite", dir=Scratch.dir)
        shards = self.shards(defs, per_tu)
        self.shard_of = {d.id: sh for sh in shards for d in sh}

        def one(i):
            src, exe, prog, out = (os.path.join(work, "%s%d%s" % p) for p in (("tu", i, ".cpp"), ("tu", i, ".exe"), ("prog", i, ".txt"), ("trace", i, ".ndjson")))
            write_tu(src, shards[i], self.prelude)
            write_prog(prog, shards[i], self.sessions)
            ok, err = self.build(src, exe)
            if not ok:
                return ("compile", i, err)
            fin, note = run_exe(exe, prog, out, self.sanitized)
            os.unlink(exe)
            if not fin:
                with open(out, "ab") as f:
                    data = open(out, "rb").read()
                    if data and not data.endswith(b"\n"):
                        keep = data[:data.rfind(b"\n") + 1]
                        f.truncate(len(keep))
                with open(out, "a") as f:
                    f.write(json.dumps({"ev": "abort", "what": note}) + "\n")
            return ("ok", i, out)

        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(one, range(len(shards))))
        for kind, i, info in results:
            if kind == "compile":
                self.diagnose_compile(shards[i], info, work)
        traces = [info for _, _, info in results]
        # merge small traces so that the cost of starting TLC is shared
        traces.sort(key=lambda t: -os.path.getsize(t))
        groups = [[] for _ in range(min(JOBS, len(traces)))]
        size = [0] * len(groups)
        for t in traces:
            j = size.index(min(size))
            groups[j].append(t)
            size[j] += os.path.getsize(t)
        merged = []
        for j, g in enumerate(groups):
            path = os.path.join(work, "merged%d.ndjson" % j)
            with open(path, "wb") as f:
                for t in g:
                    with open(t, "rb") as h:
                        shutil.copyfileobj(h, f)
            merged.append(path)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            verdicts = list(ex.map(lambda t: validate(t, self.totals), merged))
        for path, v in zip(merged, verdicts):
            n = sum(1 for _ in open(path))
            self.totals.events += n
            if v is not None:
                self.confirm(path, v, by_id)
        self.totals.defs += len(defs)
        self.totals.traces += len(defs)
        if len(self.totals.samples) < 12:
            for path in merged[:3]:
                with open(path) as f:
                    lines = [x for _, x in zip(range(400), f)]
                for k in (0, len(lines) // 2):
                    if lines and len(lines[k]) < 4000:
                        try:
                            self.totals.samples.append(json.loads(lines[k]))
                        except ValueError:
                            pass
        shutil.rmtree(work, ignore_errors=True)

    def alone(self, d, tag):
        """Builds and runs one definition (or several); returns ('compile', err) or ('trace', path)."""
        ds = d if isinstance(d, list) else [d]
        work = tempfile.mkdtemp(prefix=tag, dir=Scratch.dir)
        src, exe, prog, out = (os.path.join(work, x) for x in ("tu.cpp", "tu.exe", "prog.txt", "trace.ndjson"))
        write_tu(src, ds, self.prelude)
        write_prog(prog, ds, self.sessions)
        ok, err = self.build(src, exe)
        if not ok:
            return "compile", err, src
        fin, note = run_exe(exe, prog, out, self.sanitized)
        if not fin:
            with open(out, "a") as f:
                f.write(json.dumps({"ev": "abort", "what": note}) + "\n")
        return "trace", out, src

    def diagnose_compile(self, defs, err, work):
        """A translation unit did not compile: find the definition responsible."""
        sane = Def("vh::pattern<1u, \"a\">(id);")
        sane.id = 0
        kind, info, _ = self.alone(sane, "sane")
        if kind == "compile":
            raise Infra("even a trivial regex does not compile:\n" + info[:3000])

        def bad(ds):
            kind, info, src = self.alone(ds, "bis")
            return (ds, info, src) if kind == "compile" else None
        part, culprit = list(defs), None
        while True:
            n = min(JOBS, len(part))
            pieces = [part[i * len(part) // n:(i + 1) * len(part) // n] for i in range(n)]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                found = [x for x in ex.map(bad, pieces) if x]
            if not found:
                raise Infra("a translation unit does not compile although each of its parts does:\n" + err[:3000])
            culprit = min(found, key=lambda x: len(x[0]))
            if len(culprit[0]) == 1:
                break
            part = culprit[0]
        (d,), info, src = culprit
        first = next((x for x in info.splitlines() if "error" in x), info[:300])
        raise Violation("does not compile: " + d.desc, first, {"tu.cpp": open(src).read(), "compiler.txt": info[:20000]})

    def confirm(self, path, v, by_id):
        line, why = v
        d_line, e_line = event_context(path, line)
        ident = None
        for text in (e_line, d_line):
            if text and '"pat"' in text or text and '"ev":"def"' in text:
                ident = json.loads(text).get("id")
                break
        if '"ev":"abort"' in (e_line or ""):
            m = re.search(r"def (\d+) op", e_line)
            if m:
                ident = int(m.group(1))
        if ident is None and self.sessions:
            ident = min(by_id)      # nothing but the whole session is to blame
        if ident is None:
            raise Infra("cannot locate the definition of line %d of %s: %s" % (line, path, e_line))
        d = by_id[ident]
        kind, out, src = self.alone(d, "confirm")
        if kind == "compile":
            raise Infra("confirmation does not compile: " + out[:2000])
        again = validate(out)
        # it may take the company of the other definitions of its translation unit, and with threads some luck
        for _ in range(5 if self.sessions else 1):
            if again is None:
                kind, out, src = self.alone(self.shard_of[d.id], "company")
                again = validate(out) if kind == "trace" else None
        if again is None and self.sessions:
            raise Violation(d.desc, "seen once, in a session with other calls: %s  not allowed: %s" % ((e_line or "").strip()[:600], why),
                            {"tu.cpp": open(src).read(), "event.txt": "%s%s%s\n" % (d_line, e_line, why)})
        if again is None:
            raise Infra("a rejection did not repeat: line %d %s\n%s%s" % (line, why, d_line, e_line))
        line, why = again
        d_line, e_line = event_context(out, line)
        prog = os.path.join(os.path.dirname(src), "prog.txt")
        raise Violation(d.desc, "observed %s  not allowed: %s" % ((e_line or "").strip()[:600], why),
                        {"tu.cpp": open(src).read(), "prog.txt": open(prog).read(),
                         "event.txt": "%s%s%s\n" % (d_line, e_line, why)})


REPLAY_SH = """#!/bin/bash
# Rebuilds the observed program from /repo's headers, runs it and has TLC judge it. Non-zero: the violation is there.
set -u
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
clang++ -std=c++20 -O0 -w -I /repo/include -I %(harness)s "$here/tu.cpp" -o "$d/tu" || exit 1
[ -f "$here/prog.txt" ] || exit 0
"$d/tu" "$here/prog.txt" "$d/trace.ndjson" || exit 1
cd %(spec)s && TRACE_FILE="$d/trace.ndjson" java -Xss256m -cp %(jar)s:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir "$d/meta" -config Trace.cfg Trace.tla
"""


def write_replay(prop, v):
    d = os.path.join(VERIF, "evidence", "replay", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for name, text in v.files.items():
        with open(os.path.join(d, name), "w", errors="replace") as f:
            f.write(text)
    with open(os.path.join(d, "README.txt"), "w") as f:
        f.write("%s\n%s\n" % (v.what, v.detail))
    with open(os.path.join(d, "replay.sh"), "w") as f:
        f.write(REPLAY_SH % dict(harness=HARNESS, spec=SPEC, jar=TLA_JAR))
    return d
