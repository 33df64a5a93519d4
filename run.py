#!/usr/bin/env python3
"""Driver of the checks:  run.py <ID> [quick|thorough]   |   run.py --replay FILE
   |   run.py --setup

Builds the harness of a property out of tree from /repo's current header, runs it
under its monitors and sanitizers, matches violations against known-findings.txt,
writes evidence/<ID>.json and prints the verdict.

exit 0  held on everything explored
exit 1  VIOLATION property=<ID> replay=<path> (one line per distinct key)
exit 2  inconclusive: the harness could not be built or run, or observed too little
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
sys.path.insert(0, os.path.join(VERIF, "tools"))
JOBS = min(8, os.cpu_count() or 1)

CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE = ["-std=c++20", f"-I{REPO}", f"-I{SRC}", "-gline-tables-only", "-Wno-everything"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
GCC = ["g++", "-w", "-std=c++20", f"-I{REPO}", f"-I{SRC}", "-g1"]
BUILDS = {
    # name: command prefix
    "asan": [CLANG, "-stdlib=libc++", "-O0", *BASE, *SAN],
    "asan-ni": [CLANG, "-stdlib=libc++", "-O0", *BASE, *SAN, "-DZPP_BITS_INLINE_MODE=0"],
    "asan-o1": [CLANG, "-stdlib=libc++", "-O1", *BASE, *SAN],
    "asan-noinline": [CLANG, "-stdlib=libc++", "-O1", *BASE, *SAN, "-DZPP_BITS_INLINE_MODE=0", "-DZPP_BITS_INLINE_DECODE_VARINT=1"],
    "asan-varint": [CLANG, "-stdlib=libc++", "-O0", *BASE, *SAN, "-DZPP_BITS_INLINE_MODE=0", "-DZPP_BITS_INLINE_DECODE_VARINT=1"],
    "plain": [CLANG, "-stdlib=libc++", "-O0", *BASE],
    "plain-ni": [CLANG, "-stdlib=libc++", "-O0", *BASE, "-DZPP_BITS_INLINE_MODE=0", "-fconstexpr-steps=100000000", "-fbracket-depth=2048"],
    "plain-o2": [CLANG, "-stdlib=libc++", "-O2", *BASE],
    "plain-o2-noinline": [CLANG, "-stdlib=libc++", "-O2", *BASE, "-DZPP_BITS_INLINE_MODE=0"],
    "plain-varint": [CLANG, "-stdlib=libc++", "-O1", *BASE, "-DZPP_BITS_INLINE_DECODE_VARINT=1"],
    "clang-libstdcxx": [CLANG, "-O0", *BASE, *SAN],
    "plain-ni-varint": [CLANG, "-stdlib=libc++", "-O0", *BASE, "-DZPP_BITS_INLINE_MODE=0", "-DZPP_BITS_INLINE_DECODE_VARINT=1", "-fconstexpr-steps=100000000"],
    "gcc-ni": [*GCC, "-O0", "-DZPP_BITS_INLINE_MODE=0", "-fconstexpr-ops-limit=10000000000", "-fconstexpr-loop-limit=10000000"],
    "gcc-ni-varint": [*GCC, "-O0", "-DZPP_BITS_INLINE_MODE=0", "-DZPP_BITS_INLINE_DECODE_VARINT=1"],
    "gcc-o2-ni": [*GCC, "-O2", "-DZPP_BITS_INLINE_MODE=0"],
    "gcc-o2": [*GCC, "-O2"],
    "gcc-os-ni-varint": [*GCC, "-Os", "-std=c++23", "-DZPP_BITS_INLINE_MODE=0", "-DZPP_BITS_INLINE_DECODE_VARINT=1"],
    "plain-o1": [CLANG, "-stdlib=libc++", "-O1", *BASE],
    "noexcept-o3": [CLANG, "-stdlib=libc++", "-O3", *BASE, "-DZPP_BITS_INLINE_MODE=0", "-fno-exceptions", "-fno-rtti", "-funsigned-char", "-std=c++2b"],
    "libstdcxx-o1-varint": [CLANG, "-O1", *BASE, "-DZPP_BITS_INLINE_DECODE_VARINT=1"],
    "gcc": [*GCC, "-O0"],
    "gcc-o1": [*GCC, "-O1"],
    "gcc-asan": [*GCC, "-O0", *SAN],
    "tsan": [CLANG, "-stdlib=libc++", "-O1", *BASE, "-fsanitize=thread"],
    "tsan-ni": [CLANG, "-stdlib=libc++", "-O0", *BASE, "-fsanitize=thread", "-DZPP_BITS_INLINE_MODE=0"],
    "msan": [CLANG, "-O1", *BASE, "-fsanitize=memory", "-fno-sanitize-recover=all"],
}
ENV = {
    "ASAN_OPTIONS": "alloc_dealloc_mismatch=0:detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=79",
    "LSAN_OPTIONS": "exitcode=77",
}


class Inconclusive(Exception):
    pass


class Job:
    """One executable (source + build + part) and its run."""

    def __init__(self, src, build, part=0, parts=1, defs=(), extra=(), args=(), libs=(), log=False, timeout=400):
        self.src, self.build, self.part, self.parts = src, build, part, parts
        self.defs, self.extra, self.args, self.libs = list(defs), list(extra), list(args), list(libs)
        self.log, self.timeout = log, timeout
        self.name = f"{os.path.basename(src).rsplit('.', 1)[0]}.{build}.{part}of{parts}"

    def compile_cmd(self, exe):
        path = self.src if os.path.isabs(self.src) else os.path.join(SRC, self.src)
        return [*BUILDS[self.build], f"-DPART={self.part}", f"-DPARTS={self.parts}", *self.defs, *self.extra, path, "-o", exe, *self.libs]


def jobs(src, build="asan", parts=8, **kw):
    return [Job(src, build, p, parts, **kw) for p in range(parts)]


def env():
    e = dict(os.environ)
    e.update(ENV)
    return e


def run_limited(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=env(), **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace"), True


def crash_key(rc, text):
    m = re.search(r"SUMMARY: (\w+): ([\w\-]+)", text)
    if "runtime error:" in text:
        e = re.search(r"runtime error: ([^\n]{0,100})", text)
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", e.group(1)) if e else "undefined"
        return "ubsan:" + re.sub(r"[^A-Za-z]+", "-", kind)[:60].strip("-")
    if m:
        return f"{m.group(1)}:{m.group(2)}"
    if rc is not None and rc < 0:
        return f"signal-{-rc}"
    m = re.search(r"terminat\w+.*", text)
    return f"exit-{rc}"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{pid}-", dir=os.path.join(VERIF, "build"))
        self.violations = []  # dicts: key, label, detail, job
        self.results = []
        self.notes = []

    def violation(self, key, label="", detail="", job=None, n=1):
        self.violations.append({"key": key, "label": label, "detail": detail, "job": job, "n": n})

    # -- building
    def build_all(self, js):
        def one(j):
            j.exe = os.path.join(self.dir, j.name + "-" + str(js.index(j)))
            t = time.time()
            rc, text, late = run_limited(j.compile_cmd(j.exe), 600)
            return j, rc, text, late, time.time() - t

        failed = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for j, rc, text, late, dt in ex.map(one, js):
                j.compile_s = dt
                if rc != 0:
                    failed.append((j, rc, text, late))
        for j, rc, text, late in failed:
            # Killed or timed-out compilers say nothing about the code: try once more.
            if late or rc is None or rc < 0 or rc == 254 or "error:" not in text:
                rc, text, late = run_limited(j.compile_cmd(j.exe), 800)
            if rc == 0:
                continue
            if late or rc is None or "error:" not in text or not self.smoke(j.build):
                raise Inconclusive(f"cannot build {j.name}: {text[-1500:]}")
            errs = [l for l in text.splitlines() if "error:" in l][:4]
            self.violation("supported-program-does-not-compile", j.name, "\n".join(e[:600] for e in errs), j)
            j.exe = None

    def smoke(self, build):
        exe = os.path.join(self.dir, "smoke-" + build)
        rc, _, _ = run_limited([*BUILDS[build], os.path.join(SRC, "smoke.cpp"), "-o", exe], 300)
        return rc == 0

    # -- running
    def argv(self, j, only=None):
        a = [j.exe, "--seed", str(self.seed), "--tier", self.tier, "--part", str(j.part), "--out", j.out, "--marker", j.mark]
        if j.log:
            a += ["--log", j.logfile]
        if only:
            a += ["--only", only]
        return a + j.args

    def run_all(self, js):
        js = [j for j in js if j.exe]
        for j in js:
            j.out, j.mark, j.logfile = j.exe + ".json", j.exe + ".mark", j.exe + ".log"
        # Time limit of one run.  In the quick tier the check as a whole has 900 s.
        end = self.t0 + (700 if not self.thorough else 10**9)
        tmo = lambda j: max(30, min(j.timeout * (6 if self.thorough else 1), end - time.time()))

        def one(j):
            t = time.time()
            rc, text, late = run_limited(self.argv(j), tmo(j), cwd=self.dir)
            return j, rc, text, late, time.time() - t

        with cf.ThreadPoolExecutor(JOBS) as ex:
            done = list(ex.map(one, js))
        unclear = []
        for j, rc, text, late, dt in sorted(done, key=lambda d: d[3] or d[1] == -9):
            j.run_s = dt
            if late or rc == -9:
                # Something other than the code may be to blame (load, memory): a hang or
                # a kill counts only when the single case hangs or is killed on its own, too.
                if self.violations:
                    continue
                label = self.marker(j)
                rc2, _, late2 = run_limited(self.argv(j, label), 90, cwd=self.dir)
                if late2 or rc2 == -9:
                    self.violation("hang" if late2 else "memory-exhausted", label, f"no end within {dt:.0f} s, and not within 90 s for this case alone" if late2 else "killed twice, once running this case alone", j)
                    continue
                if rc2 == 0:
                    if os.path.exists(j.out):
                        os.remove(j.out)
                    j, rc, text, late, dt = one(j)
                    if late or rc == -9:
                        unclear.append(f"{j.name} {'ran out of time' if late else 'was killed'} at {label}")
                        continue
                else:
                    rc, text = run_limited(self.argv(j, label), 90, cwd=self.dir)[:2]
            label = self.marker(j)
            if rc == 76:  # mon.hpp's watchdog
                self.violation("hang", label, "the case did not end within its processor time limit", j)
                continue
            data = None
            if os.path.exists(j.out):
                with open(j.out) as f:
                    data = json.load(f)
            if data:
                self.results.append((j, data))
                for v in data["violations"]:
                    self.violation(v["key"], v["label"], v["detail"], j)
            if rc not in (0, 3) or not data:
                if rc == 9:
                    unclear.append(f"{j.name} could not write its result")
                    continue
                if rc == 77 and "LeakSanitizer" in text:
                    label = "(at exit)" if data else label
                self.violation(crash_key(rc, text), label, text[-3500:] if "ThreadSanitizer" not in text else text[:3500], j)
        if unclear and not self.violations:
            raise Inconclusive("; ".join(unclear))

    @staticmethod
    def marker(j):
        try:
            with open(j.mark, "rb") as f:
                return f.read().split(b"\0")[0].decode("utf-8", "replace")
        except OSError:
            return ""

    def totals(self):
        ev = ch = di = 0
        counters, samples = {}, []
        for _, d in self.results:
            ev += d["evaluations"]
            ch += d["checks"]
            di += d["distinct"]
            samples += d["samples"][:3]
            for k, v in d["counters"].items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith("max:") else counters.get(k, 0) + v
        return ev, ch, di, counters, samples

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def load_findings():
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            m = re.match(r"known: property=(\S+) key=(\S+) match=(.*?) :: (.*)$", line)
            if m:
                known.append(dict(property=m.group(1), key=m.group(2), match=m.group(3), what=m.group(4)))
    return known


def check(pid, tier):
    import specs

    spec = specs.SPECS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = Ctx(pid, tier, seed)
    try:
        js = spec["jobs"](c)
        c.build_all(js)
        t_build = time.time() - t0
        c.run_all(js)
        if "post" in spec:
            spec["post"](c, js)
        return verdict(c, spec, js, t0, t_build)
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        return 2
    finally:
        c.cleanup()


def verdict(c, spec, js, t0, t_build):
    ev, ch, di, counters, samples = c.totals()
    known = [k for k in load_findings() if k["property"] == c.pid]
    hit, fresh = {}, []
    for v in c.violations:
        for k in known:
            if k["key"] == v["key"] and k["match"] in (v["label"] + " " + v["detail"]):
                hit[k["what"]] = hit.get(k["what"], 0) + 1
                break
        else:
            fresh.append(v)
    for what in hit:
        print(f"KNOWN-FINDING: property={c.pid} {what}")
    step = max(1, len(samples) // 12)
    evidence = {
        "property": c.pid,
        "tier": c.tier,
        "seed": c.seed,
        "level": spec["level"],
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": di,
            "rule": spec["rule"],
            "samples": samples[::step][:14],
            "oracle_checks": ch,
            "observed": counters,
            "builds": sorted({j.build for j in js}),
            "executables": len(js),
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if spec.get("exhaustive"):
        evidence["coverage"]["exhaustive"] = True
    if hit:
        evidence["coverage"]["known_findings"] = hit
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", c.pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = {}
        for v in fresh:
            seen.setdefault(v["key"], v)
        for n, (key, v) in enumerate(seen.items()):
            path = os.path.join(rdir, f"{c.pid}-{n}.json")
            j = v["job"]
            with open(path, "w") as f:
                json.dump({
                    "property": c.pid, "tier": c.tier, "seed": c.seed, "key": key, "label": v["label"], "detail": v["detail"],
                    "job": j.name if j else None,
                    "occurrences": sum(x["key"] == key for x in fresh),
                    "others": [[x["label"], x["detail"][:400]] for x in fresh if x["key"] == key and x is not v][:10],
                }, f, indent=1)
            print(f"  {key}: {v['label']}: {' '.join(v['detail'].split())[:300]}")
            print(f"VIOLATION property={c.pid} replay={path}")
        return 1
    for name, least in spec.get("require", {}).items():
        got = {"evaluations": ev, "distinct": di, "checks": ch}.get(name, counters.get(name, 0))
        if got < least:
            print(f"INCONCLUSIVE property={c.pid}: observed {name}={got}, needs {least}")
            return 2
    print(f"held property={c.pid} tier={c.tier} seed={c.seed}: {ev} cases, {di} distinct, {ch} oracle checks, {evidence['wall_s']} s (build {t_build:.0f} s)")
    return 0


def replay(path):
    import specs

    r = json.load(open(path))
    c = Ctx(r["property"], r["tier"], r["seed"])
    try:
        js = specs.SPECS[r["property"]]["jobs"](c)
        js = [j for j in js if j.name == r["job"]] or js
        c.build_all(js)
        for j in js:
            if not j.exe:
                continue
            j.out, j.mark, j.logfile = j.exe + ".json", j.exe + ".mark", j.exe + ".log"
            only = r["label"] if r["label"] and not r["label"].startswith("(") else None
            rc, text, late = run_limited(c.argv(j, only), 600, cwd=c.dir)
            print(j.name, "rc", rc, "late" if late else "")
            print(text[-4000:])
            if os.path.exists(j.out):
                print(open(j.out).read()[:4000])
        for v in c.violations:
            print(v["key"], v["label"], v["detail"])
    finally:
        c.cleanup()
    return 0


def setup():
    """Checks the tools the checks need and builds and runs the smoke programs."""
    d = tempfile.mkdtemp()
    try:
        for b in ("asan", "tsan", "gcc", "plain"):
            exe = os.path.join(d, b)
            rc, text, _ = run_limited([*BUILDS[b], os.path.join(SRC, "smoke.cpp"), "-o", exe], 300)
            if rc:
                print(text)
                return 1
            rc, text, _ = run_limited([exe], 60)
            if rc:
                print(b, rc, text)
                return 1
        import specs

        print(f"ready: {len(specs.SPECS)} checks")
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        return setup()
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(a[0], tier)
    except Exception:
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
