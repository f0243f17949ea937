#!/usr/bin/env python3
"""Decides one property: builds libPothos and the property's harness from /repo's current tree,
replays the committed regression cases, runs the generated search on all cores, confirms and shrinks
failures, and writes evidence/<id>.json.

usage: check.py <id> [quick|thorough]          exit 0 held / exit 1 + VIOLATION line
"""
import glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402

ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C.UTF-8",
       "HOME": "/tmp", "TMPDIR": "/tmp"}
NW = 8


def log(*a):
    print(*a, flush=True)


def build_lib(variant):
    r = subprocess.run(["bash", os.path.join(V, "tools/buildlib.sh"), variant], env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("ERROR: library build failed")
        sys.exit(3)


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return None


SAN = {"asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread", "-include", os.path.join(V, "tools/tsan_fence.hpp")], "plain": []}


def build_harness(pid, variant):
    """compiles harness/<id>.cpp (and harness/<id>mod.cpp, a plugin module) when it or anything it includes changed (by content)"""
    if PROPS[pid].get("module"):
        ENV["PBT_MODULE_BASE"] = compile_one(pid, variant, pid + "mod", ["-shared", "-fPIC", "-fno-gnu-unique", "-Wl,-Bsymbolic"])[:-len(variant)]
    return compile_one(pid, variant, pid, [])


def compile_one(pid, variant, name, flags):
    d = os.path.join(B, "bin")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, f"{name}-{variant}")
    stamp = exe + ".json"
    src = os.path.join(V, "harness", name + ".cpp")
    cmd = ["/usr/bin/g++", "-std=c++14", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"] + flags + SAN[variant] + [
        "-I" + V + "/harness", "-I" + B + "/src/include", f"-I{B}/lib-{variant}/include", f"-I{B}/lib-{variant}/lib", "-I" + B + "/src/lib", "-I/usr/include/nlohmann",
        "-MMD", "-MF", exe + ".d", src, "-o", exe + ".new", f"-L{B}/lib-{variant}/lib", f"-Wl,-rpath,{B}/lib-{variant}/lib",
        "-lPothos", "-lPocoFoundation", "-lPocoNet", "-lPocoUtil", "-lPocoXML", "-lPocoJSON", "-lpthread"] + PROPS[pid].get("libs", [])
    try:
        st = json.load(open(stamp))
        if st["cmd"] == cmd and os.path.exists(exe) and all(sha(k) == v for k, v in st["deps"].items()):
            return exe
    except (OSError, ValueError, KeyError):
        pass
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("ERROR: harness build failed")
        sys.exit(3)
    deps = open(exe + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {p: sha(p) for p in deps if os.path.abspath(p).startswith(V)}
    os.rename(exe + ".new", exe)
    json.dump({"cmd": cmd, "deps": deps}, open(stamp, "w"))
    return exe


def run_env(scratch, variant, soft=False):
    e = dict(ENV)
    e["PBT_SCRATCH"] = scratch
    if "PBT_MODULE_BASE" in ENV:
        e["PBT_MODULE"] = ENV["PBT_MODULE_BASE"] + variant
    e["HOME"] = scratch
    e["TMPDIR"] = scratch
    e["POTHOS_ROOT"] = os.path.join(scratch, "root")
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0:quarantine_size_mb=32:malloc_context_size=8:handle_abort=1:max_allocation_size_mb=4096"
    e["TSAN_OPTIONS"] = "exitcode=78:halt_on_error=1:second_deadlock_stack=1:history_size=4:suppressions=" + V + "/tools/tsan.supp"
    if soft:  # the harness judges the reports (harness/userrace.hpp)
        e["TSAN_OPTIONS"] = "exitcode=0:halt_on_error=0:symbolize=0:suppress_equal_stacks=0:suppress_equal_addresses=0:log_path=/dev/null:history_size=4"
    return e


class StatusFile:
    def __init__(self, path):
        self.path = path

    def read(self):
        try:
            with open(self.path, "rb") as f:
                h = struct.unpack("<5Q", f.read(40))
                n = min(h[4], 1 << 16)
                ch = list(struct.unpack("<%dQ" % n, f.read(8 * n)))
            return {"case": h[0], "sub": h[1], "start": h[2], "active": h[3], "choices": ch}
        except (OSError, struct.error):
            return None


def tail(path, n=4000):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-60000:][:n] if False else f.read()[-n:]
    except OSError:
        return ""


def summary_of(text):
    for pat in (r"SUMMARY: [^\n]*", r"ERROR: AddressSanitizer[^\n]*", r"WARNING: ThreadSanitizer[^\n]*", r"terminate called[^\n]*\n[^\n]*"):
        m = re.findall(pat, text)
        if m:
            return m[-1].strip()
    return text.strip().splitlines()[-1][:300] if text.strip() else "no output"


class Checker:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.cfg = pid, tier, seed, PROPS[pid]
        self.hang = self.cfg.get("hang_s", 60)
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid, dir="/tmp")
        self.exes = {}
        self.subs = {}

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # one replay in its own process: ("pass"|"fail"|"crash"|"hang", message, desc)
    def replay(self, variant, sub, choices, times=1, timeout=None):
        d = tempfile.mkdtemp(dir=self.scratch)
        f = os.path.join(d, "case.json")
        json.dump({"sub": sub, "choices": choices}, open(f, "w"))
        out = os.path.join(d, "out.json")
        try:
            with open(os.path.join(d, "log"), "w") as lf:
                p = subprocess.Popen([self.exes[variant], "replay", "--file", f, "--times", str(times), "--out", out, "--verbose", "1"],
                                     stdout=lf, stderr=subprocess.STDOUT, env=run_env(d, variant, self.cfg.get("soft_tsan", False)), cwd=d, start_new_session=True)
                try:
                    rc = p.wait(timeout or self.hang)
                except subprocess.TimeoutExpired:
                    self.kill(p)
                    return "hang", "no progress for %d s" % (timeout or self.hang), ""
                finally:
                    self.killgroup(p)
            txt = tail(os.path.join(d, "log"), 20000)
            if rc == 0:
                return "pass", "", ""
            if rc == 1 and os.path.exists(out):
                o = json.load(open(out))
                return ("live" if o["liveness"] else "fail"), o["msg"], o["desc"]
            return "crash", summary_of(txt) + " (exit %d)" % rc, txt[-6000:]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def killgroup(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def kill(self, p):
        self.killgroup(p)
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            pass

    def shrink_external(self, variant, sub, choices, want, budget):
        """shrinks a case whose failure kills or blocks the process, by replaying candidates in subprocesses"""
        end = time.time() + budget
        best = choices
        ex = ThreadPoolExecutor(NW)

        def bad(c):
            if time.time() > end:
                return False
            return self.replay(variant, sub, c, 1, 20)[0] in want

        def candidates(c):
            n, k = len(c), len(c)
            while k >= 1:
                for i in range(0, n - k + 1, max(1, k // 2)):
                    yield c[:i] + c[i + k:]
                k //= 2
            for k in (8, 4, 2, 1):
                for i in range(0, n - k + 1, k):
                    if any(c[i:i + k]):
                        yield c[:i] + [0] * k + c[i + k:]
            for i in range(n):
                if c[i] > 1:
                    yield c[:i] + [c[i] // 2] + c[i + 1:]
                if c[i] > 0:
                    yield c[:i] + [c[i] - 1] + c[i + 1:]
        progress = True
        while progress and time.time() < end:
            progress = False
            gen = candidates(best)
            while time.time() < end:
                batch = []
                for c in gen:
                    batch.append(c)
                    if len(batch) == NW:
                        break
                if not batch:
                    break
                hit = next((c for c, r in zip(batch, ex.map(bad, batch)) if r), None)
                if hit is not None:
                    best = hit
                    progress = True
                    break
        ex.shutdown()
        return best

    def workers(self, variant, cases, secs, only=None):
        """runs NW workers over the case indices; returns (merged results, list of raw failures)"""
        nw = self.cfg.get("workers", NW)
        procs = []
        for w in range(nw):
            d = os.path.join(self.scratch, "w%d" % w)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            st = StatusFile(os.path.join(d, "status"))
            cmd = [self.exes[variant], "worker", "--seed", str(self.seed + 1000003 * list(self.exes).index(variant)), "--start", str(w), "--stride", str(nw), "--cases", str(cases),
                   "--secs", str(secs), "--shrink", "25", "--status", st.path, "--out", os.path.join(d, "out.json")]
            if only:
                cmd += ["--sub", only]
            lf = open(os.path.join(d, "log"), "w")
            procs.append([subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=run_env(d, variant, self.cfg.get("soft_tsan", False)), cwd=d, start_new_session=True), d, st, lf, None])
        fails, outs = [], []
        pending = list(procs)
        stop_at = None
        while pending:
            time.sleep(0.05)
            for pr in list(pending):
                p, d, st, lf, _ = pr
                rc = p.poll()
                if rc is None:
                    s = st.read()
                    if s and s["active"] and s["start"] and time.clock_gettime(time.CLOCK_MONOTONIC) - s["start"] / 1000.0 > self.hang:
                        bt = ""
                        self.kill(p)
                        s = st.read() or s
                        fails.append(dict(kind="hang", sub=self.subs[s["sub"]], choices=s["choices"], msg="no progress for %d s" % self.hang, desc=bt, variant=variant))
                        pending.remove(pr)
                    elif stop_at and time.time() > stop_at:
                        self.kill(p)
                        pending.remove(pr)
                    continue
                pending.remove(pr)
                self.killgroup(p)
                lf.close()
                o = None
                try:
                    o = json.load(open(os.path.join(d, "out.json")))
                except (OSError, ValueError):
                    pass
                if rc == 0 and o is not None:
                    outs.append(o)
                    if "fail" in o:
                        f = o["fail"]
                        fails.append(dict(kind="live" if f["liveness"] else "fail", sub=f["sub"], choices=f["choices"], msg=f["msg"], desc=f["desc"], variant=variant))
                else:
                    s = st.read()
                    txt = tail(os.path.join(d, "log"), 20000)
                    if not s:
                        log("ERROR: worker died before its first case:", summary_of(txt), rc)
                        continue
                    fails.append(dict(kind="crash", sub=self.subs[s["sub"]], choices=s["choices"], msg=summary_of(txt) + " (exit %d)" % rc, desc=txt[-6000:], variant=variant))
            # a first failure decides the run; the other workers get a little time to finish
            if fails and stop_at is None:
                stop_at = time.time() + 2
        return outs, fails

    def confirm(self, f):
        """replays a raw failure; returns True when it is to be reported"""
        v, sub, ch, kind = f["variant"], f["sub"], f["choices"], f["kind"]
        if kind in ("hang", "live"):
            with ThreadPoolExecutor(NW) as ex:
                rs = [r.result() for r in [ex.submit(self.replay, v, sub, ch, 20 if kind == "live" else 1, self.hang * 2) for _ in range(6)]]
            bad = [r for r in rs if r[0] != "pass"]
            f["reproduced"] = "%d of 6" % len(bad)
            if len(bad) < 2:
                log("note: not reproduced (%s), inconclusive: %s %s" % (f["reproduced"], kind, f["msg"]))
                return False
            f["desc"] = f["desc"] or bad[0][2]
            return True
        if kind == "crash":
            r = self.replay(v, sub, ch)
            if r[0] == "crash":
                f["choices"] = self.shrink_external(v, sub, ch, ("crash",), 40)
        with ThreadPoolExecutor(3) as ex:
            rs = [r.result() for r in [ex.submit(self.replay, v, sub, f["choices"], 1) for _ in range(3)]]
        bad = [r for r in rs if r[0] != "pass"]
        f["reproduced"] = "%d of 3" % len(bad)
        if bad:
            f["msg"], f["desc"] = bad[0][1], bad[0][2]
        if not bad and kind == "crash" and "(exit -9)" in f["msg"]:
            log("note: worker was killed from outside (memory?), inconclusive")
            return False
        return True

    def report(self, f):
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        h = hashlib.sha1(json.dumps([f["sub"], f["choices"]]).encode()).hexdigest()[:10]
        path = os.path.join(V, "replays", "%s-%s-%s.json" % (self.pid, f["sub"], h))
        json.dump({"property": self.pid, "sub": f["sub"], "variant": f["variant"], "kind": f["kind"], "message": f["msg"], "reproduced": f.get("reproduced"),
                   "case": f["desc"], "choices": f["choices"], "replay_cmd": "python3 tools/check.py %s --replay %s" % (self.pid, path)}, open(path, "w"), indent=1)
        log("failure in %s (%s, reproduced %s): %s" % (f["sub"], f["kind"], f.get("reproduced"), f["msg"]))
        log("case: " + (f["desc"] or "")[:3000])
        log("VIOLATION property=%s replay=%s" % (self.pid, path))

    def prepare(self):
        variants = self.cfg.get("variants", ["asan"])
        if self.tier == "thorough":
            variants = self.cfg.get("thorough_variants", variants)
        for v in variants:
            build_lib(v)
            self.exes[v] = build_harness(self.pid, v)
        r = subprocess.run([self.exes[variants[0]], "list"], env=run_env(self.scratch, variants[0], self.cfg.get("soft_tsan", False)), stdout=subprocess.PIPE, text=True, cwd=self.scratch)
        self.subs = [l.split()[0] for l in r.stdout.splitlines() if l]
        return variants

    @staticmethod
    def regvar(j, variants):
        return j["variant"] if j.get("variant") in variants else variants[0]

    def main(self):
        t0 = time.time()
        variants = self.prepare()
        t1 = time.time()
        reported = 0
        known = []
        # committed regression cases and known findings
        regress = sorted(glob.glob(os.path.join(V, "regress", self.pid, "*.json")))
        kf = {}
        for line in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", line.strip())
            if m and m.group(1) == self.pid:
                kf[os.path.abspath(os.path.join(V, m.group(2)))] = m.group(3)
        with ThreadPoolExecutor(NW) as ex:
            rr = list(ex.map(lambda p: (p, json.load(open(p)), self.replay(self.regvar(json.load(open(p)), variants), json.load(open(p))["sub"], json.load(open(p))["choices"], 3)), regress))
        for p, j, r in rr:
            if os.path.abspath(p) in kf:
                if r[0] != "pass":
                    known.append(kf[os.path.abspath(p)])
                    log("KNOWN-FINDING: property=%s %s" % (self.pid, kf[os.path.abspath(p)]))
                continue
            if r[0] in ("fail", "crash"):
                f = dict(kind=r[0], sub=j["sub"], choices=j["choices"], msg=r[1], desc=r[2], variant=self.regvar(j, variants), reproduced="regression case " + os.path.basename(p))
                self.report(f)
                reported += 1
        outs, fails = [], []
        if not reported:
            for v in variants:
                cases = self.cfg["thorough_cases" if self.tier == "thorough" else "cases"]
                if isinstance(cases, dict):
                    cases = cases[v]
                scale = float(os.environ.get("VP_SCALE", "1"))
                o, f = self.workers(v, int(cases * scale), self.cfg.get("cap_s", 240) if self.tier == "quick" else self.cfg.get("thorough_cap_s", 3000))
                outs += o
                fails += f
                if fails:
                    break
        done = set()
        for f in sorted(fails, key=lambda f: ["fail", "crash", "live", "hang"].index(f["kind"])):
            if (f["sub"], f["kind"]) in done or reported >= 3:
                continue
            done.add((f["sub"], f["kind"]))
            if reported and f["kind"] in ("hang", "live"):
                continue
            if self.confirm(f):
                self.report(f)
                reported += 1
        self.evidence(outs, variants, regress, known, reported, t0, t1)
        return 1 if reported else 0

    def evidence(self, outs, variants, regress, known, reported, t0, t1):
        ev = sum(o["evaluations"] for o in outs)
        hashes = set()
        for o in outs:
            hashes.update(o["hashes"])

        def merge(k):
            m = {}
            for o in outs:
                for a, b in o[k].items():
                    m[a] = m.get(a, 0) + b
            return dict(sorted(m.items()))
        samples, seen = [], set()
        for o in outs:
            for s, l in o["samples"].items():
                for x in l:
                    if sum(1 for y in samples if y["sub"] == s) < 3 and x not in seen:
                        seen.add(x)
                        samples.append({"sub": s, "case": x})
        cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": self.cfg["rule"],
               "samples": samples or ["no generated case ran: a committed regression case failed first"],
               "per_generator": merge("perSub") if outs else {}, "classification": merge("tags") if outs else {}, "observed": merge("counts") if outs else {},
               "regression_cases_replayed": len(regress), "library_variants": variants,
               "workers": len(outs), "time_cap_hit": any(o["capped"] for o in outs), "search_s": round(time.time() - t1, 2), "known_findings": known}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.cfg.get("level", "exploration"), "coverage": cov,
                   "assumptions": self.cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": reported},
                  open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)
        log("%s %s seed=%d: %d cases, %d distinct non-trivial, %d regression cases, %.1f s build, %.1f s search, violations=%d" % (
            self.pid, self.tier, self.seed, ev, len(hashes), len(regress), t1 - t0, time.time() - t1, reported))


def main():
    if sys.argv[1] == "setup":
        variants = sorted({v for c in PROPS.values() for v in c.get("variants", ["asan"])})
        for v in variants:
            build_lib(v)
        jobs = [(p, v) for p, c in PROPS.items() for v in c.get("variants", ["asan"])]
        with ThreadPoolExecutor(NW) as ex:
            for f in [ex.submit(build_harness, *j) for j in jobs]:
                f.result()
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Checker(pid, tier, seed)
    try:
        if args and args[0] == "--replay":
            j = json.load(open(args[1]))
            c.prepare()
            r = c.replay(j.get("variant", "asan"), j["sub"], j["choices"])
            print(*r, sep="\n")
            return 0 if r[0] == "pass" else 1
        return c.main()
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
