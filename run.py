#!/usr/bin/env python3
"""Entry point of the checks.

  run.py setup          build everything the checks use
  run.py check Pxx      run one check (VERIF_SEED, VERIF_TIER)
  run.py replay FILE    run a recorded violating case again

Exit status: 0 property held on everything explored, 1 violation, 2 error.
"""
import concurrent.futures
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

import vfbuild
import checks
from checks import CHECKS, TARGETS

VERIF = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(VERIF, "known_findings.txt")
DEADLINE = 800  # seconds for a quick check, including building

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:abort_on_error=0:detect_leaks=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=78:halt_on_error=1:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=77",
}


class CheckError(Exception):
    pass


def known_findings():
    """Lines 'Pxx <key-regex>' identify findings that are not re-reported."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            m = re.match(r"known: property=(P\d+) key=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def san_key(text):
    """Short stable key of a sanitizer report: kind and first library frame."""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", text)
    kind = None
    if m:
        kind = m.group(1)[:4].lower() + ":" + m.group(2)
    elif "WARNING: ThreadSanitizer" in text:
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", text)
        kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    else:
        m = re.search(r"runtime error: ([^\n]+)", text)
        if m:
            kind = "ubsan:" + re.sub(r"-?0x[0-9a-f]+|-?\d+", "N", m.group(1))[:50].strip().replace(" ", "-")
    if not kind:
        return None
    f = re.search(r"in (ruy::[\w:~<>]+)", text) or re.search(r"#\d+ (ruy::[\w:~<>]+)", text)
    return kind + ("@" + f.group(1) if f else "")


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = CHECKS[pid]
        self.t0 = time.time()
        self.work = os.path.join(vfbuild.BUILD, "work-%s-%d" % (pid, os.getpid()))
        self.counts, self.maxes, self.distinct, self.samples = {}, {}, {}, []
        self.violations = []  # (key, detail, replay command)
        self.inconclusive = []
        self.events = {}
        self.left_out = []

    def left(self):
        lim = DEADLINE if self.tier == "quick" else 4 * 3600
        return lim - (time.time() - self.t0)

    def merge(self, path, job):
        with open(path) as f:
            d = json.load(f)
        for k, v in d["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
            jk = job["mode"] + "." + k
            self.events[jk] = self.events.get(jk, 0) + v
        for k, v in d["max"].items():
            self.maxes[k] = max(self.maxes.get(k, 0), v)
        for k, v in d["distinct"].items():
            self.distinct.setdefault(k, set()).update(v)
        for s in d["samples"]:
            if len(self.samples) < 12 and s not in self.samples:
                self.samples.append(s)

    def command(self, job, lo, hi, tag):
        out = os.path.join(self.work, tag + ".json")
        prog = os.path.join(self.work, tag + ".progress")
        cmd = [self.bins[job["target"]], "--mode", job["mode"], "--seed", str(self.seed), "--from", str(lo), "--to", str(hi),
               "--out", out, "--progress", prog]
        if self.tier == "thorough":
            cmd.append("--thorough")
        if job.get("extra"):
            cmd += ["--extra", job["extra"]]
        if job.get("prefix"):
            cmd = list(job["prefix"]) + cmd
        return cmd, out, prog

    def run_chunk(self, job, lo, hi, attempt=0):
        tag = "%s-%s-%d-%d" % (job["target"], job["mode"], lo, attempt)
        cmd, out, prog = self.command(job, lo, hi, tag)
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["VF_WORK"] = self.work
        for k in ("RUY_PATHS", "LD_PRELOAD"):
            env.pop(k, None)
        env.update(job.get("env", {}))
        limit = min(job.get("timeout", 420) * (4 if self.tier == "thorough" else 1), max(30, self.left()))
        log = os.path.join(self.work, tag + ".log")
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=self.work, start_new_session=True)
            try:
                rc = p.wait(timeout=limit)
                timed_out = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc, timed_out = None, True
        with open(log, errors="replace") as lf:
            text = lf.read()
        case = lo
        try:
            case = int(open(prog).read().strip() or lo)
        except (OSError, ValueError):
            pass
        return dict(job=job, lo=lo, hi=hi, rc=rc, timed_out=timed_out, text=text, out=out, case=case, log=log)

    def add_violation(self, key, detail, job, case):
        self.violations.append((key, detail, job, case))

    def judge(self, r, retry=True):
        """Interprets one finished process."""
        job, text, rc = r["job"], r["text"], r["rc"]
        found = False
        for m in re.finditer(r"^V key=(\S+) case=(-?\d+) (.*)$", text, re.M):
            self.add_violation(m.group(1), m.group(3), job, int(m.group(2)))
            found = True
        if r["timed_out"] or rc == 5 or "\nHANG case=" in "\n" + text:
            if found:
                return
            # Inconclusive: run the case again alone, with a generous limit.
            if retry and self.left() > 60:
                r2 = self.run_chunk(dict(job, timeout=200), r["case"], r["case"] + 1, 1)
                if r2["timed_out"] or r2["rc"] == 5:
                    self.add_violation("hang", "no progress (twice) at case %d" % r["case"], job, r["case"])
                else:
                    self.judge(r2, False)
                    self.inconclusive.append("case %d of %s timed out once, finished when repeated" % (r["case"], job["mode"]))
            else:
                self.inconclusive.append("case %d of %s timed out" % (r["case"], job["mode"]))
            return
        if rc == 4 and found:  # deadlock reported by the watchdog
            return
        if "HARNESS-ERROR" in text or rc == 3:
            raise CheckError("harness error: " + text[-1500:])
        key = san_key(text)
        if key:
            m = re.search(r"(ERROR: \w+Sanitizer|WARNING: ThreadSanitizer|runtime error)[^\n]*", text)
            self.add_violation(key, m.group(0) if m else key, job, r["case"])
            r["keep"] = True
            return
        if rc is not None and rc < 0:
            sig = -rc
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP):
                m = re.search(r"ruy/(\w+\.\w+):\d+: (.*)", text) or re.search(r"CRASH (.*)", text)
                where = ""
                mm = re.search(r"ruy/(\w+\.(?:cc|h)):(\d+)", text)
                if mm:
                    where = "@" + mm.group(1)
                self.add_violation("crash:" + signal.Signals(sig).name + where, (m.group(0) if m else "process died") + " " +
                                   " ".join(re.findall(r"context=(.*)", text))[:400], job, r["case"])
                return
            raise CheckError("process killed by signal %d (out of memory?): %s" % (sig, text[-500:]))
        if rc != 0:
            raise CheckError("unexpected exit status %s of %s: %s" % (rc, job["mode"], text[-1500:]))
        if not os.path.exists(r["out"]):
            raise CheckError("no observations written by %s" % job["mode"])
        self.merge(r["out"], job)

    def replay_script(self, n, key, detail, job, case):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, n))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "key": key, "detail": detail, "target": job["target"], "mode": job["mode"],
                       "extra": job.get("extra"), "env": job.get("env", {}), "seed": self.seed, "tier": self.tier, "case": case}, f, indent=1)
            f.write("\n")
        return path

    def random_variants(self):
        """Jobs for builds with randomly chosen switches."""
        rng = random.Random("%s-%d" % (self.pid, self.seed))
        mode, quick, thorough = self.spec["random_job"]
        jobs = []
        for _ in range(self.spec["random_variants"][self.tier]):
            v = "opt-%x%s%s" % (rng.getrandbits(13) | 2, rng.choice(["", "-ndebug"]), rng.choice(["", "", "-prof"]))
            jobs.append(checks.job(checks.opt_target(v), mode, quick, thorough, procs=1))
        return jobs

    def build_each(self, jobs):
        """Builds one target after the other; those that do not build while the
        reference does are violations."""
        ref = self.spec["cross"]
        self.bins = vfbuild.build([dict(TARGETS[ref], name=ref)])
        ok = []
        for j in jobs:
            if j["target"] != ref:
                try:
                    self.bins.update(vfbuild.build([dict(TARGETS[j["target"]], name=j["target"])]))
                except vfbuild.BuildError as e:
                    m = re.search(r"error: .*", str(e))
                    self.add_violation("build:" + j["target"], "does not build: %s" % (m.group(0) if m else str(e)[-300:]), j, 0)
                    continue
            ok.append(j)
        return ok

    def build_some(self, jobs):
        """Builds what can be built of an optional configuration and leaves out
        the jobs of the rest, together with the observations they stand for."""
        self.bins, ok = {}, []
        for n in sorted(set(j["target"] for j in jobs)):
            try:
                self.bins.update(vfbuild.build([dict(TARGETS[n], name=n)]))
                ok.append(n)
            except vfbuild.BuildError as e:
                last = e
                m = re.search(r"error: .*", str(e))
                self.left_out.append("%s could not be built and was left out (%s)" % (n, m.group(0)[:200] if m else "link"))
        if not ok:
            raise last
        for x in self.left_out:
            print("note: " + x)
        return [j for j in jobs if j["target"] in ok]

    def compare_digests(self, results):
        """Compares the digests written by every build with those of the
        reference build, case by case and code path by code path."""
        ref, per = {}, {}
        for r in results:
            path = r["out"] + ".digests"
            if not os.path.exists(path):
                continue
            for line in open(path, errors="replace"):
                f = line.rstrip("\n").split(" ", 3)
                if len(f) < 4:
                    continue
                if r["job"]["target"] == self.spec["cross"]:
                    ref[(f[0], f[1])] = f[2]
                else:
                    per.setdefault(r["job"]["target"], (r["job"], []))[1].append(f)
        for name, (job, lines) in per.items():
            n = 0
            for f in lines:
                want = ref.get((f[0], f[1]))
                if want is None:
                    continue
                n += 1
                if want != f[2]:
                    self.add_violation("switch:" + name, "case %s differs from the default build on %s: %s" % (f[0], f[1], f[3]), job, int(f[0]))
            self.counts["digests_compared"] = self.counts.get("digests_compared", 0) + n
            self.events["compared." + name] = n
            if n:
                self.counts["builds_compared"] = self.counts.get("builds_compared", 0) + 1
        self.events["builds_compared"] = self.counts.get("builds_compared", 0)

    def run(self):
        spec = self.spec
        os.makedirs(self.work, exist_ok=True)
        jobs = [j for j in spec["jobs"] if j.get(self.tier, 0)]
        if spec.get("random_variants"):
            jobs += self.random_variants()
        names = sorted(set(j["target"] for j in jobs))
        tb = time.time()
        try:
            self.bins = vfbuild.build([dict(TARGETS[n], name=n) for n in names])
        except vfbuild.BuildError:
            if spec.get("some"):
                jobs = self.build_some(jobs)
            elif spec.get("cross"):
                jobs = self.build_each(jobs)
            else:
                raise
        self.build_s = time.time() - tb
        # Schedule chunks; a job may ask to run alone ("exclusive").
        serial = [j for j in jobs if j.get("exclusive")]
        par = [j for j in jobs if not j.get("exclusive")]
        chunks = []
        for j in par:
            n = j[self.tier]
            procs = min(j.get("procs", 8), n)
            for i in range(procs):
                lo, hi = n * i // procs, n * (i + 1) // procs
                if hi > lo:
                    chunks.append((j, lo, hi))
        workers = spec.get("parallel", 8)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            results = list(ex.map(lambda c: self.run_chunk(*c), chunks))
        for j in serial:
            n = j[self.tier]
            procs = min(j.get("procs", 1), n)
            for i in range(procs):
                results.append(self.run_chunk(j, n * i // procs, n * (i + 1) // procs))
        if spec.get("cross"):
            self.compare_digests(results)
        errors = []
        for r in results:
            try:
                self.judge(r)
            except CheckError as e:
                errors.append(e)
        if errors and not self.violations:
            raise errors[0]
        return self.finish()

    def finish(self):
        spec = self.spec
        known = known_findings()
        new, seen_known = [], []
        for v in self.violations:
            hit = [k for k in known if k[0] == self.pid and k[1].fullmatch(v[0])]
            if hit:
                if hit[0][2] not in seen_known:
                    seen_known.append(hit[0][2])
            else:
                new.append(v)
        for k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        self.write_evidence(new)
        if new:
            shown = {}
            for key, detail, job, case in new:
                shown.setdefault(key, []).append((detail, job, case))
            n = 0
            for key, lst in list(shown.items())[:6]:
                detail, job, case = lst[0]
                path = self.replay_script(n, key, detail, job, case)
                n += 1
                print("  %s (%d times) %s" % (key, len(lst), detail[:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        missing = [c for c in spec.get("require", []) if not self.counts.get(c)]
        if self.left_out:
            missing = [] if self.evaluations() else missing
        if missing:
            raise CheckError("nothing observed for: " + ", ".join(missing))
        if self.inconclusive:
            for i in self.inconclusive:
                print("inconclusive: " + i)
            if len(self.inconclusive) > 2:
                raise CheckError("too many inconclusive runs")
        print("%s held: %s evaluations, %d distinct (%.1f s, build %.1f s)" % (
            self.pid, self.evaluations(), self.distinct_n(), time.time() - self.t0, self.build_s))
        return 0

    def evaluations(self):
        return sum(self.counts.get(c, 0) for c in self.spec["evaluations"])

    def distinct_n(self):
        return sum(len(self.distinct.get(c, ())) for c in self.spec["distinct"])

    def write_evidence(self, new):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "evaluations": self.evaluations(),
            "distinct_nontrivial": self.distinct_n(),
            "rule": self.spec["rule"],
            "samples": self.samples or ["none"],
            "observed": dict(sorted(self.events.items())),
            "distinct_sets": {k: len(v) for k, v in sorted(self.distinct.items())},
            "maxima": self.maxes,
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.spec.get("level", "exploration"),
            "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.spec.get("assumptions", []) + self.left_out, "violations": len(new),
        }
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        used = sorted(set(j["target"] for c in CHECKS.values() for j in c["jobs"] if j.get("quick")))
        optional = set(j["target"] for c in CHECKS.values() if c.get("some") for j in c["jobs"])
        vfbuild.build([dict(TARGETS[n], name=n) for n in used if n not in optional])
        for n in sorted(optional):
            try:
                vfbuild.build([dict(TARGETS[n], name=n)])
            except vfbuild.BuildError as e:
                print("note: %s could not be built" % n)
        vfbuild.prune()
        print("built %d binaries" % len(used))
        return 0
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        if d["target"].startswith("switch-") and d["target"] not in TARGETS:
            checks.opt_target(d["target"][len("switch-"):])
        bins = vfbuild.build([dict(TARGETS[d["target"]], name=d["target"])])
        env = dict(os.environ, **SAN_ENV, **d["env"])
        cmd = [bins[d["target"]], "--mode", d["mode"], "--seed", str(d["seed"]), "--case", str(d["case"]), "-v"]
        if d.get("extra"):
            cmd += ["--extra", d["extra"]]
        return subprocess.run(cmd, env=env).returncode
    if sys.argv[1] == "check":
        pid = sys.argv[2]
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 3:
            tier = sys.argv[3]
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        r = Runner(pid, tier, seed)
        try:
            return r.run()
        except vfbuild.BuildError as e:
            print("BUILD-ERROR " + str(e))
            return 2
        except CheckError as e:
            print("CHECK-ERROR " + str(e))
            return 2
        finally:
            if not os.environ.get("VF_KEEP"):
                shutil.rmtree(r.work, ignore_errors=True)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
