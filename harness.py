"""Runs analysis tasks: builds MIR of /repo for each build profile, then distributes tasks over analyser processes."""
import json, os, shutil, subprocess, sys, tempfile, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENGINE = os.path.join(VERIF, "engine", "target", "release", "lyra-sa")
MIRFLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"
PROFILES = {
    "debug": "-C debug-assertions=on -C overflow-checks=on",
    "release": "-C debug-assertions=off -C overflow-checks=off",
    "dbg-noovf": "-C debug-assertions=on -C overflow-checks=off",
    "rel-ovf": "-C debug-assertions=off -C overflow-checks=on",
}
# other targets: a metadata-only standard library is built for each from rust-src (offline)
TARGETS = {"s390x": "s390x-unknown-linux-gnu", "powerpc": "powerpc-unknown-linux-gnu", "i686": "i686-unknown-linux-gnu"}
# other operating systems and processors, used when the sources mention target options
MORE_TARGETS = {"windows": "x86_64-pc-windows-gnu", "macos": "aarch64-apple-darwin"}


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def ensure_engine():
    if not os.path.exists(ENGINE):
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "engine"), capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("engine build failed:\n" + r.stderr[-3000:])


def target_sysroot(name):
    """builds (once) the standard library's MIR for a target without a precompiled one"""
    t = TARGETS.get(name) or MORE_TARGETS[name]
    d = os.path.join(VERIF, "target", "sysroot-" + t)
    if not os.path.isdir(os.path.join(d, "lib", "rustlib", t, "lib")):
        tmp = tempfile.mkdtemp(prefix="sysroot-", dir=os.path.join(VERIF, "target"))
        env = dict(os.environ)
        for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "LYRA_SA_RECORD", "LYRA_SA_JOB"):
            env.pop(k, None)
        env["MIRI_SYSROOT"] = os.path.join(tmp, "s")
        env["CARGO_NET_OFFLINE"] = "true"
        r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", t], env=env, cwd=tmp, capture_output=True, text=True)
        if r.returncode != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("standard library for %s: %s" % (t, r.stderr[-1500:]))
        try:
            os.rename(os.path.join(tmp, "s"), d)
        except OSError:
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    return d


class Session:
    """MIR of the working tree under the requested profiles; tasks run against it."""

    def __init__(self, profiles=("debug",), variants=None):
        """profiles must build; variants ({name: {"flags", "crate_flags", "env"}}) that do not build are left out (self.failed)"""
        ensure_engine()
        os.makedirs(os.path.join(VERIF, "target"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "target"))
        self.root = sysroot()
        self.args = {}
        self.cwd = {"spec": os.path.join(VERIF, "spec"), "lyra2": REPO}
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get("LYRA_SA_DEADLINE", "780"))
        procs = []
        variants = variants or {}
        self.failed = {}
        for p in list(profiles) + list(variants):
            v = variants.get(p, {})
            env = dict(os.environ)
            env.update(v.get("env", {}))
            env.pop("LYRA_SA_EXTRA", None)
            if v.get("crate_flags"):
                env["LYRA_SA_EXTRA"] = "\x01".join(v["crate_flags"])
            env.pop("RUSTC_WRAPPER", None)
            env["LD_LIBRARY_PATH"] = self.root + "/lib"
            env["RUSTFLAGS"] = MIRFLAGS + " " + (PROFILES[p] if p in PROFILES else PROFILES[v.get("base", "debug")] + " " + v.get("flags", ""))
            env["RUSTC_WRAPPER"] = ENGINE
            env.pop("RUSTC_WORKSPACE_WRAPPER", None)
            env.pop("LYRA_SA_JOB", None)
            env["LYRA_SA_RECORD"] = os.path.join(self.dir, p + ".args")
            tn, _, base = p.partition(":")
            tgt = []
            if tn in TARGETS or tn in MORE_TARGETS:
                try:
                    env["RUSTFLAGS"] = MIRFLAGS + " " + PROFILES[base or v.get("base", "debug")] + " --sysroot " + target_sysroot(tn)
                except BuildError as e:
                    if p not in variants:
                        raise
                    self.failed[p] = str(e)
                    continue
                tgt = ["--target", TARGETS.get(tn) or MORE_TARGETS[tn]]
            cmd = ["cargo", "+nightly", "check", "--offline", "--target-dir", os.path.join(self.dir, "tgt-" + p.replace(":", "-"))] + tgt
            procs.append((p, subprocess.Popen(cmd, cwd=os.path.join(VERIF, "spec"), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for p, pr in procs:
            _, err = pr.communicate(timeout=600)
            if pr.returncode != 0 and p in variants:
                self.failed[p] = err[-1500:]
                continue
            if pr.returncode != 0:
                self.close()
                raise BuildError("the crate does not build under profile %s:\n%s" % (p, err[-4000:]))
            for c in ("spec", "lyra2"):
                self.args[p, c] = open(os.path.join(self.dir, p + ".args." + c)).read().split("\x01")
        self.build_s = time.time() - self.t0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def scan(self, prof, crate, flt):
        """effect scan of one crate's type-checked program"""
        line = "kind=effects filter=%s" % flt
        r = self.run([(prof, line, 1)], crate=crate)[(prof, line)]
        if r["verdict"] != "DONE":
            raise BuildError("effect scan of %s failed: %s" % (crate, r.get("detail")))
        return r

    def run(self, tasks, jobs=None, timeout=None, crate="spec", stop=(), retry=True):
        """tasks: list of (profile, line, cost). Returns {(profile, line): result}.
        Soon after a result with a verdict in `stop` the rest is left out."""
        jobs = jobs or int(os.environ.get("LYRA_SA_JOBS", "8"))
        groups = []
        by_prof = {}
        for p, l, c in tasks:
            by_prof.setdefault(p, []).append((c, l))
        total = sum(c for _, _, c in tasks) or 1
        for p, ts in by_prof.items():
            share = sum(c for c, _ in ts)
            n = max(1, min(len(ts), round(jobs * share / total)))
            bins = [[0, []] for _ in range(n)]
            for c, l in sorted(ts, reverse=True):
                b = min(bins, key=lambda b: b[0])
                b[0] += c
                b[1].append(l)
            for b in bins:
                groups.append((p, b[1][::-1]))  # the light ones first
        procs = []
        for i, (p, ls) in enumerate(groups):
            jf = os.path.join(self.dir, "job-%d" % i)
            of = os.path.join(self.dir, "out-%d" % i)
            if os.path.exists(of):
                os.unlink(of)
            open(jf, "w").write("\n".join(ls) + "\n")
            env = dict(os.environ)
            env.update({"LD_LIBRARY_PATH": self.root + "/lib", "LYRA_SA_JOB": jf, "LYRA_SA_OUT": of, "CARGO_PRIMARY_PACKAGE": "1", "RUST_BACKTRACE": "0"})
            env.pop("LYRA_SA_RECORD", None)
            err = open(os.path.join(self.dir, "err-%d" % i), "w")
            pr = subprocess.Popen([ENGINE, "rustc"] + self.args[p, crate][1:], cwd=self.cwd[crate], env=env, stdout=err, stderr=err, start_new_session=True)
            procs.append((p, ls, of, pr, err))
        res = {}
        end = min(self.deadline, time.time() + timeout) if timeout else self.deadline
        stopped = False
        again = []
        cost = {(p, l): c for p, l, c in tasks}
        marks = ['"verdict":"%s"' % v for v in stop]
        seen = {}
        while marks and not stopped and time.time() < end and any(x[3].poll() is None for x in procs):
            time.sleep(0.3)
            for _, _, of, _, _ in procs:
                if os.path.exists(of):
                    with open(of) as fh:
                        fh.seek(seen.get(of, 0))
                        new = fh.read()
                        seen[of] = fh.tell() - len(new) + new.rfind("\n") + 1 if new.isascii() else seen.get(of, 0)
                    stopped = stopped or any(m in new for m in marks)
        if stopped:
            end = min(end, time.time() + 4)
        for i, (p, ls, of, pr, err) in enumerate(procs):
            try:
                pr.wait(timeout=max(0.1 if stopped else 1, end - time.time()))
                ended = pr.returncode < 0
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, signal.SIGKILL)
                pr.wait()
                ended = False
            err.close()
            got = {}
            if os.path.exists(of):
                for line in open(of):
                    try:
                        r = json.loads(line)
                        got[r["task"]] = r
                    except ValueError:
                        pass
            for l in ls:
                key = l.split("=")[1].split()[0] if l.startswith(("kind=selftest", "kind=effects")) else l
                r = got.get(l) or got.get(key)
                if r is None and stopped:
                    continue
                if r is None and ended and retry:
                    again.append((p, l, cost[p, l]))
                    continue
                if r is None:
                    tail = open(os.path.join(self.dir, "err-%d" % i)).read()[-600:]
                    r = {"task": l, "verdict": "UNDECIDED", "detail": ["no answer from the analyser: " + tail]}
                res[(p, l)] = r
        if again:
            # processes that were ended from outside (memory): once more, fewer at a time
            res.update(self.run(again, jobs=2, timeout=max(1, end - time.time()), crate=crate, stop=stop, retry=False))
        return res
