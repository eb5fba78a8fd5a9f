"""Bounded stand-ins: the unmodified library, built with ASan and UBSan, driven
by native/*.c against oracles written from the documentation.  Everything here is
labelled bounded."""
import glob, os, signal, struct, subprocess, threading, time

RULE = {}
for _p in range(1, 17):
    RULE["C%02d" % _p] = ("deterministic generator per (seed, case): files of 0..~200 kB with planted runs, repeats and edits, block "
                          "lengths 1..5000, all signature formats, random buffer schedules, malformed variants; non-trivial = the "
                          "case reached the checked behaviour (e.g. a delta with at least one copy, a rejected stream) rather than "
                          "the empty input")

PROCS = {"quick": 3, "thorough": 6}
SECS = {"quick": 20, "thorough": 240}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,nonnull-attribute"]


class Native:
    def __init__(self, prop, tier, seed, tmp, repo, verif):
        self.prop, self.tier, self.seed, self.tmp, self.repo, self.verif = prop, tier, seed, tmp, repo, verif
        self.failures, self.samples, self.cases, self.nontriv, self.note = [], [], 0, 0, ""
        self.lock = threading.Lock()
        self.drivers = []       # (name, exe)
        self.t = 0.0

    # -- build -------------------------------------------------------------
    def sources(self):
        return [s for s in glob.glob(self.repo + "/src/*.c") if os.path.basename(s) != "rdiff.c"] + \
            glob.glob(self.repo + "/src/blake2/*.c")

    def cc(self, src, out, extra=[], dedup=True, libsrc=None):
        objs, jobs = [], []
        base = ["gcc", "-w", "-O1", "-g", "-DNDEBUG", "-DLIBRSYNC_STATIC_DEFINE", "-D_FILE_OFFSET_BITS=64"] + SAN + \
               ["-I" + self.verif + "/include", "-I" + self.repo + "/src", "-I" + self.repo + "/src/blake2", "-I" + self.verif + "/native"]
        srcs = list(src) + (self.sources() if libsrc is None else libsrc)
        for i, s in enumerate(srcs):
            o = os.path.join(self.tmp, "%s_%d.o" % (os.path.basename(out), i))
            objs.append(o)
            jobs.append(subprocess.Popen(base + extra + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        bad = ""
        for j in jobs:
            t, _ = j.communicate()
            if j.returncode:
                bad += t
        if not bad:
            r = subprocess.run(base + objs + ["-o", out, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                bad = r.stdout
        return bad

    def build(self):
        exe = os.path.join(self.tmp, "vpn")
        bad = self.cc([self.verif + "/native/vpn.c"], exe)
        if bad:
            self.note += "public-API driver does not build: " + bad[-800:]
        else:
            self.drivers.append(("vpn", exe))
        name = {"C08": "vpi", "C10": "vpb"}.get(self.prop)
        if name:
            exe = os.path.join(self.tmp, name)
            bad = self.cc([self.verif + "/native/%s.c" % name], exe)
            if bad:
                self.note += "internal-API driver does not build: " + bad[-800:]
            else:
                self.drivers.append((name, exe))

    # -- run ---------------------------------------------------------------
    def one(self, name, exe, seed, secs, tag):
        stf = os.path.join(self.tmp, "st_%s_%s_%d" % (tag, name, seed))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:allocator_may_return_null=1:abort_on_error=0:handle_abort=1", TMPDIR=self.tmp)
        p = subprocess.Popen([exe, self.prop, str(seed), str(secs), stf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, text=True, errors="replace", env=env, preexec_fn=os.setsid, cwd=self.tmp)
        try:
            out, _ = p.communicate(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            out = "FAIL hang\n" + out
        try:
            cur, done, nt = struct.unpack("QQQ", open(stf, "rb").read(24))
        except Exception:
            cur = done = nt = 0
        with self.lock:
            self.cases += done
            self.nontriv += nt
            self.samples.append("%s seed=%d cases 1..%d" % (name, seed, done))
            if p.returncode != 0:
                if p.returncode == -9 and "FAIL" not in out and "ERROR" not in out:
                    self.note += "%s was killed (memory?)" % name
                    return
                self.failures.append("driver %s (built from /repo's src with the flags in bin/native.py), property %s, seed %d, case %d "
                                     "(replay: %s %s %d 1 /tmp/vpn.state %d)\n%s" % (name, self.prop, seed, cur, name, self.prop, seed, cur, out[-12000:]))

    def batch(self, procs, secs, base, tag):
        ts = []
        for k in range(procs):
            for name, exe in self.drivers:
                t = threading.Thread(target=self.one, args=(name, exe, base * 16 + k, secs, tag))
                t.start()
                ts.append(t)
        for t in ts:
            t.join()

    def run(self):
        t = time.time()
        try:
            self.build()
            th = None
            if self.prop == "C16":
                import cli
                th = threading.Thread(target=self.guard, args=(cli.run,))
                th.start()
            self.batch(PROCS[self.tier], SECS[self.tier], self.seed, "a")
            if th:
                th.join()
        except Exception as e:
            self.note += "native driver error: %r" % e
        self.t = time.time() - t

    def guard(self, f):
        try:
            f(self)
        except Exception as e:
            self.note += "native driver error: %r" % e

    def search_more(self):
        try:
            self.batch(7, 60 if self.tier == "quick" else 300, self.seed + 1000003, "b")
        except Exception as e:
            self.note += "native driver error: %r" % e

    def summary(self):
        return dict(label="bounded", drivers=[n for n, _ in self.drivers], cases=self.cases, nontrivial=self.nontriv, failures=len(self.failures),
                    note=self.note, wall_s=round(self.t, 1),
                    text="%d cases (%d non-trivial), %d failing %s" % (self.cases, self.nontriv, len(self.failures), self.note[:1500]))
