"""Bounded stand-in for the rdiff part of C16: the real rdiff binary, built with
ASan/UBSan from /repo, run on scratch files as an unprivileged user where
possible.  Expected exit codes and outputs come from doc/ and librsync.h."""
import os, random, shutil, subprocess, time

IO, SYNTAX, MEM, ENDED, MAGIC, UNIMP, CORRUPT, INTERNAL, PARAM = 100, 101, 102, 103, 104, 105, 106, 107, 108


def ref_patch(basis, d):
    """(code, output) of the documented delta interpretation"""
    o, i = b"", 0

    def num(k):
        nonlocal i
        if i + k > len(d):
            raise EOFError
        v = int.from_bytes(d[i:i + k], "big")
        i += k
        return v
    try:
        if num(4) != 0x72730236:
            return MAGIC, o
        while 1:
            c = num(1)
            if c == 0:
                return 0, o
            if c <= 0x44:
                n = c if c <= 0x40 else num(1 << (c - 0x41))
                if n >= 1 << 63:
                    return CORRUPT, o
                if n == 0:
                    return CORRUPT, o
                if i + n > len(d):
                    return ENDED, o
                o += d[i:i + n]
                i += n
            elif c <= 0x54:
                a, b = divmod(c - 0x45, 4)
                p, n = num(1 << a), num(1 << b)
                if n == 0 or n >= 1 << 63 or p >= 1 << 63:
                    return CORRUPT, o
                if p + n > len(basis):   # a huge offset may be refused by the seek itself
                    return ((ENDED, IO) if p >> 40 else ENDED), o
                o += basis[p:p + n]
            else:
                return CORRUPT, o
    except EOFError:
        return ENDED, o


class Bad(Exception):
    pass


def run(nat):
    exe = os.path.join(nat.tmp, "rdiff")
    bad = nat.cc([nat.repo + "/src/rdiff.c"], exe + ".x", extra=[])
    # link with popt
    import native
    objs = sorted(os.path.join(nat.tmp, f) for f in os.listdir(nat.tmp) if f.startswith("rdiff.x_") and f.endswith(".o"))
    r = subprocess.run(["gcc"] + native.SAN + objs + ["-o", exe, "-lpopt"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        nat.note += "rdiff does not build: " + (bad + r.stdout)[-600:]
        return
    rnd = random.Random(nat.seed)
    t0, k = time.time(), 0
    lim = 25 if nat.tier == "quick" else 200
    while time.time() - t0 < lim:
        k += 1
        d = os.path.join(nat.tmp, "cli%d" % k)
        os.mkdir(d, 0o777)
        os.chmod(d, 0o777)
        log = []
        try:
            case(rnd, k, exe, d, log)
            nat.cases += 1
            nat.nontriv += 1
        except Bad as e:
            nat.failures.append("rdiff (built with ASan/UBSan from /repo/src), seed %d case %d: %s\ncommands so far:\n  %s" % (nat.seed, k, e, "\n  ".join(log)))
            return
        finally:
            shutil.rmtree(d, ignore_errors=True)
    nat.samples.append("rdiff command line seed=%d cases 1..%d" % (nat.seed, k))
    nat.drivers_extra = ["rdiff"]


def case(rnd, k, exe, d, log):
    def w(n, b):
        with open(os.path.join(d, n), "wb") as f:
            f.write(b)
        os.chmod(os.path.join(d, n), 0o666)

    def rd(n):
        try:
            return open(os.path.join(d, n), "rb").read()
        except OSError:
            return None

    fds = os.open(exe, os.O_RDONLY)

    def go(args, inp=None, want=0, what="", stdout=None):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=1")

        def drop():
            os.umask(0)
            os.chdir(d)
        p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                             stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, preexec_fn=drop)
        try:
            o, e = p.communicate(inp, timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Bad("rdiff %s does not finish" % " ".join(args))
        log.append("rdiff %s -> %d" % (" ".join(args), p.returncode))
        if b"Sanitizer" in e or b"runtime error" in e:
            raise Bad("rdiff %s: %s" % (" ".join(args), e.decode(errors="replace")[-3000:]))
        ok = p.returncode in want if isinstance(want, tuple) else p.returncode == want
        if not ok:
            raise Bad("rdiff %s: exit status %d, expected %s (%s)\n%s" % (" ".join(args), p.returncode, want, what, e.decode(errors="replace")[-1500:]))
        return o
    try:
        n = rnd.choice([0, 1, 50, 2048, 2049, 5000, 20000])
        basis = bytes(rnd.choice([rnd.randrange(256), 65]) for _ in range(n))
        new = basis[:n // 2] + bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 1, 30]))) + basis[n // 3:]
        w("b", basis)
        w("n", new)
        o = []
        if rnd.random() < .5:
            o += ["-H", rnd.choice(["md4", "blake2"])]
        if rnd.random() < .5:
            o += ["-R", rnd.choice(["rollsum", "rabinkarp"])]
        if rnd.random() < .5:
            o += ["-b", str(rnd.choice([1, 7, 64, 2048, 100000]))]
        if rnd.random() < .3:
            o += ["-S", str(rnd.choice([8, 16]))]
        io = []
        if rnd.random() < .5:
            io = ["-I", str(rnd.choice([1, 100, 4096]))]
        if rnd.random() < .5:
            io += ["-O", str(rnd.choice([1, 100, 4096]))]
        if rnd.random() < .3:
            io += ["-s"]
        verb = lambda v: v[:rnd.randrange(1, len(v) + 1)] if rnd.random() < .3 else v
        if rnd.random() < .7:
            go(o + io + [verb("signature"), "b", "s"], want=0)
            go(io + [verb("delta"), "s", "n", "d"], want=0)
            go(io + [verb("patch"), "b", "d", "r"], want=0)
        else:
            w("s", go(o + io + ["signature"], inp=basis))
            w("d", go(io + ["delta", "s"], inp=new))
            w("r", go(io + ["patch", "b"], inp=rd("d")))
        if rd("r") != new:
            raise Bad("round trip through rdiff gives different data")
        if ref_patch(basis, rd("d")) != (0, new):
            raise Bad("delta written by rdiff does not describe the new file")
        sig, dl = rd("s"), rd("d")
        f = k % 14
        if f == 0:   # existing outputs are kept without force, replaced with it
            for a in (["signature", "b", "o"], ["delta", "s", "n", "o"], ["patch", "b", "d", "o"]):
                w("o", b"precious")
                go(a, want=IO, what="output exists")
                if rd("o") != b"precious":
                    raise Bad("existing output altered without --force by rdiff " + " ".join(a))
                go([rnd.choice(["-f", "--force"])] + (o if a[0][0] == "s" else []) + a, want=0)
                if a[0] == "patch" and rd("o") != new:
                    raise Bad("--force output wrong")
                if a[0] == "signature":
                    go(o + ["signature", "b", "s9"], want=0)
                if a[0] == "signature" and rd("o") != rd("s9"):
                    raise Bad("--force output wrong")
        elif f == 1:  # bad usage
            for a in ([], ["frob"], ["signature", "b", "x1", "x2"], ["delta"], ["patch"], ["--nosuch"], ["-H", "sha1", "signature", "b", "x3"],
                      ["-R", "nope", "signature", "b", "x4"], ["-b", "zzz", "signature", "b", "x5"], ["delta", "s", "n", "x6", "x7"],
                      ["patch", "b", "d", "x8", "x9"]):
                go(a, want=SYNTAX, what="bad usage")
        elif f == 2:
            go(["--help"], want=0)
            go(["--version"], want=0)
            go(["-z", "signature", "b", "x"], want=UNIMP, what="compression not implemented")
        elif f == 3:  # missing inputs
            for a in (["signature", "nope", "x"], ["delta", "nope", "n", "x1"], ["delta", "s", "nope", "x2"], ["patch", "nope", "d", "x3"],
                      ["patch", "b", "nope", "x4"]):
                go(a, want=IO, what="missing input")
        elif f in (4, 5):  # broken signature
            m = sig[:rnd.randrange(4)] if rnd.random() < .5 else sig
            c = ENDED
            if len(m) >= 4:
                m, c = bytes([rnd.randrange(256) for _ in range(2)] + [0x17, 0x99]) + sig[4:], MAGIC
            elif rnd.random() < .7:
                m, c = sig[:4 + rnd.randrange(8)], ENDED
            w("s2", m)
            go(["delta", "s2", "n", "x"], want=c, what="broken signature")
            if len(sig) > 12:
                cut = sig[:len(sig) - rnd.randrange(1, 8)]
                w("s3", cut)
                go(["delta", "s3", "n", "x9"], want=ENDED, what="truncated signature")
        elif f in (6, 7, 8):  # broken delta
            b = bytearray(dl)
            for _ in range(rnd.randrange(1, 3)):
                b[rnd.randrange(len(b))] = rnd.choice([0, 255, 0x41, 0x54, 0x55, rnd.randrange(256)])
            b = bytes(b[:rnd.randrange(len(b) + 1)]) if rnd.random() < .5 else bytes(b)
            c, out = ref_patch(basis, b)
            w("d2", b)
            go(io + ["patch", "b", "d2", "x"], want=c, what="altered delta")
            if c == 0 and rd("x") != out:
                raise Bad("patch of an altered but valid delta gives the wrong data")
        elif f == 9:  # bad parameters
            go(["-H", "md4", "-S", "17", "signature", "b", "x"], want=PARAM, what="strong length over the maximum")
            go(["-S", "33", "signature", "b", "x1"], want=PARAM, what="strong length over the maximum")
        elif f == 10 and os.path.exists("/dev/full"):  # output device full
            with open("/dev/full", "wb") as full:
                if len(sig):
                    go(o + ["signature", "b"], want=IO, what="output full", stdout=full)
                go(["delta", "s", "n"], want=IO, what="output full", stdout=full)
                if new:
                    go(["patch", "b", "d"], want=IO, what="output full", stdout=full)
        elif f == 11:  # input that cannot be read
            os.mkdir(os.path.join(d, "dir"))
            go(["signature", "dir", "x"], want=IO, what="input is a directory")
            go(["delta", "s", "dir", "x1"], want=IO, what="input is a directory")
            go(["patch", "b", "dir", "x2"], want=IO, what="delta is a directory")
        elif f == 12:  # wrong basis
            w("b2", basis[:len(basis) // 2])
            c, out = ref_patch(basis[:len(basis) // 2], dl)
            go(["patch", "b2", "d", "x"], want=c, what="basis is shorter")
            if c == 0 and rd("x") != out:
                raise Bad("patch wrong")
        elif f == 13:
            go(["patch", "b", "-", "x"], inp=dl, want=0)
            if rd("x") != new:
                raise Bad("patch from - gives the wrong data")
            r = go(["patch", "b", "d", "-"], want=0)
            if r != new:
                raise Bad("patch to - gives the wrong data")
    finally:
        os.close(fds)
