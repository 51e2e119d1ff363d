#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree. Prints the path of the binary.

The library's own C sources are compiled unchanged (ASan + UBSan); the seams are put in at link time
(-Wl,--wrap). Results are keyed by the content of every input, so an unchanged tree is not rebuilt."""
import glob, hashlib, os, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WSIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
OUT = os.path.join(VERIF, "build")
LIB = os.path.join(REPO, "src/wickrcrypto")
PB = os.path.join(REPO, "src/protobuf/gen")
INC = ["-I" + os.path.join(SIM, "shim"), "-I" + os.path.join(LIB, "include/wickrcrypto"),
       "-I" + os.path.join(LIB, "include/wickrcrypto/private"), "-I" + os.path.join(LIB, "include"), "-I" + PB]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w"]
HDRS = sorted(glob.glob(LIB + "/include/wickrcrypto/*.h") + glob.glob(LIB + "/include/wickrcrypto/private/*.h")
              + glob.glob(LIB + "/src/*.h") + glob.glob(PB + "/*.h") + glob.glob(SIM + "/shim/*.h"))
SIMH = sorted(glob.glob(SIM + "/*.hpp") + glob.glob(SIM + "/*.inc"))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def main():
    cov = "--coverage" in sys.argv
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hh = sha(*[rd(h) for h in HDRS])
    sh = sha(*[rd(h) for h in SIMH])
    jobs, objs = [], []
    for src in sorted(glob.glob(LIB + "/src/*.c") + glob.glob(PB + "/*.c")):
        cmd = ["gcc", "-std=gnu11", "-O1", "-ftrivial-auto-var-init=pattern", "-c"] + SAN + INC + (["--coverage"] if cov else [])
        jobs.append((src, cmd, sha("c", src, rd(src), hh, " ".join(cmd))))
    for src in sorted(glob.glob(SIM + "/*.cpp")):
        san = [x for x in SAN if not x.startswith("-fsanitize=")] + ["-fsanitize=address"]
        cmd = ["g++", "-std=gnu++17", "-O1", "-c"] + [x for x in san if "undefined" not in x and x != "-fno-sanitize-recover=all" and not x.startswith("-fno-sanitize=")] + INC + ["-I" + SIM]
        jobs.append((src, cmd, sha("x", src, rd(src), hh, sh, " ".join(cmd))))

    def one(j):
        src, cmd, key = j
        o = os.path.join(OUT, "obj", ("cov-" if cov else "") + os.path.basename(src) + "-" + key + ".o")
        if not os.path.exists(o):
            t = o[:-2] + ".tmp%d.o" % os.getpid() if not cov else o
            r = subprocess.run(cmd + [src, "-o", t], capture_output=True, text=True)
            if r.returncode:
                return None, src + "\n" + r.stderr
            if not cov:
                os.rename(t, o)
        return o, None

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    bad = [e for o, e in res if e]
    if bad:
        sys.stderr.write("\n".join(bad)[:20000] + "\n")
        return 2
    objs = [o for o, _ in res]
    wraps = rd(os.path.join(SIM, "wraps.txt")).decode().split()
    key = sha(*objs, " ".join(wraps))
    exe = os.path.join(OUT, "wsim-" + ("cov-" if cov else "") + key)
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-fsanitize=address,undefined", "-o", t] + (["--coverage"] if cov else []) + objs + wraps +
                           ["/usr/lib/x86_64-linux-gnu/libprotobuf-c.a", "-lcrypto", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[:20000] + "\n")
            return 2
        os.rename(t, exe)
    keep = set(objs) | {exe}
    if not cov and "--keep" not in sys.argv:
        import time
        for f in glob.glob(OUT + "/obj/*.o") + glob.glob(OUT + "/wsim-*"):
            if f not in keep and time.time() - os.path.getmtime(f) > 6 * 3600:
                os.remove(f)
    print(exe)
    return 0


if __name__ == "__main__":
    sys.exit(main())
