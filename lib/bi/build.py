"""Builds of /repo's working tree used by the checks. Everything lands in /verif/build (ignored by git)."""
import fcntl, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("BI_REPO", "/repo")
BUILD = os.environ.get("BI_BUILD", os.path.join(VERIF, "build"))
BIN = os.path.join(BUILD, "bin")
CFG = "bitcoin_indexer_verif"

class BuildError(Exception): pass

def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD", "RUSTC")): del e[k]
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.update(kw); return e

def run(cmd, e, cwd, timeout=850):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")

class Lock:
    def __enter__(self):
        os.makedirs(BIN, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
SANFLAGS = "-Zsanitizer=%s -Cforce-frame-pointers=yes"
OPT = dict(CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_INCREMENTAL="false")

def _take(src, name):
    dst = os.path.join(BIN, name); tmp = dst + ".%d" % os.getpid()
    shutil.copy2(src, tmp); os.replace(tmp, dst); return dst

def plain():
    """The program as built for use, with overflow and debug assertions on."""
    with Lock():
        t = os.path.join(BUILD, "target")
        run(["cargo", "rustc", "--offline", "--locked", "--bin", "bitcoin-indexer"], env(RUSTUP_TOOLCHAIN=STABLE, CARGO_TARGET_DIR=t, **OPT), REPO)
        return _take(os.path.join(t, "debug", "bitcoin-indexer"), "plain")

def hooked():
    """The same with the guarded hooks compiled in (lock delays, small initial capacities)."""
    with Lock():
        t = os.path.join(BUILD, "target")
        run(["cargo", "rustc", "--offline", "--locked", "--bin", "bitcoin-indexer", "--", "--cfg", CFG], env(RUSTUP_TOOLCHAIN=STABLE, CARGO_TARGET_DIR=t, **OPT), REPO)
        return _take(os.path.join(t, "debug", "bitcoin-indexer"), "hooked")

def sanitizer(kind):
    """kind: address, thread or memory; nightly, std rebuilt with the same instrumentation for the latter two."""
    with Lock():
        t = os.path.join(BUILD, "target-" + kind)
        cmd = ["cargo", "rustc", "--offline", "--locked", "--bin", "bitcoin-indexer", "--target", "x86_64-unknown-linux-gnu"]
        if kind != "address": cmd += ["-Zbuild-std"]
        cmd += ["--", "--cfg", CFG]
        run(cmd, env(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=t, RUSTFLAGS=SANFLAGS % kind, **OPT), REPO)
        return _take(os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "bitcoin-indexer"), kind)

def shim(name="shim"):
    with Lock():
        src = os.path.join(VERIF, "shim", name + ".c"); dst = os.path.join(BIN, name + ".so"); tmp = dst + ".%d" % os.getpid()
        run(["gcc", "-O1", "-fPIC", "-shared", "-Wall", "-o", tmp, src, "-ldl", "-lpthread"], env(), VERIF)
        os.replace(tmp, dst); return dst

HARNESS_BINS = ("hex", "reverse_hex", "base58", "base58_check", "base64", "address", "pool")

def _crate_dir(name):
    """/verif/NAME, or a copy of it pointing at another tree when BI_REPO says so."""
    d = os.path.join(VERIF, name)
    if REPO == "/repo": return d
    c = os.path.join(BUILD, name + "-src")
    if not os.path.exists(c):
        t = c + ".%d" % os.getpid(); shutil.copytree(d, t, ignore=shutil.ignore_patterns("target"))
        f = os.path.join(t, "Cargo.toml"); s = open(f).read().replace("/repo/src/main.rs", REPO + "/src/main.rs")
        with open(f, "w") as h: h.write(s)
        os.rename(t, c)
    return c

def _harness_dir(): return _crate_dir("harness")

def harness(bin_, kind="plain"):
    """An in-process driver around modules of the program; kind: plain, address or thread."""
    with Lock():
        d = _harness_dir()
        if kind == "plain":
            t = os.path.join(BUILD, "target-harness")
            run(["cargo", "build", "--offline", "--locked", "--bin", bin_], env(RUSTUP_TOOLCHAIN=STABLE, CARGO_TARGET_DIR=t, **OPT), d)
            return _take(os.path.join(t, "debug", bin_), "harness-" + bin_)
        t = os.path.join(BUILD, "target-" + kind)
        cmd = ["cargo", "build", "--offline", "--locked", "--bin", bin_, "--target", "x86_64-unknown-linux-gnu"] + (["-Zbuild-std"] if kind != "address" else [])
        run(cmd, env(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=t, RUSTFLAGS=SANFLAGS % kind, **OPT), d)
        return _take(os.path.join(t, "x86_64-unknown-linux-gnu", "debug", bin_), "harness-%s-%s" % (bin_, kind))

MIRI_TARGET = "aarch64-unknown-linux-gnu"     # Miri interprets; on this target sha2 needs no cpuid instruction

def miri_env(flags="", **kw):
    return env(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=os.path.join(BUILD, "target-miri"), XDG_CACHE_HOME=os.path.join(BUILD, "cache"), MIRIFLAGS=("-Zmiri-disable-isolation " + flags).strip(), **kw)

def miri_cmd(bin_): return ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--target", MIRI_TARGET, "--bin", bin_]

def miri_setup():
    """Miri's standard library, the harness programs and the program itself, as far as they build."""
    with Lock():
        d = _harness_dir(); run(["cargo", "miri", "setup", "--target", MIRI_TARGET], miri_env(), d)
        for b in HARNESS_BINS:
            subprocess.run(miri_cmd(b) + ["--", "1", "0", "1"], cwd=d, env=miri_env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        # without its settings the program ends at once
        subprocess.run(miri_cmd("bitcoin-indexer"), cwd=_crate_dir("miri"), env=miri_env(RUSTFLAGS="--cfg " + CFG), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)

def miri(bin_, args=(), stdin=b"", flags="", timeout=600):
    """Runs a harness program under Miri: (exit status, stdout, stderr). miri_setup() first."""
    r = subprocess.run(miri_cmd(bin_) + ["--"] + list(args), cwd=_harness_dir(), env=miri_env(flags), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout, r.stderr

def make(w):
    """plain | hooked | shim | asan | tsan | msan | miri | h:NAME | h:NAME:address | h:NAME:thread"""
    if w.startswith("h:"): return harness(*w[2:].split(":"))
    return {"plain": plain, "hooked": hooked, "asan": lambda: sanitizer("address"), "tsan": lambda: sanitizer("thread"), "msan": lambda: sanitizer("memory"), "shim": shim, "heap": lambda: shim("heap"), "clock": lambda: shim("clock"), "miri": miri_setup}[w]()

if __name__ == "__main__":
    for w in sys.argv[1:] or ["plain", "hooked"]:
        try: print(make(w))
        except BuildError as x:
            if w in ("plain", "hooked", "shim"): raise
            print("not built: %s: %s" % (w, str(x)[-400:]))    # the checks that want it say so
