"""Builds what the checks need from /repo's working tree. All outputs go to /verif/build."""
import fcntl, glob, hashlib, json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, "build")
TC = "stable-x86_64-unknown-linux-gnu"
CFG = "--cfg rlibphonenumber_verif"


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    e.update(kw)
    return e


def cargo(cwd, args, target, **kw):
    """Runs cargo and returns the artifacts it names (file lists by crate)."""
    os.makedirs(target, exist_ok=True)
    p = subprocess.run(
        ["cargo"] + args + ["--message-format=json"],
        cwd=cwd, env=env(CARGO_TARGET_DIR=target, **kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    arts, msgs = [], []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            arts.append(m)
        elif m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
            msgs.append(m["message"].get("rendered", ""))
    if p.returncode != 0:
        raise BuildError("cargo in %s failed:\n%s\n%s" % (cwd, "".join(msgs)[-6000:], p.stderr[-3000:]))
    return arts


def repo_hash():
    """Content of everything in /repo that can reach the build."""
    h = hashlib.sha256()
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"], stdout=subprocess.PIPE).stdout
    names = sorted(n for n in out.decode().split("\0") if n and not n.startswith("resources/"))
    for n in names:
        p = os.path.join(REPO, n)
        if os.path.isfile(p) and not os.path.islink(p):
            h.update(n.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def own_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(os.path.join(V, d)):
            ds[:] = sorted(x for x in ds if x not in ("target", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, V).encode() + b"\0")
                with open(p, "rb") as g:
                    h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()


def forget_crate(target):
    """Cargo goes by modification times; contents decide here."""
    for pat in ("rlibphonenumber-*", "harness-*", "replay-*"):
        for d in glob.glob(os.path.join(target, "**", ".fingerprint", pat), recursive=True):
            for f in glob.glob(os.path.join(d, "*")):
                os.unlink(f)


def marker(target):
    return os.path.join(target, "built-from")


def up_to_date(target, key):
    try:
        with open(marker(target)) as f:
            return f.read() == key
    except OSError:
        return False


def done(target, key):
    with open(marker(target), "w") as f:
        f.write(key)


def build_sx():
    t = os.path.join(B, "sx")
    key = own_hash(["sx"])
    exe = os.path.join(t, "release", "sx")
    if not (up_to_date(t, key) and os.path.exists(exe)):
        cargo(os.path.join(V, "sx"), ["build", "--release", "--offline", "--locked"], t)
        done(t, key)
    return exe


FLAGS = (CFG + " --emit=llvm-bc,link -C llvm-args=-inline-threshold=10 -C llvm-args=-inlinehint-threshold=20 "
         "-Z inline-mir=no -C no-vectorize-loops -C no-vectorize-slp")


def build_ir():
    """The harness and the library, as LLVM IR for a 64-bit little-endian target."""
    t = os.path.join(B, "ir")
    out = os.path.join(t, "a.ll")
    key = repo_hash() + own_hash(["harness", "stubs"]) + FLAGS
    if up_to_date(t, key) and os.path.exists(out):
        return out
    if os.path.exists(marker(t)):
        os.unlink(marker(t))
    forget_crate(t)
    arts = cargo(
        os.path.join(V, "harness"),
        ["build", "--offline", "--locked", "-Z", "build-std=std,panic_abort", "--target", "riscv64gc-unknown-linux-gnu"],
        t, RUSTFLAGS=FLAGS, RUSTC_BOOTSTRAP="1",
    )
    bcs, mine = [], None
    for a in arts:
        if a["target"]["name"] in ("panic_unwind", "build-script-build"):
            continue
        for f in a["filenames"]:
            if not f.endswith((".rlib", ".rmeta")) or "/riscv64" not in f:
                continue
            d = os.path.dirname(f)
            if os.path.basename(d) != "deps":
                d = os.path.join(d, "deps")
            name = os.path.basename(f)[3:].rsplit(".", 1)[0]
            c = os.path.join(d, name + ".bc")
            if not os.path.exists(c):
                # the uplifted library has no hash in its name: newest of its kind
                cs = sorted(glob.glob(os.path.join(d, name + "-*.bc")), key=os.path.getmtime)
                c = cs[-1] if cs else None
            if c and c not in bcs:
                bcs.append(c)
                if a["target"]["name"] == "harness":
                    mine = c
    if mine is None:
        raise BuildError("no bitcode of the harness")
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    bin_ = sysroot + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/"

    def run(*a):
        p = subprocess.run(a, cwd=t, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise BuildError("%s failed: %s" % (os.path.basename(a[0]), p.stderr[-2000:]))
        return p.stdout

    run(bin_ + "llvm-link", *bcs, "-o", "all.bc")
    syms = [l.split()[-1] for l in run(bin_ + "llvm-nm", "--defined-only", mine).splitlines()]
    pub = ",".join(s for s in syms if s.startswith("h_"))
    run(bin_ + "opt", "all.bc", "-passes=internalize,globaldce", "-internalize-public-api-list=" + pub, "-o", "a.bc")
    run(bin_ + "llvm-dis", "a.bc", "-o", "a.ll")
    done(t, key)
    return out


def build_replay():
    """The same harness and library for this machine, with the real regex engine."""
    t = os.path.join(B, "replay")
    exe = os.path.join(t, "debug", "replay")
    key = repo_hash() + own_hash(["harness", "replay"])
    if not (up_to_date(t, key) and os.path.exists(exe)):
        if os.path.exists(marker(t)):
            os.unlink(marker(t))
        forget_crate(t)
        cargo(os.path.join(V, "replay"), ["build", "--offline", "--locked"], t, RUSTFLAGS=CFG)
        done(t, key)
    return exe


def build_all():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(f) for f in (build_sx, build_ir, build_replay)]
            return tuple(f.result() for f in fs)


if __name__ == "__main__":
    t0 = time.time()
    try:
        what = {"sx": build_sx, "ir": build_ir, "replay": build_replay, "all": build_all}[sys.argv[1] if len(sys.argv) > 1 else "all"]
        print(what(), "%.1f s" % (time.time() - t0))
    except BuildError as e:
        print(e)
        sys.exit(3)
