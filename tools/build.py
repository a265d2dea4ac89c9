#!/usr/bin/env python3
"""Mirror /repo, compile it with the harness to native code plus LLVM bitcode, disassemble the bitcode.

The mirror is synchronised by content, so cargo rebuilds exactly when a source file differs.
Everything lives under /verif/build (ignored by git)."""
import concurrent.futures as cf
import fcntl, filecmp, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FERRO_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WS = os.path.join(BUILD, "ws")
TARGET = os.path.join(BUILD, "target")
LL = os.path.join(BUILD, "ll")
STD = os.path.join(BUILD, "std")
TRIPLE = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
SKIP_TOP = {".git", "target", "node_modules", "playground", "fuzz", "benches", "tests", "docs", ".github", ".vscode", ".zed", "examples"}


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-bc,link"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "1"
    e.pop("RUSTC_WRAPPER", None)
    return e


def sync_tree(src, dst, top=False):
    os.makedirs(dst, exist_ok=True)
    keep = set()
    changed = 0
    for n in sorted(os.listdir(src)):
        if top and (n in SKIP_TOP or n in ("Cargo.lock", "Cargo.toml")):
            continue
        if n in (".git", "target", "node_modules"):
            continue
        keep.add(n)
        a, b = os.path.join(src, n), os.path.join(dst, n)
        if os.path.islink(a):
            t = os.readlink(a)
            if os.path.islink(b) and os.readlink(b) == t:
                continue
            if os.path.lexists(b):
                os.remove(b)
            os.symlink(t, b)
            changed += 1
        elif os.path.isdir(a):
            if os.path.lexists(b) and not os.path.isdir(b):
                os.remove(b)
            changed += sync_tree(a, b)
        else:
            if os.path.isfile(b) and os.path.getsize(a) == os.path.getsize(b):
                with open(a, "rb") as f, open(b, "rb") as g:
                    if f.read() == g.read():
                        continue
            if os.path.isdir(b):
                shutil.rmtree(b)
            shutil.copyfile(a, b)  # fresh mtime: cargo sees it
            changed += 1
    for n in os.listdir(dst):
        if n in keep or (top and n in ("Cargo.lock", "Cargo.toml", "target")):
            continue
        p = os.path.join(dst, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.remove(p)
        changed += 1
    return changed


def put(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return 0
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)
    return 1


def sync():
    n = sync_tree(REPO, WS, top=True)
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        t = f.read()
    # only the library and its macro crate take part; benches, tests and sibling members stay out
    t = re.sub(r"members\s*=\s*\[[^\]]*\]", 'members = [ ".", "ferlium_macros" ]', t, count=1)
    t = re.sub(r"(?ms)^\[\[(bench|test|example)\]\].*?(?=^\[|\Z)", "", t)
    n += put(os.path.join(WS, "Cargo.toml"), t)
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copyfile("/opt/vp/ws/Cargo.lock", lock)
    with open(lock) as f:
        # build.rs fingerprints the lock file; any fixed content will do
        n += put(os.path.join(WS, "Cargo.lock"), f.read())
    return n


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(f"[build] failed: {' '.join(cmd)}")
    return r.stdout


def sysroot_bin():
    s = run(["rustc", "--print", "sysroot"], env=env()).strip()
    return s, os.path.join(s, "lib/rustlib", TRIPLE, "bin")


def std_ll(sysroot, bindir):
    """Bitcode of the standard library the toolchain ships inside its rlibs."""
    os.makedirs(STD, exist_ok=True)
    stamp = os.path.join(STD, "stamp")
    libdir = os.path.join(sysroot, "lib/rustlib", TRIPLE, "lib")
    skip = {"test", "getopts", "proc_macro", "sysroot", "profiler_builtins", "panic_unwind", "compiler_builtins", "rustc_literal_escaper"}
    libs = []
    for n in sorted(os.listdir(libdir)):
        m = re.match(r"lib([a-z0-9_]+)-[0-9a-f]+\.rlib$", n)
        if m and m.group(1) not in skip:
            libs.append(os.path.join(libdir, n))
    key = "\n".join(libs)
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    for n in os.listdir(STD):
        os.remove(os.path.join(STD, n))
    for lib in libs:
        tmp = os.path.join(STD, "x")
        os.makedirs(tmp, exist_ok=True)
        run([f"{bindir}/llvm-ar", "x", lib], cwd=tmp)
        for o in sorted(os.listdir(tmp)):
            if not o.endswith(".o"):
                continue
            bc = os.path.join(tmp, o + ".bc")
            r = subprocess.run([f"{bindir}/llvm-objcopy", f"--dump-section=.llvmbc={bc}", os.path.join(tmp, o), "/dev/null"], stderr=subprocess.DEVNULL)
            if r.returncode == 0 and os.path.exists(bc) and os.path.getsize(bc) > 0:
                run([f"{bindir}/llvm-dis", bc, "-o", os.path.join(STD, o + ".ll")])
        shutil.rmtree(tmp)
    put(stamp, key)


def disassemble(bindir):
    deps = os.path.join(TARGET, TRIPLE, "release", "deps")
    os.makedirs(LL, exist_ok=True)
    groups = {}
    for n in os.listdir(deps):
        if n.endswith(".bc"):
            p = n.split(".")
            # crate-hash . cgu . session . rcgu . bc ; the metadata hash changes only with the configuration
            session = p[2] if len(p) >= 5 else ""
            groups.setdefault(p[0], {}).setdefault(session, []).append(n)
    # one metadata hash per crate name: the newest
    crates = {}
    for g, ss in groups.items():
        newest = {s: max(os.path.getmtime(os.path.join(deps, n)) for n in v) for s, v in ss.items()}
        best = max(newest, key=lambda s: newest[s])
        for s, v in ss.items():
            if s != best:
                for n in v:
                    os.remove(os.path.join(deps, n))
        crates.setdefault(g.rsplit("-", 1)[0], []).append((newest[best], g, ss[best]))
    want = {}
    for c, v in crates.items():
        if c in ("ferrosym",):
            continue
        v.sort()
        for n in v[-1][2]:
            want[n + ".ll"] = n
    for n in os.listdir(LL):
        if n not in want:
            os.remove(os.path.join(LL, n))
    todo = [(a, b) for a, b in want.items() if not os.path.exists(os.path.join(LL, a)) or os.path.getmtime(os.path.join(LL, a)) < os.path.getmtime(os.path.join(deps, b))]

    def one(ab):
        a, b = ab
        t = os.path.join(LL, a + ".tmp")
        subprocess.run([f"{bindir}/llvm-dis", os.path.join(deps, b), "-o", t], check=True)
        os.rename(t, os.path.join(LL, a))

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, sorted(todo)))
    return len(want), len(todo)


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        n = sync()
        t1 = time.time()
        run(["cargo", "build", "--offline", "--release", "--target", TRIPLE, "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")], env=env())
        t2 = time.time()
        sysroot, bindir = sysroot_bin()
        std_ll(sysroot, bindir)
        total, fresh = disassemble(bindir)
        t3 = time.time()
        log(f"{n} source files changed; sync {t1-t0:.1f}s cargo {t2-t1:.1f}s disassembly {t3-t2:.1f}s ({fresh}/{total} modules)")
    return os.path.join(TARGET, TRIPLE, "release", "ferro")


if __name__ == "__main__":
    print(build())
