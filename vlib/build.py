"""Builds everything a check needs, from the committed files of /verif and the
current working tree of /repo:

  * wsym     - the symbolic executor (Rust, z3)
  * wasm     - /repo's crate + the harnesses, compiled by rustc to WebAssembly
               (the intermediate representation that is executed symbolically)
  * replay   - the same harnesses compiled natively, for replaying models

Nothing is written outside /verif/.build.
"""
import glob, json, os, re, shutil, subprocess, sys, time, fcntl

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, ".build")
HOME = "/root"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"
WSYM = os.path.join(B, "wsym/release/wsym")
WASM = os.path.join(B, "wasm/wasm64-unknown-unknown/release/vharness.wasm")
REPLAY = os.path.join(B, "native/debug/replay")
REPLAY_REL = os.path.join(B, "native/release/replay")


def env(toolchain, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(HOME=HOME, PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e.update(kw)
    return e


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(f"{' '.join(cmd)}\n{p.stdout[-6000:]}")
    return p.stdout


def sub(path, pairs):
    s = open(path).read()
    for a, b, n in pairs:
        if s.count(a) != n:
            raise BuildError(f"{path}: expected {n} occurrence(s) of {a!r}, found {s.count(a)}")
        s = s.replace(a, b)
    open(path, "w").write(s)


def prepare_sources():
    """A directory source with the locked dependencies, and a copy of the std
    sources.  A few word-at-a-time kernels (memchr, byte counting) are replaced
    by their byte-wise definitions, and SipHash by a hash that depends only on
    lengths; results are unaffected (listed as stubs in DESIGN.md)."""
    vend, lib = os.path.join(B, "vendor"), os.path.join(B, "library")
    stamp = os.path.join(B, "sources.ok")
    lock = open(os.path.join(V, "harness/Cargo.lock")).read()
    key = str(hash_text(lock + open(os.path.abspath(__file__)).read()))
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    for d in (vend, lib):
        if os.path.isdir(d):
            shutil.rmtree(d)
    os.makedirs(vend)
    sysroot = run(["rustc", "--print", "sysroot"], env=env(NIGHTLY)).strip()
    src = os.path.join(sysroot, "lib/rustlib/src/rust/library")
    os.makedirs(lib)
    for d in os.listdir(src):
        s, t = os.path.join(src, d), os.path.join(lib, d)
        if d in ("vendor", "stdarch"):
            os.symlink(s, t)
        elif os.path.isdir(s):
            shutil.copytree(s, t, symlinks=True)
        else:
            shutil.copy2(s, t)
    for d in os.listdir(os.path.join(src, "vendor")):
        os.symlink(os.path.join(src, "vendor", d), os.path.join(vend, d))
    for n, v, c in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "([0-9a-f]+)"', lock):
        t = os.path.join(vend, f"{n}-{v}")
        if os.path.lexists(t):
            os.unlink(t)
        g = glob.glob(f"{HOME}/.cargo/registry/src/*/{n}-{v}")
        if g:
            shutil.copytree(g[0], t)
        else:
            g = glob.glob(f"{HOME}/.cargo/registry/cache/*/{n}-{v}.crate")
            if not g:
                raise BuildError(f"crate {n}-{v} is not in the cargo cache")
            run(["tar", "xzf", g[0], "-C", vend])
        json.dump({"files": {}, "package": c}, open(os.path.join(t, ".cargo-checksum.json"), "w"))
    # --- stubs -------------------------------------------------------------
    sub(f"{lib}/core/src/hash/sip.rs", [(
        "        let length = msg.len();\n        self.length += length;\n",
        "        let length = msg.len();\n        self.length += length;\n        if true { return; }\n", 1)])
    sub(f"{lib}/core/src/slice/memchr.rs", [
        ("if text.len() < 2 * USIZE_BYTES { memchr_naive(x, text) } else { memchr_aligned(x, text) };",
         "if true { memchr_naive(x, text) } else { memchr_aligned(x, text) };", 1),
        ("    let result = memrchr_aligned(x, text);",
         "    let result = if true { let mut i = text.len(); let mut r = None; while i > 0 { i -= 1; if text[i] == x { r = Some(i); break; } } r } else { memrchr_aligned(x, text) };", 1)])
    sub(f"{lib}/core/src/str/count.rs", [(
        'cfg!(feature = "optimize_for_size") || s.len()', 'true || s.len()', 1)])
    m = glob.glob(f"{vend}/memchr-2.*/src/arch/all/memchr.rs")[0]
    s = open(m).read()
    s2 = re.sub(r"(fn has_needle\(&self, chunk: usize\) -> bool \{)", r"\1 if true { return true; }", s)
    if s2.count("if true { return true; }") != 3:
        raise BuildError("memchr patch")
    open(m, "w").write(s2)
    m = glob.glob(f"{vend}/bytecount-0.*/src/lib.rs")[0]
    s = open(m).read()
    s2 = s.replace("haystack.len() >= mem::size_of::<usize>()", "false && haystack.len() >= mem::size_of::<usize>()") \
          .replace("utf8_chars.len() >= mem::size_of::<usize>()", "false && utf8_chars.len() >= mem::size_of::<usize>()")
    if s2.count("false && ") != 2:
        raise BuildError("bytecount patch")
    open(m, "w").write(s2)
    open(stamp, "w").write(key)


def hash_text(t):
    import hashlib
    return hashlib.sha256(t.encode()).hexdigest()


def build_wsym():
    run(["cargo", "build", "--offline", "--release", "--target-dir", f"{B}/wsym"], cwd=f"{V}/wsym", env=env(STABLE))


def build_wasm():
    prepare_sources()
    run(["cargo", "build", "--offline", "--release", "--lib", "-Z", "build-std=std,panic_abort",
         "--target", "wasm64-unknown-unknown", "--target-dir", f"{B}/wasm",
         "--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{B}/vendor"'],
        cwd=f"{V}/harness",
        env=env(NIGHTLY, RUSTFLAGS="-Zunstable-options -Csymbol-mangling-version=legacy",
                __CARGO_TESTS_ONLY_SRC_ROOT=f"{B}/library"))


def build_native(release=False):
    cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", f"{B}/native"]
    if release:
        cmd.append("--release")
    run(cmd, cwd=f"{V}/harness", env=env(STABLE))


def build_all(verbose=True):
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(B, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(f) for f in (build_wsym, build_wasm, build_native)]
            for f in fs:
                f.result()
    if verbose:
        print(f"built from /repo in {time.time() - t0:.1f} s", flush=True)


if __name__ == "__main__":
    try:
        build_all()
    except BuildError as e:
        print(e)
        sys.exit(2)
