"""Rebuild the harness from /repo's working tree: LLVM bitcode for the executor, shared libraries for replay."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TC = "stable-x86_64-unknown-linux-gnu"
BUILD = os.environ.get("VERIF_BUILD_DIR") or os.path.join(VERIF, "build")


def sysroot():
    r = subprocess.run(["rustc", "+" + TC, "--print", "sysroot"], capture_output=True, text=True)
    return r.stdout.strip()


def env(flags):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", RUSTFLAGS=flags)
    e.pop("CARGO_BUILD_RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return e


class BuildError(Exception):
    pass


def cargo(target, flags, release=False):
    e = env(flags)
    e["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--lib"] + (["--release"] if release else [])
    r = subprocess.run(cmd, cwd=HARNESS, env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-6000:])


def newest(pattern):
    fs = glob.glob(pattern)
    if not fs:
        return None
    return max(fs, key=os.path.getmtime)


def build(want_release=False):
    """Returns dict(bc=..., so=..., so_release=...)."""
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    tgt = os.path.join(BUILD, "target")
    flags = "--emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp"
    # a fresh build of the two crates that matter: never trust mtimes of a copied tree
    for f in glob.glob(os.path.join(tgt, "debug", "deps", "*mlx*")) + glob.glob(os.path.join(tgt, "debug", ".fingerprint", "mlx*")) \
            + glob.glob(os.path.join(tgt, "release", ".fingerprint", "mlx*")):
        if os.path.isdir(f):
            shutil.rmtree(f)
        else:
            os.remove(f)
    cargo(tgt, flags)
    deps = os.path.join(tgt, "debug", "deps")
    tools = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    main = newest(os.path.join(deps, "mlxh*.bc"))
    others = []
    seen = {}
    for f in glob.glob(os.path.join(deps, "*.bc")):
        b = re.sub(r"-[0-9a-f]{16}\.bc$", "", os.path.basename(f))
        if b.startswith("mlxh"):
            continue
        if b not in seen or os.path.getmtime(f) > os.path.getmtime(seen[b]):
            seen[b] = f
    skip = {"paste", "syn", "quote", "proc_macro2", "unicode_ident", "num_enum_derive", "proc_macro_crate", "toml", "serde", "autocfg", "version_check"}
    for b, f in sorted(seen.items()):
        if b in skip or b.startswith("build_script"):
            continue
        others.append(f)
    allbc = os.path.join(BUILD, "all.bc")
    opt = os.path.join(BUILD, "opt.bc")
    r = subprocess.run([os.path.join(tools, "llvm-link"), main] + others + ["-o", allbc], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("llvm-link: " + r.stderr[-3000:])
    names = re.findall(r"pub (?:unsafe )?extern \"C\" fn (\w+)", open(os.path.join(HARNESS, "src/lib.rs")).read())
    names += re.findall(r"^(?:cal|pipe)!\((.*)\);", open(os.path.join(HARNESS, "src/lib.rs")).read(), re.M)
    keep = set()
    for n in names:
        for x in re.split(r"[,\s]+", n):
            if x.startswith(("h_", "h640", "h641", "sym_", "set_hooks")):
                keep.add(x)
    r = subprocess.run([os.path.join(tools, "opt"), "-passes=internalize,default<O2>", "--internalize-public-api-list=" + ",".join(sorted(keep)),
                        "-vectorize-loops=false", "-vectorize-slp=false", "-disable-loop-unrolling", allbc, "-o", opt], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt: " + r.stderr[-3000:])
    out = {"bc": opt, "so": os.path.join(tgt, "debug", "libmlxh.so"), "dir": BUILD, "tools": tools, "sysroot": sysroot()}
    if want_release:
        cargo(tgt, "", True)
        out["so_release"] = os.path.join(tgt, "release", "libmlxh.so")
    out["wall_s"] = time.time() - t0
    return out


if __name__ == "__main__":
    print(build("release" in sys.argv))
