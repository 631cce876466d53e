#!/usr/bin/env python3
"""Build the test server from /repo's current working tree.

Rust static library (dev profile: overflow checks and debug assertions on), the cxx bridge
regenerated from src/cxxbridge.rs, the C++ wrapper sources, and the harness's own server.cpp plus
a stand-in for the LDPK lens plug-in (the real one needs a library which is not installed).

Everything is written under /verif/.build (ignored by git). Exit 0 when built; exit 3 on failure.
"""
import fcntl
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("OCG_REPO", "/repo")
OUT = os.environ.get("OCG_BUILD", os.path.join(VERIF, ".build"))
CXXBRIDGE = "/opt/vp/tools/bin/cxxbridge"

ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")
ENV.update(
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_NET_OFFLINE="true",
    CARGO_INCREMENTAL="1",
    CARGO_PROFILE_DEV_DEBUG="line-tables-only",
    CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="",
)


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:]))


def tree_files():
    res = []
    for top in ("src", "include"):
        for d, _dirs, files in os.walk(os.path.join(REPO, top)):
            res += [os.path.join(d, f) for f in files]
    res += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    res += [os.path.join(HERE, f) for f in os.listdir(HERE) if f.endswith((".cpp", ".h", ".rs"))]
    res.append(os.path.join(HERE, "build.py"))
    return sorted(res)


def fingerprint():
    h = hashlib.sha256()
    for f in tree_files():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def write_if_changed(path, data):
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as fh:
        fh.write(data)


def gen_bridge(header, dest):
    cmd = [CXXBRIDGE, os.path.join(REPO, "src/cxxbridge.rs"), "--cxx-impl-annotations", "OCG_API_EXPORT"]
    if header:
        cmd.append("--header")
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise BuildError(p.stderr.decode("utf8", "replace"))
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    write_if_changed(dest, p.stdout)


def compile_one(src, obj, inc, extra=()):
    """Compile if any dependency's content changed (content hash, not mtime)."""
    dep = obj + ".d"
    stamp = obj + ".stamp"
    cmd = ["g++", "-std=c++14", "-O1", "-g1", "-fPIC", "-fpermissive", "-w", "-MMD", "-MF", dep, *extra, *inc, "-c", src, "-o", obj]

    def key():
        if not (os.path.exists(dep) and os.path.exists(obj)):
            return None
        names = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        h = hashlib.sha256(" ".join(cmd).encode())
        for n in names:
            if n.startswith("/usr/"):
                continue
            if not os.path.exists(n):
                return None
            h.update(open(n, "rb").read())
        return h.hexdigest()

    k = key()
    if k and os.path.exists(stamp) and open(stamp).read() == k:
        return
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    run(cmd)
    open(stamp, "w").write(key() or "")


def cargo_build(flags, **env):
    run(["cargo", "rustc", "--lib", "--locked", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--", *flags],
        env=dict(ENV, CARGO_TARGET_DIR=os.path.join(OUT, "target"), **env))
    return os.path.join(OUT, "target/debug/libopencompgraph_rs.a")


def build_rust(fp):
    """The library with harness/ocgx.rs as one more module; without it where that does not compile.

    The module gives the sub-checks on internals access to them, nothing else depends on it. The tree's
    fingerprint among the flags makes cargo rebuild whenever the content differs, whatever the file times say.
    """
    flags = ["--cfg", 'tree="%s"' % fp, "-A", "unexpected_cfgs"]
    try:
        lib = cargo_build(flags + ["--cfg", "ocg_verif"], OCG_VERIF_MODULE=os.path.join(HERE, "ocgx.rs"))
        with open(lib, "rb") as fh:
            return lib, b"ocgx_call" in fh.read()
    except BuildError as e:
        with open(os.path.join(OUT, "ocgx.log"), "w") as fh:
            fh.write(str(e))
    return cargo_build(flags), False


def build():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        fp = fingerprint()
        stamp = os.path.join(OUT, "fingerprint")
        server = os.path.join(OUT, "ocg_server")
        if os.path.exists(stamp) and os.path.exists(server) and open(stamp).read() == fp:
            return server
        if os.path.exists(stamp):
            os.unlink(stamp)
        gen = os.path.join(OUT, "gen")
        inc = ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HERE]
        with ThreadPoolExecutor(8) as pool:
            cargo = pool.submit(build_rust, fp)
            gen_bridge(True, os.path.join(gen, "opencompgraph/_cxxbridge.h"))
            gen_bridge(False, os.path.join(gen, "_cxxbridge.cpp"))
            jobs, objs = [], []

            def add(src, name, extra=()):
                obj = os.path.join(OUT, "obj", name + ".o")
                objs.append(obj)
                jobs.append((obj, pool.submit(compile_one, src, obj, inc, extra)))

            add(os.path.join(HERE, "server.cpp"), "server")
            add(os.path.join(HERE, "ldpk_stub.cpp"), "ldpk_stub")
            add(os.path.join(gen, "_cxxbridge.cpp"), "_cxxbridge")
            root = os.path.join(REPO, "src")
            for d, _dirs, files in sorted(os.walk(root)):
                for f in sorted(files):
                    rel = os.path.relpath(os.path.join(d, f), root)
                    if f.endswith(".cpp") and rel not in ("_cxxbridge.cpp", "deformer/ldpk_utils.cpp"):
                        add(os.path.join(d, f), "repo/" + rel)
            for (obj, j) in jobs:
                try:
                    j.result()
                except BuildError:
                    # Not part of the project's own Linux build; a weak stand-in replaces it.
                    if not obj.endswith("repo/systemmemory.cpp.o"):
                        raise
                    objs.remove(obj)
            lib, ext = cargo.result()
            if not ext:
                sys.stderr.write("note: the access to internals does not compile; their sub-checks are skipped\n")
        run(["g++", "-no-pie", "-o", server + ".new", *(["-Wl,-u,ocgx_call"] if ext else []), *objs,
             lib,
             "-lOpenImageIO", "-lOpenImageIO_Util", "-lOpenColorIO", "-lpthread", "-ldl", "-lm"])
        os.replace(server + ".new", server)
        open(stamp, "w").write(fp)
        return server
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        sys.stderr.write("BUILD FAILED\n%s\n" % e)
        sys.exit(3)
