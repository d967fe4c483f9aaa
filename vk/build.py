"""Out-of-tree builds of /repo's current working tree.

Every variant is built by the repository's own build scripts (configure + make,
setup.py build_ext) in a private copy, so that /repo is never written to and
refactorings which move files or headers around are followed automatically.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vla-bound -fno-omit-frame-pointer"

VARIANTS = {
    "plain": {"c": None, "f": None, "ld": ""},
    # -O1 keeps reports precise; recover so that UBSan reports do not mask later ones
    "asan": {
        "c": f"-g -O1 {SAN} -fno-sanitize-recover=address",
        "f": "-g -O1 -fPIC -fsanitize=address,undefined,float-cast-overflow -fno-omit-frame-pointer -fcheck=bounds,do,mem,pointer",
        "ld": "-fsanitize=address,undefined",
    },
}

IGNORED_SUFFIXES = (".so", ".o", ".mod", ".pyc")
IGNORED_NAMES = {
    "build", "dist", "__pycache__", "Makefile", "config.status", "config.log",
    "qdipole_conf.h", "subsol_test", "qdlatlon_test", "mlt_test",
    "qdipole_info", ".git",
}


class BuildError(Exception):
    pass


def _sources():
    for part in ("qdipole", "eoxmagmod"):
        root = os.path.join(REPO, part)
        for base, dirs, files in os.walk(root):
            dirs[:] = sorted(
                d for d in dirs
                if d not in ("__pycache__", "dist", ".git")
                and not d.endswith(".egg-info")
                and not (d == "build" and base == root)
            )
            for name in sorted(files):
                if name.endswith(IGNORED_SUFFIXES) or name in IGNORED_NAMES:
                    continue
                yield os.path.join(base, name)


def tree_hash(variant):
    digest = hashlib.sha256(repr((variant, VARIANTS[variant])).encode())
    for path in _sources():
        digest.update(os.path.relpath(path, REPO).encode() + b"\0")
        with open(path, "rb") as fin:
            digest.update(hashlib.sha256(fin.read()).digest())
    return digest.hexdigest()[:20]


def base_env():
    env = dict(os.environ)
    for key in ("LD_PRELOAD", "CFLAGS", "FCFLAGS", "LDFLAGS", "PYTHONPATH"):
        env.pop(key, None)
    return env


def _run(cmd, cwd, env, log):
    with open(log, "ab") as out:
        out.write(("$ " + " ".join(cmd) + "\n").encode())
        out.flush()
        code = subprocess.call(
            cmd, cwd=cwd, env=env, stdout=out, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL, timeout=800,
        )
    if code:
        with open(log, "rb") as fin:
            tail = fin.read()[-4000:].decode(errors="replace")
        raise BuildError(f"{' '.join(cmd)} failed ({code})\n{tail}")


def build(variant):
    """Build (or reuse) the variant; returns the directory with the copy."""
    os.makedirs(CACHE, exist_ok=True)
    target = os.path.join(CACHE, f"{variant}-{tree_hash(variant)}")
    with open(os.path.join(CACHE, f"lock-{variant}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(target, "ok")):
            os.utime(target)
            return target
        _prune(variant)
        if os.path.exists(target):
            shutil.rmtree(target)
        os.makedirs(target)
        try:
            _build(variant, target)
        except BaseException:
            shutil.rmtree(target, ignore_errors=True)
            raise
        with open(os.path.join(target, "ok"), "w") as out:
            out.write("ok\n")
        return target


def _prune(variant, keep=3):
    """ Remove old cached builds (not used in the last two hours). """
    items = [
        os.path.join(CACHE, name) for name in os.listdir(CACHE)
        if name.startswith(variant + "-")
    ]
    items.sort(key=os.path.getmtime, reverse=True)
    for path in items[keep:]:
        if time.time() - os.path.getmtime(path) > 7200:
            shutil.rmtree(path, ignore_errors=True)


def _build(variant, target):
    for path in _sources():
        dst = os.path.join(target, os.path.relpath(path, REPO))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy2(path, dst)
    cfg = VARIANTS[variant]
    qd_dir = os.path.join(target, "qdipole")
    env = base_env()
    env.update({
        "CPATH": target, "LIBRARY_PATH": qd_dir, "LD_LIBRARY_PATH": qd_dir,
        "LDFLAGS": f"{cfg['ld']} -Wl,-rpath,{qd_dir}".strip(),
    })
    log = os.path.join(target, "build.log")
    _run(["bash", "./configure"], qd_dir, env, log)
    if cfg["c"] is None:
        _run(["make", "-k", "build"], qd_dir, env, log)
    else:
        # C and Fortran share the CFLAGS make variable
        flags = f"CFLAGS={cfg['f']}"
        _run(["make", "-k", "libqdipole.so", flags, "LDFLAGS=" + env["LDFLAGS"]], qd_dir, env, log)
        env["CFLAGS"] = cfg["c"]
        env["ASAN_OPTIONS"] = "detect_leaks=0"
    script = (
        "import setuptools\nfrom distutils.core import run_setup\n"
        "run_setup('setup.py', ['build_ext', '--inplace', '--force'])\n"
    )
    jobs = ["-c", script]
    _run([sys.executable] + jobs, os.path.join(target, "eoxmagmod"), env, log)
    shutil.rmtree(os.path.join(target, "eoxmagmod", "build"), ignore_errors=True)


def _lib(name):
    path = subprocess.check_output(["gcc", f"-print-file-name={name}"], text=True).strip()
    return os.path.realpath(path)


def run_env(variant, target):
    """Environment of a process importing the variant."""
    env = base_env()
    qd_dir = os.path.join(target, "qdipole")
    env.pop("CPATH", None)
    env.pop("LIBRARY_PATH", None)
    env["LD_LIBRARY_PATH"] = qd_dir
    env["PYTHONPATH"] = os.path.join(target, "eoxmagmod") + os.pathsep + VERIF
    env["VK_TARGET"] = target
    env["VK_VARIANT"] = variant
    if variant == "asan":
        env["LD_PRELOAD"] = _lib("libasan.so") + ":" + _lib("libubsan.so")
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] = (
            "detect_leaks=0:halt_on_error=1:abort_on_error=1:"
            "allocator_may_return_null=1:detect_odr_violation=0:"
            "max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=64"
        )
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0"
    return env


def scratch(prefix="vk-"):
    return tempfile.mkdtemp(prefix=prefix)


if __name__ == "__main__":
    for item in sys.argv[1:] or ["plain"]:
        t0 = time.time()
        print(item, build(item), f"{time.time() - t0:.1f}s")
