"""Configure and incrementally build the native modules from /repo's working tree."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import sysconfig
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    # what users run: optimised, no assertions
    "rel": {"type": "Release", "flags": "-O3 -DNDEBUG"},
    # AddressSanitizer + UBSan, with assert() and Eigen's own assertions on
    "asan": {
        "type": "Release",
        "flags": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,alignment "
        "-fno-sanitize-recover=undefined -fno-omit-frame-pointer",
    },
}


def _source_hashes():
    out = {}
    root = REPO + "/opensfm/src"
    for top in (root, VERIF + "/native"):
        for d, _, files in os.walk(top):
            for f in sorted(files):
                p = os.path.join(d, f)
                try:
                    with open(p, "rb") as fin:
                        out[p] = hashlib.sha1(fin.read()).hexdigest()
                except OSError:
                    pass
    return out


def _drop_stale_objects(d, hashes):
    """ninja trusts timestamps; sources whose content changed under an old
    timestamp must not be taken as up to date."""
    manifest = os.path.join(d, "sources.json")
    try:
        with open(manifest) as fin:
            old = json.load(fin)
        stamp = os.path.getmtime(manifest)
    except (OSError, ValueError):
        return
    stale = set(old) != set(hashes) or any(
        old.get(p) != h and os.path.getmtime(p) <= stamp for p, h in hashes.items()
    )
    if stale:
        for top, _, files in os.walk(d):
            for f in files:
                if f.endswith(".o"):
                    os.remove(os.path.join(top, f))


def moddir(variant):
    return os.path.join(BUILD, variant, "modules")


def build(variant, targets=None, jobs=8):
    """Build targets (default: all modules). Returns (seconds, number of steps run)."""
    import numpy

    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "2G"
    env.pop("CCACHE_DISABLE", None)
    t = time.time()
    with open(os.path.join(d, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "build.ninja")):
            cmd = [
                "cmake", "-G", "Ninja", "-S", REPO + "/opensfm/src", "-B", d,
                "-DCMAKE_PROJECT_opensfm_INCLUDE=" + VERIF + "/native/modules.cmake",
                "-DVPB_PYTHON_INCLUDE=" + sysconfig.get_paths()["include"],
                "-DVPB_NUMPY_INCLUDE=" + numpy.get_include(),
                "-DOPENSFM_BUILD_TESTS=OFF",
                "-DCMAKE_BUILD_TYPE=" + v["type"],
                "-DCMAKE_CXX_FLAGS_RELEASE=" + v["flags"],
                "-DCMAKE_C_FLAGS_RELEASE=" + v["flags"],
                "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache",
                "-DCMAKE_C_COMPILER_LAUNCHER=ccache",
            ]
            r = subprocess.run(cmd, env=env, capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
                raise RuntimeError("cmake configuration failed")
        hashes = _source_hashes()
        _drop_stale_objects(d, hashes)
        r = subprocess.run(
            ["ninja", "-j", str(jobs), "-C", d] + (targets or ["vpb_modules"]),
            env=env, capture_output=True, text=True,
        )
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
            raise RuntimeError("build of %s failed" % variant)
        with open(os.path.join(d, "sources.json"), "w") as fout:
            json.dump(hashes, fout)
        steps = r.stdout.count("\n[") + r.stdout.startswith("[")
    return time.time() - t, steps


if __name__ == "__main__":
    for variant in sys.argv[1:] or ["rel", "asan"]:
        print(variant, build(variant), flush=True)
