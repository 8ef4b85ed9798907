"""Runner shared by every check.

    vf.py run <ID> [quick|thorough]      the registered command
    vf.py worker <ID> ...                one shard, in a process of its own
    vf.py replay <file>                  re-run the shard that saw a violation

A check module checks/<id>.py defines run(chk), which generates a workload,
drives the real code and lets its oracles judge what was observed.
"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

import vbuild  # noqa: E402

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SAMPLES = 6
MAX_VIOLATIONS = 20


class Inconclusive(Exception):
    pass


class Stop(Exception):
    """Enough violations were seen."""


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as fin:
        return [f for f in json.load(fin)["findings"] if f["status"] == "open"]


def _plain(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return _plain(x.tolist()) if x.size <= 64 else "array%s" % (x.shape,)
    if isinstance(x, np.generic):
        return _plain(x.item())
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


class Check:
    def __init__(self, prop, tier, seed, shard, shards, log):
        import numpy as np

        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.shards = shard, shards
        self.thorough = tier == "thorough"
        self.log = log
        self.evaluations = 0
        self.signatures = set()
        self.counters = {}
        self.extremes = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self._case = None
        self._known = {f["mechanism"]: f for f in known_findings() if f["property"] == prop}
        self.rng = self.rng_for("main")
        self.np = np

    # ---- workload -------------------------------------------------------
    def rng_for(self, *key):
        import numpy as np

        h = hashlib.sha256(repr((self.seed, self.shard, self.prop) + key).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "little"))

    def n(self, quick, thorough):
        """Share of this shard in a total number of cases."""
        total = thorough if self.thorough else quick
        return total // self.shards + (1 if self.shard < total % self.shards else 0)

    def mine(self, items):
        """This shard's share of a fixed list."""
        return [x for i, x in enumerate(items) if i % self.shards == self.shard]

    def case(self, kind, data=None, sig=None, nontrivial=True):
        """Announce the case about to run. data: what a reader needs to redo it."""
        self._case = (kind, data)
        self.evaluations += 1
        if nontrivial:
            key = repr(_plain(sig if sig is not None else data))
            self.signatures.add(hashlib.md5((kind + key).encode()).hexdigest()[:12])
        self.counters["case:" + kind] = self.counters.get("case:" + kind, 0) + 1
        if len(self.samples) < SAMPLES and (self.counters["case:" + kind] == 1):
            self.samples.append({"kind": kind, "input": data})
        if self.log:
            self.log.seek(0)
            self.log.truncate()
            json.dump({"kind": kind, "input": _plain(data), "number": self.evaluations}, self.log)
            self.log.flush()

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + int(k)

    def extreme(self, name, value):
        value = float(value)
        if not (self.extremes.get(name, -1e300) >= value):
            self.extremes[name] = value

    # ---- oracles --------------------------------------------------------
    def violation(self, what, mechanism=None, **data):
        if mechanism in self._known:
            self.known[mechanism] = self.known.get(mechanism, 0) + 1
            return
        self.violations.append(
            {
                "what": what,
                "mechanism": mechanism,
                "case": {"kind": self._case and self._case[0], "input": _plain(self._case and self._case[1])},
                "observed": _plain(data),
                "number": self.evaluations,
            }
        )
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop()

    def expect(self, ok, what, mechanism=None, **data):
        self.count("oracle evaluations")
        if not ok:
            self.violation(what, mechanism, **data)
        return bool(ok)

    def close(self, a, b, tol, what, mechanism=None, rel=False, **data):
        import numpy as np

        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.count("oracle evaluations")
        if a.shape != b.shape:
            self.violation(what + " (shape %s instead of %s)" % (a.shape, b.shape), mechanism, **data)
            return False
        if a.size == 0:
            return True
        d = np.abs(a - b)
        if rel:
            d = d / (1.0 + np.abs(b))
        m = d.max()
        if not (m <= tol):
            self.violation("%s: difference %r over tolerance %r" % (what, float(m), tol), mechanism,
                           got=a, expected=b, **data)
            return False
        return True

    def guard(self, fn, what, mechanism=None, **data):
        """Run fn; an exception raised by the code under test is a violation."""
        try:
            return True, fn()
        except (Stop, Inconclusive, KeyboardInterrupt):
            raise
        except BaseException as e:
            if _harness_fault(e):
                raise
            self.violation("%s: raised %s: %s" % (what, type(e).__name__, e), mechanism,
                           traceback=traceback.format_exc()[-1500:], **data)
            return False, None


def _harness_fault(e):
    """An exception that only says that the harness and the code disagree on names."""
    if not isinstance(e, (AttributeError, ImportError, NameError, TypeError)):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    return not tb or tb[-1].filename.startswith(VERIF)


# ------------------------------------------------------------------ worker
def worker(prop, tier, seed, shard, shards, variant, out):
    import faulthandler

    faulthandler.enable()
    os.environ.setdefault("PYTHONHASHSEED", "0")
    import osfm_loader

    osfm_loader.install(vbuild.moddir(variant))
    import logging

    logging.disable(logging.CRITICAL)
    import random

    import numpy as np

    np.seterr(all="ignore")
    random.seed(seed * 1000 + shard)
    np.random.seed((seed * 1000 + shard) % 2**32)
    import warnings

    warnings.simplefilter("ignore")
    mod = importlib.import_module("checks." + prop.lower())
    log = open(out + ".case", "w")
    chk = Check(prop, tier, seed, shard, shards, log)
    chk.variant = variant
    status = "ok"
    detail = ""
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="vf_%s_" % prop.lower()) as tmp:
        chk.tmp = tmp
        try:
            mod.run(chk)
        except Stop:
            pass
        except Inconclusive as e:
            status, detail = "inconclusive", str(e)
        except BaseException as e:
            if _harness_fault(e) or isinstance(e, KeyboardInterrupt):
                status, detail = "inconclusive", traceback.format_exc()
            else:
                chk.violations.append(
                    {
                        "what": "raised %s: %s" % (type(e).__name__, e),
                        "mechanism": None,
                        "case": {"kind": chk._case and chk._case[0], "input": _plain(chk._case and chk._case[1])},
                        "observed": {"traceback": traceback.format_exc()[-3000:]},
                        "number": chk.evaluations,
                    }
                )
        os.chdir(cwd)
    with open(out, "w") as fout:
        json.dump(
            {
                "status": status,
                "detail": detail,
                "evaluations": chk.evaluations,
                "signatures": sorted(chk.signatures),
                "counters": chk.counters,
                "extremes": chk.extremes,
                "samples": _plain(chk.samples),
                "violations": chk.violations,
                "known": chk.known,
            },
            fout,
        )
    sys.stdout.flush()
    # exit handlers of half-initialised native modules are not what is under test
    os._exit(0)


# ------------------------------------------------------------------ driver
def asan_env():
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    std = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True).stdout.strip()
    return {
        "LD_PRELOAD": ":".join([lib, ub, std]),
        "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:"
        "detect_stack_use_after_return=0:strict_init_order=0:handle_segv=1:detect_odr_violation=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    }


def run(prop, tier, seed, only_shard=None):
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    variant = getattr(mod, "VARIANT", "rel")
    targets = getattr(mod, "TARGETS", None)
    try:
        secs, steps = vbuild.build(variant, targets)
    except RuntimeError as e:
        print("ERROR property=%s: %s" % (prop, e))
        return 3
    shards = getattr(mod, "SHARDS", {}).get(tier, 4)
    timeout = getattr(mod, "TIMEOUT", {}).get(tier, 600 if tier == "quick" else 3000)
    env = dict(os.environ)
    env.update(
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        PYTHONHASHSEED="0", VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
    )
    env.pop("VERIF_MODULES_PLUGIN", None)
    if variant == "asan":
        env.update(asan_env())
    else:
        env["MALLOC_PERTURB_"] = "165"
    results, crashes, trouble = [], [], []
    with tempfile.TemporaryDirectory(prefix="vfrun_") as tmp:
        procs = []
        for s in range(shards):
            if only_shard is not None and s != only_shard:
                continue
            out = os.path.join(tmp, "r%d.json" % s)
            err = open(out + ".err", "w")
            p = subprocess.Popen(
                [PY, os.path.abspath(__file__), "worker", prop, tier, str(seed), str(s), str(shards), variant, out],
                env=env, stdout=err, stderr=err, cwd=tmp, start_new_session=True,
            )
            procs.append((s, p, out))
        end = time.time() + timeout
        for s, p, out in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = None
            try:
                with open(out + ".case") as fin:
                    case = json.load(fin)
            except (OSError, ValueError):
                case = None
            tail = open(out + ".err", errors="replace").read()
            if rc is None:
                trouble.append("shard %d ran out of time at case %s\n%s" % (s, json.dumps(case)[:400], tail[-1500:]))
            elif rc != 0 or not os.path.exists(out):
                crashes.append({"shard": s, "exit": rc, "case": case, "output": _report(tail)})
            else:
                r = json.load(open(out))
                r["shard"] = s
                results.append(r)
                if r["status"] != "ok":
                    trouble.append("shard %d: %s" % (s, r["detail"]))
    violations = []
    for r in results:
        for v in r["violations"]:
            violations.append(dict(v, shard=r["shard"]))
    for c in crashes:
        native = c["exit"] is not None and (c["exit"] < 0 or c["exit"] in (134, 139, 1))
        if c["case"] is not None and native and (c["exit"] != 1 or "Sanitizer" in c["output"] or "runtime error" in c["output"]):
            violations.append(
                {"what": "native crash or sanitizer report (exit %s)" % c["exit"], "mechanism": "crash",
                 "case": c["case"], "observed": {"output": c["output"]}, "shard": c["shard"]}
            )
        else:
            trouble.append("shard %s exited with %s\n%s" % (c["shard"], c["exit"], c["output"]))

    counters, extremes, known, sigs, samples = {}, {}, {}, set(), []
    evaluations = 0
    for r in results:
        evaluations += r["evaluations"]
        sigs.update(r["signatures"])
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["extremes"].items():
            extremes[k] = max(v, extremes.get(k, v))
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        seen = {s["kind"] for s in samples}
        samples += [s for s in r["samples"] if s["kind"] not in seen]
    required = getattr(mod, "REQUIRED", [])
    if not violations and not trouble and only_shard is None:
        for name in required:
            if not counters.get(name):
                trouble.append("the monitor %r observed nothing" % name)

    replay = None
    if only_shard is None and not violations:
        try:
            os.remove(os.path.join(VERIF, "replay", "%s.json" % prop))
        except OSError:
            pass
    if violations:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        replay = os.path.join(VERIF, "replay", "%s.json" % prop)
        with open(replay, "w") as fout:
            json.dump(
                {"property": prop, "tier": tier, "seed": seed, "shard": violations[0].get("shard"),
                 "replay": "/verif/check replay " + replay, "violations": violations[:20]},
                fout, indent=1,
            )
    wall = time.time() - t0
    sample_out = []
    size = 0
    for s in samples[:12]:
        txt = json.dumps(s)
        if len(txt) > 2500:
            s = {"kind": s["kind"], "input": txt[:2500]}
        size += len(json.dumps(s))
        if size > 30000:
            break
        sample_out.append(s)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": getattr(mod, "RULE", ""),
            "samples": sample_out,
            "observed": {k: counters[k] for k in sorted(counters)},
            "extremes": {k: extremes[k] for k in sorted(extremes)},
            "shards": len(results),
            "native_build": {"variant": variant, "seconds": round(secs, 2), "steps": steps},
            "known_findings_seen": known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only_shard is None:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fout:
            json.dump(evidence, fout, indent=1)
    for f in known_findings():
        if f["property"] == prop and known.get(f["mechanism"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print(
        "%s %s seed=%d: %d cases, %d distinct, %d oracle evaluations, build %.1fs/%d steps, %.1fs"
        % (prop, tier, seed, evaluations, len(sigs), counters.get("oracle evaluations", 0), secs, steps, wall)
    )
    if violations:
        for v in violations[:3]:
            print("  %s | %s" % (v["what"][:400], json.dumps(v["case"])[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if trouble:
        for t in trouble:
            print("INCONCLUSIVE property=%s: %s" % (prop, t[-3000:]))
        return 2
    if not evaluations:
        print("INCONCLUSIVE property=%s: nothing was observed" % prop)
        return 2
    return 0


def _report(tail):
    for mark in ("ERROR: AddressSanitizer", "runtime error:", "Fatal Python error"):
        i = tail.find(mark)
        if i >= 0:
            return tail[max(0, i - 300): i + 4000]
    return tail[-3000:]


def main(argv):
    if argv[0] == "worker":
        worker(argv[1], argv[2], int(argv[3]), int(argv[4]), int(argv[5]), argv[6], argv[7])
    elif argv[0] == "replay":
        d = json.load(open(argv[1]))
        return run(d["property"], d["tier"], d["seed"], d["shard"])
    else:
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run(argv[1].upper(), tier, int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
