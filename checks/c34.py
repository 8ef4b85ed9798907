"""C34: the command line runs the step it names, with the options it is given, on the data set it is given."""
import contextlib
import importlib
import inspect
import io
import json
import os
import shutil
import subprocess
import sys

import numpy as np

from checks import c22, c26

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 500, "thorough": 850}
TARGETS = []
REQUIRED = ["commands run", "options given", "options left out", "commands refused", "steps which failed", "help pages", "commands run as programs", "whole runs", "programs refused", "reconstructions which came out alike", "values equal to the defaults"]
RULE = ("one case = one command line: given to the command runner with the steps replaced by recorders, or to bin/opensfm and bin/opensfm_run_all as programs on a rendered data set; "
        "non-trivial when at least one option is given, or the line is a wrong one")
ASSUMPTIONS = ["the steps themselves are judged by the other properties: this one judges which is run, with what, and what remains",
               "the table of the commands and of their options was written from the usage page of the documentation and the help texts"]

# (kind, option, value given to the step when it is left out), in the order in which the step takes them
S, I, F = "string", "int", "flag"
SPEC = {
    "align_submodels": [], "create_submodels": [], "create_tracks": [], "detect_features": [], "export_report": [], "extract_metadata": [], "match_features": [], "mesh": [],
    "bundle": [(S, "--input", None), (S, "--output", None)],
    "extend_reconstruction": [(S, "--input", None), (S, "--output", None)],
    "reconstruct_from_prior": [(S, "--input", None), (S, "--output", None)],
    "compute_depthmaps": [(S, "--subfolder", "undistorted"), (F, "--interactive", False)],
    "compute_statistics": [(I, "--diagram_max_points", -1)],
    "create_rig": [("choice", "method", ["auto", "camera", "pattern"]), ("json", "definition", None), ("const", True, None)],
    "export_bundler": [(S, "--list_path", None), (S, "--bundle_path", None), (F, "--undistorted", False)],
    "export_colmap": [(F, "--binary", False)],
    "export_geocoords": [("needed", "--proj", None), (F, "--transformation", False), (F, "--image-positions", False), (F, "--reconstruction", False), (F, "--dense", False), (S, "--output", None)],
    "export_openmvs": [(S, "--image_list", None)],
    "export_ply": [(F, "--no-cameras", False), (F, "--no-points", False), (F, "--depthmaps", False), (F, "--point-num-views", False)],
    "export_pmvs": [(F, "--points", False), (S, "--image_list", None), (S, "--output", None), (F, "--undistorted", False)],
    "export_visualsfm": [(F, "--points", False), (S, "--image_list", None)],
    "reconstruct": [("algorithm", "--algorithm", "incremental")],
    "undistort": [(S, "--reconstruction", None), (I, "--reconstruction-index", 0), (S, "--tracks", None), (S, "--output", "undistorted"), (F, "--skip-images", False)],
}
ALGORITHMS = ["incremental", "triangulation"]
WORDS = ["a", "reconstruction.json", "out put", "undistorted", "dir/sub.txt", "été", "x=y", "1", "+proj=utm +zone=32", "/abs/path.txt", ""]


class Failure(Exception):
    pass


class Recorders:
    """In place of the steps; remembers what they are called with."""

    def __init__(self, fail=None):
        self.fail, self.calls, self.undo = fail, [], []

    def __enter__(self):
        for name in SPEC:
            action = importlib.import_module("opensfm.actions." + name)
            command = importlib.import_module("opensfm.commands." + name)
            real = action.run_dataset
            rec = self.recorder(name, inspect.signature(real))
            for module in (action, command):
                for k, v in list(vars(module).items()):
                    if v is real:
                        setattr(module, k, rec)
                        self.undo.append((module, k, real))
        return self

    def recorder(self, name, sig):
        def run_dataset(*args, **kwargs):
            b = sig.bind(*args, **kwargs)
            b.apply_defaults()
            self.calls.append((name, list(b.arguments.values())))
            if self.fail:
                raise Failure(name)

        return run_dataset

    def __exit__(self, *args):
        for module, k, v in reversed(self.undo):
            setattr(module, k, v)


def line(rng, name, root):
    """A random command line, and the values which the step should get."""
    parts, want, given = [], [], 0
    positional = []
    for kind, opt, default in SPEC[name]:
        if kind == "const":
            want.append(opt)
            continue
        if kind == "choice":
            v = str(rng.choice(default))
            positional.append(v)
            want.append(v)
            continue
        if kind == "json":
            v = [{"camera0": "(RIG)_left", "b": "x (.*)"}, {}, {"é": 3, "n": [1, None]}][rng.integers(3)]
            positional.append(json.dumps(v))
            want.append(v)
            continue
        there = kind == "needed" or rng.random() < 0.5
        if not there:
            want.append(default)
            continue
        given += 1
        if kind == F:
            parts.append([opt])
            want.append(True)
            continue
        if kind == I:
            v = int(rng.choice([0, 1, 2, 17, 100000]))
            text = str(v)
        elif kind == "algorithm":
            v = text = str(rng.choice(ALGORITHMS))
        else:
            v = text = str(rng.choice(WORDS + ([default] if default else [])))
        parts.append([opt + "=" + text] if rng.random() < 0.4 else [opt, text])
        want.append(v)
    if rng.random() < 0.2:
        parts.append(["--dataset-type", "opensfm"])
    # the positional arguments keep their order, the options go anywhere
    fixed = [[root]] + [[p] for p in positional]
    at = int(rng.integers(len(parts) + 1))
    order = [parts[k] for k in rng.permutation(len(parts))]
    out = order[:at] + fixed + order[at:]
    return [name] + [a for p in out for a in p], want, given


@contextlib.contextmanager
def argv(args):
    old = sys.argv
    sys.argv = ["opensfm"] + args
    try:
        yield
    finally:
        sys.argv = old


def new(root):
    """A data set with one picture (a file with nothing in it: no step is run)."""
    os.makedirs(os.path.join(root, "images"))
    open(os.path.join(root, "images", "a.jpg"), "w").close()


class Factory:
    """As in bin/opensfm_main.py, but what happens is remembered."""

    def __init__(self):
        self.opened, self.closed = [], []

    @contextlib.contextmanager
    def __call__(self, path, kind=""):
        from opensfm.dataset import DataSet

        self.opened.append((path, kind))
        data = DataSet(path)
        try:
            yield data
        finally:
            self.closed.append(path)


def go(args, fail=None):
    from opensfm import commands

    factory = Factory()
    out = io.StringIO()
    err = None
    with Recorders(fail) as R, argv(args), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            commands.command_runner(commands.opensfm_commands, factory, dataset_choices=["opensfm"])
        except (Exception, SystemExit) as e:
            err = e
    return R.calls, factory, err, out.getvalue()


def same(a, b):
    return type(a) is type(b) and a == b


def options(chk, rng):
    names = sorted(SPEC)
    for n in range(chk.n(500, 60000)):
        name = names[(n * chk.shards + chk.shard) % len(names)]
        root = os.path.join(chk.tmp, str(rng.choice(["d", "data set", "é"])) + str(n))
        new(root)
        args, want, given = line(rng, name, root)
        what = {"line": args}
        chk.case("command line", what, sig=tuple(a for a in args if a != root) if given else None)
        fail = rng.random() < 0.1
        calls, factory, err, text = go(args, fail)
        log = os.path.join(root, "profile.log")
        lines = open(log, encoding="utf-8").read().splitlines() if os.path.exists(log) else []
        if not chk.expect(len(calls) == 1 and calls[0][0] == name, "the step of the command isn't the one which was run", calls=[c[0] for c in calls], err=repr(err), text=text[-200:], **what):
            continue
        data, *got = calls[0][1]
        chk.expect(data.data_path == root, "the step was run on another data set", got=data.data_path, **what)
        chk.expect(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), "the step got other values than the ones of the command line", got=got, want=want, **what)
        chk.expect(factory.opened == [(root, "opensfm")] and factory.closed == [root], "the data set wasn't opened and closed once", opened=factory.opened, closed=factory.closed, **what)
        if fail:
            chk.expect(isinstance(err, Failure) and not lines, "the failure of a step isn't reported", err=repr(err), lines=lines, **what)
            chk.count("steps which failed")
        else:
            ok = err is None and len(lines) == 1 and lines[0].startswith(name + ": ")
            chk.expect(ok and 0 <= float(lines[0].split(": ")[1]) < 60, "profile.log doesn't have the time of the step", err=repr(err), lines=lines, **what)
            again = go(args)[2]
            lines = open(log, encoding="utf-8").read().splitlines()
            chk.expect(again is None and len(lines) == 2 and all(k.startswith(name + ": ") for k in lines), "profile.log doesn't have the times of the steps in order", lines=lines, **what)
        chk.expect(sorted(os.listdir(root)) in (["images"], ["images", "profile.log"]) and os.listdir(root + "/images") == ["a.jpg"], "running a command wrote files by itself", files=os.listdir(root), **what)
        chk.count("commands run")
        chk.count("options given", given)
        chk.count("options left out", sum(k[0] in (S, I, F, "algorithm") for k in SPEC[name]) - given + (name == "export_geocoords"))
        chk.count("values equal to the defaults", sum(same(a, k[2]) for a, k in zip(want, SPEC[name]) if k[0] in (S, I, "algorithm")))
        shutil.rmtree(root)


def refused(chk, rng):
    names = sorted(SPEC)
    for n in range(chk.n(160, 8000)):
        name = names[int(rng.integers(len(names)))]
        root = os.path.join(chk.tmp, "r%d" % n)
        new(root)
        args, _, _ = line(rng, name, root)
        kinds = ["no such command", "no such option", "too many", "no data set", "nothing", "type"]
        kinds += ["choice"] * 2 * (name in ("create_rig", "reconstruct")) + ["number"] * 2 * (name in ("undistort", "compute_statistics")) + ["needed"] * 2 * (name == "export_geocoords")
        kinds += ["value"] * any(k[0] in (S, I) for k in SPEC[name])
        kind = str(rng.choice(kinds))
        if kind == "no such command":
            args[0] = str(rng.choice([name + "x", "Reconstruct", name.upper(), "all", "run"]))
        elif kind == "no such option":
            args.insert(int(rng.integers(1, len(args) + 1)), str(rng.choice(["--nothing", "-q", "--no-such=1"])))
        elif kind == "too many":
            args.append("another")
            args.append("one")
        elif kind == "no data set":
            args = [name]
        elif kind == "nothing":
            args = []
        elif kind == "type":
            args += ["--dataset-type", "other"]
        elif kind == "choice":
            args = ["create_rig", root, "by hand", "{}"] if name == "create_rig" else [name, root, "--algorithm", str(rng.choice(["", "Incremental", "other"]))]
        elif kind == "number":
            args += ["--reconstruction-index" if name == "undistort" else "--diagram_max_points", str(rng.choice(["x", "1.5", ""]))]
        elif kind == "needed":
            args = [name, root, "--transformation"]
        elif kind == "value":
            args.append(str([k[1] for k in SPEC[name] if k[0] in (S, I)][0]))
        what = {"line": args, "wrong": kind}
        chk.case("wrong line", what, sig=(kind, tuple(a for a in args if a != root)))
        calls, factory, err, text = go(args)
        chk.expect(isinstance(err, SystemExit) and err.code not in (0, None) and "usage:" in text, "a wrong command line isn't refused with its usage", err=repr(err), text=text[-300:], **what)
        chk.expect(not calls and not factory.opened and os.listdir(root) == ["images"], "a wrong command line ran something", calls=[c[0] for c in calls], files=os.listdir(root), **what)
        chk.count("commands refused")
        shutil.rmtree(root)
    if chk.shard == 0:
        calls, factory, err, text = go(["--help"])
        chk.case("help", {}, sig="help")
        chk.expect(isinstance(err, SystemExit) and err.code in (0, None) and not calls, "--help fails", err=repr(err))
        for name in names:
            chk.expect(name in text, "a command isn't in the usage page", name=name)
            calls, factory, err, page = go([name, "--help"])
            chk.case("help", {"name": name}, sig=name)
            chk.expect(isinstance(err, SystemExit) and err.code in (0, None) and not calls and not factory.opened, "--help of a command fails", name=name, err=repr(err))
            for kind, opt, _ in SPEC[name]:
                chk.expect(kind in ("const", "choice") or str(opt) in page, "an option isn't in the help page", name=name, option=opt)
            chk.count("help pages")


# ------------------------------------------------------------------ programs
WRAPPER = """#!/bin/sh
exec "%s" "%s" "$@"
"""
STARTER = """
import os, runpy, sys
sys.path.insert(0, %r)
import osfm_loader
osfm_loader.install()
sys.argv = sys.argv[1:]
sys.path.insert(0, os.path.dirname(sys.argv[0]))
runpy.run_path(sys.argv[0], run_name="__main__")
"""


STEP = """
import importlib, json, logging, sys
from opensfm import dataset
step, root, args = sys.argv[1:]
importlib.import_module("opensfm.actions." + step).run_dataset(dataset.DataSet(root), *json.loads(args))
"""


def programs(chk, rng):
    """bin/opensfm and bin/opensfm_run_all, as a user runs them."""
    import osfm_loader

    where = os.path.join(chk.tmp, "path")
    os.makedirs(where)
    start = os.path.join(where, "start.py")
    with open(start, "w") as f:
        f.write(STARTER % os.path.dirname(osfm_loader.__file__))
    for k in ("python3", "python"):
        p = os.path.join(where, k)
        with open(p, "w") as f:
            f.write(WRAPPER % (sys.executable, start))
        os.chmod(p, 0o755)
    env = dict(os.environ, PATH=where + os.pathsep + os.environ["PATH"])
    # no threads, and sets gone through in the same order: the results have to come out the same
    env["OPENBLAS_NUM_THREADS"] = env["OMP_NUM_THREADS"] = "1"
    env["PYTHONHASHSEED"] = "0"
    direct = os.path.join(where, "step.py")
    with open(direct, "w") as f:
        f.write(STEP)

    def step(name, root, *args):
        """The step itself; what it says when it fails."""
        r = subprocess.run([os.path.join(where, "python3"), direct, name, root, json.dumps(args)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, cwd=chk.tmp)
        return r.stdout.decode(errors="replace")[-300:] if r.returncode else None

    def program(name, *args):
        r = subprocess.run([os.path.join(osfm_loader.REPO, "bin", name)] + list(args), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, cwd=chk.tmp)
        return r.returncode, r.stdout.decode(errors="replace")

    for n in range(chk.n(8, 40)):
        config = {"feature_type": "HAHOG", "feature_min_frames": 400, "feature_process_size": -1, "matcher_type": "BRUTEFORCE", "lowes_ratio": 0.9, "robust_matching_min_match": 8, "matching_gps_distance": 0,
                  "matching_graph_rounds": 0, "processes": 1, "read_processes": 1, "depthmap_method": "BRUTE_FORCE", "depthmap_resolution": 40, "depthmap_min_consistent_views": 2,
                  "undistorted_image_format": "png", "five_point_algo_min_inliers": 15, "triangulation_min_ray_angle": 0.5, "resection_min_inliers": 8, "five_point_refine_match_iterations": 3,
                  "bundle_outlier_filtering_type": "FIXED", "use_altitude_tag": False}
        base = os.path.join(chk.tmp, "base%d" % n)
        c22.make_dataset(chk, rng, base, dict(config), "perspective")
        for f in ("reconstruction.json", "tracks.csv"):
            os.remove(os.path.join(base, f))
        shutil.rmtree(os.path.join(base, "exif"), ignore_errors=True)
        for f in ("masks", "segmentations"):
            shutil.rmtree(os.path.join(base, f), ignore_errors=True)
        models = json.load(open(os.path.join(base, "camera_models.json"))) if os.path.exists(os.path.join(base, "camera_models.json")) else {}
        if models:
            over = {}
            images = sorted(os.listdir(os.path.join(base, "images")))
            cid = sorted(models)[0]
            for k in images:
                over[k] = {"camera": cid, "width": int(models[cid]["width"]), "height": int(models[cid]["height"]), "projection_type": models[cid]["projection_type"]}
            json.dump(over, open(os.path.join(base, "exif_overrides.json"), "w"))
            json.dump(models, open(os.path.join(base, "camera_models_overrides.json"), "w"))
            os.remove(os.path.join(base, "camera_models.json"))
        chk.case("programs", {"n": n}, sig=(chk.shard, n))
        a, b = os.path.join(chk.tmp, "as programs%d" % n), os.path.join(chk.tmp, "one by one.%d" % n)
        shutil.copytree(base, a)
        shutil.copytree(base, b)
        steps = [("extract_metadata",), ("detect_features",), ("match_features",), ("create_tracks",), ("reconstruct", "incremental"), ("mesh",), ("undistort", None, 0, None, "undistorted", False),
                 ("compute_depthmaps", "undistorted", False)]
        whole = (n * chk.shards + chk.shard) % 2 == 0
        stop, text = None, ""
        if whole:
            code, text = program("opensfm_run_all", a)
            stop = "some" if code else None
        else:
            for name, *_ in steps:
                code, text = program("opensfm", name, a)
                chk.count("commands run as programs")
                if code:
                    stop = name
                    break
        failed = None
        for name, *args in steps:
            bad = step(name, b, *args)
            if bad:
                failed = name, bad
                break
            if name == "reconstruct" and os.path.exists(a + "/reconstruction.json"):
                # where things lie in memory changes the last digits: the next steps are given the same
                u, v = (json.load(open(r + "/reconstruction.json")) for r in (a, b))
                if near(u, v):
                    chk.count("reconstructions which came out alike")
                else:
                    chk.count("reconstructions which came out otherwise")
                shutil.copy(a + "/reconstruction.json", b)
        if failed:
            chk.count("data sets on which a step fails")
        chk.expect((stop is not None) == bool(failed) and (not failed or stop in ("some", failed[0])), "the program doesn't end as the steps do", stop=stop, failed=failed, text=text[-400:])
        ran = [name for name, *_ in steps]
        if failed:
            ran = ran[:ran.index(failed[0])]
        log = [k.split(": ")[0] for k in open(os.path.join(a, "profile.log")).read().splitlines()]
        chk.expect(log == ran, "the steps in profile.log aren't the ones which were run, in order", log=log, ran=ran)
        chk.count("whole runs", whole)
        compare(chk, a, b, "a whole run" if whole else "the commands")
        if not failed:
            extra = [(["export_ply", "--no-cameras"], [True, False, False, False]), (["export_openmvs"], [None]),
                     (["export_geocoords", "--proj", "+proj=utm +zone=31", "--transformation", "--image-positions"], ["+proj=utm +zone=31", True, True, False, False, None]),
                     (["bundle", "--output", "b.json"], [None, "b.json"]), (["export_visualsfm", "--points"], [True, None]),
                     (["undistort", "--output", "other dir", "--skip-images"], [None, 0, None, "other dir", True]), (["reconstruct", "--algorithm", "triangulation"], ["triangulation"])]
            for k in rng.permutation(len(extra))[:3]:
                args, values = extra[k]
                bad = step(args[0], b, *values)
                code, text = program("opensfm", args[0], a, *args[1:])
                chk.expect((code != 0) == bool(bad), "bin/opensfm doesn't end as the step does", args=args, code=code, failed=bad, text=text[-400:])
                compare(chk, a, b, "a command")
                chk.count("commands run as programs")
        # a step without what it needs
        c = os.path.join(chk.tmp, "empty")
        os.makedirs(c)
        for args in ([["reconstruct", c], ["mesh", c], ["undistort", c]][int(rng.integers(3))], ["reconstructs", c], []):
            code, text = program("opensfm", *args)
            chk.expect(code != 0, "a failing command ends as if it hadn't failed", args=args[:1], text=text[-300:])
            chk.count("programs refused")
        shutil.rmtree(c)
        for k in (a, b, base):
            shutil.rmtree(k)


def near(u, v):
    if isinstance(u, float) or isinstance(v, float):
        return isinstance(u, (int, float)) and isinstance(v, (int, float)) and abs(u - v) <= 1e-5 * max(1.0, abs(u))
    if type(u) is not type(v):
        return False
    if isinstance(u, dict):
        return u.keys() == v.keys() and all(near(u[k], v[k]) for k in u)
    if isinstance(u, list):
        return len(u) == len(v) and all(near(x, y) for x, y in zip(u, v))
    return u == v


def compare(chk, a, b, what):
    ca, cb = c26.contents(a), c26.contents(b)
    chk.expect(set(ca) == set(cb), what + " as programs made other files than the steps themselves", diff=sorted(set(ca) ^ set(cb))[:10])
    def alike(p):
        if p.endswith(".npz"):
            return c26.same_arrays(ca[p], cb[p])
        if ca[p] == cb[p]:
            return True
        u, v = (open(os.path.join(root, p), "rb").read().replace(root.encode(), b"ROOT") for root in (a, b))
        # the order of the sums of a bundle adjustment depends on where things lie in memory
        return u == v or p.endswith(".json") and near(json.loads(u), json.loads(v))

    diff = [p for p in ca if p in cb and not alike(p)]
    chk.expect(not diff, what + " as programs made other results than the steps themselves", diff=diff[:8])
    chk.count("files compared", len(ca))


def run(chk):
    options(chk, chk.rng_for("options"))
    refused(chk, chk.rng_for("refused"))
    programs(chk, chk.rng_for("programs"))
