"""C26: parallel processing handles every item once, in order, whatever the number of workers."""
import contextlib
import os
import pickle
import shutil
import sys
import threading
import time

import numpy as np

import gen
from checks import c22
from checks.c23 import tree

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["maps", "items", "maps with failures", "maps with overlapping items", "nested maps", "orders of completion", "feature queues", "images queued", "queues with little memory",
            "queues with failures", "pipelines", "images with features", "pairs matched", "undistorted files", "depth maps", "image pairs", "failing steps"]
RULE = ("one case = a parallel map over items with given durations and failures, an extraction of features from images with injected delays, or the steps of a data set run with one and with "
        "several workers; logs of calls (start, end, thread) are checked for exactly-once, order and limits, and the outputs are compared; non-trivial = at least two items")
ASSUMPTIONS = ["schedules come from the threads of Python with short switch intervals and random delays", "PatchMatch is random by design: cleaning, pruning and merging are compared for the same raw depth maps", "FLANN matchers depend on a random state shared by all threads, which is not compared",
               "a step which needs more than 100 seconds hangs"]
HANG = 100


# ------------------------------------------------------------------ tools
def limited(chk, fn, what, **data):
    """Runs fn in a thread: ("ok", value), ("error", exception), or ("hang", None)."""
    out = []

    def work():
        try:
            out.append(("ok", fn()))
        except BaseException as e:
            out.append(("error", e))

    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(HANG)
    if not out:
        chk.expect(False, what + " doesn't finish", **data)
        return "hang", None
    return out[0]


@contextlib.contextmanager
def switching(interval):
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        yield
    finally:
        sys.setswitchinterval(old)


class Log:
    """Events of all threads."""

    def __init__(self):
        self.lock = threading.Lock()
        self.events = []
        self.active = 0
        self.most = 0

    def start(self, item):
        with self.lock:
            self.events.append(("start", item, threading.get_ident()))
            self.active += 1
            self.most = max(self.most, self.active)

    def end(self, item):
        with self.lock:
            self.events.append(("end", item, threading.get_ident()))
            self.active -= 1

    def note(self, kind, item):
        with self.lock:
            self.events.append((kind, item, threading.get_ident()))

    def of(self, kind):
        with self.lock:
            return [e[1] for e in self.events if e[0] == kind]


class Failure(Exception):
    pass


# ------------------------------------------------------------------ maps
def maps(chk, seen):
    import cv2
    from opensfm import context

    for i in range(chk.n(320, 9000)):
        rng = chk.rng_for("map", i)
        n = int(rng.choice([0, 1, 2, 3, 7, int(rng.integers(4, 40)), int(rng.integers(40, 220))]))
        workers = int(rng.choice([0, 1, 2, 3, 4, 5, 8, 16]))
        batch = rng.choice([None, 0, 1, 2, 4, 100])
        batch = None if batch is None else int(batch)
        pace = str(rng.choice(["none", "random", "first slow", "last slow"]))
        delay = {"none": np.zeros(n), "random": rng.exponential(0.0006, n), "first slow": np.r_[[0.004] * min(n, 2), np.zeros(max(n - 2, 0))],
                 "last slow": np.r_[np.zeros(max(n - 2, 0)), [0.004] * min(n, 2)]}[pace]
        bad = set(int(k) for k in rng.choice(n, int(rng.integers(1, 3)))) if n and rng.random() < 0.25 else set()
        nested = not bad and n and n < 30 and rng.random() < 0.15
        kind = int(rng.integers(3))
        items = [[k, "x%d" % k, (k, np.full(3, k))][kind] for k in range(n)]
        log = Log()

        def work(a, log=log, delay=delay, bad=bad, nested=nested, kind=kind):  # may still run after a failed map
            k = a if kind == 0 else int(a[1:]) if kind == 1 else a[0]
            log.start(k)
            if delay[k]:
                time.sleep(delay[k])
            if k in bad:
                log.end(k)
                raise Failure(k)
            r = {"item": k}
            if nested:
                r["inner"] = context.parallel_map(lambda b: (b, k), list(range(3)), 2)
            log.end(k)
            return r

        threads = int(rng.choice([1, 2, 3, 4]))
        cv2.setNumThreads(threads)
        threads = cv2.getNumThreads()
        args = (batch,) if rng.random() < 0.8 else ()
        what = dict(items=n, workers=workers, batch=args, pace=pace, bad=sorted(bad), nested=nested)
        chk.case("map", what, sig=(chk.shard, i))
        with switching(1e-5 if rng.random() < 0.5 else 0.005):
            state, got = limited(chk, lambda: context.parallel_map(work, items, workers, *args), "a parallel map", **what)
        if state == "hang":
            return
        chk.count("maps")
        chk.count("items", n)
        order = log.of("end")
        if bad:
            chk.count("maps with failures")
            chk.expect(state == "error" and isinstance(got, Failure) and got.args[0] in bad, "the failure of an item isn't reported by the map", got=repr((state, got))[:300], **what)
            started = log.of("start")
            chk.expect(len(set(started)) == len(started), "an item was handled twice", started=started[:200], **what)
        elif chk.expect(state == "ok", "a map of working items failed", error=repr(got), **what):
            want = [{"item": k, **({"inner": [(b, k) for b in range(3)]} if nested else {})} for k in range(n)]
            chk.expect(isinstance(got, list) and got == want, "the results of a map aren't those of the items in their order", got=str(got)[:400], **what)
            chk.expect(sorted(log.of("start")) == list(range(n)) and sorted(order) == list(range(n)), "a map didn't handle each item once", started=sorted(log.of("start"))[:100], **what)
            chk.expect(log.active == 0, "items are still running when the map returns", **what)
        chk.expect(log.most <= max(workers, 1), "more items run at once than there are workers", most=log.most, **what)
        chk.extreme("items at once", log.most)
        if log.most > 1:
            chk.count("maps with overlapping items")
        if nested:
            chk.count("nested maps")
        if not nested:
            chk.expect(cv2.getNumThreads() == threads, "a map changes the number of threads of OpenCV", before=threads, after=cv2.getNumThreads(), **what)
        if n < 60:
            seen.add((n, tuple(order)))
    cv2.setNumThreads(1)


# ------------------------------------------------------------------ queue of images
class Images:
    """Just what the extraction of features needs, with delays, failures and a log."""

    def __init__(self, rng, n, config):
        from opensfm import config as default

        self.config = default.default_config()
        self.config.update(config)
        self.rng = rng
        self.names = ["i%02d" % k for k in range(n)]
        self.pictures = {}
        for k, s in enumerate(self.names):
            small = rng.integers(0, 255, (9, 12)).astype(np.uint8)
            im = np.kron(small, np.ones((6, 6), np.uint8))
            self.pictures[s] = np.stack([im, np.roll(im, k), im], -1)
        self.delays = {s: (float(rng.exponential(0.001)), float(rng.exponential(0.001))) for s in self.names}
        self.fail = {}
        self.reset()

    def reset(self):
        self.log = Log()
        self.saved = {}

    def load_camera_models(self):
        return {"c": self.camera}

    def load_exif(self, image):
        return {"camera": "c", "width": 72, "height": 54, "orientation": 1}

    def load_image(self, image, *args, **kw):
        self.log.note("load", image)
        time.sleep(self.delays[image][0])
        if self.fail.get(image) == "load":
            raise Failure(image)
        return self.pictures[image]

    def load_mask(self, image):
        return None

    def load_segmentation(self, image):
        return None

    load_instances = load_segmentation

    def load_features_mask(self, image, points):
        return np.ones(len(points), bool)

    def segmentation_ignore_values(self, image):
        return []

    def segmentation_labels(self):
        return []

    def features_exist(self, image):
        return image in self.exists

    def words_exist(self, image):
        return False

    def feature_type(self):
        return self.config["feature_type"]

    def save_features(self, image, f):
        time.sleep(self.delays[image][1])
        if self.fail.get(image) == "save":
            raise Failure(image)
        self.log.note("save", image)
        self.saved[image] = [np.array(f.points), np.array(f.descriptors), np.array(f.colors)]

    def save_report(self, report, path):
        self.log.note("report", path)


def queues(chk, seen):
    from opensfm import features_processing, masking

    for i in range(chk.n(64, 1400)):
        rng = chk.rng_for("queue", i)
        n = int(rng.choice([0, 1, 2, 3, int(rng.integers(4, 14)), int(rng.integers(14, 40))]))
        config = {"processes": int(rng.choice([1, 2, 3, 4, 5, 8])), "read_processes": int(rng.choice([1, 2, 3, 4, 6])), "feature_min_frames": 30,
                  "feature_process_size": int(rng.choice([2048, 2048, -1, 40, 10])), "features_bake_segmentation": bool(rng.random() < 0.2),
                  "feature_type": str(rng.choice(["HAHOG", "HAHOG", "ORB"]))}
        if config["feature_type"] == "ORB":
            config["feature_root"] = False
        data = Images(rng, n, config)

        class Camera:
            pass

        data.camera = Camera()
        data.camera.width, data.camera.height, data.camera.projection_type = [(72, 54), (1000, 800), (4000, 3000)][rng.integers(3)] + ("perspective",)
        if rng.random() < 0.5:
            data.config["mem_ceiling"] = int(rng.choice([3, 30, 120, 300, 1500, 8000]))
            if rng.random() < 0.3:
                data.config["mem_ratio"] = 0.5
            chk.count("queues with little memory")
        data.exists = set(s for s in data.names if rng.random() < 0.2)
        force = bool(rng.integers(2))
        what = dict(config, images=n, mem=data.config["mem_ceiling"], camera=data.camera.width, force=force)
        chk.case("queue", what, sig=(chk.shard, i))
        bad = {}
        if n and rng.random() < 0.25:
            for s in rng.choice(data.names, int(rng.integers(1, min(n, 3) + 1)), replace=False):
                bad[str(s)] = str(rng.choice(["load", "save"]))
        data.fail = bad
        with switching(1e-5 if rng.random() < 0.5 else 0.005):
            state, got = limited(chk, lambda: features_processing.run_features_processing(data, list(data.names), force), "the extraction of features", bad=bad, **what)
        if state == "hang":
            return
        chk.count("feature queues")
        want = [s for s in data.names if force or s not in data.exists]
        raised = {s for s in bad if bad[s] == "load" or s in want}
        loads, saves = data.log.of("load"), data.log.of("save")
        if raised:
            chk.count("queues with failures")
            chk.expect(state == "error" and isinstance(got, Failure) and got.args[0] in raised, "the failure of an image isn't reported by the extraction of features", got=repr((state, got))[:200],
                       bad=bad, **what)
            chk.expect(len(set(loads)) == len(loads) and len(set(saves)) == len(saves), "an image was processed twice", bad=bad, **what)
            continue
        if not chk.expect(state == "ok", "the extraction of features failed", error=repr(got), **what):
            continue
        chk.count("images queued", n)
        chk.expect(sorted(loads) == data.names, "images weren't read once each", got=loads, **what)
        chk.expect(sorted(saves) == want, "features of images weren't saved once each", got=saves, want=want, **what)
        if n < 40:
            seen.add(("queue", tuple(loads), tuple(saves)))
        par = data.saved
        data.reset()
        data.config.update(processes=1)
        data.config["mem_ceiling"] = None
        state, got = limited(chk, lambda: features_processing.run_features_processing(data, list(data.names), force), "the extraction of features of one worker", **what)
        if chk.expect(state == "ok", "the extraction of features by one worker failed", error=repr(got), **what):
            same = set(par) == set(data.saved) and all(all(a.shape == b.shape and (a == b).all() for a, b in zip(par[s], data.saved[s])) for s in par)
            chk.expect(same, "the features of several workers are others than those of one", **what)


# ------------------------------------------------------------------ steps
class Delays:
    """Random delays and failures in the methods of data sets, and a log of their calls."""

    METHODS = ["load_image", "save_features", "load_features", "load_exif", "load_undistorted_image", "save_undistorted_image", "save_raw_depthmap", "load_raw_depthmap", "save_clean_depthmap"]

    def __init__(self, seed, fail=None):
        self.rng = np.random.default_rng(seed)
        self.fail = fail
        self.log = Log()

    def __enter__(self):
        from opensfm import dataset

        self.old = []
        for cls in (dataset.DataSet, dataset.UndistortedDataSet):
            for name in self.METHODS:
                if name in cls.__dict__:
                    fn = cls.__dict__[name]
                    self.old.append((cls, name, fn))
                    setattr(cls, name, self.wrap(name, fn))
        return self

    def wrap(self, name, fn):
        def call(obj, image, *args, **kw):
            with self.log.lock:
                d = float(self.rng.exponential(0.0007)) * (self.rng.random() < 0.5)
                self.log.events.append((name, image, threading.get_ident()))
            time.sleep(d)
            if self.fail == (name, image):
                raise Failure(name, image)
            return fn(obj, image, *args, **kw)

        return call

    def __exit__(self, *args):
        for cls, name, fn in self.old:
            setattr(cls, name, fn)


def arrays(path):
    with np.load(path, allow_pickle=True) as f:
        return {k: f[k] for k in f.files}


def same_arrays(a, b):
    return set(a) == set(b) and all(a[k].dtype == b[k].dtype and a[k].shape == b[k].shape and pickle.dumps(a[k].tolist()) == pickle.dumps(b[k].tolist()) for k in a)


def contents(root):
    """Outputs of the steps, in a form which can be compared (nothing about the time they took)."""
    out = {}
    for p, data in tree(root).items():
        if p.startswith("reports") or "/reports/" in p or p.endswith(".log") or p == "config.yaml":
            continue
        full = os.path.join(root, p)
        if p.endswith(".npz"):
            out[p] = arrays(full)
        elif p.endswith(".pkl.gz"):
            import gzip

            out[p] = {k: np.asarray(v).tolist() for k, v in pickle.loads(gzip.open(full).read()).items()}
        else:
            out[p] = data
    return out


def pipeline(chk, seen):
    from opensfm import dataset, reconstruction, tracking
    from opensfm.actions import compute_depthmaps, create_tracks, detect_features, match_features, undistort

    for i in range(chk.n(16, 240)):
        rng = chk.rng_for("pipeline", i)
        feature = str(rng.choice(["HAHOG", "HAHOG", "SIFT", "AKAZE", "ORB"]))
        config = {"feature_type": feature, "feature_root": feature in ("HAHOG", "SIFT") and bool(rng.integers(2)), "feature_min_frames": 150, "feature_process_size": int(rng.choice([2048, -1, 80])),
                  "features_bake_segmentation": bool(rng.random() < 0.3), "matcher_type": "BRUTEFORCE", "symmetric_matching": bool(rng.integers(2)), "matching_graph_rounds": 0,
                  "matching_gps_neighbors": int(rng.choice([0, 3])), "matching_gps_distance": float(rng.choice([0, 150])), "processes": 1, "lowes_ratio": 0.9, "robust_matching_min_match": 8,
                  "depthmap_method": str(rng.choice(["PATCH_MATCH", "PATCH_MATCH_SAMPLE", "BRUTE_FORCE"])), "depthmap_resolution": 50, "depthmap_min_consistent_views": 2,
                  "depthmap_patchmatch_iterations": 2, "undistorted_image_format": "png", "segmentation_ignore_values": [3],
                  "matching_vlad_neighbors": int(rng.choice([0, 2])) if feature == "HAHOG" else 0, "read_processes": int(rng.choice([1, 2, 4]))}
        model = str(rng.choice(["perspective", "brown", "fisheye"]))
        what = dict(config, model=model)
        chk.case("pipeline", what, sig=(chk.shard, i))
        base = os.path.join(chk.tmp, "p%d" % i)
        c22.make_dataset(chk, rng, base, config, model)
        if config["matching_vlad_neighbors"]:
            config["feature_root"] = True
        out = {}
        counts = [1] + [int(k) for k in rng.choice([2, 3, 4, 6, 8], 2, replace=False)]
        images = None
        fresh = [0]

        kept = os.path.join(chk.tmp, "raw%d" % i)
        random = config["depthmap_method"] != "BRUTE_FORCE"

        def go(workers, fail=None):
            """All the steps in a copy of the data set."""
            fresh[0] += 1
            root = base + "w%d" % fresh[0]
            shutil.copytree(base, root)
            gen_config = dict(config, processes=workers)
            import json

            json.dump(gen_config, open(root + "/config.yaml", "w"))
            steps = [("detect_features", lambda d: detect_features.run_dataset(d)), ("match_features", lambda d: match_features.run_dataset(d)),
                     ("undistort", lambda d: undistort.run_dataset(d, output="undistorted", skip_images=False)),
                     ("compute_depthmaps", lambda d: compute_depthmaps.run_dataset(d, "undistorted", False))]
            with Delays(int(rng.integers(1 << 30)), fail) as D, switching(1e-4 if rng.random() < 0.5 else 0.005):
                for name, fn in steps:
                    if name == "compute_depthmaps" and random and os.path.exists(kept):
                        shutil.copytree(kept, os.path.join(root, "undistorted/depthmaps"))
                    state, got = limited(chk, lambda: fn(dataset.DataSet(root)), name, workers=workers, **what)
                    if state != "ok":
                        return name, state, got, root, D
                d = dataset.DataSet(root)
                create_tracks.run_dataset(d)
                pairs = tracking.all_common_tracks_with_features(d.load_tracks_manager())
                state, got = limited(chk, lambda: reconstruction.compute_image_pairs(pairs, d), "compute_image_pairs", workers=workers, **what)
                if state != "ok":
                    return "compute_image_pairs", state, got, root, D
            return None, "ok", got, root, D

        ref = None
        for workers in counts:
            where, state, got, root, D = go(workers)
            if state == "hang":
                return
            if chk.expect(state == "ok", "a step failed", step=where, error=repr(got), workers=workers, **what):
                images = sorted(dataset.DataSet(root).images())
                saved = [e[1] for e in D.log.events if e[0] == "save_features"]
                chk.expect(sorted(saved) == images, "features weren't extracted once for each image", got=saved, workers=workers, **what)
                seen.add(tuple(e[:2] for e in D.log.events if e[0].startswith("save"))[:300])
                c = contents(root)
                if ref is None:
                    ref = c, got
                    chk.count("images with features", sum(p.startswith("features") or "features" in p.split("/")[0] for p in c))
                    chk.count("pairs matched", sum(len(m) for p, m in c.items() if p.endswith(".pkl.gz")))
                    chk.count("undistorted files", sum(p.startswith("undistorted/images") for p in c))
                    chk.count("depth maps", sum(p.startswith("undistorted/depthmaps") and p.endswith(".npz") for p in c))
                    chk.count("image pairs", len(got))
                    # PatchMatch is random by design: its result is given to the next runs
                    os.makedirs(kept)
                    for f in os.listdir(root + "/undistorted/depthmaps"):
                        if f.endswith(".raw.npz"):
                            shutil.copy(root + "/undistorted/depthmaps/" + f, kept)
                else:
                    chk.expect(set(c) == set(ref[0]), "other files come out with several workers than with one", diff=sorted(set(c) ^ set(ref[0]))[:10], workers=workers, **what)
                    diff = [p for p in c if p in ref[0] and not (same_arrays(c[p], ref[0][p]) if p.endswith(".npz") else c[p] == ref[0][p])]
                    chk.expect(not diff, "other results come out with several workers than with one", diff=diff[:8], n=len(diff), workers=workers, **what)
                    chk.expect(got == ref[1], "other image pairs come out with several workers than with one", got=str(got)[:300], want=str(ref[1])[:300], workers=workers, **what)
                chk.count("pipelines")
            shutil.rmtree(root, ignore_errors=True)
        # a failure within a step
        if images and rng.random() < 0.6:
            fail = (str(rng.choice(["load_image", "save_features", "load_features", "save_undistorted_image"])), str(rng.choice(images)))
            workers = int(rng.choice([1, 2, 4]))
            where, state, got, root, D = go(workers, fail)
            if state == "hang":
                return
            reached = any(e[:2] == fail for e in D.log.events)
            if reached:
                chk.expect(state == "error" and isinstance(got, Failure) and got.args == fail, "the failure of an image isn't reported by the step", fail=fail, got=repr((where, state, got))[:300],
                           workers=workers, **what)
                chk.count("failing steps")
            shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(kept, ignore_errors=True)


def run(chk):
    import logging

    logging.disable(logging.CRITICAL)
    seen = set()
    maps(chk, seen)
    queues(chk, seen)
    pipeline(chk, seen)
    chk.count("orders of completion", len(seen))
