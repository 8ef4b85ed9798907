"""C11: everything stored in a dataset is read back unchanged."""
import gzip
import io as pyio
import json
import os
import pickle
import subprocess
import sys

import numpy as np

import dsgen
import gen
from checks.c09 import expect_same, rand_obs, rand_pose, rand_rec, snap_camera, snap_obs, snap_pose, snap_rec
from checks.c10 import without_errors

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pymap", "pygeometry"]
REQUIRED = ["artifacts saved", "artifacts read back later", "existence queries", "datasets reopened", "old feature files read",
            "input images read", "references judged", "undistorted masks judged", "subsets", "saves under another locale"]
RULE = ("one case = one artifact saved in a dataset that holds others (or one input file, old format or subset); everything saved so far is "
        "read back after it, from the same and from a reopened dataset; non-trivial always")
ASSUMPTIONS = ["features are stored in single precision and with the descriptor type of their kind, colors are read back as floats",
               "the pruned point cloud text file keeps four decimals of the position and three of the normal",
               "feature depths and the structure of segmentation labels are not stored (as documented in features.py)"]
IMAGES = ["a.jpg", "ïmage 2.png", "IMG (3).JPEG", "d.tif"]


def arr(rng, shape, dtype):
    if np.dtype(dtype).kind == "u":
        return rng.integers(0, np.iinfo(dtype).max, shape, endpoint=True).astype(dtype)
    if np.dtype(dtype).kind == "i":
        return rng.integers(-99, 99, shape).astype(dtype)
    return (rng.normal(size=shape) * 10.0 ** rng.uniform(-3, 3)).astype(dtype)


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def text(rng):
    return str(rng.choice(["", "plain", "ünï\ncode 日本", "x" * 300, '{"a": 1}']))


def tracks(rng):
    from opensfm import pymap

    t = pymap.TracksManager()
    for i in range(int(rng.integers(0, 5))):
        for s in IMAGES:
            if rng.random() < 0.5:
                o = rand_obs(rng, i)
                o.depth_prior = None
                t.add_observation(s, "track %d" % i, o)
    return t


def snap_tracks(t):
    return {(s, k): snap_obs(o) for k in t.get_track_ids() for s, o in t.get_track_observations(k).items()}


class Artifact:
    """One thing a dataset stores: how to make, save, load and compare it."""

    def __init__(self, name, make, save, load, same, exists=None):
        self.name, self.make, self.save, self.load, self.same, self.exists = name, make, save, load, same, exists


def features_artifact(image, config):
    from opensfm import features

    ftype, uchar, akaze = config["feature_type"].upper(), config["hahog_normalize_to_uchar"], config["akaze_descriptor"]
    is_uchar = ftype == "ORB" or (ftype == "HAHOG" and uchar) or (ftype == "AKAZE" and akaze.startswith("MLDB"))

    def make(rng):
        n = int(rng.choice([0, 1, 2, 30], p=[0.1, 0.2, 0.2, 0.5]))
        desc = arr(rng, (n, 16), np.uint8) if is_uchar else arr(rng, (n, 16), np.float32)
        if is_uchar and rng.random() < 0.5:
            desc = desc.astype(np.float32)
        sem = None
        if rng.random() < 0.5 and n:
            inst = arr(rng, (n,), np.int16) if rng.random() < 0.5 else None
            labels = [{"id": 1, "name": "sky"}] if rng.random() < 0.5 else []
            sem = (arr(rng, (n,), np.uint8), inst, labels)
        return {"points": arr(rng, (n, 4), np.float32), "desc": desc, "colors": arr(rng, (n, 3), np.uint8), "sem": sem}

    def save(d, v):
        sem = features.SemanticData(*v["sem"]) if v["sem"] else None
        d.save_features(image, features.FeaturesData(v["points"].copy(), v["desc"].copy(), v["colors"].copy(), sem))

    def same(g, v):
        ok = eq(g.points, v["points"]) and eq(g.descriptors, v["desc"]) and eq(g.colors, v["colors"])
        if ftype == "HAHOG" and uchar:
            ok = ok and g.descriptors.dtype == np.float32
        elif is_uchar:
            ok = ok and g.descriptors.dtype == np.uint8
        if v["sem"] is None:
            return ok and g.semantic is None
        if g.semantic is None or not eq(g.semantic.segmentation, v["sem"][0]):
            return False
        if v["sem"][1] is None:
            return ok and not g.semantic.has_instances()
        return ok and g.semantic.has_instances() and eq(g.semantic.instances, v["sem"][1])

    return Artifact("features of " + image, make, save, lambda d: d.load_features(image), same, lambda d: d.features_exist(image))


def artifacts(config):
    from opensfm import geo, pymap

    out = []
    add = lambda *a: out.append(Artifact(*a))  # noqa: E731

    def cams(rng):
        return {"cam %d ñ" % i: gen.make_camera(gen.camera_params(rng, gen.MODELS[rng.integers(10)]), "cam %d ñ" % i) for i in range(int(rng.integers(0, 4)))}

    def same_cams(g, v):
        from checks.c09 import same
        return set(g) == set(v) and all(same(snap_camera(g[k]), snap_camera(v[k]), 1e-12) and g[k].id == k for k in v)

    for im in IMAGES:
        out.append(features_artifact(im, config))
        add("words of " + im, lambda r: (r.integers(0, r.choice([5, 70000]), (int(r.integers(0, 9)), int(r.integers(1, 6))))).astype(np.int32),
            lambda d, v, im=im: d.save_words(im, v.copy()), lambda d, im=im: d.load_words(im), eq, lambda d, im=im: d.words_exist(im))

        def matches(r, im=im):
            return {o: arr(r, (int(r.choice([0, 1, 20])), 2), np.int64).astype(r.choice([np.int32, np.int64, np.uint32]))
                    for o in IMAGES if o != im and r.random() < 0.6}

        add("matches of " + im, matches, lambda d, v, im=im: d.save_matches(im, v), lambda d, im=im: d.load_matches(im),
            lambda g, v: set(g) == set(v) and all(eq(g[k], v[k]) and np.asarray(g[k]).dtype == v[k].dtype for k in v), lambda d, im=im: d.matches_exists(im))
        add("exif of " + im, lambda r: {"width": int(r.integers(1, 9999)), "make": text(r), "gps": {"latitude": float(r.normal())}, "none": None,
                                        "list": [1, 2.5, "ß"]},
            lambda d, v, im=im: d.save_exif(im, v), lambda d, im=im: d.load_exif(im), lambda g, v: g == v, lambda d, im=im: d.exif_exists(im))

        def depth(r):
            h, w = int(r.integers(1, 6)), int(r.integers(1, 6))
            return arr(r, (h, w), np.float32), arr(r, (h, w, 3), np.float32), arr(r, (h, w), np.float32), arr(r, (h, w), np.uint8)

        add("raw depth map of " + im, lambda r: depth(r) + ([IMAGES[1], IMAGES[0]][: int(r.integers(0, 3))],),
            lambda d, v, im=im: d.undistorted_dataset().save_raw_depthmap(im, *v), lambda d, im=im: d.undistorted_dataset().load_raw_depthmap(im),
            lambda g, v: all(eq(a, b) and a.dtype == b.dtype for a, b in zip(g[:4], v[:4])) and list(g[4]) == v[4],
            lambda d, im=im: d.undistorted_dataset().raw_depthmap_exists(im))
        add("clean depth map of " + im, lambda r: depth(r)[:3],
            lambda d, v, im=im: d.undistorted_dataset().save_clean_depthmap(im, *v), lambda d, im=im: d.undistorted_dataset().load_clean_depthmap(im),
            lambda g, v: len(g) == 3 and all(eq(a, b) for a, b in zip(g, v)), lambda d, im=im: d.undistorted_dataset().clean_depthmap_exists(im))

        def cloud(r):
            n = int(r.integers(0, 6))
            return arr(r, (n, 3), np.float32), arr(r, (n, 3), np.float32), arr(r, (n, 3), np.uint8), arr(r, (n,), np.uint8)

        add("pruned depth map of " + im, cloud,
            lambda d, v, im=im: d.undistorted_dataset().save_pruned_depthmap(im, *v), lambda d, im=im: d.undistorted_dataset().load_pruned_depthmap(im),
            lambda g, v: len(g) == 4 and all(eq(a, b) for a, b in zip(g, v)), lambda d, im=im: d.undistorted_dataset().pruned_depthmap_exists(im))

        def save_checked(saver, what):
            def save(d, v):
                w = v.copy()
                saver(d, w)
                if not eq(w, v):
                    raise AssertionError("%s changed the array it was given" % what)
            return save

        lossy = im.lower().endswith(("jpg", "jpeg"))

        def photo(r, lossy=lossy):
            if lossy:  # smooth, so that compression hardly changes it
                return np.broadcast_to(arr(r, (1, 1, 3), np.uint8), (16, 24, 3)).copy()
            return arr(r, (int(r.integers(1, 9)), int(r.integers(1, 9)), 3), np.uint8)

        add("undistorted image of " + im, photo, save_checked(lambda d, v, im=im: d.undistorted_dataset().save_undistorted_image(im, v), "saving an image"),
            lambda d, im=im: d.undistorted_dataset().load_undistorted_image(im),
            (lambda g, v: g.shape == v.shape and np.abs(g.astype(int) - v).max() <= 6) if lossy else eq)
        gray = lambda r: arr(r, (int(r.integers(1, 9)), int(r.integers(1, 9))), np.uint8)  # noqa: E731
        add("undistorted mask of " + im, gray, save_checked(lambda d, v, im=im: d.undistorted_dataset().save_undistorted_mask(im, v), "saving a mask"),
            lambda d, im=im: d.undistorted_dataset().load_undistorted_mask(im), eq, lambda d, im=im: d.undistorted_dataset().undistorted_mask_exists(im))
        add("undistorted segmentation of " + im, gray,
            save_checked(lambda d, v, im=im: d.undistorted_dataset().save_undistorted_segmentation(im, v), "saving a segmentation"),
            lambda d, im=im: d.undistorted_dataset().load_undistorted_segmentation(im), eq,
            lambda d, im=im: d.undistorted_dataset().undistorted_segmentation_exists(im))

    add("camera models", cams, lambda d, v: d.save_camera_models(v), lambda d: d.load_camera_models(), same_cams)
    add("camera model overrides", cams, lambda d, v: d.save_camera_models_overrides(v), lambda d: d.load_camera_models_overrides(), same_cams,
        lambda d: d.camera_models_overrides_exists())
    add("exif overrides", lambda r: {im: {"orientation": int(r.integers(9)), "é": text(r)} for im in IMAGES if r.random() < 0.5},
        lambda d, v: d.save_exif_overrides(v), lambda d: d.load_exif_overrides(), lambda g, v: g == v, lambda d: d.exif_overrides_exists())
    add("reference", lambda r: [float(x) for x in (r.uniform(-90, 90), r.uniform(-180, 180), r.normal() * 100)],
        lambda d, v: d.save_reference(geo.TopocentricConverter(*v)), lambda d: d.load_reference(),
        lambda g, v: [g.lat, g.lon, g.alt] == v, lambda d: d.reference_exists())
    add("rig assignments", lambda r: {"rig %d ö" % i: [[IMAGES[j], "rc%d" % j] for j in range(int(r.integers(0, 4)))] for i in range(int(r.integers(0, 3)))},
        lambda d, v: d.save_rig_assignments({k: [tuple(x) for x in w] for k, w in v.items()}), lambda d: d.load_rig_assignments(),
        lambda g, v: {k: [list(x) for x in w] for k, w in g.items()} == v)
    for name in (None, "tracks-ü.csv"):
        add("tracks in %s" % name, tracks, lambda d, v, name=name: d.save_tracks_manager(v, name), lambda d, name=name: d.load_tracks_manager(name),
            lambda g, v: same_tracks(g, v), lambda d, name=name: d.tracks_exists(name))
        add("reconstruction in %s" % name, lambda r: [rand_rec(r) for _ in range(int(r.integers(0, 3)))],
            lambda d, v, name=name: d.save_reconstruction(v, name and name + ".json", bool(len(v) % 2)),
            lambda d, name=name: d.load_reconstruction(name and name + ".json"),
            lambda g, v: same_recs(g, v), lambda d, name=name: d.reconstruction_exists(name and name + ".json"))
    for name in ("a.json", "sub/b ü.json"):
        add("report " + name, text, lambda d, v, name=name: d.save_report(v, name), lambda d, name=name: d.load_report(name), lambda g, v: g == v)
    add("undistorted shot ids", lambda r: {im: [im + "_%s" % k for k in "ab"[: int(r.integers(0, 3))]] for im in IMAGES},
        lambda d, v: d.undistorted_dataset().save_undistorted_shot_ids(v), lambda d: d.undistorted_dataset().load_undistorted_shot_ids(), lambda g, v: g == v)
    add("undistorted tracks", tracks, lambda d, v: d.undistorted_dataset().save_undistorted_tracks_manager(v),
        lambda d: d.undistorted_dataset().load_undistorted_tracks_manager(), lambda g, v: same_tracks(g, v))
    add("undistorted reconstruction", lambda r: [rand_rec(r)], lambda d, v: d.undistorted_dataset().save_undistorted_reconstruction(v),
        lambda d: d.undistorted_dataset().load_undistorted_reconstruction(), lambda g, v: same_recs(g, v))

    def pc(r):
        n = int(r.integers(0, 6))
        return arr(r, (n, 3), np.float32), arr(r, (n, 3), np.float32), arr(r, (n, 3), np.uint8), arr(r, (n,), np.uint8)

    for name in ("merged.ply", "other.ply"):
        add("point cloud " + name, pc, lambda d, v, name=name: (d.undistorted_dataset().save_point_cloud(*v, filename=name)),
            lambda d, name=name: d.undistorted_dataset().load_point_cloud(name),
            lambda g, v: g[0].shape == v[0].shape and np.allclose(g[0], v[0], rtol=2e-7, atol=6e-5) and np.allclose(g[1], v[1], rtol=2e-7, atol=6e-4)
            and eq(g[2], v[2]) and eq(g[3], v[3]))

    def gcps(r):
        pts = []
        for i in range(int(r.integers(0, 4))):
            p = pymap.GroundControlPoint()
            p.id = "gcp %d é" % i
            p.lla = {"latitude": float(r.uniform(-90, 90)), "longitude": float(r.uniform(-180, 180)), "altitude": float(r.normal())}
            p.has_altitude = True
            obs = []
            for im in IMAGES[: int(r.integers(0, 4))]:
                o = pymap.GroundControlPointObservation()
                o.shot_id, o.projection = im, r.normal(size=2)
                obs.append(o)
            for o in obs:
                p.add_observation(o)
            pts.append(p)
        return pts

    return out


def same_tracks(g, v):
    a, b = snap_tracks(g), snap_tracks(v)
    return set(a) == set(b) and all(np.allclose(a[k][0], b[k][0], rtol=1e-5, atol=1e-12) and a[k][2:] == b[k][2:] for k in b)


def same_recs(g, v):
    from checks.c09 import same

    return len(g) == len(v) and all(same(without_errors(snap_rec(a, False)), without_errors(snap_rec(b, False)), 1e-9) for a, b in zip(g, v))


CONFIGS = [{"feature_type": f, "hahog_normalize_to_uchar": u, "akaze_descriptor": a} for f in ("SIFT", "HAHOG", "AKAZE", "ORB", "hahog", "akaze", "orb")
           for u in (True, False) for a in ("MSURF", "MLDB", "MLDB_UPRIGHT")]


def history(chk, rng, i, steps):
    from opensfm import dataset

    config = dict(CONFIGS[rng.integers(len(CONFIGS))])
    root = os.path.join(chk.tmp, "h%d ü" % i)
    data = dsgen.make_dataset(root, IMAGES, config)
    arts = artifacts(config)
    held = {}
    log = []
    rig_cams, profile = {}, ""
    base = {}
    for p, _, fs in os.walk(root):
        for f in fs:
            base[os.path.join(p, f)] = open(os.path.join(p, f), "rb").read()

    def verify(a, when):
        ok, g = chk.guard(lambda: a.load(data), "loading the %s %s" % (a.name, when))
        if ok:
            chk.count("artifacts read back later")
            chk.expect(a.same(g, held[a.name]), "the %s read back differ %s" % (a.name, when), last_saved=log[-1])

    for step in range(steps):
        a = arts[rng.integers(len(arts))]
        value = a.make(rng)
        log.append(a.name)
        chk.case("save " + a.name.split(" of ")[0].split(" in ")[0], {"config": config, "artifact": a.name, "held": len(held)}, sig=(chk.shard, i, step))
        ok, _ = chk.guard(lambda: a.save(data, value), "saving the " + a.name)
        if not ok:
            continue
        chk.count("artifacts saved")
        held[a.name] = value
        verify(a, "just after saving")
        for b in arts:
            if b.exists:
                chk.count("existence queries")
                chk.expect(bool(b.exists(data)) == (b.name in held), "existence of the %s" % b.name, saved=b.name in held, last_saved=log[-1])
        if rng.random() < 0.1:
            rig_cams = {"rïg %d" % j: rand_pose(rng) for j in range(int(rng.integers(0, 3)))}
            from opensfm import pymap
            data.save_rig_cameras({k: pymap.RigCamera(p, k) for k, p in rig_cams.items()})
            if "camera models" in held:
                got = data.load_rig_cameras()
                want = {k: snap_pose(p) for k, p in rig_cams.items()}
                from opensfm import pygeometry
                for c in held["camera models"]:
                    want.setdefault(c, snap_pose(pygeometry.Pose()))
                expect_same(chk, {k: snap_pose(r.pose) for k, r in got.items()}, want, "rig cameras with the defaults of the camera models", tol=1e-9)
        if rng.random() < 0.1:
            t = text(rng)
            data.append_to_profile_log(t)
            profile += t
            chk.expect(open(os.path.join(root, "profile.log"), encoding="utf-8").read() == profile, "profile log")
        if rng.random() < 0.15:
            data = dataset.DataSet(root)
            chk.count("datasets reopened")
            chk.expect(sorted(data.images()) == sorted(IMAGES), "images of a reopened dataset")
        for b in arts:
            if b.name in held and rng.random() < 0.25:
                verify(b, "after saving others")
        # matches are found from either side
        if rng.random() < 0.3:
            a1, a2 = rng.choice(len(IMAGES), 2, replace=False)
            im1, im2 = IMAGES[a1], IMAGES[a2]
            m1, m2 = held.get("matches of " + im1, {}), held.get("matches of " + im2, {})
            want = m1[im2] if im2 in m1 else m2[im1][:, ::-1] if im1 in m2 else np.zeros((0, 2))
            ok, got = chk.guard(lambda: data.find_matches(im1, im2), "matches of a pair")
            if ok:
                chk.expect(len(got) == len(want) and (len(want) == 0 or eq(got, want)), "matches found for a pair", pair=(im1, im2))
    data = dataset.DataSet(root)
    for b in arts:
        if b.name in held:
            verify(b, "from a reopened dataset")
    for p, c in base.items():
        chk.expect(open(p, "rb").read() == c, "saving artifacts changed an input file", file=p)
    import shutil
    shutil.rmtree(root)


def old_features(chk, rng, i):
    """Files of versions 0, 1 and 2, under their old name or the current one."""
    from opensfm import features

    config = dict(CONFIGS[rng.integers(len(CONFIGS))], reprojection_error_sd=0.004)
    root = os.path.join(chk.tmp, "old")
    data = dsgen.make_dataset(root, IMAGES[:1], config)
    v = int(rng.integers(0, 3))
    n = int(rng.integers(1, 9))
    legacy = bool(rng.random() < 0.5)
    chk.case("old feature file", {"version": v, "legacy name": legacy, "config": config}, sig=(chk.shard, i))
    d = {"points": arr(rng, (n, 4), np.float32), "descriptors": arr(rng, (n, 8), np.uint8), "colors": arr(rng, (n, 3), np.uint8)}
    want = d["points"].copy()
    if v == 0:
        want[:, 2] = 0.004
    else:
        d["OPENSFM_FEATURES_VERSION"] = v
    if v == 2:
        d.update(segmentations=arr(rng, (n,), np.uint8), instances=arr(rng, (n,), np.int16), segmentation_labels=np.array(["a"]))
    os.makedirs(os.path.join(root, "features"), exist_ok=True)
    path = os.path.join(root, "features", "a.jpg" + (".npz" if legacy else ".features.npz"))
    np.savez_compressed(path, **d)
    chk.expect(data.features_exist("a.jpg"), "an old feature file is not seen")
    ok, f = chk.guard(lambda: data.load_features("a.jpg"), "loading features of version %d" % v)
    if ok:
        chk.count("old feature files read")
        chk.expect(eq(f.points, want) and eq(f.descriptors, d["descriptors"]) and eq(f.colors, d["colors"]), "features of version %d" % v,
                   got=f.points, expected=want)
        if v == 2:
            chk.expect(f.semantic is not None and eq(f.semantic.segmentation, d["segmentations"]) and eq(f.semantic.instances, d["instances"]),
                       "segmentation of a version 2 file")
    # features saved now are the ones loaded from now on
    g = features.FeaturesData(want[:1] * 2, d["descriptors"][:1].astype(np.float32), d["colors"][:1], None)
    data.save_features("a.jpg", g)
    ok, f = chk.guard(lambda: data.load_features("a.jpg"), "loading features saved over an old file")
    if ok:
        chk.expect(eq(f.points, want[:1] * 2), "features saved over an old file are not the ones loaded", legacy=legacy, version=v)
    import shutil
    shutil.rmtree(root)


def inputs(chk, rng, i):
    """Images, masks, instances and segmentations a user put in the dataset."""
    import cv2
    from opensfm import dataset

    root = os.path.join(chk.tmp, "in %d" % i)
    listed = bool(rng.random() < 0.4)
    sub = "elsewhere" if listed else "images"
    w, h = int(rng.integers(3, 20)), int(rng.integers(3, 20))
    names = ["p.png", "q ü.png", str(rng.choice(["r.tif", "R.TIFF", "r.tiff", "R.Tif"]))]
    if rng.random() < 0.5:
        names[0] = "P1.PNG"
    os.makedirs(os.path.join(root, sub))
    pix = {}

    def put(path, a):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        b = a[:, :, ::-1] if a.ndim == 3 else a
        open(path, "wb").write(cv2.imencode(os.path.splitext(path)[1], np.ascontiguousarray(b))[1].tobytes())

    for n in names:
        pix[n] = arr(rng, (h, w, 3), np.uint8)
        put(os.path.join(root, sub, n), pix[n])
    open(os.path.join(root, sub, "notes.txt"), "w").write("not an image")
    if listed:
        open(os.path.join(root, "image_list.txt"), "w", encoding="utf-8").write("\n".join(os.path.join(sub, n) for n in names) + "\n")
    masks, inst, seg = {}, {}, {}
    mask_list = bool(rng.random() < 0.3)
    lines = []
    for n in names:
        if rng.random() < 0.6:
            masks[n] = arr(rng, (h, w), np.uint8)
            p = os.path.join(root, "elsewhere masks" if mask_list else "masks", n + ".png")
            if mask_list and rng.random() < 0.7:
                p = os.path.join(root, "elsewhere masks", "mask of %d.png" % len(lines))
            put(p, masks[n])
            lines.append("%s  %s" % (n, os.path.relpath(p, root)))
        if rng.random() < 0.6:
            inst[n] = arr(rng, (h, w), np.uint8)
            put(os.path.join(root, "instances", n + ".png"), inst[n])
        if rng.random() < 0.6:
            seg[n] = arr(rng, (h, w), np.uint8)
            put(os.path.join(root, "segmentations", n + ".png"), seg[n])
    if mask_list:
        lines = [l for l in lines if " ü" not in l]
        masks = {k: m for k, m in masks.items() if " ü" not in k}
        open(os.path.join(root, "mask_list.txt"), "w").write("\n".join(lines))
    chk.case("input files", {"size": [w, h], "image list": listed, "mask list": mask_list, "masks": len(masks)}, sig=(chk.shard, i))
    ok, data = chk.guard(lambda: dataset.DataSet(root), "opening a dataset")
    if not ok:
        return
    chk.expect(sorted(data.images()) == sorted(names), "images of a dataset", got=data.images())
    for n in names:
        chk.count("input images read")
        ok, g = chk.guard(lambda: data.load_image(n), "loading an image")
        if ok:
            chk.expect(eq(g, pix[n]), "pixels of an image")
        chk.expect(tuple(data.image_size(n)) == (h, w), "size of an image")
        chk.expect(data.load_image(n, grayscale=True).shape == (h, w), "gray image")
        with data.open_image_file(n) as f:
            chk.expect(f.read() == open(os.path.join(root, sub, n), "rb").read(), "bytes of an image")
        for what, store, load in (("mask", masks, data.load_mask), ("instances", inst, data.load_instances), ("segmentation", seg, data.load_segmentation)):
            ok, g = chk.guard(lambda: load(n), "loading a " + what)
            if ok:
                chk.expect(g is None if n not in store else eq(g, store[n]), "%s of an image" % what, present=n in store)
    undistorted_masks(chk, rng, data, names)
    reference(chk, rng, data, root, names)
    subset(chk, rng, data, root, names, pix, masks, seg, i)
    import shutil
    shutil.rmtree(root)


def undistorted_masks(chk, rng, data, names):
    """What depth estimation leaves out: the undistorted mask and the ignored labels."""
    keep = dict(data.config)
    ignore = [int(v) for v in rng.integers(0, 4, int(rng.integers(0, 3)))]
    uignore = None if rng.random() < 0.5 else [int(v) for v in rng.integers(0, 4, int(rng.integers(0, 3)))]
    data.config["segmentation_ignore_values"] = ignore
    if uignore is not None:
        data.config["undistorted_segmentation_ignore_values"] = uignore
    try:
        chk.expect(list(data.segmentation_ignore_values(names[0])) == ignore, "labels to ignore")
        used = ignore if uignore is None else uignore
        u = data.undistorted_dataset()
        for n in names[:2]:
            shape = (int(rng.integers(2, 9)), int(rng.integers(2, 9)))
            m = rng.choice([0, 1, 100, 255], shape).astype(np.uint8) if rng.random() < 0.6 else None
            g = rng.integers(0, 4, shape).astype(np.uint8) if rng.random() < 0.6 else None
            if m is not None:
                u.save_undistorted_mask(n, m)
            if g is not None:
                u.save_undistorted_segmentation(n, g)
            want = None
            if m is not None:
                want = m != 0
            if g is not None and used:
                fine = ~np.isin(g, used)
                want = fine if want is None else want & fine
            ok, got = chk.guard(lambda: u.load_undistorted_combined_mask(n), "loading the mask of an undistorted image")
            if ok:
                chk.expect((got is None) == (want is None) and (want is None or np.array_equal(np.array(got) != 0, want)), "mask of an undistorted image", ignored=used, mask=m is not None, segmentation=g is not None)
                chk.count("undistorted masks judged")
    finally:
        data.config.clear()
        data.config.update(keep)


def reference(chk, rng, data, root, names):
    """The origin of a dataset: the weighted average of the measured positions of its images, or of its control points."""
    from opensfm import dataset, pymap

    lat, lon = float(rng.uniform(-70, 70)), float(rng.uniform(-170, 170))
    rows, have = [], rng.random() < 0.6
    for n in names:
        e = {"width": 10, "height": 10, "camera": "c", "orientation": 1}
        if have and rng.random() < 0.8:
            g = {"latitude": lat + float(rng.uniform(-1e-2, 1e-2)), "longitude": lon + float(rng.uniform(-1e-2, 1e-2))}
            if rng.random() < 0.6:
                g["dop"] = float(rng.choice([0.0, 1e-3, 0.05, 0.5, 3.0, 40.0]))
            if rng.random() < 0.5:
                g["altitude"] = float(rng.uniform(-100, 3000))
            e["gps"] = g
            rows.append((n, g["latitude"], g["longitude"], 1 / max(0.01, g.get("dop", 15))))
        elif rng.random() < 0.3:
            e["gps"] = {"altitude": 3.0}
        data.save_exif(n, e)
    gcps = []
    for k in range(int(rng.integers(0, 4))):
        p = pymap.GroundControlPoint()
        p.id = "g%d" % k
        if rng.random() < 0.8:
            p.lla = {"latitude": lat + float(rng.uniform(-1e-2, 1e-2)), "longitude": lon + float(rng.uniform(-1e-2, 1e-2)), "altitude": 7.0}
        gcps.append(p)
    data.save_ground_control_points(gcps)
    some = None if rng.random() < 0.6 else [n for n in names if rng.random() < 0.6]
    used = [r for r in rows if some is None or r[0] in some]
    if used:
        w = sum(r[3] for r in used)
        want = [sum(r[1] * r[3] for r in used) / w, sum(r[2] * r[3] for r in used) / w]
    else:
        q = [p.lla for p in gcps if p.lla]
        want = [float(np.mean([v["latitude"] for v in q])), float(np.mean([v["longitude"] for v in q]))] if q else [0.0, 0.0]
    chk.expect(not data.reference_exists(), "a reference before there is one")
    ok, _ = chk.guard(lambda: data.init_reference(some), "initializing the reference")
    if ok:
        r = dataset.DataSet(root).load_reference()
        chk.close([r.lat, r.lon, r.alt], want + [0.0], 1e-9, "reference of a dataset", images=len(used), points=len(gcps))
        chk.count("references judged")
        for n in names:
            data.save_exif(n, {"width": 10, "height": 10, "camera": "c", "orientation": 1, "gps": {"latitude": 0.0, "longitude": 0.0}})
        data.init_reference(some)
        r = data.load_reference()
        chk.close([r.lat, r.lon, r.alt], want + [0.0], 1e-9, "reference of a dataset which has one already")


def subset(chk, rng, data, root, names, pix, masks, seg, i):
    from opensfm import dataset

    k = int(rng.integers(1, len(names) + 1))
    chosen = [names[j] for j in rng.permutation(len(names))[:k]]
    cams = {"c": gen.make_camera(gen.camera_params(rng, "brown"), "c")}
    data.save_camera_models(cams)
    over = {chosen[0]: {"orientation": 3}}
    data.save_exif_overrides(over)
    relative = bool(i % 2)
    cwd = os.getcwd()
    try:
        if relative:
            os.chdir(os.path.dirname(root))
            data = dataset.DataSet(os.path.basename(root))
        for again in range(2):
            ok, s = chk.guard(lambda: data.subset("sub set", chosen), "making a subset")
            if not ok:
                return
            chk.count("subsets")
            chk.expect(sorted(s.images()) == sorted(chosen), "images of a subset", got=s.images(), relative=relative)
            for n in chosen:
                ok, g = chk.guard(lambda: s.load_image(n), "loading an image of a subset", relative=relative)
                chk.expect(not ok or eq(g, pix[n]), "pixels of an image of a subset")
                ok, g = chk.guard(lambda: s.load_mask(n), "loading a mask of a subset")
                chk.expect(not ok or (g is None if n not in masks else eq(g, masks[n])), "mask of an image of a subset")
                ok, g = chk.guard(lambda: s.load_segmentation(n), "loading a segmentation of a subset")
                chk.expect(not ok or (g is None if n not in seg else eq(g, seg[n])), "segmentation of an image of a subset")
            ok, g = chk.guard(lambda: s.load_camera_models(), "camera models of a subset")
            chk.expect(not ok or set(g) == {"c"}, "camera models of a subset")
            ok, g = chk.guard(lambda: s.load_exif_overrides(), "exif overrides of a subset")
            chk.expect(not ok or g == over, "exif overrides of a subset")
            # what the subset stores stays in the subset
            s.save_camera_models({"other": gen.make_camera(gen.camera_params(rng, "radial"), "other")})
            s.save_exif_overrides({})
            s.save_camera_models_overrides({})
            chk.expect(set(data.load_camera_models()) == {"c"}, "saving the camera models of a subset changed those of the dataset")
            chk.expect(data.load_exif_overrides() == over, "saving the exif overrides of a subset changed those of the dataset")
            chk.expect(not data.camera_models_overrides_exists(), "saving overrides in a subset created them in the dataset")
    finally:
        os.chdir(cwd)


LOCALE = r"""
import sys
sys.path[:0] = [%r]
import osfm_loader, vbuild
osfm_loader.install(vbuild.moddir("rel"))
from opensfm import dataset, pymap
d = dataset.DataSet(sys.argv[1])
NAME = "\u65e5\u672c \u00fc"
if sys.argv[2] == "save":
    d.save_exif("a.jpg", {"make": NAME})
    d.save_rig_assignments({NAME: [("a.jpg", "cam")]})
    d.save_report(NAME, "r.json")
    d.append_to_profile_log(NAME)
    t = pymap.TracksManager()
    t.add_observation("a.jpg", NAME, pymap.Observation(0.1, 0.2, 0.3, 1, 2, 3, 4))
    d.save_tracks_manager(t)
else:
    assert d.load_exif("a.jpg") == {"make": NAME}, "exif"
    assert list(d.load_rig_assignments()) == [NAME], "rig assignments"
    assert d.load_report("r.json") == NAME, "report"
    assert d.load_tracks_manager().get_track_ids() == [NAME], "tracks"
print("fine")
"""


def locales(chk):
    """A dataset written in one environment is read back in another."""
    import vf

    envs = {"C": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "UTF-8": {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"}}
    for a in envs:
        for b in envs:
            root = os.path.join(chk.tmp, "locale%s%s" % (a, b))
            dsgen.make_dataset(root, ["a.jpg"])
            chk.case("locales", {"saved under": a, "loaded under": b})
            for what, env in (("save", envs[a]), ("load", envs[b])):
                p = subprocess.run([vf.PY, "-c", LOCALE % os.path.join(vf.VERIF, "lib"), root, what], env=dict(os.environ, **env),
                                   capture_output=True, text=True, errors="replace", encoding="utf-8")
                chk.count("saves under another locale")
                chk.expect(p.stdout.strip() == "fine", "%s with non-ASCII names, saved under %s and loaded under %s" % (what, a, b),
                           output=p.stderr[-800:])


def run(chk):
    if chk.shard == 0:
        locales(chk)
    rng = chk.rng_for("histories")
    for i in range(chk.n(40, 600)):
        history(chk, rng, i, 40)
    rng = chk.rng_for("old")
    for i in range(chk.n(150, 2000)):
        old_features(chk, rng, i)
    rng = chk.rng_for("inputs")
    for i in range(chk.n(150, 2000)):
        inputs(chk, rng, i)
