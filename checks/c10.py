"""C10: reconstructions survive a save and load."""
import json
import os

import numpy as np

import dsgen
import gen
from checks.c09 import expect_same, rand_meta, rand_pose, rand_rec, snap_camera, snap_meta, snap_pose, snap_rec, snap_shot

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pymap"]
REQUIRED = ["documents loaded back", "documents saved again", "documents compared to the format", "hand-written documents loaded",
            "camera vectors", "panoramic shots saved", "rig instances saved", "points saved", "metadata fields saved"]
RULE = ("one case = one list of reconstructions, camera or hand-written document taken through save and load; the saved text is compared "
        "to an independent reading of the documented format and the loaded objects to the originals; non-trivial always")
ASSUMPTIONS = ["observations and reprojection errors live in the tracks file, not in the reconstruction document",
               "numbers are compared with a relative tolerance of 1e-9 (rotations are stored as angle-axis vectors)"]
TOL = 1e-9


def strict(text):
    def bad(x):
        raise ValueError("not JSON: %s" % x)

    return json.loads(text, parse_constant=bad)


def vec(x):
    return np.array(x, dtype=float)


def doc_pose(chk, obj, pose, what):
    chk.close(gen.rodrigues(vec(obj["rotation"])), pose["R"], TOL, what + " rotation in the document")
    chk.close(vec(obj["translation"]), pose["t"], TOL, what + " translation in the document", rel=True)
    chk.expect(np.linalg.norm(vec(obj["rotation"])) < np.pi + 1e-6, what + " rotation beyond half a turn")


def doc_camera(chk, obj, cam, what):
    """The document of a camera, against the camera itself."""
    p = {k.split(".")[-1]: v for k, v in cam["parameters"].items()}
    want = {"projection_type": cam["type"], "width": cam["w"], "height": cam["h"]}
    if cam["type"] in ("perspective", "fisheye", "dual"):
        want["focal"] = p["focal"]
    elif cam["type"] != "spherical":
        want.update(focal_x=p["focal"], focal_y=p["focal"] * p["aspect_ratio"],
                    c_x=p["cx"], c_y=p["cy"])
    for k, v in p.items():
        name = k
        if name.lower() in ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3", "transition"):
            want[name.lower()] = v
    ok = set(obj) == set(want) and all(
        obj[k] == v if isinstance(v, str) else abs(obj[k] - v) <= 1e-12 * (1 + abs(v)) for k, v in want.items())
    chk.expect(ok, what + " differs from the format", document=obj, expected=want)


DOC_META = {"capture_time": "capture_time", "gps_accuracy": "gps_dop", "gps_position": "gps_position", "gravity_down": "gravity_down",
            "orientation": "orientation", "sequence_key": "skey"}


def doc_shot(chk, obj, s, what):
    doc_pose(chk, obj, s["pose"], what)
    chk.expect(obj["camera"] == s["camera"]["id"], what + " camera")
    meta = s["meta"]
    for f, key in DOC_META.items():
        if meta[f] is None:
            chk.expect(obj.get(key) is None, what + ": a field that was not set is in the document", field=f)
        elif isinstance(meta[f], str):
            chk.expect(obj.get(key) == meta[f], what + ": " + f)
        else:
            chk.count("metadata fields saved")
            chk.close(vec(obj.get(key, np.nan)), vec(meta[f]), 1e-12, what + ": " + f, rel=True)


def doc_rec(chk, obj, snap):
    chk.count("documents compared to the format")
    chk.expect(set(obj["cameras"]) == set(snap["cameras"]), "cameras of the document")
    for k, c in snap["cameras"].items():
        if k in obj["cameras"]:
            doc_camera(chk, obj["cameras"][k], c, "camera")
    chk.expect(set(obj["shots"]) == set(snap["shots"]), "shots of the document")
    for k, s in snap["shots"].items():
        if k in obj["shots"]:
            doc_shot(chk, obj["shots"][k], s, "shot")
    chk.expect(set(obj.get("pano_shots", {})) == set(snap["panos"]), "panoramic shots of the document")
    for k, s in snap["panos"].items():
        chk.count("panoramic shots saved")
        if k in obj.get("pano_shots", {}):
            doc_shot(chk, obj["pano_shots"][k], s, "panoramic shot")
    chk.expect(set(obj["points"]) == set(snap["points"]), "points of the document")
    for k, p in snap["points"].items():
        chk.count("points saved")
        if k in obj["points"]:
            chk.close(vec(obj["points"][k]["coordinates"]), p["x"], 1e-12, "point in the document", rel=True)
            chk.expect(list(map(int, obj["points"][k]["color"])) == list(p["color"]), "color in the document")
    chk.expect(set(obj.get("rig_cameras", {})) == set(snap["rig cameras"]), "rig cameras of the document")
    for k, p in snap["rig cameras"].items():
        if k in obj.get("rig_cameras", {}):
            doc_pose(chk, obj["rig_cameras"][k], p, "rig camera")
    chk.expect(set(obj.get("rig_instances", {})) == set(snap["rig instances"]), "rig instances of the document")
    for k, r in snap["rig instances"].items():
        chk.count("rig instances saved")
        if k in obj.get("rig_instances", {}):
            doc_pose(chk, obj["rig_instances"][k], r["pose"], "rig instance")
            chk.expect(sorted(obj["rig_instances"][k]["rig_camera_ids"].items()) == r["members"], "members of a rig instance")
    ref = obj.get("reference_lla", {})
    chk.expect((ref.get("latitude"), ref.get("longitude"), ref.get("altitude")) == snap["reference"], "reference in the document",
               document=ref, expected=snap["reference"])


def same_doc(a, b, path=""):
    """First difference between two documents, up to rounding."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %s" % (path, sorted(set(a) ^ set(b)))
        for k in a:
            if k == "rotation":
                if np.abs(gen.rodrigues(vec(a[k])) - gen.rodrigues(vec(b[k]))).max() > TOL:
                    return "%s/rotation: %s against %s" % (path, a[k], b[k])
                continue
            d = same_doc(a[k], b[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length" % path
        for i, (x, y) in enumerate(zip(a, b)):
            d = same_doc(x, y, "%s/%d" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return None if abs(a - b) <= TOL * (1 + abs(b)) else "%s: %r against %r" % (path, a, b)
    return None if a == b else "%s: %r against %r" % (path, a, b)


def without_errors(snap):
    for p in snap["points"].values():
        p.pop("errors", None)
    for s in list(snap["shots"].values()) + list(snap["panos"].values()):
        flat_empty(s)
    return snap


def flat_empty(s):
    """The shape of an empty covariance or mesh says nothing."""
    for k in ("covariance", "faces", "vertices"):
        if s[k].size == 0:
            s[k] = None
    return s


NAMES = [None, "reconstruction.json", "other.json", "reconstruction.meshed.json", "réc ünïcode.json"]


def spice(rng, rec):
    """Values that are easy to lose: zeros, extremes, strange names, exact colors."""
    from opensfm import pygeometry

    for i in range(int(rng.integers(0, 3))):
        name = ["", "日本語", "a/b c.jpg", '"quoted"\\', "1e5", "\u2028"][rng.integers(6)]
        if name not in rec.points:
            p = rec.create_point(name, rng.normal(size=3) * 10.0 ** rng.uniform(-9, 9))
            p.color = np.array([[0, 0, 0], [255, 255, 255], [1, 128, 254]][rng.integers(3)])
    for i in range(int(rng.integers(0, 3))):
        name = ["", "日本語.jpg", "a/b c.jpg", '"quoted"\\', "1e5"][rng.integers(5)]
        if name not in rec.shots and name not in rec.rig_instances:
            angle = [0.0, 1e-9, np.pi, np.pi - 1e-7, np.pi / 2, 3.0][rng.integers(6)]
            axis = rng.normal(size=3)
            s = rec.create_shot(name, list(rec.cameras.keys())[0],
                                pygeometry.Pose(axis / np.linalg.norm(axis) * angle, rng.normal(size=3) * 10.0 ** rng.uniform(-6, 6)))
            if rng.random() < 0.5:
                m = s.metadata
                for f in ("capture_time", "gps_accuracy", "compass_angle", "compass_accuracy", "opk_accuracy"):
                    if rng.random() < 0.5:
                        getattr(m, f).value = 0.0
                if rng.random() < 0.5:
                    m.orientation.value = 0
                if rng.random() < 0.5:
                    m.sequence_key.value = ""
                if rng.random() < 0.5:
                    m.gps_position.value = np.zeros(3)
                if rng.random() < 0.5:
                    m.capture_time.value = 1700000000.123456
    return rec


def history(chk, rng, i, data):
    from opensfm import types

    k = [1, 1, 2, 3, 0][rng.integers(5)]
    recs = [spice(rng, rand_rec(rng)) if rng.random() < 0.95 else types.Reconstruction() for _ in range(k)]
    snaps = [without_errors(snap_rec(r, False)) for r in recs]
    name, minify = NAMES[rng.integers(len(NAMES))], bool(rng.random() < 0.5)
    chk.case("save and load", {"reconstructions": k, "file": name, "minify": minify,
                               "sizes": [[len(s["shots"]), len(s["panos"]), len(s["points"])] for s in snaps]}, sig=(chk.shard, i))
    where = ["", "undistorted"][int(i % 8 == 3)]
    if where:
        u = data.undistorted_dataset()
        ok, _ = chk.guard(lambda: u.save_undistorted_reconstruction(recs), "saving an undistorted reconstruction")
        path, minify = os.path.join(u.data_path, "reconstruction.json"), True
    else:
        chk.expect(data.reconstruction_exists(name) == os.path.exists(os.path.join(data.data_path, name or "reconstruction.json")), "existence")
        ok, _ = chk.guard(lambda: data.save_reconstruction(recs, name, minify), "saving a reconstruction")
        path = os.path.join(data.data_path, name or "reconstruction.json")
    if not ok:
        return
    text = open(path, encoding="utf-8").read()
    ok, doc = chk.guard(lambda: strict(text), "the saved file is JSON")
    if not ok:
        return
    chk.expect((("\n" in text) != minify) or k == 0, "indentation of the saved file", minify=minify)
    chk.expect(isinstance(doc, list) and len(doc) == k, "one document per reconstruction")
    for d, s in zip(doc, snaps):
        doc_rec(chk, d, s)
    ok, back = chk.guard((lambda: u.load_undistorted_reconstruction()) if where else (lambda: data.load_reconstruction(name)), "loading a saved reconstruction")
    if not ok:
        return
    chk.expect(len(back) == k, "reconstructions loaded back", got=len(back), expected=k)
    for b, s in zip(back, snaps):
        chk.count("documents loaded back")
        expect_same(chk, without_errors(snap_rec(b, False)), s, "loaded reconstruction", tol=TOL)
    for r, s in zip(recs, snaps):
        expect_same(chk, without_errors(snap_rec(r, False)), s, "reconstruction changed by saving it", tol=0)
    again = "again.json"
    data.save_reconstruction(back, again, not minify)
    doc2 = strict(open(os.path.join(data.data_path, again), encoding="utf-8").read())
    chk.count("documents saved again")
    d = same_doc(doc2, doc)
    chk.expect(d is None, "saving the loaded reconstruction gives another document: %s" % d)
    third = data.load_reconstruction(again)
    for b, s in zip(third, snaps):
        expect_same(chk, without_errors(snap_rec(b, False)), s, "reconstruction saved and loaded twice", tol=TOL)


# ------------------------------------------------- documents written by hand
def hand_camera(rng, i):
    model = gen.MODELS[i % len(gen.MODELS)]
    p = gen.camera_params(rng, model)
    d = {"projection_type": model, "width": p["width"], "height": p["height"]}
    if model == "spherical":
        d["projection_type"] = str(rng.choice(["spherical", "equirectangular"]))
        return d, p
    if model in gen.UNIFORM:
        d["focal"] = p["focal"]
    else:
        d.update(focal_x=p["focal"], focal_y=p["focal"] * p["aspect_ratio"], c_x=p["cx"], c_y=p["cy"])
    if model == "dual":
        d["transition"] = p["transition"]
    d.update(dict(zip(gen.DNAMES[model], p["distortion"])))
    if rng.random() < 0.3:  # optional coefficients default to zero
        for j, k in enumerate(gen.DNAMES[model]):
            if rng.random() < 0.5:
                d.pop(k)
                p["distortion"][j] = 0.0
        for k, key, v in (("c_x", "cx", 0.0), ("c_y", "cy", 0.0), ("transition", "transition", 0.5)):
            if k in d and rng.random() < 0.5:
                d.pop(k)
                p[key] = v
    if model == "perspective" and rng.random() < 0.3:
        d.pop("projection_type")
    return d, p


def hand_written(chk, rng, i):
    from opensfm import io, pygeometry

    cd, cp = hand_camera(rng, i)
    doc = {"cameras": {"cam": cd}, "shots": {}, "points": {}}
    rigs = {k: (rng.normal(size=3), rng.normal(size=3)) for k in ("left", "right")}
    inst = {"i%d" % j: (rng.normal(size=3), rng.normal(size=3)) for j in range(2)}
    doc["rig_cameras"] = {k: {"rotation": list(a), "translation": list(b)} for k, (a, b) in rigs.items()}
    doc["rig_instances"] = {}
    expected = {}
    for k, (a, b) in inst.items():
        doc["rig_instances"][k] = {"rotation": list(a), "translation": list(b), "rig_camera_ids": {}}
        for c, (ra, rb) in rigs.items():
            sid = "%s %s" % (k, c)
            R = gen.rodrigues(ra) @ gen.rodrigues(a)
            t = gen.rodrigues(ra) @ b + rb
            expected[sid] = (R, t)
            doc["rig_instances"][k]["rig_camera_ids"][sid] = c
            doc["shots"][sid] = {"camera": "cam", "rotation": list(gen.log_rotation(R)), "translation": list(t)}
    bare = "rig_instances" if rng.random() < 0.3 else None
    if bare:  # documents older than rigs
        doc.pop("rig_instances"), doc.pop("rig_cameras")
    metas = {}
    for j in range(2):
        a, b = rng.normal(size=3), rng.normal(size=3)
        meta = {"orientation": int(rng.choice([1, 3, 6, 8])), "capture_time": float(rng.uniform(0, 2e9)), "gps_dop": float(rng.uniform(0, 20)),
                "gps_position": [float(x) for x in rng.normal(size=3)], "compass": {"angle": float(rng.uniform(0, 360)), "accuracy": 5.0},
                "skey": "ß", "gravity_down": [0.0, 0.0, -1.0]}
        for k in list(meta):
            if rng.random() < 0.3:
                meta[k] = None
                if rng.random() < 0.5:
                    meta.pop(k)
        metas["s%d" % j] = meta
        doc["shots"]["s%d" % j] = dict({"camera": "cam", "rotation": list(a), "translation": list(b)}, **meta)
        expected["s%d" % j] = (gen.rodrigues(a), b)
    P = {"p%d" % j: (rng.normal(size=3), rng.integers(0, 256, 3)) for j in range(3)}
    doc["points"] = {k: {"coordinates": list(x), "color": [float(v) for v in c]} for k, (x, c) in P.items()}
    if rng.random() < 0.7:
        doc["reference_lla"] = {"latitude": 1.5, "longitude": -2.5, "altitude": 3.0}
    if rng.random() < 0.2:
        doc.pop("points")
    chk.case("hand-written document", {"camera": cd, "shots": len(doc["shots"]), "rigs": not bare}, sig=(chk.shard, i))
    ok, rec = chk.guard(lambda: io.reconstructions_from_json(io.json_loads(io.json_dumps([doc])))[0], "loading a hand-written document")
    if not ok:
        return
    chk.count("hand-written documents loaded")
    cam = rec.cameras["cam"]
    ref = gen.make_camera(cp, "cam")
    expect_same(chk, snap_camera(cam), snap_camera(ref), "camera of a hand-written document")
    chk.expect(set(rec.shots.keys()) == set(expected), "shots of a hand-written document")
    for k, (R, t) in expected.items():
        s = rec.shots[k]
        chk.close(s.pose.get_rotation_matrix(), R, TOL, "rotation of a hand-written shot")
        chk.close(s.pose.translation, t, TOL, "translation of a hand-written shot")
        if not bare and k not in metas:
            a, c = k.split(" ")
            chk.expect((s.rig_instance_id, s.rig_camera_id) == (a, c), "rig of a hand-written shot", got=(s.rig_instance_id, s.rig_camera_id))
    for k, meta in metas.items():
        got = snap_meta(rec.shots[k].metadata)
        for f, key in DOC_META.items():
            w = meta.get(key)
            chk.expect(got[f] is None if w is None else np.allclose(got[f], w) if not isinstance(w, str) else got[f] == w,
                       "metadata of a hand-written shot", field=f, got=got[f], expected=w)
        w = meta.get("compass") or {}
        chk.expect((got["compass_angle"], got["compass_accuracy"]) == (w.get("angle"), w.get("accuracy")), "compass of a hand-written shot")
    if "points" in doc:
        for k, (x, c) in P.items():
            chk.expect(np.array_equal(rec.points[k].coordinates, x) and list(rec.points[k].color) == list(c), "point of a hand-written document")
    if "reference_lla" in doc:
        chk.expect((rec.reference.lat, rec.reference.lon, rec.reference.alt) == (1.5, -2.5, 3.0), "reference of a hand-written document")
    for bad in ({"cameras": {"cam": dict(cd, projection_type="nonsense")}, "shots": {}},):
        try:
            io.reconstruction_from_json(bad)
            chk.expect(False, "unknown camera model accepted")
        except NotImplementedError:
            chk.count("oracle evaluations")


def cameras(chk, rng, i, data):
    from opensfm import io

    p = gen.camera_params(rng, gen.MODELS[i % len(gen.MODELS)])
    c = gen.make_camera(p, str(rng.choice(["", "v2 sony 1920 1080 brown 0.9", "日本"])))
    chk.case("camera", p)
    want = snap_camera(c)
    for form in ("vector", "json", "models", "overrides"):
        if form == "vector":
            ok, v = chk.guard(lambda: io.camera_to_vector(c), "camera as a vector")
            if not ok:
                continue
            chk.count("camera vectors")
            order = [float(x) for x in v]
            ok, b = chk.guard(lambda: io.camera_from_vector(c.id, c.width, c.height, c.projection_type, order), "camera from a vector")
        elif form == "json":
            ok, b = chk.guard(lambda: io.camera_from_json(c.id, strict(io.json_dumps(io.camera_to_json(c)))), "camera through JSON")
        elif form == "models":
            data.save_camera_models({c.id: c})
            ok, b = chk.guard(lambda: data.load_camera_models()[c.id], "camera models")
        else:
            data.save_camera_models_overrides({c.id: c})
            ok, b = chk.guard(lambda: data.load_camera_models_overrides()[c.id], "camera model overrides")
        if ok:
            expect_same(chk, snap_camera(b), want, "camera through " + form, tol=1e-12)
    doc_camera(chk, io.camera_to_json(c), want, "camera")


def parts(chk, rng, i, data):
    from opensfm import geo, io, pymap

    n = int(rng.integers(0, 4))
    rigs = {"rïg %d" % j: pymap.RigCamera(rand_pose(rng), "rïg %d" % j) for j in range(n)}
    chk.case("rig cameras, shots and reference", {"rig cameras": n}, sig=(chk.shard, i))
    ok, back = chk.guard(lambda: io.rig_cameras_from_json(strict(io.json_dumps(io.rig_cameras_to_json(rigs)))), "rig cameras through JSON")
    if ok:
        expect_same(chk, {k: snap_pose(r.pose) for k, r in back.items()}, {k: snap_pose(r.pose) for k, r in rigs.items()}, "rig cameras", tol=TOL)
        chk.expect(all(k == r.id for k, r in back.items()), "identifiers of rig cameras")
    ref = geo.TopocentricConverter(float(rng.uniform(-90, 90)), float(rng.uniform(-180, 180)), float(rng.normal() * 1000))
    data.save_reference(ref)
    got = data.load_reference()
    chk.expect((got.lat, got.lon, got.alt) == (ref.lat, ref.lon, ref.alt) and data.reference_exists(), "reference", got=(got.lat, got.lon, got.alt))
    cam = gen.make_camera(gen.camera_params(rng, "brown"), "c")
    s = pymap.Shot("s", cam, rand_pose(rng))
    s.metadata = rand_meta(rng)
    s.scale = float(rng.random())
    s.merge_cc = int(rng.integers(100))
    s.covariance = rng.normal(size=(6, 6))
    want = flat_empty(snap_shot(s, False))
    ok, back = chk.guard(lambda: io.single_shot_from_json("s", strict(io.json_dumps(io.shot_to_json(s))), cam), "single shot through JSON")
    if ok:
        expect_same(chk, flat_empty(snap_shot(back, False)), want, "single shot through JSON", tol=TOL)


def run(chk):
    data = dsgen.make_dataset(os.path.join(chk.tmp, "dataset"), ["a.jpg"])
    rng = chk.rng_for("recs")
    for i in range(chk.n(1500, 20000)):
        history(chk, rng, i, data)
    rng = chk.rng_for("hand")
    for i in range(chk.n(2000, 20000)):
        hand_written(chk, rng, i)
    rng = chk.rng_for("cameras")
    for i in range(chk.n(1000, 10000)):
        cameras(chk, rng, i, data)
    rng = chk.rng_for("parts")
    for i in range(chk.n(400, 4000)):
        parts(chk, rng, i, data)
