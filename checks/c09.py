"""C09: copies and pickles are faithful and independent."""
import copy
import gc
import pickle

import numpy as np

import gen

SHARDS = {"quick": 4, "thorough": 8}
TARGETS = ["pymap"]
REQUIRED = ["value objects copied", "reconstructions copied", "changes made to a copy", "changes made to an original",
            "copies outliving their original", "shots added to another reconstruction"]
RULE = ("one case = one object copied in every way it can be (copy, deep copy, pickle of every protocol, container copies), "
        "compared value by value, then one side changed while the other is watched; non-trivial always")
ASSUMPTIONS = ["a deep copy of a reconstruction carries observations only when asked to (copy_observations)",
               "objects the binding offers no copy or pickle for are out of scope; the value of an unset measurement is not compared"]


def ways(obj):
    out = [("copy", lambda: copy.copy(obj)), ("deepcopy", lambda: copy.deepcopy(obj))]
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        out.append(("pickle protocol %d" % p, lambda p=p: pickle.loads(pickle.dumps(obj, p))))
    return out


def same(a, b, tol=1e-12):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and (a.size == 0 or bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * (1 + abs(b)) or (a != a and b != b)
    return a == b


def diff(a, b, path="", tol=1e-12):
    """First difference, for the report."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s/%s only on one side" % (path, k)
            if not same(a[k], b[k], tol):
                return diff(a[k], b[k], "%s/%s" % (path, k), tol)
    return "%s: %r against %r" % (path, a, b)


def expect_same(chk, a, b, what, mechanism=None, tol=1e-12):
    ok = same(a, b, tol)
    chk.expect(ok, what + " at " + (diff(a, b, tol=tol) if not ok else ""), mechanism)


# ------------------------------------------------------------- snapshots
def snap_camera(c):
    d = {"id": c.id, "w": c.width, "h": c.height, "type": c.projection_type,
         "parameters": {str(k): float(v) for k, v in c.get_parameters_map().items()}}
    X = np.array([[0.1, 0.2, 1.0], [-0.3, 0.05, 1.2]])
    d["projection"] = np.array(c.project_many(X))
    return d


def snap_pose(p):
    return {"R": np.array(p.get_rotation_matrix()), "t": np.array(p.translation), "o": np.array(p.get_origin()),
            "Ti": np.array(p.get_cam_to_world())}


def snap_value(m):
    if not m.has_value:
        return None
    v = m.value
    return np.array(v) if isinstance(v, np.ndarray) else v


FIELDS = ["capture_time", "gps_position", "gps_accuracy", "compass_angle", "compass_accuracy", "gravity_down", "opk_angles",
          "opk_accuracy", "orientation", "sequence_key"]


def snap_meta(m):
    d = {f: snap_value(getattr(m, f)) for f in FIELDS}
    d["attributes"] = dict(m.attributes)
    return d


def snap_obs(o):
    d = o.depth_prior
    return (tuple(map(float, o.point)), float(o.scale), tuple(map(int, o.color)), int(o.id), int(o.segmentation), int(o.instance),
            None if d is None else (d.value, d.is_radial, d.std_deviation))


def snap_shot(s, observations=True):
    d = {"id": s.id, "camera": snap_camera(s.camera), "rig": (s.rig_camera_id, s.rig_instance_id), "pose": snap_pose(s.pose),
         "scale": s.scale, "cc": s.merge_cc, "meta": snap_meta(s.metadata), "covariance": np.array(s.covariance),
         "faces": np.array(s.mesh.faces), "vertices": np.array(s.mesh.vertices)}
    if observations:
        d["observations"] = {lm.id: snap_obs(s.get_landmark_observation(lm)) for lm in s.get_valid_landmarks()}
    return d


def snap_sim(s):
    return {"R": np.array(s.rotation), "t": np.array(s.translation), "s": float(s.scale)}


def snap_rec(r, observations=True):
    ref = r.reference
    d = {
        "reference": (ref.lat, ref.lon, ref.alt),
        "cameras": {k: snap_camera(c) for k, c in r.cameras.items()},
        "biases": {k: snap_sim(b) for k, b in r.biases.items()},
        "rig cameras": {k: snap_pose(c.pose) for k, c in r.rig_cameras.items()},
        "rig instances": {k: {"pose": snap_pose(i.pose), "members": sorted((a, b) for a, b in dict(i.rig_camera_ids).items())}
                          for k, i in r.rig_instances.items()},
        "shots": {k: snap_shot(s, observations) for k, s in r.shots.items()},
        "panos": {k: snap_shot(s, observations) for k, s in r.pano_shots.items()},
        "points": {},
    }
    for k, p in r.points.items():
        d["points"][k] = {"x": np.array(p.coordinates), "color": tuple(map(int, p.color)),
                          "errors": {s: np.array(e) for s, e in p.reprojection_errors.items()}}
        if observations:
            d["points"][k]["seen"] = {s.id: f for s, f in p.get_observations().items()}
    return d


# ------------------------------------------------------------- generators
def rand_meta(rng):
    from opensfm import pymap

    m = pymap.ShotMeasurements()
    p = rng.choice([0.0, 0.5, 1.0])
    for f in FIELDS:
        if rng.random() < p:
            x = getattr(m, f)
            if f in ("gps_position", "gravity_down", "opk_angles"):
                x.value = rng.normal(size=3) * 10.0 ** rng.uniform(-2, 5)
            elif f == "orientation":
                x.value = int(rng.integers(0, 9))
            elif f == "sequence_key":
                x.value = str(rng.choice(["", "séq 1", "a" * 100]))
            else:
                x.value = float(rng.normal() * 10.0 ** rng.uniform(-3, 9))
    if rng.random() < p:
        m.attributes = {str(k): str(v) for k, v in [("a", "1"), ("ü", "π\n"), ("", "")][: rng.integers(1, 4)]}
    return m


def rand_pose(rng):
    from opensfm import pygeometry

    return pygeometry.Pose(gen.rand_rotation(rng), rng.normal(size=3) * 10.0 ** rng.uniform(-2, 4))


def rand_obs(rng, f=None):
    from opensfm import pymap

    x, y, s = rng.normal(size=3)
    o = pymap.Observation(x, y, abs(s), *[int(c) for c in rng.integers(0, 256, 3)], int(rng.integers(0, 99) if f is None else f),
                          int(rng.integers(-1, 30)), int(rng.integers(-1, 30)))
    if rng.random() < 0.3:
        o.depth_prior = pymap.Depth(value=float(rng.random()), is_radial=bool(rng.random() < 0.5), std_deviation=float(rng.random()))
    return o


def rand_rec(rng):
    from opensfm import geo, pygeometry, pymap, types

    r = types.Reconstruction()
    r.reference = geo.TopocentricConverter(*(float(x) for x in rng.normal(size=3) * 30))
    for i in range(int(rng.integers(1, 4))):
        model = gen.MODELS[rng.integers(len(gen.MODELS))]
        r.add_camera(gen.make_camera(gen.camera_params(rng, model), "cam %d" % i))
        if rng.random() < 0.5:
            r.set_bias("cam %d" % i, pygeometry.Similarity(rng.normal(size=3), rng.normal(size=3), float(rng.uniform(0.5, 2))))
    cams = list(r.cameras.keys())
    nrc = int(rng.integers(0, 4))
    for j in range(nrc):
        r.add_rig_camera(pymap.RigCamera(rand_pose(rng), "rc%d" % j))
    for i in range(int(rng.integers(0, 3))):
        inst = pymap.RigInstance("rig%d" % i)
        inst.pose = rand_pose(rng)
        r.add_rig_instance(inst)
        for j in range(nrc):
            if rng.random() < 0.8:
                r.create_shot("%d_%d" % (i, j), str(rng.choice(cams)), None, "rc%d" % j, "rig%d" % i)
    for i in range(int(rng.integers(0, 4))):
        r.create_shot("single %d" % i, str(rng.choice(cams)), rand_pose(rng))
    for i in range(int(rng.integers(0, 3))):
        r.create_pano_shot("pano%d" % i, str(rng.choice(cams)), rand_pose(rng))
    for s in list(r.shots.values()) + list(r.pano_shots.values()):
        if rng.random() < 0.6:
            s.metadata = rand_meta(rng)
            s.scale = float(rng.random())
            s.merge_cc = int(rng.integers(0, 99))
        if rng.random() < 0.4:
            s.covariance = rng.normal(size=(6, 6))
        if rng.random() < 0.4:
            s.mesh.vertices = rng.normal(size=(5, 3))
            s.mesh.faces = rng.integers(0, 5, (2, 3)).astype(float)
    for i in range(int(rng.integers(0, 6))):
        p = r.create_point("pt %d" % i, rng.normal(size=3))
        p.color = rng.integers(0, 256, 3)
        seen = []
        for f, s in enumerate(list(r.shots.values()) + list(r.pano_shots.values())):
            if rng.random() < 0.5:
                r.map.add_observation(s, p, rand_obs(rng, i))
                seen.append(s.id)
        p.reprojection_errors = {s: rng.normal(size=2) for s in seen if rng.random() < 0.7}
    return r


def change_rec(rng, r):
    """Some change to everything."""
    from opensfm import geo, pygeometry

    r.reference = geo.TopocentricConverter(1.0, 2.0, 3.0)
    for c in r.cameras.values():
        c.width += 1
        if c.projection_type != "spherical":
            c.focal = 3.3
        r.set_bias(c.id, pygeometry.Similarity(np.ones(3), np.ones(3), 7.0))
    for c in r.rig_cameras.values():
        c.pose = rand_pose(rng)
    for i in r.rig_instances.values():
        i.pose = rand_pose(rng)
    for s in list(r.shots.values()) + list(r.pano_shots.values()):
        s.scale, s.merge_cc, s.covariance = 55.0, 66, np.ones((2, 2))
        s.metadata.capture_time.value = 123.0
        s.metadata.attributes = {"changed": "yes"}
        s.metadata.sequence_key.value = "changed"
        s.mesh.vertices, s.mesh.faces = np.ones((1, 3)), np.ones((1, 3))
        for lm in s.get_valid_landmarks():
            s.get_landmark_observation(lm).scale = 99.0
    for p in r.points.values():
        p.coordinates, p.color, p.reprojection_errors = np.ones(3) * 9, np.array([9, 9, 9]), {"x": np.ones(2)}
    for p in list(r.points.keys())[:1]:
        r.remove_point(p)
    for s in list(r.shots.keys())[:1]:
        r.remove_shot(s)
    for i in list(r.rig_instances.keys())[:1]:
        r.remove_rig_instance(i)
    r.create_point("new", np.zeros(3))


# ------------------------------------------------------------- cases
def values(chk, rng, i):
    from opensfm import geo, pygeometry, pymap

    model = gen.MODELS[i % len(gen.MODELS)]
    meta = rand_meta(rng)
    k = int(rng.integers(8))

    def cam():
        return gen.make_camera(gen.camera_params(rng, model), str(rng.choice(["", "cäm 1", "v2 sony 1 2 brown 0.9"])))

    def change_cam(c):
        c.id, c.width, c.height = "changed", 1, 2
        if model != "spherical":
            c.focal = 9.0

    def change_pose(p):
        p.set_origin(np.array([7.0, 8.0, 9.0]))
        p.rotation = np.array([0.4, 0.5, -0.6])

    def change_meta(m):
        for f in FIELDS:
            x = getattr(m, f)
            if f in ("gps_position", "gravity_down", "opk_angles"):
                x.value = np.ones(3) * 7
            elif f == "orientation":
                x.value = 77
            elif f == "sequence_key":
                x.value = "changed"
            else:
                x.value = 7.0
        m.attributes = {"changed": "yes"}

    def change_rc(r):
        r.id, r.pose = "changed", pygeometry.Pose()
        r.pose.set_origin(np.ones(3))

    kinds = {
        "camera": (cam, snap_camera, change_cam),
        "pose": (lambda: rand_pose(rng), snap_pose, change_pose),
        "rig camera": (lambda: pymap.RigCamera(rand_pose(rng), "rïg"), lambda r: {"id": r.id, "pose": snap_pose(r.pose)}, change_rc),
        "shot measurements": (lambda: rand_meta(rng), snap_meta, change_meta),
        "reference": (lambda: geo.TopocentricConverter(*(float(x) for x in rng.normal(size=3))),
                      lambda r: (r.lat, r.lon, r.alt), lambda r: setattr(r, "lat", 5.0)),
    }
    for f in FIELDS:
        def change(x, f=f):
            x.value = getattr(change_target, f).value
        kinds["measurement " + f] = (lambda f=f: getattr(rand_meta(rng), f), snap_value, change)
    change_target = pymap.ShotMeasurements()
    change_meta(change_target)
    for name, (make, snap, change) in kinds.items():
        obj = make()
        chk.case(name, {"value": snap(obj), "model": model if name == "camera" else None}, sig=(chk.shard, i, name))
        before = snap(obj)
        for way, fn in ways(obj):
            if name in ("rig camera",) and way == "copy":
                pass
            try:
                dup = fn()
            except (pickle.PicklingError, TypeError) as e:
                if way == "pickle protocol 0" or way == "pickle protocol 1":
                    continue  # the binding cannot be reduced by the oldest protocols
                chk.expect(False, "%s cannot be copied by %s" % (name, way), error=str(e))
                continue
            chk.count("value objects copied")
            expect_same(chk, snap(dup), before, "%s copied by %s" % (name, way))
            change(dup)
            chk.count("changes made to a copy")
            expect_same(chk, snap(obj), before, "%s changed when its copy by %s was" % (name, way))
            dup2 = fn()
            mut = make()
            del mut
            expect_same(chk, snap(dup2), before, "%s copied again by %s" % (name, way))
        keep = [(way, fn) for way, fn in ways(obj) if way in ("copy", "deepcopy", "pickle protocol 2")]
        dups = [(way, fn()) for way, fn in keep]
        change(obj)
        chk.count("changes made to an original")
        for way, d in dups:
            expect_same(chk, snap(d), before, "copy of %s by %s changed when the original was" % (name, way))
        del obj
        gc.collect()
        for way, d in dups:
            expect_same(chk, snap(d), before, "copy of %s by %s without the original" % (name, way))
    # assignment of measurements copies them
    a, b = rand_meta(rng), rand_meta(rng)
    before = snap_meta(a)
    b.set(a)
    expect_same(chk, snap_meta(b), before, "ShotMeasurements.set")
    change_meta(b)
    expect_same(chk, snap_meta(a), before, "ShotMeasurements.set shares with its source")
    o = rand_obs(rng)
    chk.case("observation", {"value": snap_obs(o)}, sig=(chk.shard, i, "obs"))
    before = snap_obs(o)
    d = o.copy()
    expect_same(chk, snap_obs(d), before, "observation copy")
    d.point, d.scale, d.id, d.color, d.segmentation, d.instance = np.ones(2) * 5, 5.0, 5, np.array([5, 5, 5]), 5, 5
    d.depth_prior = pymap.Depth(5.0, True, 5.0)
    expect_same(chk, snap_obs(o), before, "observation changed with its copy")
    chk.count("value objects copied")


def reconstructions(chk, rng, i):
    from opensfm import pymap, types

    r = rand_rec(rng)
    full, bare = snap_rec(r), snap_rec(r, False)
    chk.case("reconstruction", {"summary": {k: len(v) for k, v in full.items() if isinstance(v, dict)}}, sig=(chk.shard, "rec", i))
    for with_obs in (True, False):
        d = copy.deepcopy(r, {"copy_observations": True}) if with_obs else copy.deepcopy(r)
        chk.count("reconstructions copied")
        expect_same(chk, snap_rec(d, with_obs), full if with_obs else bare, "deep copy %s observations" % ("with" if with_obs else "without"))
        if not with_obs:
            chk.expect(all(p.number_of_observations() == 0 for p in d.points.values()), "observations copied without being asked for")
        change_rec(rng, d)
        chk.count("changes made to a copy")
        expect_same(chk, snap_rec(r), full, "reconstruction changed with its copy")
        del d
    d = copy.deepcopy(r, {"copy_observations": True})
    e = copy.deepcopy(r)
    # a copy of single shots and points into another reconstruction
    other = types.Reconstruction()
    for s in list(r.shots.values()):
        if s.id not in other.shots:
            other.add_shot(s)
        chk.count("shots added to another reconstruction")
        g, w = snap_shot(other.shots[s.id], False), dict(full["shots"][s.id])
        w.pop("observations")
        expect_same(chk, g, w, "shot added to another reconstruction", tol=1e-9)
    for s in list(r.pano_shots.values()):
        other.add_pano_shot(s)
        g, w = snap_shot(other.pano_shots[s.id], False), dict(full["panos"][s.id])
        w.pop("observations")
        expect_same(chk, g, w, "pano shot added to another reconstruction", tol=1e-9)
    for p in list(r.points.values()):
        other.add_point(p)
        g = other.points[p.id]
        expect_same(chk, [np.array(g.coordinates), tuple(map(int, g.color))], [full["points"][p.id]["x"], full["points"][p.id]["color"]],
                    "point added to another reconstruction")
    before = snap_rec(other)
    change_rec(rng, r)
    chk.count("changes made to an original")
    expect_same(chk, snap_rec(d), full, "copy with observations changed with the original")
    expect_same(chk, snap_rec(e, False), bare, "copy without observations changed with the original")
    expect_same(chk, snap_rec(other), before, "shots and points added to another reconstruction changed with the original")
    del r
    gc.collect()
    chk.count("copies outliving their original")
    expect_same(chk, snap_rec(d), full, "copy without its original")
    expect_same(chk, snap_rec(other), before, "shots and points added elsewhere, without the original")
    third = copy.deepcopy(d, {"copy_observations": True})
    expect_same(chk, snap_rec(third), full, "copy of a copy")
    # parts of a reconstruction pickled on their own
    for s in list(d.shots.values())[:2]:
        expect_same(chk, snap_pose(pickle.loads(pickle.dumps(s.pose))), snap_pose(s.pose), "pickled pose of a shot")
        p = copy.deepcopy(s.pose)
        before = snap_rec(third)
        p.set_origin(np.ones(3) * 4)
        expect_same(chk, snap_rec(d), full, "reconstruction changed with the copy of a pose")
        expect_same(chk, snap_camera(pickle.loads(pickle.dumps(s.camera))), snap_camera(s.camera), "pickled camera of a shot")
        m = pickle.loads(pickle.dumps(s.metadata))
        expect_same(chk, snap_meta(m), snap_meta(s.metadata), "pickled metadata of a shot")


def run(chk):
    for i in range(chk.n(300, 6000)):
        values(chk, chk.rng_for("v", i), i)
    for i in range(chk.n(500, 12000)):
        reconstructions(chk, chk.rng_for("r", i), i)
