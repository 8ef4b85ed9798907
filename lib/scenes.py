"""Synthetic scenes with known cameras, poses, points and exact observations."""
import json
import os

import numpy as np

import gen

SIZES = [(640, 480), (480, 640), (1600, 1200), (500, 500)]
REF = {"latitude": 42.0, "longitude": -1.5, "altitude": 600.0}


def camera(rng, model, strength=0.5, size=None):
    """A camera wide enough for scenes, of a usual size."""
    p = gen.camera_params(rng, model, strength, size or SIZES[rng.integers(len(SIZES))])
    if model == "spherical":
        p["width"], p["height"] = 2000, 1000
    else:
        p["focal"] = float(rng.uniform(0.5, 1.0))
    return p


class Scene:
    def __init__(self):
        self.cams = {}  # id -> params
        self.shots = {}  # id -> {"cam", "R", "t", ...}
        self.X = np.zeros((0, 3))
        self.obs = {}  # shot -> {point index: (x, y)}
        self.colors = np.zeros((0, 3), int)
        self._limit = {}

    def origin(self, s):
        d = self.shots[s]
        return -d["R"].T @ d["t"]

    def limit(self, c):
        if c not in self._limit:
            p = self.cams[c]
            wide = p["model"] in gen.ANGULAR or p["model"] == "dual"
            self._limit[c] = gen.max_radius(p, 1.4 if wide and p["model"] != "dual" else 1.1)
        return self._limit[c]

    def project(self, s, X):
        """Exact image positions and which of them are usable."""
        d = self.shots[s]
        p = self.cams[d["cam"]]
        Y = np.atleast_2d(X) @ d["R"].T + d["t"]
        xy = gen.reference_project(p, Y)
        w, h = p["width"], p["height"]
        m = max(w, h)
        with np.errstate(all="ignore"):
            r = np.hypot(Y[:, 0], Y[:, 1])
            rad = np.arctan2(r, Y[:, 2]) if p["model"] in gen.ANGULAR else np.where(Y[:, 2] > 0, r / Y[:, 2], 1e9)
        if p["model"] == "spherical":
            ok = np.linalg.norm(Y, axis=1) > 0.1
            # poles make azimuths meaningless
            ok &= np.hypot(Y[:, 0], Y[:, 2]) > 0.1 * np.linalg.norm(Y, axis=1)
        else:
            ok = (rad < self.limit(d["cam"])) & (Y[:, 2] > 0.1)
        ok &= (np.abs(xy[:, 0]) < 0.499 * w / m) & (np.abs(xy[:, 1]) < 0.499 * h / m)
        return xy, ok

    def observe(self, rng=None, noise=0.0, keep=1.0):
        self.obs = {}
        for s in self.shots:
            xy, ok = self.project(s, self.X)
            if rng is not None and keep < 1:
                ok &= rng.random(len(ok)) < keep
            if noise:
                xy = xy + noise * rng.normal(size=xy.shape)
            self.obs[s] = {int(k): xy[k] for k in np.nonzero(ok)[0]}
        return self

    def seen(self):
        n = {}
        for s in self.obs:
            for k in self.obs[s]:
                n.setdefault(k, []).append(s)
        return n

    # ------------------------------------------------------------ library
    def pose(self, s):
        from opensfm import pygeometry

        p = pygeometry.Pose()
        p.set_rotation_matrix(self.shots[s]["R"])
        p.translation = self.shots[s]["t"]
        return p

    def reconstruction(self, points=True, observations=True, gps=True, tm=None):
        from opensfm import geo, pymap, types

        rec = types.Reconstruction()
        rec.reference = geo.TopocentricConverter(REF["latitude"], REF["longitude"], REF["altitude"])
        for c, p in self.cams.items():
            rec.add_camera(gen.make_camera(p, c))
        for s in self.shots:
            shot = rec.create_shot(s, self.shots[s]["cam"], self.pose(s))
            if gps:
                shot.metadata.gps_position.value = self.origin(s)
                shot.metadata.gps_accuracy.value = self.shots[s].get("dop", 1.0)
        if points:
            used = self.seen()
            for k, ss in used.items():
                if len(ss) < 2:
                    continue
                q = rec.create_point(str(k), self.X[k])
                q.color = [int(v) for v in self.colors[k]]
                if observations:
                    for s in ss:
                        rec.add_observation(s, str(k), self.observation(s, k))
        return rec

    def feature_ids(self, s):
        """Features of a shot are numbered in the order of the points it sees."""
        return {k: i for i, k in enumerate(sorted(self.obs[s]))}

    def observation(self, s, k):
        from opensfm import pymap

        x, y = self.obs[s][k]
        r, g, b = (int(v) for v in self.colors[k])
        return pymap.Observation(float(x), float(y), 0.004, r, g, b, self.feature_ids(s)[k])

    def tracks_manager(self, min_length=2):
        from opensfm import pymap

        tm = pymap.TracksManager()
        ids = {s: self.feature_ids(s) for s in self.obs}
        for k, ss in self.seen().items():
            if len(ss) < min_length:
                continue
            for s in ss:
                x, y = self.obs[s][k]
                r, g, b = (int(v) for v in self.colors[k])
                tm.add_observation(s, str(k), pymap.Observation(float(x), float(y), 0.004, r, g, b, ids[s][k]))
        return tm

    def exif(self, s, gps=True, time=None, rng=None, gps_noise=0.0):
        from opensfm import geo

        d = self.shots[s]
        p = self.cams[d["cam"]]
        e = {"make": "maker", "model": "model", "width": p["width"], "height": p["height"], "projection_type": p["model"],
             "focal_ratio": p.get("focal", 1.0), "orientation": 1, "capture_time": d.get("time", 0.0) if time is None else time,
             "camera": d["cam"], "skey": "", "gps": {}}
        if gps:
            o = self.origin(s)
            if gps_noise:
                o = o + gps_noise * rng.normal(size=3)
            lat, lon, alt = geo.lla_from_topocentric(*o, REF["latitude"], REF["longitude"], REF["altitude"])
            e["gps"] = {"latitude": float(lat), "longitude": float(lon), "altitude": float(alt), "dop": d.get("dop", 1.0)}
        return e

    def descriptors(self, rng, dim=16, scale=1.0):
        """One recognisable descriptor per point."""
        D = rng.normal(size=(len(self.X), dim))
        return (scale * D / np.linalg.norm(D, axis=1)[:, None]).astype(np.float32)

    def dataset(self, root, config=None, images=False, gps=True, reference=True, exif=None):
        """A dataset directory with metadata (and, if asked, small random images)."""
        import yaml
        from opensfm import dataset

        os.makedirs(os.path.join(root, "images"), exist_ok=True)
        for s in self.shots:
            path = os.path.join(root, "images", s)
            open(path, "wb").close()
        with open(os.path.join(root, "config.yaml"), "w") as f:
            yaml.safe_dump(dict({"processes": 1}, **(config or {})), f)
        data = dataset.DataSet(root)
        for s in self.shots:
            data.save_exif(s, (exif or {}).get(s) or self.exif(s, gps))
        data.save_camera_models({c: gen.make_camera(p, c) for c, p in self.cams.items()})
        if reference:
            with open(os.path.join(root, "reference_lla.json"), "w") as f:
                json.dump(REF, f)
        return data


def make(rng, models=("perspective",), shots=6, points=100, layout=None, strength=0.5, size=None, same_camera=None, keep=1.0, noise=0.0, names="im%02d.jpg",
         spread=1.0):
    """Cameras around or along a cloud of points.

    layouts: "ring" around the cloud, "line" driving past it, "nadir" above a terrain, "inside" (panoramas) within the cloud.
    """
    S = Scene()
    models = list(models)
    ncam = len(models) if same_camera is None else 1
    for i in range(ncam):
        S.cams["cam%d" % i] = camera(rng, models[i], strength, size)
    cams = list(S.cams)
    if layout is None:
        layout = str(rng.choice(["ring", "line", "nadir"]))
    S.layout = layout
    pano = any(S.cams[c]["model"] == "spherical" for c in cams)
    if layout == "ring":
        X = rng.normal(size=(points, 3)) * [1.5, 1.5, 1.0] * spread
    elif layout == "line":
        X = np.stack([rng.uniform(-2, shots * 1.0 + 2, points), rng.uniform(5, 9, points), rng.uniform(-2, 2.5, points)], 1)
    elif layout == "nadir":
        side = int(np.ceil(np.sqrt(shots)))
        X = np.stack([rng.uniform(-3, 2.0 * side + 2, points), rng.uniform(-3, 2.0 * side + 2, points), rng.uniform(0, 1.5, points)], 1)
    else:
        X = rng.normal(size=(points, 3))
        X *= (rng.uniform(5, 10, points) / np.linalg.norm(X, axis=1))[:, None]
        X[:, 2] *= 0.5
    S.X = X
    S.colors = rng.integers(0, 256, (points, 3))
    if layout == "nadir":
        side = int(np.ceil(np.sqrt(shots)))
    for i in range(shots):
        if layout == "ring":
            a = 2 * np.pi * i / max(shots, 3) * 0.6 + 0.02 * rng.normal()
            eye = np.array([np.cos(a) * 7, np.sin(a) * 7, rng.uniform(0, 2.5)])
            R = gen.look_at(eye, rng.normal(size=3) * 0.3)
        elif layout == "line":
            eye = np.array([i * 1.0, 0.0, 0.0]) + 0.1 * rng.normal(size=3)
            R = gen.look_at(eye, eye + [0.1 * rng.normal(), 1.0, 0.1 * rng.normal()])
        elif layout == "nadir":
            eye = np.array([i % side * 2.0, i // side * 2.0, 6.0]) + 0.2 * rng.normal(size=3)
            R = gen.look_at(eye, eye + [0.05 * rng.normal(), 0.05 * rng.normal(), -1.0], up=(0, 1, 0))
        else:
            eye = rng.normal(size=3) * [1.5, 1.5, 0.3]
            R = gen.look_at(eye, eye + [rng.normal(), rng.normal(), 0.1 * rng.normal()])
        S.shots[names % i] = {"cam": cams[i % len(cams)], "R": R, "t": -R @ eye, "time": 1000.0 + i}
    return S.observe(rng, noise, keep)
