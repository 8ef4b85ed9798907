"""C30: statistics and report tell the numbers of the reconstruction."""
import json
import math
import os
import shutil
from unittest.mock import MagicMock

import numpy as np

import gen

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 300, "thorough": 850}
REQUIRED = ["statistics computed", "empty datasets", "several reconstructions", "shortest tracks longer than two", "reprojection errors compared", "outliers left out", "GPS errors compared", "GCP errors compared",
            "edges of the match graph compared", "cells of residual grids compared", "heatmaps compared", "top views compared", "pictures drawn", "reports written", "numbers of the report compared",
            "reconstructions on the negative side", "rig cameras compared", "points decimated", "areas compared", "points at the center of a camera", "cameras missing from the last reconstruction"]
RULE = ("one case = one dataset with 0-3 reconstructions with random cameras, poses, points, tracks (some of images and points not reconstructed), GPS, control points, features and reports of former steps; "
        "its statistics, the data of its diagrams, and for some the real pictures and the report; non-trivial when something is reconstructed")
ASSUMPTIONS = ["the length of the track of a reconstructed point is counted over all images of the track file, unless the reconstruction holds observations",
               "images without reconstructed features may be left out of the minimum of reconstructed features", "the look of diagrams is not judged but the data in them"]
MODELS = ["perspective", "brown", "radial", "simple_radial", "fisheye", "fisheye_opencv", "spherical", "dual"]
CUTOFF = 4.0


class World:
    """A dataset with reconstructions, and all of its numbers in plain form."""

    def __init__(self, rng, root, rich=False):
        from opensfm import dataset, features, geo, io, pygeometry, pymap, types

        self.rng = rng
        self.root = root
        os.makedirs(os.path.join(root, "images"))
        os.makedirs(os.path.join(root, "exif"))
        with open(os.path.join(root, "config.yaml"), "w") as f:
            f.write("processes: 1\nresection_min_inliers: %d\n" % (1 if rng.random() < 0.7 else 3))
        nrec = int(rng.choice([0, 1, 1, 1, 2, 3])) if not rich else int(rng.choice([1, 2]))
        self.params, cams = {}, {}
        for k in range(int(rng.integers(1, 4))):
            name = ["cam", "cam_b", "v2 make/model 640"][k]
            p = gen.camera_params(rng, str(rng.choice(MODELS)), 0.3)
            if p["model"] == "spherical":
                p["width"], p["height"] = [(2000, 1000), (640, 320)][rng.integers(2)]
            self.params[name] = p
            cams[name] = gen.make_camera(p, name)
        self.models = cams
        names = sorted(cams)
        self.tm = pymap.TracksManager()
        self.obs, self.track_len = {}, {}
        self.recs, self.plain = [], []
        self.images = []
        self.center = self.rounded = False
        shortest = int(rng.choice([2, 2, 3]))
        noise = float(rng.choice([0.0, 0.5, 2.0]))
        self.outliers = rng.random() < 0.5
        self.in_map = bool(rng.random() < 0.2)
        center = rng.normal(size=3) * float(rng.choice([0, 0, 100])) if rng.random() < 0.6 else -np.abs(rng.normal(size=3)) * 1000
        flat, flat_axis = rng.random() < 0.15, int(rng.integers(2))
        reference = geo.TopocentricConverter(float(rng.uniform(-60, 60)), float(rng.uniform(-179, 179)), float(rng.choice([0, 300])))
        self.reference = reference
        ntrack = 0
        gps_share = float(rng.choice([0, 0.5, 1.0]))
        rig_cam = {}
        if rng.random() < 0.3:
            for k in range(2):
                p = pygeometry.Pose(rng.normal(size=3) * 0.3, rng.normal(size=3))
                rig_cam["rigcam%d" % k] = p
        for r in range(nrec):
            rec = types.Reconstruction()
            rec.reference = reference
            own = [n for n in names if rng.random() < 0.7] or [names[0]]
            for n in own:
                c = gen.make_camera(dict(self.params[n], **({"focal": self.params[n]["focal"] * 1.1} if "focal" in self.params[n] else {})), n)
                rec.add_camera(c)
            opt = {n: (dict(self.params[n], focal=self.params[n]["focal"] * 1.1) if "focal" in self.params[n] else self.params[n]) for n in own}
            bias = {}
            for n in own:
                if rng.random() < 0.5:
                    b = pygeometry.Similarity(rng.normal(size=3) * 0.3, rng.normal(size=3) * 2, float(rng.uniform(0.8, 1.2)))
                    rec.set_bias(n, b)
                    bias[n] = (gen.rodrigues(np.array(b.rotation)), np.array(b.translation), b.scale)
                else:
                    bias[n] = (np.eye(3), np.zeros(3), 1.0)
            for n, p in rig_cam.items():
                if rng.random() < 0.8:
                    q = pygeometry.Pose(np.array(p.rotation) + 0.01, np.array(p.translation) + 0.1)
                    rec.add_rig_camera(pymap.RigCamera(q, n))
            pl = dict(shots={}, points={}, bias=bias, params=opt, rigs={n: (np.array(c.pose.rotation), np.array(c.pose.translation)) for n, c in rec.rig_cameras.items() if n in rig_cam})
            for s in range(int(rng.integers(0, 6)) if not rich else int(rng.integers(3, 7))):
                sid = "r%d_%d.jpg" % (r, s)
                R = gen.rand_rotation(rng)
                o = center + rng.normal(size=3) * 10
                if flat:
                    o[flat_axis] = center[flat_axis]
                c = str(rng.choice(own))
                pose = pygeometry.Pose()
                pose.set_rotation_matrix(R)
                pose.set_origin(o)
                shot = rec.create_shot(sid, c, pose)
                gps = None
                if rng.random() < gps_share:
                    gps = o + rng.normal(size=3)
                    shot.metadata.gps_position.value = gps
                if rng.random() < 0.8:
                    shot.metadata.capture_time.value = float(rng.uniform(0, 100))
                pl["shots"][sid] = dict(R=R, o=o, camera=c, gps=gps)
                self.images.append(sid)
                self.obs[sid] = {}
            ids = list(pl["shots"])
            for t in range(int(rng.integers(0, 40)) if ids else 0):
                s0 = pl["shots"][str(rng.choice(ids))]
                d = rng.normal(size=3) * 0.2
                d[2] = 1.0
                if rng.random() < 0.3:
                    X = center + rng.normal(size=3) * 30
                else:
                    X = s0["o"] + s0["R"].T @ d * float(rng.uniform(5, 40))
                tid = "t%d" % ntrack
                seen = {}
                for sid in ids:
                    s = pl["shots"][sid]
                    x = s["R"] @ (X - s["o"])
                    if opt[s["camera"]]["model"] != "spherical" and x[2] < 0.7 * np.linalg.norm(x):
                        continue
                    q = gen.reference_project(opt[s["camera"]], x)[0]
                    if not np.all(np.isfinite(q)) or np.abs(q).max() > 0.6:
                        continue
                    seen[sid] = q
                extra = ["lost%d.jpg" % k for k in range(int(rng.integers(0, 3)))]
                if len(seen) + len(extra) < shortest:
                    continue
                ntrack += 1
                n = 0
                for sid, q in seen.items():
                    size = max(opt[pl["shots"][sid]["camera"]]["width"], opt[pl["shots"][sid]["camera"]]["height"])
                    e = rng.normal(size=2) * noise
                    if self.outliers and rng.random() < 0.1:
                        e = rng.normal(size=2) * 30
                    self.observe(sid, tid, q + e / size)
                    n += 1
                for sid in extra:
                    if sid not in self.obs:
                        self.obs[sid] = {}
                        self.images.append(sid)
                    self.observe(sid, tid, rng.uniform(-0.4, 0.4, 2))
                    n += 1
                self.track_len[tid] = n
                if rng.random() < 0.8:
                    rec.create_point(tid, X)
                    pl["points"][tid] = X
                    if self.in_map:
                        for sid in seen:
                            rec.add_observation(sid, tid, self.tm.get_observation(sid, tid))
            odd = [sid for sid in ids if opt[pl["shots"][sid]["camera"]]["model"] != "spherical"]
            if odd and rng.random() < 0.1:
                # a wrong point right at the center of a camera, which has no projection
                tid, X = "t%d" % ntrack, np.array(rec.shots[odd[0]].pose.get_origin())
                ntrack += 1
                self.observe(odd[0], tid, rng.uniform(-0.4, 0.4, 2))
                rest = "lost0.jpg" if self.in_map or len(ids) < 2 else [s for s in ids if s != odd[0]][0]
                if rest not in self.obs:
                    self.obs[rest] = {}
                    self.images.append(rest)
                self.observe(rest, tid, rng.uniform(-0.4, 0.4, 2))
                self.track_len[tid] = 2
                rec.create_point(tid, X)
                pl["points"][tid] = X
                if self.in_map:
                    rec.add_observation(odd[0], tid, self.tm.get_observation(odd[0], tid))
                self.center = True
            self.recs.append(rec)
            self.plain.append(pl)
        for k in range(int(rng.integers(0 if self.images else 1, 3))):
            self.images.append("unused%d.jpg" % k)
        # files of the dataset
        for n in self.images:
            open(os.path.join(root, "images", n), "w").close()
            with open(os.path.join(root, "exif", n + ".exif"), "w") as f:
                json.dump({"width": 640, "height": 480, "camera": names[0]}, f)
        self.data = dataset.DataSet(root)
        self.data.save_reference(reference)
        self.data.save_camera_models(cams)
        self.rig_initial = {n: (np.array(p.rotation), np.array(p.translation)) for n, p in rig_cam.items()}
        if rig_cam:
            more = {names[0]: pymap.RigCamera(pygeometry.Pose(), names[0])}
            self.data.save_rig_cameras(dict({n: pymap.RigCamera(p, n) for n, p in rig_cam.items()}, **more))
        self.detected = {}
        for n in self.images:
            if n.startswith("r") or rng.random() < 0.7:
                k = int(rng.integers(0, 30))
                fd = features.FeaturesData(rng.uniform(-0.4, 0.4, (k, 4)).astype(np.float32), rng.integers(0, 255, (k, 8)).astype(np.float32), rng.integers(0, 255, (k, 3)).astype(np.uint8), None)
                self.data.save_features(n, fd)
                self.detected[n] = k
        self.times = {}
        os.makedirs(os.path.join(root, "reports"))
        for n in ("features", "matches", "tracks", "reconstruction"):
            u = rng.random()
            if u < 0.2:
                continue
            if u < 0.6:
                rep = {"wall_time": float(rng.uniform(0, 1000))}
                self.times[n] = rep["wall_time"]
            elif u < 0.9:
                w = {"step%d" % k: float(rng.uniform(0, 100)) for k in range(int(rng.integers(0, 5)))}
                rep = {"wall_times": w}
                self.times[n] = sum(w.values())
            else:
                rep = {"something": 1}
            with open(os.path.join(root, "reports", n + ".json"), "w") as f:
                json.dump(rep, f)
        # control points: exact places seen by images of the first reconstruction, at wrong geographic positions
        self.gcp = []
        if rng.random() < 0.6:
            pts = []
            for k in range(int(rng.integers(1, 6))):
                r = int(rng.integers(nrec)) if nrec else None
                seen = {}
                X = None
                if r is not None and self.plain[r]["shots"]:
                    pl = self.plain[r]
                    s0 = pl["shots"][str(rng.choice(list(pl["shots"])))]
                    d = rng.normal(size=3) * 0.2
                    d[2] = 1.0
                    X = s0["o"] + s0["R"].T @ d * float(rng.uniform(5, 20))
                    for sid, s in pl["shots"].items():
                        x = s["R"] @ (X - s["o"])
                        p = pl["params"][s["camera"]]
                        if p["model"] != "spherical" and x[2] < 0.8 * np.linalg.norm(x):
                            continue
                        q = gen.reference_project(p, x)[0]
                        if np.abs(q).max() > 0.5:
                            continue
                        # only where the ray of the projection is the point again
                        b = self.recs[r].cameras[s["camera"]].pixel_bearing(q)
                        if np.abs(b - x / np.linalg.norm(x)).max() < 1e-9:
                            seen[sid] = q
                    rays = [(X - pl["shots"][s]["o"]) / np.linalg.norm(X - pl["shots"][s]["o"]) for s in seen]
                    angle = max([math.degrees(math.acos(np.clip(a @ b, -1, 1))) for a in rays for b in rays], default=0)
                    # positions are only known well for rays which differ
                    ok = len(seen) >= 2 and angle > 1
                    if len(seen) >= 2 and not ok:
                        continue
                else:
                    ok = False
                err = rng.normal(size=3)
                P = (X if X is not None else rng.normal(size=3)) - err
                lat, lon, alt = reference.to_lla(*P)
                g = pymap.GroundControlPoint()
                g.id = "gcp%d" % k
                known = rng.random() < 0.9
                if known:
                    g.lla = {"latitude": lat, "longitude": lon, "altitude": alt}
                    g.has_altitude = True
                for sid, q in seen.items():
                    o = pymap.GroundControlPointObservation()
                    o.shot_id, o.projection = sid, q
                    g.add_observation(o)
                pts.append(g)
                self.gcp.append((g.id, err if ok and known else None))
            if pts:
                self.data.save_ground_control_points(pts)
        self.io = io

    def observe(self, sid, tid, q):
        from opensfm import pymap

        c = [int(x) for x in self.rng.integers(0, 256, 3)]
        scale = float(self.rng.uniform(0.001, 0.02))
        self.tm.add_observation(sid, tid, pymap.Observation(float(q[0]), float(q[1]), scale, c[0], c[1], c[2], len(self.obs[sid]) if sid in self.obs else 0))
        self.obs.setdefault(sid, {})[tid] = (np.array(q, dtype=float), scale, c)

    def residuals(self, r):
        """Of every image and reconstructed point: normalized, pixel errors and angle."""
        pl = self.plain[r]
        out = {}
        for sid, s in pl["shots"].items():
            p = pl["params"][s["camera"]]
            size = max(p["width"], p["height"])
            for tid, (q, scale, c) in self.obs[sid].items():
                if tid in pl["points"]:
                    x = s["R"] @ (pl["points"][tid] - s["o"])
                    if np.abs(x).max() < 1e-9:
                        # rounding may leave anything as its projection
                        self.rounded |= bool(np.isfinite(self.recs[r].shots[sid].project(pl["points"][tid])).all())
                        continue
                    e = q - gen.reference_project(p, x)[0]
                    b = np.array(self.recs[r].cameras[s["camera"]].pixel_bearing(q))
                    a = math.acos(np.clip(b @ x / np.linalg.norm(x) / np.linalg.norm(b), -1, 1))
                    out[sid, tid] = (e / scale, e * size, a)
        return out


class Plot:
    """Stand-in for matplotlib.pyplot which keeps what is drawn."""

    def __init__(self):
        self.calls, self.saved = [], {}
        self.cm = MagicMock()

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
            return MagicMock()

        return f

    def subplots(self, *a, **k):
        class Axis(MagicMock):
            pass

        def axis():
            m = Axis()
            m.hist = lambda x, bins, weights: (self.calls.append(("hist", (x, bins, weights), {})), (np.array(weights), None, [MagicMock() for _ in weights]))[1]
            return m

        return MagicMock(), [axis() for _ in range(3)]

    def savefig(self, f, *a, **k):
        f.write(b"picture")
        self.saved[os.path.basename(f.name)] = self.calls
        self.calls = []

    def clf(self):
        self.calls = []


def spread(errors):
    e = np.array(errors)
    return {"mean": e.mean(0), "std": np.sqrt(((e - e.mean(0)) ** 2).mean(0)), "error": np.sqrt((e ** 2).mean(0)), "average_error": np.sqrt((e ** 2).sum(1)).mean()}


def judge_errors(chk, got, errors, tol, what, ctx):
    if not errors:
        chk.expect(got == {}, what + " of nothing", got=got, **ctx)
        return
    want = spread(errors)
    if not chk.expect(set(got) == set(want), what + " incomplete", got=sorted(got), **ctx):
        return
    for k in ("mean", "std", "error"):
        chk.close([got[k][a] for a in "xyz"], want[k], tol, what + " (%s)" % k, rel=True, **ctx)
    chk.close([got["average_error"]], [want["average_error"]], tol, what + " (average)", rel=True, **ctx)


def finite(x, path=""):
    if isinstance(x, dict):
        return [p for k, v in x.items() for p in finite(v, path + "/" + str(k))]
    if isinstance(x, (list, tuple)):
        return [p for k, v in enumerate(x) for p in finite(v, path + "/" + str(k))]
    if isinstance(x, float) and not math.isfinite(x):
        return [path]
    return []


def judge_histogram(chk, hist, values, what, ctx):
    counts, edges = hist
    v = np.sort(np.array(values))
    if not chk.expect(sum(counts) == len(v) and len(edges) == len(counts) + 1 and all(a < b for a, b in zip(edges, edges[1:])), what + " is not one of all errors", total=sum(counts), want=len(v), **ctx):
        return
    eps = 1e-6 * (abs(v[-1]) + 1e-12) + 1e-9
    run = 0
    for c, e in zip(counts, edges[1:]):
        run += c
        lo, hi = np.searchsorted(v, e - eps), np.searchsorted(v, e + eps, side="right")
        if not chk.expect(lo <= run <= hi, what + " does not count the errors", edge=e, count=run, between=(int(lo), int(hi)), **ctx):
            return
    chk.expect(edges[0] <= v[0] + eps and edges[-1] >= v[-1] - eps, what + " does not span the errors", edges=(edges[0], edges[-1]), errors=(v[0], v[-1]), **ctx)


def judge_stats(chk, W, st, ctx):
    io_ok, text = chk.guard(lambda: W.io.json_dumps(st), "statistics cannot be written as JSON", **ctx)
    if not io_ok:
        return None
    bad = finite(json.loads(text))
    chk.expect(not bad, "statistics are not finite numbers", where=bad[:5], **ctx)
    st = json.loads(text)
    # times
    t = st["processing_statistics"]["steps_times"]
    total = 0
    for key, n in (("Feature Extraction", "features"), ("Features Matching", "matches"), ("Tracks Merging", "tracks"), ("Reconstruction", "reconstruction")):
        chk.close([t[key]], [W.times.get(n, -1)], 1e-9, "time of a step", step=key, **ctx)
        total += W.times.get(n, 0)
    chk.close([t["Total Time"]], [total], 1e-9, "total time", rel=True, **ctx)
    # area
    o = np.array([s["o"] for p in W.plain for s in p["shots"].values()])
    area = st["processing_statistics"]["area"]
    if len(o):
        e = o.max(0) - o.min(0)
        chk.count("areas compared")
        chk.count("reconstructions on the negative side", bool((o.max(0)[:2] < 0).any()))
        chk.close([area], [e[0] * e[1]], 1e-6, "area of the reconstructions", rel=True, **ctx)
    else:
        chk.expect(area == -1, "area of nothing", got=area, **ctx)
    # features
    shots = [s for p in W.plain for s in p["shots"]]
    det = [W.detected[s] for s in shots if s in W.detected]
    rec = [sum(t in p["points"] for t in W.obs[s]) for p in W.plain for s in p["shots"]]
    for name, vals in (("detected_features", [det]), ("reconstructed_features", [rec, [x for x in rec if x]])):
        got = st["features_statistics"][name]
        want = [{"min": min(v), "max": max(v), "mean": int(sum(v) / len(v)), "median": int(np.median(v))} if v else {k: -1 for k in ("min", "max", "mean", "median")} for v in vals]
        chk.expect(got in want, "feature counts: " + name, got=got, want=want, **ctx)
    # reconstruction
    R = st["reconstruction_statistics"]
    gps = sum(s["gps"] is not None for p in W.plain for s in p["shots"].values())
    lengths = []
    for p in W.plain:
        for t in p["points"]:
            n = sum(t in W.obs[s] for s in p["shots"])
            lengths.append(n if W.in_map and n else W.track_len[t])
    for key, want in (("components", len(W.recs)), ("has_gps", gps > 2), ("has_gcp", bool(W.gcp)), ("initial_points_count", len(W.track_len)), ("initial_shots_count", len(W.images)),
                      ("reconstructed_points_count", len(lengths)), ("reconstructed_shots_count", len(shots)), ("observations_count", sum(lengths)),
                      ("histogram_track_length", {str(n): lengths.count(n) for n in lengths})):
        chk.expect(R[key] == want, "statistics: " + key, got=R[key], want=want, **ctx)
    mean = lambda v: sum(v) / len(v) if v else -1
    chk.close([R["average_track_length"]], [mean(lengths)], 1e-9, "statistics: average_track_length", **ctx)
    want, got = mean([n for n in lengths if n > 2]), R["average_track_length_over_two"]
    without_shortest = mean([n for n in lengths if n > min(lengths)])
    chk.count("shortest tracks longer than two", bool(lengths) and min(lengths) > 2)
    chk.expect(abs(got - want) <= 1e-9 * abs(want), "statistics: average_track_length_over_two", "over-two-leaves-out-the-shortest"
               if lengths and min(lengths) != 2 and abs(got - without_shortest) <= 1e-9 * abs(want) else None, got=got, want=want, lengths=sorted(set(lengths)), **ctx)
    res = [W.residuals(r) for r in range(len(W.recs))]
    every = [e for r in res for e in r.values()]
    W.res = res
    kept = [e for e in every if np.linalg.norm(e[1]) <= CUTOFF]
    W.clear = not W.rounded and all(abs(np.linalg.norm(e[1]) - CUTOFF) > 1e-4 for e in every)
    if W.clear:
        chk.count("outliers left out", len(every) - len(kept))
        chk.count("reprojection errors compared", len(kept))
        for key, i in (("normalized", 0), ("pixels", 1), ("angular", 2)):
            v = [float(np.linalg.norm(e[i])) for e in kept]
            got = R["reprojection_error_" + key]
            tol = 1e-6 if i < 2 else 1e-7
            chk.close([got], [np.mean(v) if v else -1], tol, "average reprojection error, " + key, **ctx)
            h = R["reprojection_histogram_" + key]
            if v and max(v) > 1e-4:
                judge_histogram(chk, h, v, "histogram of reprojection errors, " + key, ctx)
            elif not v:
                chk.expect(list(h[0]) == [], "histogram of no errors", got=h, **ctx)
    # cameras and rigs
    big = {}
    for p in W.plain:
        for n in p["params"]:
            big.setdefault(n, []).append((len(p["shots"]), p))
    C = st["camera_errors"]
    chk.expect(set(C) == set(big), "cameras of the statistics are not those of the reconstructions", got=sorted(C), want=sorted(big), **ctx)

    def focal_of(v):
        return v.get("focal")

    for n in set(C) & set(big):
        p = W.params[n]
        best = max(k for k, _ in big[n])
        among = [q for k, q in big[n] if k == best]
        if "focal" in p:
            chk.close([C[n]["initial_values"]["focal"]], [p["focal"]], 1e-9, "initial focal", **ctx)
            chk.close([C[n]["optimized_values"]["focal"]], [p["focal"] * 1.1], 1e-9, "optimized focal", **ctx)
            chk.expect(all(abs(C[n]["initial_values"].get(k, v) - v) < 1e-12 and k in C[n]["initial_values"] for k, v in zip(gen.DNAMES[p["model"]], p["distortion"])), "distortion of a camera in the statistics",
                       got=C[n]["initial_values"], want=p, **ctx)
        b = C[n]["bias"]
        chk.expect(any(np.allclose(gen.rodrigues(np.array(b["rotation"])), q["bias"][n][0], atol=1e-9) and np.allclose(b["translation"], q["bias"][n][1], atol=1e-9) and abs(b["scale"] - q["bias"][n][2]) < 1e-9
                       for q in among), "bias of a camera is not that of the largest reconstruction having it", got=b, **ctx)
    E = st["rig_errors"]
    have = {n for p in W.plain for n in p["rigs"]}
    chk.expect(set(E) == have, "rig cameras of the statistics are not those of the reconstructions", got=sorted(E), want=sorted(have), **ctx)
    for n in set(E) & have:
        chk.count("rig cameras compared")
        for key, (r, t) in (("initial_values", W.rig_initial[n]), ("optimized_values", next(p["rigs"][n] for p in W.plain if n in p["rigs"]))):
            chk.close(E[n][key]["rotation"], r, 1e-9, "rotation of a rig camera", **ctx)
            chk.close(E[n][key]["translation"], t, 1e-9, "translation of a rig camera", **ctx)
    # geographic errors
    errors = []
    for p in W.plain:
        for s in p["shots"].values():
            if s["gps"] is not None:
                Rb, tb, sb = p["bias"][s["camera"]]
                errors.append(s["o"] - (sb * Rb @ s["gps"] + tb))
    chk.count("GPS errors compared", len(errors))
    judge_errors(chk, st["gps_errors"], errors, 1e-6, "GPS errors", ctx)
    gcp = [e for _, e in W.gcp if e is not None]
    chk.count("GCP errors compared", len(gcp))
    judge_errors(chk, st["gcp_errors"], gcp, 1e-4, "control point errors", ctx)
    return st


def judge_pictures(chk, W, st, ctx):
    """The data which the diagrams show."""
    from opensfm import stats

    out = os.path.join(W.root, "stats")
    os.makedirs(out, exist_ok=True)
    plot, real = Plot(), stats.plt
    stats.plt = plot
    try:
        args = (W.data, W.tm, W.recs, out, W.data.io_handler)
        for f in (lambda: stats.save_residual_grids(*args), lambda: stats.save_matchgraph(*args), lambda: stats.save_residual_histogram(st, out, W.data.io_handler), lambda: stats.save_heatmap(*args), lambda: stats.save_topview(*args)):
            ok, _ = chk.guard(f, "a diagram of the statistics", **ctx)
            plot.calls = []
            if not ok:
                return
    finally:
        stats.plt = real
    saved = plot.saved
    cams = {n: p["params"][n] for p in W.plain for n in p["params"]}
    if W.plain:
        chk.count("cameras missing from the last reconstruction", any(n not in W.plain[-1]["params"] for n in cams))
    clean = {n: n.replace("/", "_") for n in cams}
    # heatmaps: one of each camera
    heat = {f for f in saved if f.startswith("heatmap_")}
    chk.expect(heat == {"heatmap_%s.png" % c for c in clean.values()}, "feature heatmaps are not those of the cameras", got=sorted(heat), want=sorted(clean.values()), **ctx)
    for n, p in cams.items():
        calls = saved.get("heatmap_%s.png" % clean[n])
        if not calls:
            continue
        im = np.array([a[0] for k, a, _ in calls if k == "imshow"][0])
        pts = [W.obs[s][t][0] for q in W.plain for s, v in q["shots"].items() if v["camera"] == n for t in W.obs[s] if t in q["points"]]
        if not chk.expect(np.isfinite(im).all(), "heatmap is not finite", camera=n, **ctx):
            continue
        chk.count("heatmaps compared", bool(pts))
        h, w = im.shape
        size = max(p["width"], p["height"])
        near = np.zeros(im.shape, bool)
        top = im.max()
        for q in pts:
            x, y = (q[0] * size / p["width"] + 0.5) * w, (q[1] * size / p["height"] + 0.5) * h
            x0, y0 = int(np.clip(x, 0, w - 1)), int(np.clip(y, 0, h - 1))
            near[max(0, y0 - 17):y0 + 18, max(0, x0 - 17):x0 + 18] = True
            if 2 < x0 < w - 3 and 2 < y0 < h - 3:
                if not chk.expect(im[y0 - 1:y0 + 2, x0 - 1:x0 + 2].max() > im.min(), "heatmap is cold at a feature", camera=n, at=(x0, y0), top=top, **ctx):
                    break
        if pts and not near.all():
            chk.expect(im[~near].max() <= im.min() + 1e-9 * max(top, 1), "heatmap is hot away from features", camera=n, **ctx)
    # residual grids
    if W.clear:
        want = {}
        for r, q in enumerate(W.plain):
            for (s, t), e in W.res[r].items():
                if np.linalg.norm(e[1]) <= CUTOFF:
                    want.setdefault(q["shots"][s]["camera"], []).append((W.obs[s][t][0], e[0]))
        grids = {f for f in saved if f.startswith("residuals_")}
        chk.expect(grids == {"residuals_%s.png" % clean[n] for n in want}, "residual grids are not those of the cameras with residuals", got=sorted(grids), want=sorted(want), **ctx)
        for n, es in want.items():
            calls = saved.get("residuals_%s.png" % clean[n])
            if not calls:
                continue
            U, V = [np.array(a[:2]) for k, a, _ in calls if k == "quiver"][0]
            h, w = U.shape
            p = cams[n]
            size = max(p["width"], p["height"])
            cells, skip = {}, False
            for q, e in es:
                x, y = (q[0] * size + p["width"] / 2) * w / p["width"], (q[1] * size + p["height"] / 2) * h / p["height"]
                skip |= min(abs(x - round(x)), abs(y - round(y))) < 1e-7
                cells.setdefault((int(np.clip(y, 0, h - 1)), int(np.clip(x, 0, w - 1))), []).append(e)
            if skip:
                continue
            G = np.zeros((2, h, w))
            for (y, x), v in cells.items():
                G[:, y, x] = np.mean(v, axis=0)
            chk.count("cells of residual grids compared", len(cells))
            big = np.abs(G).max()
            if big > 1e-3:
                k = (U.ravel() @ G[0].ravel() + V.ravel() @ G[1].ravel()) / (G ** 2).sum()
                chk.close(np.array([U, V]) / (k or 1.0), G, 1e-4 * big + 1e-5, "residual grid is not the average of the residuals of each cell", camera=n, **ctx)
    # match graph
    o = np.array([s["o"] for p in W.plain for s in p["shots"].values()]).reshape(-1, 3)
    with open(os.path.join(W.root, "config.yaml")) as f:
        least = 2 * int(f.read().split("resection_min_inliers:")[1])
    edges, any_edge = [], False
    for q in W.plain:
        ids = list(q["shots"])
        for i, a in enumerate(ids):
            for b in ids[:i]:
                common = sum(t in W.obs[b] and any(t in p["points"] for p in W.plain) for t in W.obs[a])
                any_edge |= common > 0
                if common >= least:
                    edges.append((a, b, q))
    calls = saved.get("matchgraph.png")
    chk.expect((calls is not None) == any_edge, "match graph of images which have no matches, or none of those which have", drawn=calls is not None, **ctx)
    if calls:
        lines = sorted(sorted(zip(np.round(a[0], 5), np.round(a[1], 5))) for k, a, o in calls if k == "plot" and o.get("linestyle") == "-")
        want = sorted(sorted((np.round(q["shots"][s]["o"][0], 5), np.round(q["shots"][s]["o"][1], 5)) for s in (a, b)) for a, b, q in edges)
        chk.count("edges of the match graph compared", len(want))
        chk.expect(len(lines) == len(want) and (not want or np.allclose(lines, want, atol=1e-4)), "match graph does not show the matched images", got=len(lines), want=len(want), **ctx)
        dots = [(a[0], a[1]) for k, a, o in calls if k == "plot" and o.get("marker") == "o"]
        chk.expect(len(dots) == len(o) and np.abs(np.array(dots)[:, None] - o[None, :, :2]).max(2).min(0).max() < 1e-6, "match graph does not show the images", **ctx)
    # histograms
    if st["reconstruction_statistics"]["reprojection_histogram_pixels"][0]:
        calls = saved.get("residual_histogram.png") or []
        hists = [a for k, a, _ in calls if k == "hist"]
        chk.expect(len(hists) == 3 and all(list(a[2]) == list(st["reconstruction_statistics"]["reprojection_histogram_" + n][0]) and list(a[1]) == list(st["reconstruction_statistics"]["reprojection_histogram_" + n][1])
                                           for a, n in zip(hists, ("normalized", "pixels", "angular"))), "drawn histograms are not those of the statistics", **ctx)
    # top view
    calls = saved.get("topview.png")
    o = np.array([s["o"] for p in W.plain for s in p["shots"].values()])
    chk.expect((calls is not None) == (len(o) > 0), "top view of nothing, or none of the images", **ctx)
    if calls:
        im = np.array([a[0] for k, a, _ in calls if k == "imshow"][0])
        dots = [(a[0], a[1]) for k, a, q in calls if k == "plot" and q.get("marker") == "o"]
        gps = [(a[0], a[1]) for k, a, q in calls if k == "plot" and q.get("marker") == "v"]
        n_gps = sum(s["gps"] is not None for p in W.plain for s in p["shots"].values())
        chk.expect(len(dots) == len(o) and len(gps) == n_gps and max(im.shape) <= 4000, "top view does not show the images", got=(len(dots), len(gps)), want=(len(o), n_gps), size=im.shape, **ctx)
        if len(dots) == len(o):
            chk.count("top views compared")
            allo = np.vstack([o] + [s["gps"][None] for p in W.plain for s in p["shots"].values() if s["gps"] is not None])[:, :2]
            px = np.array(dots + gps, dtype=float)
            for ax in (0, 1):
                g, w = np.sort(px[:, ax]), np.sort(allo[:, ax])
                span = w[-1] - w[0]
                if span < 1e-3 * np.ptp(allo):
                    continue
                A = np.stack([w, np.ones(len(w))], 1)
                fit = np.linalg.lstsq(A, g, rcond=None)[0]
                chk.expect(np.abs(A @ fit - g).max() <= 1.5 and fit[0] > 0, "places in the top view are not those of the images", axis=ax, error=float(np.abs(A @ fit - g).max()), **ctx)
            chk.expect((px >= 0).all() and (px[:, 0] < im.shape[1]).all() and (px[:, 1] < im.shape[0]).all(), "images outside of the top view", **ctx)


class Fpdf:
    """Stand-in for the PDF library which keeps the text and pictures."""

    def __init__(self, *a):
        self.text, self.pictures = [], []
        self.x = self.y = 0

    def cell(self, w, h, txt, **k):
        self.text.append(txt)

    def image(self, f, *a, **k):
        self.pictures.append(os.path.basename(f))

    def get_x(self):
        return self.x

    def get_y(self):
        return self.y

    def set_xy(self, x, y):
        self.x, self.y = x, y

    def output(self):
        return b"%PDF-stand-in"

    def __getattr__(self, name):
        return lambda *a, **k: None


def judge_report(chk, W, st, ctx, real=False):
    from opensfm import report

    old = report.FPDF
    made = []

    def make(*a):
        made.append(Fpdf(*a))
        return made[-1]

    if not real:
        report.FPDF = make
        # pictures of the stand-in are not pictures
        for f in os.listdir(os.path.join(W.root, "stats")):
            if f.endswith(".png"):
                import cv2

                cv2.imwrite(os.path.join(W.root, "stats", f), np.zeros((4, 5), np.uint8))
    from opensfm.actions import export_report

    try:
        ok, _ = chk.guard(lambda: export_report.run_dataset(W.data), "report", **ctx)
    finally:
        report.FPDF = old
    if not ok:
        return
    f = os.path.join(W.root, "stats", "report.pdf")
    chk.expect(os.path.exists(f) and open(f, "rb").read(4) == b"%PDF", "report is not a PDF file", **ctx)
    chk.count("reports written")
    if real:
        return
    text = made[0].text
    R, P = st["reconstruction_statistics"], st["processing_statistics"]
    a, b = R["reconstructed_shots_count"], R["initial_shots_count"]
    c, d = R["reconstructed_points_count"], R["initial_points_count"]
    want = ["%d over %d shots" % (a, b), "%d over %d points" % (c, d), "%d component" % R["components"], "%.6f km" % (P["area"] / 1e6), "%.2f seconds" % P["steps_times"]["Total Time"],
            "%.2f images" % R["average_track_length"], "%.2f images" % R["average_track_length_over_two"],
            "%.2f / %.2f / %.5f" % (R["reprojection_error_normalized"], R["reprojection_error_pixels"], R["reprojection_error_angular"])]
    if a and b:
        want.append("(%.1f%%)" % (100 * a / b))
    for e in ("gps_errors", "gcp_errors"):
        if st[e]:
            want += ["%.3f" % st[e][k][x] for k in ("mean", "std", "error") for x in "xyz"] + ["%.3f" % st[e]["average_error"]]
    for v in P["steps_times"].values():
        want.append("%.2f sec." % v)
    for w in want:
        chk.count("numbers of the report compared")
        if not chk.expect(any(w in t for t in text), "a number of the statistics is missing in the report", number=w, **ctx):
            break
    pics = [p for p in made[0].pictures if p.startswith("residuals_")]
    have = {p for p in os.listdir(os.path.join(W.root, "stats")) if p.startswith("residuals_")}
    chk.expect(sorted(pics) == sorted(have), "residual grids of the report are not one of each camera", got=pics, want=sorted(have), **ctx)


def histories(chk):
    from opensfm import stats

    for i in range(chk.n(280, 6000)):
        rng = chk.rng_for("statistics", i)
        root = os.path.join(chk.tmp, "s%d" % i)
        W = World(rng, root)
        ctx = dict(reconstructions=[(len(p["shots"]), len(p["points"]), len(p["params"])) for p in W.plain], models=[p["model"] for p in W.params.values()], images=len(W.images), gcp=len(W.gcp), in_map=W.in_map)
        chk.case("statistics", ctx, sig=(chk.shard, i), nontrivial=any(p["shots"] for p in W.plain))
        chk.count("empty datasets", not any(p["points"] for p in W.plain))
        chk.count("several reconstructions", len(W.recs) > 1)
        chk.count("points at the center of a camera", W.center)
        ok, st = chk.guard(lambda: stats.compute_all_statistics(W.data, W.tm, W.recs), "statistics", **ctx)
        if ok:
            chk.count("statistics computed")
            plain = judge_stats(chk, W, st, ctx)
            if plain is not None and i % 3 == 0:
                judge_pictures(chk, W, plain, ctx)
                with open(os.path.join(root, "stats", "stats.json"), "w") as f:
                    json.dump(plain, f)
                judge_report(chk, W, plain, ctx)
        if i % 4 == 0:
            most = int(rng.integers(1, 20))
            before = [set(r.points) for r in W.recs]
            ok, _ = chk.guard(lambda: stats.decimate_points(W.recs, most), "decimation", **ctx)
            for r, b in zip(W.recs, before):
                now = set(r.points)
                chk.count("points decimated", len(b) - len(now))
                chk.expect(now <= b and len(now) == min(len(b), most), "points left by decimation", before=len(b), most=most, left=len(now), **ctx)
        shutil.rmtree(root)


def commands(chk):
    """The real commands on files, with real pictures."""
    import cv2
    from opensfm.actions import compute_statistics

    for i in range(chk.n(16, 240)):
        rng = chk.rng_for("commands", i)
        root = os.path.join(chk.tmp, "r%d" % i)
        W = World(rng, root, rich=(i + chk.shard) % 4 != 3)
        ctx = dict(reconstructions=[(len(p["shots"]), len(p["points"]), len(p["params"])) for p in W.plain], images=len(W.images), number=i)
        chk.case("commands", ctx, sig=(chk.shard, i))
        W.data.save_reconstruction(W.recs)
        W.data.save_tracks_manager(W.tm)
        ok, _ = chk.guard(lambda: compute_statistics.run_dataset(W.data, 5 if i % 2 else -1), "compute_statistics", **ctx)
        if ok:
            f = os.path.join(root, "stats", "stats.json")
            if chk.expect(os.path.exists(f), "compute_statistics wrote no statistics", **ctx):
                st = json.load(open(f))
                chk.expect(not finite(st), "statistics are not finite numbers", where=finite(st)[:5], **ctx)
                R = st["reconstruction_statistics"]
                chk.expect(R["reconstructed_points_count"] == sum(len(p["points"]) for p in W.plain) and R["reconstructed_shots_count"] == sum(len(p["shots"]) for p in W.plain)
                           and R["initial_points_count"] == len(W.track_len), "statistics of the command", got={k: v for k, v in R.items() if k.endswith("count")}, **ctx)
            for g in os.listdir(os.path.join(root, "stats")):
                if g.endswith(".png"):
                    im = cv2.imread(os.path.join(root, "stats", g))
                    chk.count("pictures drawn")
                    chk.expect(im is not None and im.size > 0, "a diagram is not a picture", file=g, **ctx)
            judge_report(chk, W, None, ctx, real=True)
        shutil.rmtree(root)


def run(chk):
    import matplotlib

    matplotlib.use("Agg")
    histories(chk)
    commands(chk)
