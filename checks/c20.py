"""C20: incremental reconstruction yields valid, accurate models."""
import inspect
import json
import math
import os

import numpy as np

import gen
import scenes
from checks import c17

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 500, "thorough": 850}
REQUIRED = ["models judged", "points judged", "images placed", "outlier removals watched", "bundles watched", "triangulations watched", "resections watched",
            "models of clean data judged", "runs repeated", "filters judged", "neighbourhoods judged", "maps realigned"]
RULE = ("one case = one reconstruction of a generated dataset (watched step by step), or one of its steps run on a random map; "
        "non-trivial = at least one model or one decision was made")
ASSUMPTIONS = ["success and accuracy on clean data are judged as shares of many runs, because the robust estimators inside are random"]


# ------------------------------------------------------------------ helpers
def spread_rig(rng, S, wide=False):
    """Give every shot a sibling looking elsewhere; returns rig cameras and assignments."""
    Rr = gen.rodrigues(rng.normal(size=3) * (0.7 if wide else 0.08))
    tr = rng.normal(size=3) * 0.3
    rigs = {"main": (np.eye(3), np.zeros(3)), "side": (Rr, tr)}
    groups = {}
    for i, s in enumerate(list(S.shots)):
        d = S.shots[s]
        sib = "side_" + s
        S.shots[sib] = dict(d, R=Rr @ d["R"], t=Rr @ d["t"] + tr)
        groups["inst%d" % i] = [(s, "main"), (sib, "side")]
    return rigs, groups


def union(A, B):
    """Two scenes without anything in common."""
    n = len(A.X)
    A.cams.update({"b_" + k: v for k, v in B.cams.items()})
    for s, d in B.shots.items():
        A.shots["b_" + s] = dict(d, cam="b_" + d["cam"])
        A.obs["b_" + s] = {k + n: v for k, v in B.obs[s].items()}
    A.X = np.vstack([A.X, B.X])
    A.colors = np.vstack([A.colors, B.colors])
    return A


def bearing(cam, xy):
    return np.array(cam.pixel_bearing(np.array(xy, float)))


def angles(rec, shot, X, xy):
    """Chord between where a point is and where the observation looks."""
    sh = rec.shots[shot]
    d = X - sh.pose.get_origin()
    b = sh.pose.get_rotation_matrix().T @ bearing(sh.camera, xy)
    return float(np.linalg.norm(d / np.linalg.norm(d) - b))


def obs_of(p):
    return {s.id: f for s, f in p.get_observations().items()}


def observations(rec):
    return {k: obs_of(p) for k, p in rec.points.items()}


def error_of(rec, shot, X, xy):
    sh = rec.shots[shot]
    if sh.camera.projection_type == "spherical":
        return angles(rec, shot, X, xy)
    return float(np.linalg.norm(np.array(sh.project(np.array(X))) - xy))


def threshold(config, errors):
    kind = config["bundle_outlier_filtering_type"]
    if kind == "FIXED":
        return config["bundle_outlier_fixed_threshold"]
    if kind == "AUTO":
        E = [np.ravel(e) for p in errors.values() for e in p.values()]
        if not E:
            return 0.0
        n = max(len(e) for e in E)
        E = np.array([np.pad(e, (0, n - len(e))) for e in E])
        m = np.median(E, axis=0)
        sd = 1.486 * np.median(np.linalg.norm(E - m, axis=1))
        return config["bundle_outlier_auto_ratio"] * float(np.linalg.norm(m + sd))
    return 1.0


class Watch:
    """Oracles on the public steps of the pipeline while it runs."""

    def __init__(self, chk, tm):
        from opensfm import reconstruction

        self.chk, self.tm, self.mod, self.old = chk, tm, reconstruction, {}

    def __enter__(self):
        for name in ("bundle", "bundle_local", "bundle_shot_poses", "remove_outliers", "retriangulate", "triangulate_shot_features", "resect"):
            f = getattr(self.mod, name, None)
            if f is None:
                continue
            self.old[name] = f
            setattr(self.mod, name, self.wrap(name, f))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.mod, n, f)

    def wrap(self, name, f):
        sig = inspect.signature(f)
        judge = getattr(self, "_" + name)

        def inner(*a, **k):
            v = sig.bind(*a, **k)
            v.apply_defaults()
            v = v.arguments
            if "reconstruction" not in v or "config" not in v and "data" not in v:
                return f(*a, **k)
            v = dict(v, config=v.get("config") or v["data"].config)
            g = judge(v)
            next(g)
            out = f(*a, **k)
            try:
                g.send(out)
            except StopIteration:
                pass
            return out

        return inner

    def _same_graph(self, v, name):
        rec = v["reconstruction"]
        before, shots, cams = observations(rec), set(rec.shots), set(rec.cameras)
        yield
        self.chk.count("bundles watched")
        self.chk.expect(observations(rec) == before and set(rec.shots) == shots and set(rec.cameras) == cams,
                        name + ": an adjustment changed which points, images or observations there are")
        bad = [k for k, p in rec.points.items() if not np.isfinite(p.coordinates).all()]
        self.chk.expect(not bad, name + ": points that are not finite", got=bad[:5])

    def _bundle(self, v):
        return self._same_graph(v, "bundle")

    def _bundle_local(self, v):
        return self._same_graph(v, "local bundle")

    def _bundle_shot_poses(self, v):
        rec = v["reconstruction"]
        chosen = {rec.shots[s].rig_instance_id for s in v.get("shot_ids", rec.shots)}
        others = {s: np.array(rec.shots[s].pose.get_cam_to_world()) for s in rec.shots if rec.shots[s].rig_instance_id not in chosen}
        X = {k: np.array(p.coordinates) for k, p in rec.points.items()}
        g = self._same_graph(v, "shot bundle")
        next(g)
        yield
        try:
            g.send(None)
        except StopIteration:
            pass
        worst = max([np.abs(np.array(rec.shots[s].pose.get_cam_to_world()) - m).max() for s, m in others.items()] or [0])
        worst = max([worst] + [np.abs(rec.points[k].coordinates - x).max() for k, x in X.items()])
        self.chk.expect(worst <= 1e-9, "adjusting the pose of some images moved other images or points", got=worst)

    def _remove_outliers(self, v):
        chk, rec = self.chk, v["reconstruction"]
        errors = {k: {s: np.array(e) for s, e in p.reprojection_errors.items()} for k, p in rec.points.items()}
        before = observations(rec)
        some = set(before) if v.get("points") is None else set(v["points"])
        t = threshold(v["config"], errors)
        out = yield
        chk.count("outlier removals watched")
        judge_removal(chk, rec, before, errors, some, t, out)

    def _new_points(self, v, known):
        chk, rec, c = self.chk, v["reconstruction"], v["config"]
        t, ray = c["triangulation_threshold"], math.radians(c["triangulation_min_ray_angle"])
        chk.count("triangulations watched")
        for k, p in rec.points.items():
            if k in known:
                continue
            o = obs_of(p)
            X = np.array(p.coordinates)
            if not chk.expect(len(o) >= 2, "a point was triangulated from less than two images", point=k, got=o):
                continue
            track = self.tm.get_track_observations(k)
            chk.count("points triangulated")
            full = {s for s in track if s in rec.shots}
            if c["triangulation_type"] == "FULL":
                chk.expect(set(o) == full, "a triangulated point does not keep all of its track", got=sorted(o), want=sorted(full))
            else:
                chk.expect(set(o) <= full, "a triangulated point has observations out of its track", got=sorted(o), want=sorted(full))
            a = np.array([angles(rec, s, X, track[s].point) for s in o if s in track])
            if len(a) != len(o):
                continue
            if c["triangulation_type"] == "FULL":
                got = float(np.sqrt((a**2).mean()))
            else:
                got = float(a.max())
            chk.extreme("triangulated error over its limit", got / t)
            chk.expect(got <= 1.1 * t, "a triangulated point is not where its images look", point=k, got=a, limit=t)
            B = np.array([rec.shots[s].pose.get_rotation_matrix().T @ bearing(rec.shots[s].camera, track[s].point) for s in o])
            widest = max(np.arccos(np.clip(B @ B.T, -1, 1)).max(), 0)
            if c["triangulation_type"] == "FULL":
                chk.expect(widest >= 0.99 * ray, "a point was triangulated with too narrow rays", got=math.degrees(widest), limit=math.degrees(ray))
            depth = [float(B[i] @ (X - rec.shots[s].pose.get_origin())) for i, s in enumerate(o)]
            chk.expect(min(depth) > 0, "a point was triangulated behind an image", got=depth)

    def _triangulate_shot_features(self, v):
        rec = v["reconstruction"]
        known = {k: (np.array(p.coordinates), obs_of(p)) for k, p in rec.points.items()}
        yield
        self._new_points(v, known)
        self.chk.expect(all(k in rec.points and (rec.points[k].coordinates == x).all() and obs_of(rec.points[k]) == o for k, (x, o) in known.items()),
                        "triangulating new points changed old ones")

    def _retriangulate(self, v):
        yield
        self._new_points(v, {})

    def _resect(self, v):
        chk, rec = self.chk, v["reconstruction"]
        shots = set(rec.shots)
        old = {k: np.array(p.coordinates) for k, p in rec.points.items()}
        before = observations(rec)
        out = yield
        ok, new, report = out
        chk.count("resections watched")
        image = v["shot_id"]
        if not ok:
            chk.expect(set(rec.shots) == shots and observations(rec) == before, "an image that could not be placed left traces")
            return
        limit, least = v["threshold"], v["min_inliers"]
        chk.count("images placed")
        chk.expect(set(new) == set(rec.shots) - shots and image in new, "the images said to be added are others", got=sorted(new), want=sorted(set(rec.shots) - shots))
        seen = [(k, rec.points[k]) for k in old if k in rec.points and image in obs_of(rec.points[k])]
        chk.expect(len(seen) >= least, "an image was placed with too few inliers", got=len(seen), limit=least)
        track = self.tm.get_shot_observations(image)
        a = [angles(rec, image, old[k], track[k].point) for k, p in seen if k in track]
        chk.expect(len(a) == len(seen) and (not a or max(a) <= limit * 1.0001), "points are seen by a placed image although they do not fit", got=max(a or [0]), limit=limit)
        miss = [angles(rec, image, X, track[k].point) for k, X in old.items() if k in track and k in rec.points and image not in obs_of(rec.points[k])]
        chk.expect(not miss or min(miss) >= limit * 0.9999, "points that fit a placed image are not observed", got=min(miss or [9]), limit=limit)


def judge_removal(chk, rec, before, errors, some, t, out=None):
    after = observations(rec)
    want, count, edge = {}, 0, False
    for k, o in before.items():
        gone = set()
        if k in some:
            for s, e in errors[k].items():
                n = float(np.linalg.norm(e))
                if abs(n - t) < 1e-9 * (1 + t):
                    edge = True
                if n > t:
                    gone.add(s)
        count += len(gone)
        left = {s: f for s, f in o.items() if s not in gone}
        if not gone or len(left) >= 2:
            want[k] = left
    if edge:
        return
    bad = [k for k in set(want) | set(after) if want.get(k) != after.get(k)]
    chk.count("observations removed", count)
    chk.expect(not bad, "outlier removal: other observations than those over the limit were removed", limit=t, count=len(bad),
               got=[(k, after.get(k), want.get(k), {s: float(np.linalg.norm(e)) for s, e in errors.get(k, {}).items()}) for k in bad[:3]])
    if out is not None:
        chk.expect(out == count, "outlier removal: reported count", got=out, want=count)


def valid(chk, rec, tm, data, what, limit=None):
    """A model only refers to what exists."""
    for k, p in rec.points.items():
        chk.count("points judged")
        o = obs_of(p)
        if not chk.expect(len(o) >= 2, what + ": a point with less than two observations", point=k, got=o):
            continue
        track = tm.get_track_observations(k)
        for s, f in o.items():
            if not chk.expect(s in rec.shots and s in track and track[s].id == f, what + ": an observation that is no feature of its track", point=k, shot=s, feature=f):
                continue
            got = rec.shots[s].get_landmark_observation(p)
            chk.expect(np.array_equal(got.point, track[s].point) and list(got.color) == list(track[s].color) and got.id == f,
                       what + ": an observation differs from its feature", point=k, shot=s)
            if limit is not None:
                e = error_of(rec, s, p.coordinates, track[s].point)
                chk.extreme("reprojection error over its limit", e / limit)
                chk.expect(e <= limit * 1.001 + 1e-7, what + ": an observation is further from its point than the limit", point=k, shot=s, got=e, limit=limit)
        chk.expect(any(np.allclose(list(p.color), list(v.color)) for v in track.values()), what + ": the colour of a point is not from its track", got=list(p.color))
    for s, sh in rec.shots.items():
        for lm in sh.get_valid_landmarks():
            if not chk.expect(lm.id in rec.points and s in obs_of(rec.points[lm.id]), what + ": an image sees a point that does not know", shot=s, point=lm.id):
                break
        chk.expect(np.isfinite(np.array(sh.pose.get_cam_to_world())).all(), what + ": a pose that is not finite", shot=s)
        R = sh.pose.get_rotation_matrix()
        chk.expect(np.abs(R @ R.T - np.eye(3)).max() < 1e-9, what + ": a rotation that is none", shot=s)
        if data is not None:
            e = data.load_exif(s)
            chk.expect(sh.camera.id == e["camera"], what + ": the camera of an image", got=sh.camera.id, want=e["camera"])


def umeyama(A, B):
    """Similarity taking A to B."""
    a, b = A - A.mean(0), B - B.mean(0)
    U, D, Vt = np.linalg.svd(b.T @ a)
    S = np.diag([1, 1, np.sign(np.linalg.det(U @ Vt))])
    R = U @ S @ Vt
    s = np.trace(np.diag(D) @ S) / max((a**2).sum(), 1e-30)
    return s, R, B.mean(0) - s * R @ A.mean(0)


def accuracy(S, rec):
    """Largest error of positions (relative to the size of the scene) and rotations, after alignment."""
    A = np.array([rec.shots[s].pose.get_origin() for s in rec.shots] + [rec.points[k].coordinates for k in rec.points])
    B = np.array([S.origin(s) for s in rec.shots] + [S.X[int(k)] for k in rec.points])
    s, R, t = umeyama(A, B)
    d = np.linalg.norm(s * A @ R.T + t - B, axis=1)
    size = np.sqrt(((B - B.mean(0))**2).sum(1).mean())
    r = [gen.rotation_angle(rec.shots[k].pose.get_rotation_matrix() @ R.T @ S.shots[k]["R"].T) for k in rec.shots]
    n = len(rec.shots)
    return float(d[:n].max() / size), float(np.median(d[n:]) / size) if len(d) > n else 0.0, float(max(r)), s


# ------------------------------------------------------------------ pipeline
def pipeline(chk, rng, rate, only=None):
    from opensfm import io, pygeometry, pymap, reconstruction
    from opensfm.actions import reconstruct

    for n in range(chk.n(96, 800) if not only else chk.n(64, 160)):
        models = [str(rng.choice(["perspective", "brown", "simple_radial", "radial", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "spherical", "dual"]))
                  for _ in range(1 + int(rng.random() < 0.3))]
        layout = "inside" if "spherical" in models else str(rng.choice(["ring", "line", "nadir"]))
        clean = n % 3 != 2 or only is not None
        S = scenes.make(rng, models, int(rng.integers(4, 9)), int(rng.integers(150, 300)), layout, 0.3, keep=1.0 if clean else 0.85)
        rigs = groups = None
        use_rig = rng.random() < 0.25 if not only else n % 2 == 0
        if use_rig:
            rigs, groups = spread_rig(rng, S, layout != "ring" and rng.random() < 0.5)
        S.observe(rng, 0.0 if clean else 0.0007, 1.0 if clean else 0.85)
        parts = 1
        if rng.random() < 0.25 and not only:
            T = scenes.make(rng, ["perspective"], 4, 180, "ring", 0.3)
            S = union(S, T)
            parts = 2
        if not clean:
            for s in S.obs:
                for k in S.obs[s]:
                    if rng.random() < 0.03:
                        w, h = S.cams[S.shots[s]["cam"]]["width"], S.cams[S.shots[s]["cam"]]["height"]
                        S.obs[s][k] = rng.uniform(-0.5, 0.5, 2) * [w / max(w, h), h / max(w, h)]
        alone = []
        if rng.random() < 0.3 and not only:
            # images which cannot be placed: one without tracks, one with five
            src = list(S.shots)[0]
            S.shots["none.jpg"] = dict(S.shots[src])
            S.obs["none.jpg"] = {}
            S.shots["few.jpg"] = dict(S.shots[src])
            S.obs["few.jpg"] = dict(list(S.obs[src].items())[:5])
            alone = ["none.jpg", "few.jpg"]
        config = {"processes": int(rng.choice([1, 1, 2])), "triangulation_type": str(rng.choice(["FULL", "FULL", "ROBUST"])),
                  "local_bundle_radius": int(rng.choice([0, 2, 3])), "bundle_outlier_filtering_type": str(rng.choice(["FIXED", "FIXED", "AUTO"])),
                  "bundle_outlier_auto_ratio": 4.0, "retriangulation": bool(rng.random() < 0.7), "bundle_interval": int(rng.choice([2, 999999])),
                  "filter_final_point_cloud": bool(rng.random() < 0.3), "optimize_camera_parameters": bool(rng.random() < 0.6),
                  "bundle_compensate_gps_bias": bool(rng.random() < 0.2), "align_method": str(rng.choice(["auto", "naive", "orientation_prior"])),
                  "bundle_analytic_derivatives": bool(rng.random() < 0.7), "resection_min_inliers": int(rng.choice([10, 20])),
                  "save_partial_reconstructions": bool(rng.random() < 0.1)}
        gps = str(rng.choice(["all", "all", "some", "none"]))
        if only:
            gps = "all"
        triangulate = only is not None or rng.random() < 0.1 and gps == "all" and parts == 1
        data_id = {"models": models, "layout": layout, "clean": clean, "rig": use_rig, "parts": parts, "gps": gps, "alone": alone, "config": config, "shots": len(S.shots),
                   "algorithm": "triangulation" if triangulate else "incremental"}
        chk.case("triangulation" if only else "pipeline", data_id, sig=(chk.shard, n))
        root = os.path.join(chk.tmp, "%s%d" % (only or "d", n))
        exifs = {s: S.exif(s, gps == "all" or (gps == "some" and j % 3 != 0)) for j, s in enumerate(sorted(S.shots))}
        if triangulate:
            for s in S.shots:
                up = S.shots[s]["R"]
                exifs[s]["opk"] = opk_of(S.shots[s]["R"])
        reference = rng.random() < 0.7
        data = S.dataset(root, config, reference=reference, exif=exifs)
        if rigs:
            lib = {}
            for r, (R, t) in rigs.items():
                p = pygeometry.Pose()
                p.set_rotation_matrix(R)
                p.translation = t
                lib[r] = pymap.RigCamera(p, r)
            data.save_rig_cameras(lib)
            data.save_rig_assignments(groups)
        tm = S.tracks_manager()
        data.save_tracks_manager(tm)
        algo = reconstruction.ReconstructionAlgorithm
        models_of = keep_models(data)
        with Watch(chk, data.load_tracks_manager()):
            ok, _ = chk.guard(lambda: reconstruct.run_dataset(data, algo.TRIANGULATION if triangulate else algo.INCREMENTAL), "reconstruct", **data_id)
        if not ok:
            continue
        tm = data.load_tracks_manager()
        recs = models_of[-1]
        stored = data.load_reconstruction()
        chk.expect([(sorted(r.shots), sorted(r.points)) for r in stored] == [(sorted(r.shots), sorted(r.points)) for r in recs], "the stored models are others")
        report = json.loads(data.load_report("reconstruction.json"))
        judge_models(chk, S, data, tm, recs, report, config, groups, alone, data_id, rate, gps, triangulate)
        if n % 6 == 0 and not triangulate:
            ok, _ = chk.guard(lambda: reconstruct.run_dataset(data, algo.INCREMENTAL), "reconstruct again", **data_id)
            if ok:
                again = models_of[-1]
                chk.count("runs repeated")
                same = [set(r.shots) for r in again] == [set(r.shots) for r in recs]
                if clean:
                    rate.add("repeated runs place the same images", same)
                    if same:
                        worst = max([np.abs(r.shots[s].pose.get_origin() - q.shots[s].pose.get_origin()).max() for r, q in zip(recs, again) for s in r.shots] or [0])
                        chk.extreme("difference between repeated runs", worst)
                        if gps == "all":
                            rate.add("repeated runs give the same positions", worst < 0.05, 0.4)


def keep_models(data):
    """Models as they are when they get saved (observations are not stored)."""
    kept, save = [], data.save_reconstruction

    def inner(recs, *a, **k):
        kept.append(list(recs))
        return save(recs, *a, **k)

    data.save_reconstruction = inner
    return kept


def opk_of(R):
    """Omega, phi, kappa (degrees) of a world to camera rotation, as the aircraft convention has them."""
    from opensfm import geometry

    return dict(zip(("omega", "phi", "kappa"), np.degrees(geometry.opk_from_rotation(R)))) | {"accuracy": 1.0}


def judge_models(chk, S, data, tm, recs, report, config, groups, alone, ident, rate, gps, triangulate):
    seen = [s for r in recs for s in r.shots]
    chk.count("models judged", len(recs))
    chk.expect(len(seen) == len(set(seen)), "an image is in several models", got=sorted(s for s in set(seen) if seen.count(s) > 1))
    member = {s: g for g, ss in (groups or {}).items() for s, _ in ss}
    for r in recs:
        inst = {member[s] for s in r.shots if s in member}
        have = set(r.shots)
        if not triangulate:
            chk.expect(all(set(s for s, _ in groups[g]) <= have for g in inst), "a rig was placed in parts", got=sorted(have))
        if groups:
            for g in inst:
                for s, c in groups[g]:
                    if s in r.shots:
                        chk.expect(r.shots[s].rig_camera_id == c and r.shots[s].rig_instance_id == g, "an image is in the wrong rig", shot=s,
                                   got=(r.shots[s].rig_camera_id, r.shots[s].rig_instance_id), want=(c, g))
        fixed = config["bundle_outlier_filtering_type"] == "FIXED"
        limit = 0.006 if fixed else None
        valid(chk, r, tm, data, "model", limit)
        ref = data.load_reference()
        chk.expect(abs(r.reference.lat - ref.lat) < 1e-9 and abs(r.reference.lon - ref.lon) < 1e-9 and abs(r.reference.alt - ref.alt) < 1e-6, "a model has another reference")
    if not triangulate:
        chk.expect([len(r.shots) for r in recs] == sorted((len(r.shots) for r in recs), reverse=True), "models are not sorted by size")
        left = set(tm.get_shot_ids()) - set(seen)
        chk.expect(set(report["not_reconstructed_images"]) == left, "reported images that could not be placed", got=sorted(report["not_reconstructed_images"]), want=sorted(left))
    for s in alone:
        chk.expect(s not in seen or (triangulate and s in tm.get_shot_ids()), "an image without enough points was placed", shot=s)
    if ident["clean"] and not triangulate:
        expected = len(S.shots) - len(alone)
        chk.count("models of clean data judged", len(recs))
        one = ident["parts"] == 1
        rate.add("clean data gives one model per part", len(recs) == ident["parts"], 0.7)
        rate.add("clean data places every image", len(seen) == expected, 0.7)
        for r in recs:
            if len(r.points) < 20 or len(r.shots) < 3:
                continue
            pos, pts, rot, s = accuracy(S, r)
            chk.extreme("position error on clean data", pos)
            rate.add("positions on clean data", pos < 0.02, 0.85)
            rate.add("points on clean data", pts < 0.02, 0.85)
            rate.add("rotations on clean data", rot < 0.02, 0.85)
            if gps == "all" and config["align_method"] != "orientation_prior" and not config["bundle_compensate_gps_bias"]:
                rate.add("scale on clean data", abs(np.log(s)) < 0.02, 0.85)
                ref = data.load_reference()
                shift = np.array(ref.to_topocentric(scenes.REF["latitude"], scenes.REF["longitude"], scenes.REF["altitude"]))
                d = max(np.linalg.norm(r.shots[k].pose.get_origin() - S.origin(k) - shift) for k in r.shots)
                chk.extreme("georeferenced position error on clean data", d)
                rate.add("georeferenced positions on clean data", d < 1.0, 0.85)
    elif ident["clean"] and triangulate:
        for r in recs:
            if len(r.points) < 20 or len(r.shots) < 3:
                continue
            pos, pts, rot, s = accuracy(S, r)
            chk.count("models of the triangulation algorithm judged")
            bad = not (pos < 0.07 and pts < 0.05 and rot < 0.04)
            if bad:
                chk.count("inaccurate models of the triangulation algorithm")
            for key in ("all", "rigs" if groups else "none"):
                rate.tri.setdefault(key, []).append(bad)


# ------------------------------------------------------------------ steps
def filters(chk, rng):
    from opensfm import pysfm
    from scipy.spatial import cKDTree

    for n in range(chk.n(48, 480)):
        models = [str(rng.choice(["perspective", "brown", "fisheye", "fisheye624", "simple_radial", "dual", "fisheye_opencv"]))]
        S = scenes.make(rng, models, int(rng.integers(2, 7)), int(rng.integers(30, 150)), keep=0.7, strength=0.3)
        far = rng.random(len(S.X)) < 0.1
        if S.layout == "line":
            S.X[far, 1] += rng.uniform(50, 2000, far.sum())
        S.observe(rng, 0.0005, 0.7)
        angle = float(rng.choice([0.5, 1.0, 3.0, 8.0]))
        det = float(rng.choice([1e-15, 1e-15, 1e-4]))
        chk.case("filters", {"models": models, "layout": S.layout, "angle": angle, "points": len(S.X)}, sig=(chk.shard, n))
        rec = S.reconstruction()
        if not rec.points:
            continue
        cond, gone, edge = {}, set(), False
        for k, p in rec.points.items():
            X = np.array(p.coordinates)
            o = obs_of(p)
            d = np.array([X - S.origin(s) for s in o])
            d /= np.linalg.norm(d, axis=1)[:, None]
            w = np.degrees(np.arccos(np.clip(d @ d.T, -1, 1)).max()) if len(d) > 1 else 0.0
            if abs(w - angle) < 1e-4:
                edge = True
            if w <= angle:
                gone.add(k)
                continue
            A = np.zeros((3, 3))
            for s in o:
                f = lambda Y, s=s: S.project(s, Y)[0]
                h = 1e-5 * np.linalg.norm(X - S.origin(s))
                J = ((f(X + h * np.eye(3)) - f(X - h * np.eye(3))) / (2 * h)).T
                A += J.T @ J
            dt = abs(np.linalg.det(A))
            if not 0.9 < dt / det > 1.1 and dt < 1.1 * det:
                edge |= dt > 0.9 * det
                gone.add(k)
                continue
            e = np.linalg.eigvalsh(np.linalg.inv(A))
            cond[k] = min(math.sqrt(max(e[2] / e[0], 0)) if e[0] > 0 else 1e9, 1000)
        c = np.array(list(cond.values()))
        maybe = set()
        if len(c):
            t = c.mean() + c.std()
            gone |= {k for k, v in cond.items() if v > t}
            maybe = {k for k, v in cond.items() if abs(v - t) < 1e-3 * t}
        before = observations(rec)
        count = pysfm.filter_badly_conditioned_points(rec.map, angle, det)
        after = observations(rec)
        got = set(before) - set(after)
        chk.count("filters judged")
        if not edge:
            chk.expect(got - maybe == gone - maybe, "badly conditioned points: others were removed", got=sorted(got - gone)[:5], missing=sorted(gone - got)[:5], angle=angle)
        chk.expect(count == len(got), "badly conditioned points: reported count", got=count, want=len(got))
        chk.expect(all(after[k] == before[k] for k in after), "badly conditioned points: what is left changed")
        chk.expect(not got or set().union(*[{s for s in S.shots}]) == set(rec.shots), "badly conditioned points: images vanished")
        for k in got:
            chk.expect(all(lm.id != k for s in before[k] for lm in rec.shots[s].get_valid_landmarks()), "an image still sees a removed point")
        # isolated points
        rec = S.reconstruction()
        ids = list(rec.points)
        P = np.array([rec.points[k].coordinates for k in ids]).astype(np.float32).astype(float)
        k = int(rng.choice([1, 3, 7, 7]))
        before = observations(rec)
        count = pysfm.remove_isolated_points(rec.map, k)
        after = observations(rec)
        got = set(before) - set(after)
        want, maybe = set(), set()
        if len(ids) > k:
            d = cKDTree(P).query(P, k + 1)[0][:, 1:]
            d = (d**2).mean(1)
            t = d.mean() + 1.25 * d.std()
            want = {ids[j] for j in np.nonzero(d > t)[0]}
            maybe = {ids[j] for j in np.nonzero(np.abs(d - t) < 1e-3 * t + 1e-9)[0]}
        chk.expect(got - maybe == want - maybe, "isolated points: others were removed", got=sorted(got - want)[:5], missing=sorted(want - got)[:5], k=k, points=len(ids))
        chk.expect(count == len(got) and all(after[q] == before[q] for q in after), "isolated points: reported count or the rest")


def neighbourhoods(chk, rng):
    from opensfm import geo, pygeometry, pysfm, reconstruction
    from checks import c18

    for n in range(chk.n(48, 480)):
        S = scenes.make(rng, ["perspective"], int(rng.integers(3, 12)), int(rng.integers(20, 120)), str(rng.choice(["line", "nadir"])), keep=float(rng.uniform(0.4, 1.0)))
        rec = S.reconstruction()
        common = {s: {str(k) for k, v in S.seen().items() if s in v and len(v) >= 2} for s in S.shots}
        centre = str(rng.choice(sorted(S.shots)))
        radius, least = int(rng.integers(1, 5)), int(rng.choice([1, 5, 20, 40]))
        most = int(rng.choice([2, 4, 30]))
        chk.case("neighbourhoods", {"layout": S.layout, "radius": radius, "least": least, "most": most, "shots": len(S.shots)}, sig=(chk.shard, n))
        want = c18.region(common, {s: s for s in common}, centre, radius, least, most)
        got = reconstruction.shot_neighborhood(rec, centre, radius, least, most)
        native = pysfm.BAHelpers.shot_neighborhood_ids(rec.map, centre, radius, least, most)
        chk.count("neighbourhoods judged")
        for name, (inside, edge) in (("", got), (" (native)", native)):
            inside, edge = set(inside), set(edge)
            if want[0] is not None:
                chk.expect(inside == want[0] and edge - inside == want[1] - want[0] and not edge & inside, "neighbourhood%s is another" % name, got=(sorted(inside), sorted(edge)),
                           want=(sorted(want[0]), sorted(want[1])), centre=centre)
            else:
                chk.expect(centre in inside and len(inside) <= most and not inside & edge, "neighbourhood%s is too large" % name, got=sorted(inside), limit=most)
        tm = S.tracks_manager()
        some = [k for k in rec.points if rng.random() < 0.6]
        for k in list(rec.points):
            if k not in some:
                rec.map.remove_landmark(rec.points[k])
        T = scenes.make(rng, ["perspective"], 3, 40)
        for s in list(S.shots):
            if s != centre and rng.random() < 0.5:
                rec.remove_shot(s)
        images = {s for s in S.shots if rng.random() < 0.8}
        images &= set(tm.get_shot_ids())
        got = reconstruction.reconstructed_points_for_images(tm, rec, images)
        want = {s: sum(str(k) in rec.points for k in S.obs[s] if str(k) in tm.get_shot_observations(s)) for s in images if s not in rec.shots}
        chk.expect(dict(got) == want and len(got) == len(want), "candidate images: other counts", got=got, want=want)
        chk.expect([c for _, c in got] == sorted((c for _, c in got), reverse=True), "candidate images are not sorted", got=got)
        # where an image is and looks
        ref = geo.TopocentricConverter(float(rng.uniform(-70, 70)), float(rng.uniform(-179, 179)), float(rng.uniform(0, 3000)))
        for s in rec.shots:
            lat, lon, alt, compass = reconstruction.shot_lla_and_compass(rec.shots[s], ref)
            chk.close(ref.to_topocentric(lat, lon, alt), S.origin(s), 1e-5, "geographic position of an image")
            d = S.shots[s]["R"][2]
            a = math.degrees(math.atan2(d[0], d[1])) % 360
            chk.expect(0 <= compass < 360.0001 and abs((compass - a + 180) % 360 - 180) < 1e-6, "compass of an image", got=compass, want=a)


def realigned(chk, rng):
    """A copy of a model follows a corrected model."""
    from opensfm import geo, pymap, pygeometry, pysfm, types

    for n in range(chk.n(48, 480)):
        S = scenes.make(rng, ["perspective", "brown"], int(rng.integers(3, 8)), int(rng.integers(20, 80)), str(rng.choice(["line", "ring"])), keep=0.8)
        move = bool(rng.random() < 0.5)
        update = bool(rng.random() < 0.7)
        rigid = bool(rng.random() < 0.5)
        chk.case("realigned", {"layout": S.layout, "other reference": move, "points": update, "rigid": rigid, "shots": len(S.shots)}, sig=(chk.shard, n))
        to = S.reconstruction()
        frm = S.reconstruction(points=False)
        if move:
            # only the height differs: the two frames are parallel
            frm.reference = geo.TopocentricConverter(scenes.REF["latitude"], scenes.REF["longitude"], scenes.REF["altitude"] + float(rng.uniform(-500, 500)))
        shift = np.array(to.reference.to_topocentric(frm.reference.lat, frm.reference.lon, frm.reference.alt))
        R0, t0 = gen.rand_rotation(rng), rng.normal(size=3)
        new = {}
        for s in S.shots:
            if rigid:
                R, o = S.shots[s]["R"] @ R0.T, R0 @ S.origin(s) + t0
            else:
                R, o = gen.rodrigues(rng.normal(size=3) * 0.1) @ S.shots[s]["R"], S.origin(s) + rng.normal(size=3) * 0.3
            p = pygeometry.Pose()
            p.set_rotation_matrix(R)
            p.set_origin(o)
            frm.rig_instances[frm.shots[s].rig_instance_id].pose = p
            scale = float(rng.choice([0.0, 1.0, 2.0, 0.5]))
            frm.shots[s].scale = scale
            frm.shots[s].merge_cc = int(rng.integers(0, 5))
            new[s] = (R, o + shift, 1.0 / scale if scale else 1.0, frm.shots[s].merge_cc, scale)
        for c in frm.cameras.values():
            c.focal = float(c.focal * rng.uniform(0.9, 1.1))
        lost = [s for s in list(frm.shots) if rng.random() < 0.2]
        if len(lost) == len(S.shots):
            lost = lost[1:]
        for s in lost:
            frm.remove_shot(s)
            new.pop(s)
        seen = observations(to)
        X = {k: np.array(p.coordinates) for k, p in to.points.items()}
        pysfm.realign_maps(frm.map, to.map, update)
        chk.count("maps realigned")
        if not chk.expect(set(to.shots) == set(new), "realigned: images are not those of the corrected model", got=sorted(to.shots), want=sorted(new)):
            continue
        for s, (R, o, f, cc, scale) in new.items():
            sh = to.shots[s]
            chk.close(sh.pose.get_rotation_matrix(), R, 1e-9, "realigned: orientation of an image")
            chk.close(sh.pose.get_origin(), o, 1e-5, "realigned: position of an image")
            chk.close(sh.camera.get_parameters_values(), frm.cameras[sh.camera.id].get_parameters_values(), 0, "realigned: camera of an image")
            chk.expect(sh.merge_cc == cc and sh.scale == scale, "realigned: scale or component of an image")
        for k, x in X.items():
            if k not in to.points:
                chk.expect(not set(seen[k]) - set(lost), "realigned: a point that is still seen vanished", got=k)
                continue
            y = np.array(to.points[k].coordinates)
            ss = [s for s in seen[k] if s in new]
            want = x
            if update and ss:
                d = sorted((np.linalg.norm(x - S.origin(s)), s) for s in ss)
                s = d[0][1]
                R, o, f, _, _ = new[s]
                want = f * R.T @ S.shots[s]["R"] @ (x - S.origin(s)) + o
                if len(d) > 1 and d[1][0] - d[0][0] < 1e-9:
                    continue
            chk.close(y, want, 1e-5, "realigned: a point does not follow its nearest image", point=k)


def priors(chk, rng):
    """New points for known images."""
    from opensfm import reconstruction

    for n in range(chk.n(24, 160)):
        S = scenes.make(rng, [str(rng.choice(["perspective", "brown", "fisheye", "spherical"]))], int(rng.integers(3, 7)), int(rng.integers(60, 150)), keep=0.9, noise=0.0003)
        if any(p["model"] == "spherical" for p in S.cams.values()):
            continue
        config = {"triangulation_type": str(rng.choice(["FULL", "ROBUST"]))}
        chk.case("prior", dict(config, layout=S.layout, shots=len(S.shots)), sig=(chk.shard, n))
        data = S.dataset(os.path.join(chk.tmp, "p%d" % n), config)
        tm = S.tracks_manager()
        prior = S.reconstruction(points=False)
        lost = sorted(S.shots)[:int(rng.integers(0, 2))]
        for s in lost:
            prior.remove_shot(s)
        with Watch(chk, tm):
            ok, out = chk.guard(lambda: reconstruction.reconstruct_from_prior(data, tm, prior), "reconstruct from prior", **config)
        if not ok:
            continue
        report, rec = out
        chk.count("priors judged")
        chk.expect(set(rec.shots) == set(S.shots) - set(lost), "from prior: other images", got=sorted(rec.shots))
        chk.expect(set(report["not_reconstructed_images"]) == set(lost) & set(tm.get_shot_ids()), "from prior: images said to be left out", got=report["not_reconstructed_images"])
        worst = max(np.abs(np.array(rec.shots[s].pose.get_world_to_cam()) - np.array(prior.shots[s].pose.get_world_to_cam())).max() for s in rec.shots)
        chk.expect(worst < 1e-12, "from prior: an image moved", got=worst)
        valid(chk, rec, tm, data, "from prior")
        wide = 0
        for k, ss in S.seen().items():
            ss = [s for s in ss if s in rec.shots]
            if len(ss) < 2:
                continue
            d = np.array([S.X[k] - S.origin(s) for s in ss])
            d /= np.linalg.norm(d, axis=1)[:, None]
            if np.degrees(np.arccos(np.clip(d @ d.T, -1, 1)).max()) > 5:
                wide += 1
                if config["triangulation_type"] == "FULL":
                    chk.expect(str(k) in rec.points, "from prior: a good track was not triangulated", track=k)
        chk.expect(not wide or len(rec.points) >= 0.7 * wide, "from prior: few points", got=len(rec.points), want=wide)
        e = [np.linalg.norm(np.array(p.coordinates) - S.X[int(k)]) for k, p in rec.points.items()]
        if e:
            chk.extreme("median error of points from prior", np.median(e))
            chk.expect(np.median(e) < 0.2, "from prior: points are far from the truth", got=float(np.median(e)))


def removals(chk, rng):
    """Outlier removal on made up errors."""
    from opensfm import reconstruction

    for n in range(chk.n(80, 800)):
        S = scenes.make(rng, ["perspective"], int(rng.integers(2, 6)), int(rng.integers(1, 40)), keep=0.8)
        rec = S.reconstruction()
        kind = str(rng.choice(["FIXED", "AUTO", "NONE"]))
        config = {"bundle_outlier_filtering_type": kind, "bundle_outlier_fixed_threshold": float(rng.uniform(0.002, 0.02)), "bundle_outlier_auto_ratio": float(rng.uniform(1, 4))}
        dims = str(rng.choice(["2", "3", "mixed"]))
        chk.case("removals", dict(config, points=len(rec.points), errors=dims), sig=(chk.shard, n))
        three = {s: dims == "3" or (dims == "mixed" and rng.random() < 0.5) for s in S.shots}
        scale = 0.5 if kind == "NONE" else 0.006
        errors = {}
        for k, p in rec.points.items():
            errors[k] = {} if rng.random() < 0.1 else {s: scale * rng.normal(size=3 if three[s] else 2) for s in obs_of(p)}
            p.reprojection_errors = errors[k]
        if rng.random() < 0.05:
            for k, p in rec.points.items():
                errors[k] = {}
                p.reprojection_errors = {}
        before = observations(rec)
        some = None if rng.random() < 0.5 else [k for k in before if rng.random() < 0.5]
        t = threshold(config, errors)
        ok, out = chk.guard(lambda: reconstruction.remove_outliers(rec, config, some) if some is not None else reconstruction.remove_outliers(rec, config), "outlier removal",
                            errors=dims, kind=kind)
        if ok:
            chk.count("outlier removals watched")
            judge_removal(chk, rec, before, errors, set(before) if some is None else set(some), t, out)


def schedule(chk, rng):
    """Bundling and retriangulation fall due as the settings say, counted from the last time."""
    from types import SimpleNamespace

    from opensfm import reconstruction as orec

    for n in range(chk.n(60, 1200)):
        c = {
            "bundle_interval": int(rng.choice([1, 2, 5, 20, 999999])),
            "bundle_new_points_ratio": float(rng.choice([1.05, 1.2, 2.0, 1e6])),
            "retriangulation": bool(rng.random() < 0.7),
            "retriangulation_ratio": float(rng.choice([1.1, 1.2, 1.5])),
        }
        rec = SimpleNamespace(points=range(int(rng.integers(20, 200))), shots=range(2))
        data = SimpleNamespace(config=c)
        chk.case("schedule", dict(c), sig=(chk.shard, n))
        b, t = orec.ShouldBundle(data, rec), orec.ShouldRetriangulate(data, rec)
        lastb, lastt = (len(rec.points), 2), len(rec.points)
        for k in range(12):
            rec.shots = range(len(rec.shots) + int(rng.integers(0, 3)))
            rec.points = range(max(0, len(rec.points) + int(rng.integers(-5, 60))))
            p, s = len(rec.points), len(rec.shots)
            bound = lastb[0] * c["bundle_new_points_ratio"]
            if abs(p - bound) > 1e-6:
                due = p > bound or s >= lastb[1] + c["bundle_interval"]
                chk.expect(bool(b.should()) == due, "bundling falls due at other moments than the settings say", points=p, shots=s, last=lastb, due=due, settings=c)
                chk.count("moments of the schedule")
            bound = lastt * c["retriangulation_ratio"]
            if abs(p - bound) > 1e-6:
                due = c["retriangulation"] and p > bound
                chk.expect(bool(t.should()) == due, "retriangulation falls due at other moments than the settings say", points=p, last=lastt, due=due, settings=c)
            if rng.random() < 0.3:
                b.done()
                lastb = (p, s)
            if rng.random() < 0.3:
                t.done()
                lastt = p


def run(chk):
    rng = chk.rng_for("main")
    rate = c17.Rate()
    for part in (filters, neighbourhoods, realigned, priors, removals, schedule):
        part(chk, chk.rng_for(part.__name__))
    rate.tri = {}
    pipeline(chk, chk.rng_for("triangulation"), rate, "triangulation")
    pipeline(chk, rng, rate)
    rate.judge(chk)
    for key, bad in rate.tri.items():
        chk.expect(sum(bad) <= 2 + 0.1 * len(bad), "the triangulation algorithm is not accurate on clean data with known poses", bad=sum(bad), of=len(bad), images=key)
