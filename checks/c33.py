"""C33: a stored reconstruction can be refined, extended, and filled with points again."""
import json
import os

import numpy as np

import gen
import scenes
from checks.c20 import accuracy, umeyama

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["bundles", "bundled positions", "bundles of several parts", "extensions", "images added", "images which can't be added", "extensions of nothing", "fillings", "points judged",
            "outputs elsewhere", "outputs in place", "bundles with control points"]
RULE = ("one case = one step (bundle, extend_reconstruction, reconstruct_from_prior) run on a data set whose stored reconstruction is a disturbed, partial or empty version of the truth; "
        "the files written and read are compared with the truth; non-trivial unless the stored reconstruction is empty")
ASSUMPTIONS = ["scenes have a wide base and many common points", "features are exact up to 0.0003 of the size of the picture"]


def disturbed(rng, S, rec, angle, shift, rate):
    """Poses and points moved by a little."""
    for i in rec.rig_instances.values():
        p = i.pose
        R = gen.rodrigues(rng.normal(size=3) * angle) @ p.get_rotation_matrix()
        o = p.get_origin() + shift * rng.normal(size=3)
        p.set_rotation_matrix(R)
        p.set_origin(o)
        i.pose = p
    for p in rec.points.values():
        p.coordinates = np.array(p.coordinates) + rate * rng.normal(size=3)


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def untouched(chk, before, after, may, what):
    """Only the files of `may` were written."""
    bad = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k not in may)
    chk.expect(not bad, what + ": other files changed", files=bad[:5])


def rms(rec, S, offset):
    """Of the projections of the points in their images, and of those of the true ones."""
    e, true = [], []
    seen = S.seen()
    for k, q in rec.points.items():
        for s in seen[int(k) - offset]:
            xy = np.array(rec.shots[s].project(np.array(q.coordinates)))
            e.append(np.sum((xy - S.obs[s][int(k) - offset]) ** 2))
            true.append(np.sum((S.project(s, S.X[int(k) - offset])[0][0] - S.obs[s][int(k) - offset]) ** 2))
    return float(np.sqrt(np.mean(e))), float(np.sqrt(np.mean(true)))


def scene(rng, prefix=""):
    model = str(rng.choice(["perspective", "brown", "fisheye", "simple_radial"]))
    n = int(rng.integers(5, 9))
    noise = float(rng.choice([0, 0.0003]))
    S = scenes.make(rng, [model], n, int(rng.integers(120, 220)), layout=str(rng.choice(["ring", "nadir"])), keep=0.9, noise=noise,
                    strength=0.3, size=(1000, 750), names=prefix + "im%02d.jpg")
    S.noisy = noise > 0
    return S


def weak(S):
    """Images without enough common points, which cannot be placed well."""
    many = {k: ss for k, ss in S.seen().items() if len(ss) >= 3}
    return any(sum(s in ss for ss in many.values()) < 25 for s in S.shots)


def bundles(chk, rng):
    from opensfm import dataset, pymap
    from opensfm.actions import bundle

    for i in range(chk.n(40, 900)):
        parts = []
        for p in range(2 if rng.random() < 0.3 else 1):
            S = scene(rng, "p%d_" % p)
            while weak(S):
                S = scene(rng, "p%d_" % p)
            S.cams = {"%d%s" % (p, c): v for c, v in S.cams.items()}
            S._limit = {}
            for d in S.shots.values():
                d["cam"] = "%d%s" % (p, d["cam"])
            parts.append(S)
        root = os.path.join(chk.tmp, "b%d" % i)
        gcp = bool(rng.random() < 0.35)
        config = {"optimize_camera_parameters": bool(rng.random() < 0.4), "bundle_use_gps": bool(rng.random() < 0.7), "bundle_max_iterations": 100, "bundle_use_gcp": gcp, "gcp_horizontal_sd": 0.01, "gcp_vertical_sd": 0.1}
        data = parts[0].dataset(root, config)
        for S in parts[1:]:
            for s in S.shots:
                open(os.path.join(root, "images", s), "wb").close()
                data.save_exif(s, S.exif(s))
        data.save_camera_models({c: gen.make_camera(v, c) for S in parts for c, v in S.cams.items()})
        tm = pymap.TracksManager()
        recs = []
        for p, S in enumerate(parts):
            rec = S.reconstruction(points=False)
            for k, ss in S.seen().items():
                if len(ss) < 2:
                    continue
                rec.create_point("%d" % (k + 1000 * p), S.X[k])
                for s in ss:
                    tm.add_observation(s, "%d" % (k + 1000 * p), S.observation(s, k))
            disturbed(rng, S, rec, 0.004, 0.03, 0.03)
            recs.append(rec)
        lost = []
        for p, (S, rec) in enumerate(zip(parts, recs)):  # tracks which are no points
            ks = list(rec.points)
            for k in ks[:: int(rng.integers(5, 30))]:
                rec.remove_point(k)
                lost.append(k)
        if gcp:
            S = parts[0]
            from opensfm import geo

            pts = []
            for j in range(4):
                k = sorted(S.seen(), key=lambda k: -len(S.seen()[k]))[j * 3]
                lat, lon, alt = geo.lla_from_topocentric(*S.X[k], scenes.REF["latitude"], scenes.REF["longitude"], scenes.REF["altitude"])
                pts.append({"id": "g%d" % j, "position": {"latitude": lat, "longitude": lon, "altitude": alt},
                            "observations": [{"shot_id": s, "projection": [float(v) for v in S.obs[s][k]]} for s in S.seen()[k]]})
            with open(os.path.join(root, "ground_control_points.json"), "w") as f:
                json.dump({"points": pts}, f)
            chk.count("bundles with control points")
        data.save_tracks_manager(tm)
        src = None if rng.random() < 0.5 else "from.json"
        dst = None if rng.random() < 0.5 else "to.json"
        data.save_reconstruction(recs, src)
        before = files(root)
        chk.case("bundle", {"config": config, "parts": len(parts), "models": [p["model"] for S in parts for p in S.cams.values()], "in": src, "out": dst}, sig=(chk.shard, i))
        ok, _ = chk.guard(lambda: bundle.run_dataset(dataset.DataSet(root), src, dst), "bundling a data set", config=config)
        if not ok:
            continue
        chk.count("bundles")
        chk.count("outputs in place" if (src or "reconstruction.json") == (dst or "reconstruction.json") else "outputs elsewhere")
        if len(parts) > 1:
            chk.count("bundles of several parts")
        untouched(chk, before, files(root), {dst or "reconstruction.json"}, "bundle")
        got = dataset.DataSet(root).load_reconstruction(dst)
        if not chk.expect(len(got) == len(recs), "bundle: number of reconstructions", got=len(got), want=len(recs)):
            continue
        for p, (S, rec, new) in enumerate(zip(parts, recs, got)):
            chk.expect(set(new.shots) == set(rec.shots), "bundle: other images", got=sorted(new.shots))
            chk.expect(set(new.points) == set(rec.points), "bundle: other points", difference=len(set(new.points) ^ set(rec.points)))
            chk.expect(set(new.cameras) == set(rec.cameras), "bundle: other cameras")
            if not config["optimize_camera_parameters"]:
                chk.expect(all(np.allclose(new.cameras[c].get_parameters_values(), gen.make_camera(S.cams[c], c).get_parameters_values(), rtol=0, atol=1e-12) for c in new.cameras),
                           "bundle: a camera changed which should not")
            Q = S
            A = np.array([new.shots[s].pose.get_origin() for s in new.shots])
            B = np.array([Q.origin(s) for s in new.shots])
            size = np.sqrt(((B - B.mean(0)) ** 2).sum(1).mean())
            f, R, t = umeyama(A, B)
            err = np.linalg.norm(f * A @ R.T + t - B, axis=1).max() / size
            turn = max(gen.rotation_angle(new.shots[s].pose.get_rotation_matrix() @ R.T @ Q.shots[s]["R"].T) for s in new.shots)
            e0 = [np.linalg.norm(rec.shots[s].pose.get_origin() - Q.origin(s)) for s in rec.shots]
            chk.extreme("position error after bundling (relative)", err)
            chk.extreme("rotation error after bundling", turn)
            chk.count("bundled positions", len(A))
            now, true = rms(new, S, 1000 * p)
            chk.extreme("projection error after bundling over that of the truth", now / (true + 2e-5))
            chk.expect(now <= 1.1 * true + 6e-4, "bundle: the points project further from their features than those of the truth", got=now, true=true, config=config)
            free = config["optimize_camera_parameters"]
            limit = 0.2 if not config["bundle_use_gps"] else (0.15 if free else 0.05) if S.noisy else (0.03 if free else 0.01)
            chk.expect(err < limit, "bundle: positions are far from the truth", part=p, got=err, before=max(e0) / size, config=config)
            chk.expect(turn < limit, "bundle: rotations are far from the truth", part=p, got=turn, config=config)
            pts = [(np.array(q.coordinates) * f @ R.T + t, S.X[int(k) - 1000 * p]) for k, q in new.points.items() if len(S.seen()[int(k) - 1000 * p]) > 2]
            near = np.median([np.linalg.norm(a - b) for a, b in pts])
            chk.extreme("median point error after bundling (relative)", near / size)
            chk.expect(near < limit * size, "bundle: points are far from the truth", part=p, got=float(near), size=float(size))
            if config["bundle_use_gps"]:
                off = np.linalg.norm(A - B, axis=1).max()
                chk.expect(off < 0.1 * max(1, size), "bundle: positions are far from the GPS positions", part=p, got=float(off))


def setup(rng, root, config):
    S = scene(rng)
    while weak(S):
        S = scene(rng)
    data = S.dataset(root, config)
    return S, data


def extensions(chk, rng):
    from opensfm import dataset
    from opensfm.actions import extend_reconstruction

    for i in range(chk.n(32, 700)):
        root = os.path.join(chk.tmp, "e%d" % i)
        config = {"optimize_camera_parameters": False, "bundle_interval": int(rng.choice([1, 999999])), "retriangulation": bool(rng.random() < 0.6),
                  "local_bundle_radius": int(rng.choice([0, 3])), "bundle_use_gps": bool(rng.random() < 0.7)}
        S, data = setup(rng, root, config)
        names = sorted(S.shots)
        # an image which sees nothing of the rest, and one without any track
        extra = []
        if rng.random() < 0.5:
            extra = ["lone%d.jpg" % k for k in range(int(rng.integers(1, 3)))]
            for s in extra:
                open(os.path.join(root, "images", s), "wb").close()
                data.save_exif(s, dict(S.exif(names[0]), gps={}))
        tm = S.tracks_manager()
        blind = extra[:1] if rng.random() < 0.5 else []
        for s in blind:  # tracks nobody else has
            for k in range(30):
                tm.add_observation(s, "own%d" % k, S.observation(names[0], sorted(S.obs[names[0]])[k % len(S.obs[names[0]])]))
        data.save_tracks_manager(tm)
        rec = S.reconstruction(points=False)
        keep = int(rng.integers(3, len(names) + 1))
        first = names[:keep]
        for s in names[keep:]:
            rec.remove_shot(s)
        for k, ss in S.seen().items():
            if sum(s in rec.shots for s in ss) >= 2:
                rec.create_point(str(k), S.X[k]).color = [int(v) for v in S.colors[k]]
        several = rng.random() < 0.3
        src = None if rng.random() < 0.5 else "prior.json"
        dst = None if rng.random() < 0.5 else "longer.json"
        empty = i % 9 == 4 if chk.thorough else i == 1 and chk.shard % 2 == 0
        data.save_reconstruction([] if empty else [rec, S.reconstruction(points=False)] if several else [rec], src)
        before = files(root)
        chk.case("extend", {"config": config, "images": len(names), "known": keep, "lone": len(extra), "in": src, "out": dst, "empty": empty}, sig=(chk.shard, i))
        ok, _ = chk.guard(lambda: extend_reconstruction.run_dataset(dataset.DataSet(root), src, dst), "extending a reconstruction", config=config)
        if not ok:
            continue
        after = files(root)
        if empty:
            chk.count("extensions of nothing")
            untouched(chk, before, after, set(), "extending nothing")
            continue
        chk.count("extensions")
        chk.count("outputs in place" if (src or "reconstruction.json") == (dst or "reconstruction.json") else "outputs elsewhere")
        untouched(chk, before, after, {dst or "reconstruction.json", os.path.join("reports", "reconstruction.json")}, "extend")
        new = dataset.DataSet(root).load_reconstruction(dst)
        if not chk.expect(len(new) == 1, "extend: number of reconstructions", got=len(new)):
            continue
        new = new[0]
        chk.count("images added", len(set(new.shots) - set(first)))
        chk.count("images which can't be added", len(extra))
        # every image that still sees three or more well placed points
        chk.expect(set(new.shots) == set(names), "extend: images", missing=sorted(set(names) - set(new.shots)), extra=sorted(set(new.shots) - set(names)), known=keep, config=config)
        with open(os.path.join(root, "reports", "reconstruction.json")) as f:
            report = json.load(f)
        chk.expect(sorted(report["not_reconstructed_images"]) == sorted((set(names) | set(blind)) - set(new.shots)), "extend: images said to be left out",
                   got=report["not_reconstructed_images"], images=sorted(new.shots))
        r = report["extend_reconstruction"][0]
        chk.expect(r["num_remaining_images"] == len(report["not_reconstructed_images"]), "extend: number of images said to be left out")
        steps = [s for st in r["grow"]["steps"] for s in st["images"]]
        chk.expect(sorted(steps) == sorted(set(new.shots) - set(first)), "extend: steps are not the images added", got=steps)
        pos, pts, turn, _ = accuracy(S, new)
        chk.extreme("position error after extending (relative)", pos)
        loose = 0.03 if config["bundle_use_gps"] else 0.15
        chk.expect(pos < loose and turn < loose, "extend: poses are far from the truth", position=pos, rotation=turn, known=keep, config=config)
        chk.expect(pts < loose, "extend: points are far from the truth", got=pts)
        chk.count("points judged", len(new.points))
        # its points are tracks at least two of its images see
        lonely = [k for k in new.points if sum(s in new.shots for s in tm.get_track_observations(k)) < 2]
        chk.expect(not lonely, "extend: points seen by less than two images", points=lonely[:4])
        if config["bundle_use_gps"]:
            off = max(np.linalg.norm(new.shots[s].pose.get_origin() - S.origin(s)) for s in new.shots)
            chk.expect(off < 0.3, "extend: positions are far from the GPS positions", got=float(off))


def fillings(chk, rng):
    from opensfm import dataset
    from opensfm.actions import reconstruct_from_prior

    for i in range(chk.n(40, 1000)):
        root = os.path.join(chk.tmp, "f%d" % i)
        config = {"triangulation_type": str(rng.choice(["FULL", "ROBUST"]))}
        S, data = setup(rng, root, config)
        tm = S.tracks_manager()
        data.save_tracks_manager(tm)
        rec = S.reconstruction(points=bool(rng.random() < 0.5), observations=False)
        for p in rec.points.values():  # of no importance
            p.coordinates = [0.0, 0.0, 0.0]
        names = sorted(S.shots)
        lost = names[: int(rng.integers(0, 3))]
        for s in lost:
            rec.remove_shot(s)
        src = "reconstruction.json" if rng.random() < 0.4 else "prior.json"
        dst = "reconstruction.json" if rng.random() < 0.4 else "full.json"
        empty = i % 9 == 4 if chk.thorough else i == 1 and chk.shard % 2 == 0
        data.save_reconstruction([] if empty else [rec], src)
        before = files(root)
        chk.case("fill", {"config": config, "images": len(names), "lost": len(lost), "in": src, "out": dst, "empty": empty}, sig=(chk.shard, i))
        ok, _ = chk.guard(lambda: reconstruct_from_prior.run_dataset(dataset.DataSet(root), src, dst), "reconstructing from a prior", config=config)
        if not ok:
            continue
        after = files(root)
        if empty:
            untouched(chk, before, after, set(), "reconstructing from nothing")
            continue
        chk.count("fillings")
        untouched(chk, before, after, {dst, os.path.join("reports", "reconstruction.json")}, "reconstruct_from_prior")
        new = dataset.DataSet(root).load_reconstruction(dst)
        if not chk.expect(len(new) == 1, "reconstruct_from_prior: number of reconstructions", got=len(new)):
            continue
        new = new[0]
        chk.expect(set(new.shots) == set(rec.shots), "reconstruct_from_prior: other images", got=sorted(new.shots))
        for s in set(new.shots) & set(rec.shots):
            d = np.abs(new.shots[s].pose.get_Rt() - S.pose(s).get_Rt()).max()
            chk.expect(d < 1e-9 * max(1, np.abs(S.pose(s).get_Rt()).max()), "reconstruct_from_prior: an image moved", image=s, got=d)
        for c in new.cameras:
            chk.expect(np.allclose(new.cameras[c].get_parameters_values(), gen.make_camera(S.cams[c], c).get_parameters_values(), rtol=0, atol=1e-12), "reconstruct_from_prior: a camera changed")
        with open(os.path.join(root, "reports", "reconstruction.json")) as f:
            report = json.load(f)
        chk.expect(sorted(report["not_reconstructed_images"]) == sorted(set(lost) & set(tm.get_shot_ids())), "reconstruct_from_prior: images said to be left out",
                   got=report["not_reconstructed_images"])
        chk.expect((new.reference.lat, new.reference.lon, new.reference.alt) == (rec.reference.lat, rec.reference.lon, rec.reference.alt), "reconstruct_from_prior: the reference changed")
        want = [k for k, ss in S.seen().items() if sum(s in new.shots for s in ss) >= 3]
        good = [k for k in want if str(k) in new.points and np.linalg.norm(np.array(new.points[str(k)].coordinates) - S.X[k]) < 0.15]
        chk.count("points judged", len(want))
        chk.expect(len(good) >= 0.85 * len(want), "reconstruct_from_prior: points are missing or wrong", good=len(good), of=len(want), config=config)


def run(chk):
    rng = chk.rng_for("c33")
    bundles(chk, rng)
    extensions(chk, rng)
    fillings(chk, rng)
