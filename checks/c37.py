"""C37: analyses of annotations align what was annotated and report its errors."""
import json
import os
import shutil
import sys
from unittest import mock

import numpy as np

import gen
import scenes

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 500, "thorough": 850}
REQUIRED = ["rigid analyses", "flexible analyses", "shots aligned", "points aligned", "reprojections judged", "spreads judged", "wrong annotations", "errors at known positions", "analyses of too few points", "analyses after an analysis", "images resected", "images with few points", "parts put together", "parts taken apart", "models aligned", "models with few points",
            "points on models", "single reconstructions", "tool reads the result", "inputs kept"]
RULE = "one case = one analysis of a dataset of two parts of a scene, one of them moved, turned and scaled, with control points annotated in both; or of one part with images or a model to be aligned to it; non-trivial when something is aligned"
ASSUMPTIONS = ["annotations are exact up to 0.0005 of the size of the picture, except for the wrong ones", "the parts share no images", "at least three common points are not on a line"]


def tool():
    repo = os.environ.get("VERIF_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    from annotation_gui_gcp import run_ba

    return run_ba


def analyse(chk, root, *options):
    """The program of the analysis, with its command line."""
    m = tool()
    with mock.patch.object(sys, "argv", ["run_ba.py", root] + [str(o) for o in options]):
        try:
            m.main()
        except SystemExit as e:
            return chk.expect(e.code in (None, 0), "exit status of the analysis", got=e.code)
        except Exception as e:  # noqa: B902
            known = "--covariance" in options and isinstance(e, AttributeError) and "add_shot" in str(e)
            chk.expect(False, "analysis of annotations failed", mechanism="bundle_with_fixed_images add_shot" if known else None, options=options, error="%s: %s" % (type(e).__name__, e))
            return None if known else False
    return chk.expect(False, "end of the analysis")


def parts(S, rec, groups):
    """One reconstruction per group of images."""
    from opensfm import types

    out = []
    for ims in groups:
        r = types.Reconstruction()
        r.reference = rec.reference
        for c in sorted({S.shots[s]["cam"] for s in ims}):
            r.add_camera(rec.cameras[c])
        for s in ims:
            o = rec.shots[s]
            sh = r.create_shot(s, o.camera.id, o.pose)
            sh.metadata.gps_position.value = o.pose.get_origin()
            sh.metadata.gps_accuracy.value = 5.0
        for k, ss in S.seen().items():
            mine = [s for s in ss if s in ims]
            if len(mine) >= 2:
                q = r.create_point(str(k), S.X[k])
                q.color = [int(v) for v in S.colors[k]]
                for s in mine:
                    r.add_observation(s, str(k), S.observation(s, k))
        out.append(r)
    return out


class Job:
    """A dataset with annotated control points."""

    def __init__(self, chk, rng, i, single=False):
        self.root = os.path.join(chk.tmp, "d%d" % i)
        models = [str(rng.choice(["perspective", "brown", "fisheye", "simple_radial"])) for _ in range(int(rng.integers(1, 3)))]
        n = int(rng.integers(8, 13))
        while True:
            self.noise = float(rng.choice([0, 0.0003]))
            S = scenes.make(rng, models, n, int(rng.integers(150, 250)), layout="ring", keep=0.9, noise=self.noise, strength=0.3, size=(1000, 750))
            ims = [str(s) for s in rng.permutation(list(S.shots))]
            cut = int(rng.integers(4, n - 3))
            groups = [ims[:cut], ims[cut:]]
            many = S.seen()
            if all(sum(s in ss and sum(x in g for x in ss) >= 3 for ss in many.values()) >= 30 for g in groups for s in g):
                break
        self.S, self.groups = S, groups
        self.data = S.dataset(self.root, {})
        self.data.save_tracks_manager(S.tracks_manager())
        rec = S.reconstruction(points=False)
        self.ref = rec.reference
        self.recs = parts(S, rec, groups)
        self.sigma = float(rng.choice([0, 0.0005]))
        self.X = rng.normal(size=(int(rng.integers(6, 12)), 3)) * [1.3, 1.3, 1.0]
        self.gcps, self.wrong = [], None
        for k, x in enumerate(self.X):
            obs = []
            for s in rng.permutation(ims):
                xy, ok = S.project(s, x)
                xy = np.ravel(xy)[:2]
                if np.all(ok) and max(abs(xy)) < 0.5:
                    xy = xy + self.sigma * rng.normal(size=2)
                    obs.append({"shot_id": str(s), "projection": [float(v) for v in xy], "precision": 0.004})
            g = {"id": str(rng.choice(["g%d", "point %d", "é%d"])) % k, "observations": obs}
            if rng.random() < 0.7:
                lat, lon, alt = self.ref.to_lla(*x)
                g["position"] = {"latitude": lat, "longitude": lon, "altitude": alt}
            self.gcps.append(g)

    def save(self, recs):
        self.data.save_reconstruction(recs)
        with open(os.path.join(self.root, "ground_control_points.json"), "w") as f:
            json.dump({"points": self.gcps}, f)

    def scramble(self, rng, rec, far=True):
        from opensfm import align

        s = float(rng.uniform(0.3, 3)) if far else 1.0
        R = gen.rodrigues(rng.normal(size=3) * (0.8 if far else 0.01))
        align.apply_similarity(rec, s, R, rng.normal(size=3) * (5 if far else 0.02))

    def common(self):
        """Points annotated in two images of both parts."""
        return [k for k, g in enumerate(self.gcps) if all(sum(o["shot_id"] in ims for o in g["observations"]) >= 2 for ims in self.groups)]

    def well(self):
        c = self.common()
        return len(c) >= 4 and np.linalg.svd(self.X[c] - self.X[c].mean(0))[1][1] > 0.8


def judge_poses(chk, J, recs, tol, what):
    for r, ims in zip(recs, J.groups):
        if not chk.expect(sorted(r.shots) == sorted(ims), what + ": images of a part", got=sorted(r.shots), want=sorted(ims)):
            return False
        for s in r.shots:
            true = J.S.pose(s)
            e = np.linalg.norm(r.shots[s].pose.get_origin() - true.get_origin())
            a = np.linalg.norm(r.shots[s].pose.get_rotation_matrix() - true.get_rotation_matrix())
            chk.count("shots aligned")
            chk.extreme(what + " position", e)
            if not chk.expect(e < tol and a < tol, what + ": pose of an image", image=s, position=e, rotation=a, tol=tol):
                return False
    return True


def judge_points(chk, J, recs, tol, what):
    for r in recs:
        e = [np.linalg.norm(np.array(q.coordinates) - J.S.X[int(k)]) for k, q in r.points.items()]
        chk.count("points aligned", len(e))
        if e and not chk.expect(np.median(e) < tol, what + ": points", error=float(np.median(e)), tol=tol):
            return


def judge_reprojections(chk, J, recs, path, what, metrics=None):
    """The file of the reprojections, against the reconstructions it is about."""
    with open(path) as f:
        got = json.load(f)
    shots = {s: r.shots[s] for r in recs for s in r.shots}
    ids = {g["id"] for g in J.gcps}
    if not chk.expect(set(got) == ids, what + ": points of the report", got=sorted(got), want=sorted(ids)):
        return None
    allerr = []
    for g in J.gcps:
        obs = {o["shot_id"]: o["projection"] for o in g["observations"]}
        inside = [s for s in obs if s in shots]
        if len(inside) < 2:
            chk.expect(not got[g["id"]], what + ": report of a point seen once", got=got[g["id"]])
            continue
        if not got[g["id"]]:
            continue
        if not chk.expect(set(got[g["id"]]) == set(obs), what + ": images of a point in the report", got=sorted(got[g["id"]]), want=sorted(obs)):
            return None
        for s, v in got[g["id"]].items():
            allerr.append(v["error"])
            if s not in shots:
                chk.expect(v["error"] == 0, what + ": error in an image which isn't reconstructed", got=v)
                continue
            x = np.array(J.ref.to_topocentric(*v["lla"]))
            p = shots[s].project(x)
            chk.count("reprojections judged")
            chk.close(v["reprojection"], p, 1e-5, what + ": reprojection of a point")
            chk.close([v["error"]], [np.linalg.norm(p - np.array(obs[s]))], 1e-5, what + ": error of an annotation")
    if allerr:
        m = tool()
        flat = [(g, s, v["error"]) for g in got for s, v in got[g].items()]
        ok, r = chk.guard(lambda: (m.compute_gcp_std(got), m.get_sorted_reprojection_errors(got), m.get_number_of_wrong_annotations_per_gcp(got, 0.002)), what + ": spread of the annotations")
        if ok:
            chk.count("spreads judged")
            chk.close([r[0]], [np.sqrt(np.mean(np.square(allerr)))], 1e-12, what + ": spread of the annotations")
            chk.expect(sorted(r[1]) == sorted(flat) and all(x[2] >= y[2] for x, y in zip(r[1], r[1][1:])), what + ": annotations by their errors", got=r[1][:3])
            chk.expect(r[2] == {g: sum(v["error"] > 0.002 for v in got[g].values()) for g in got}, what + ": wrong annotations of the points", got=r[2])
    if metrics is not None and allerr:
        chk.close([metrics["max_reprojection_error"], metrics["median_reprojection_error"]], [np.max(allerr), np.median(allerr)], 1e-9, what + ": summary of the errors")
        chk.expect(metrics["n_bad_gcp_annotations"] == sum(e > 0.016 for e in allerr) and metrics["n_gcp"] == len(J.gcps) and (metrics["rec_a"], metrics["rec_b"]) == J.pair, what + ": counts of the summary", got={k: metrics[k] for k in ("n_bad_gcp_annotations", "n_gcp", "rec_a", "rec_b")})
    return got


def pairs(chk):
    """Two reconstructions brought together by the points annotated in both."""
    from opensfm import dataset

    for i in range(chk.n(160, 6000)):
        rng = chk.rng_for("pairs", i)
        J = Job(chk, rng, i)
        while not J.well():
            shutil.rmtree(J.root)
            J = Job(chk, rng, i)
        chk.case("two reconstructions", {"number": i, "images": [len(g) for g in J.groups], "points": len(J.gcps)}, sig=(chk.shard, "p", i))
        few = rng.random() < 0.15
        if few:
            c = J.common()
            keep = set(rng.permutation(c)[:2])
            for k in c:
                if k not in keep:
                    side = J.groups[int(rng.integers(2))]
                    seen = 0
                    obs = []
                    for o in J.gcps[k]["observations"]:
                        if o["shot_id"] in side:
                            seen += 1
                            if seen > 1:
                                continue
                        obs.append(o)
                    J.gcps[k]["observations"] = obs
        elif rng.random() < 0.3:
            # a click at the wrong place
            k = int(rng.choice(J.common()))
            o = J.gcps[k]["observations"][int(rng.integers(len(J.gcps[k]["observations"])))]
            d = rng.normal(size=2)
            o["projection"] = [float(v) for v in np.array(o["projection"]) + 0.15 * d / np.linalg.norm(d)]
            J.wrong = J.gcps[k]["id"]
        J.scramble(rng, J.recs[1])
        order = [0, 1]
        recs, J.pair = list(J.recs), (0, 1)
        options = []
        if rng.random() < 0.3:
            # other reconstructions in between, and the parts in other places
            S2 = scenes.make(rng, ["perspective"], 4, 40, layout="ring", names="other%02d.jpg")
            S2.cams = {"x" + c: v for c, v in S2.cams.items()}
            for d in S2.shots.values():
                d["cam"] = "x" + d["cam"]
            S2._limit = {}
            extra = S2.reconstruction(observations=False)
            places = [int(v) for v in rng.permutation(3)]
            recs = [None] * 3
            recs[places[0]], recs[places[1]], recs[places[2]] = J.recs[0], J.recs[1], extra
            J.pair = (places[0], places[1])
            options = ["--rec_a", places[0], "--rec_b", places[1]]
            for c, v in S2.cams.items():
                J.S.cams[c] = v
            J.data.save_camera_models({c: gen.make_camera(p, c) for c, p in J.S.cams.items()})
        elif rng.random() < 0.5:
            options = ["--rec_a", 0, "--rec_b", 1]
        J.save(recs)
        mode = str(rng.choice(["--rigid", "--rigid", "", "--covariance"]))
        if mode:
            options.insert(int(rng.integers(0, len(options) // 2 + 1)) * 2, mode)
        before = {}
        for f in ["reconstruction.json", "camera_models.json", "reference_lla.json"]:
            with open(os.path.join(J.root, f), "rb") as h:
                before[f] = h.read()
        r = analyse(chk, J.root, *options)
        name = "%dx%d.json" % J.pair
        at = lambda f: os.path.join(J.root, f + name)
        if r is False:
            shutil.rmtree(J.root)
            continue
        if few:
            chk.count("analyses of too few points")
            left = [f for f in os.listdir(J.root) if "rigid" in f or "_ba_" in f or "reprojections" in f]
            chk.expect(not left, "results of an analysis of too few points", got=left)
            shutil.rmtree(J.root)
            continue
        for f, b in before.items():
            with open(os.path.join(J.root, f), "rb") as h:
                chk.count("inputs kept")
                chk.expect(h.read() == b, "file read by the analysis was changed", file=f)
        with open(os.path.join(J.root, "ground_control_points.json")) as f:
            chk.expect(json.load(f) == {"points": J.gcps}, "annotations changed by the analysis")
        data = dataset.DataSet(J.root)
        ok, rigid = chk.guard(lambda: data.load_reconstruction("reconstruction_gcp_rigid_" + name), "reading the aligned reconstructions")
        if not ok or not chk.expect(len(rigid) == 2, "aligned reconstructions", got=len(rigid)):
            continue
        rough = 1e-4 if J.sigma == 0 else 0.15
        if J.wrong is None:
            judge_poses(chk, J, rigid, rough, "rigid analysis")
            judge_points(chk, J, rigid, rough, "rigid analysis")
        # the first part doesn't move
        judge_poses(chk, J, rigid[:1], 1e-6, "first part")
        if mode == "--rigid":
            chk.count("rigid analyses")
        else:
            chk.count("flexible analyses")
            ok, ba = chk.guard(lambda: data.load_reconstruction("reconstruction_gcp_ba_" + name), "reading the adjusted reconstruction")
            if not ok or not chk.expect(len(ba) == 1 and sorted(ba[0].shots) == sorted(J.groups[0] + J.groups[1]), "adjusted reconstruction", got=len(ba)):
                continue
        ok, final = chk.guard(lambda: data.load_reconstruction("reconstruction_gcp_ba_resplit_" + name), "reading the parts")
        if not ok or not chk.expect(len(final) == 2, "parts of the result", got=len(final)):
            continue
        tol = rough if mode == "--rigid" else 0.25
        if J.wrong is None:
            judge_poses(chk, J, final, tol, "result")
            judge_points(chk, J, final, tol, "result")
        for p, q in zip(final, J.recs):
            chk.expect(set(p.points) == set(q.points), "points of a part of the result", got=len(p.points), want=len(q.points))
        metrics = None
        if r is True:
            with open(at("run_ba_metrics_")) as f:
                metrics = json.load(f)
            chk.expect(metrics["n_reconstructions"] == len(recs), "number of reconstructions in the summary", got=metrics["n_reconstructions"])
        got = judge_reprojections(chk, J, final, at("gcp_reprojections_"), "report", metrics)
        if got is not None:
            chk.count("tool reads the result")
            judge_tool(chk, J, got, at("gcp_reprojections_"))
        if mode != "--rigid":
            with open(at("gcp_alignment_")) as f:
                errors = json.load(f)
            for key in ("after_rigid", "after_bundle"):
                for g, x in zip(J.gcps, J.X):
                    e = errors[key].get(g["id"])
                    if not chk.expect(e is not None, "error of a point missing", point=g["id"]):
                        break
                    if "position" in g and not np.isnan(e["error"]):
                        chk.count("errors at known positions")
                        chk.close(e["expected_xyz"], x, 1e-5, "expected place of a point")
                        chk.close([e["error"]], [np.linalg.norm(np.array(e["triangulated_xyz"]) - x)], 1e-5, "error of a point")
                        if J.wrong is None:
                            chk.expect(e["error"] < 0.3, "place of a control point", got=e["error"], stage=key)
        if mode == "--rigid" and J.wrong is None and rng.random() < 0.5:
            # analysing the result again changes nothing
            chk.count("analyses after an analysis")
            if analyse(chk, J.root, *options):
                again = dataset.DataSet(J.root).load_reconstruction("reconstruction_gcp_ba_resplit_" + name)
                judge_poses(chk, J, again, rough, "second analysis")
        shutil.rmtree(J.root)


def judge_tool(chk, J, got, path):
    """The annotation tool finds the worst annotation in the report."""
    import contextlib
    import io

    from annotation_gui_gcp.lib import gcp_manager

    m = gcp_manager.GroundControlPointManager(J.root)
    with contextlib.redirect_stdout(io.StringIO()):
        ok, _ = chk.guard(lambda: (m.load_from_file(None), m.load_gcp_reprojections(path)), "reading the report in the tool")
        if not ok:
            return
        worst = max(((v["error"], g, s) for g, d in got.items() for s, v in d.items()), default=None)
        if worst is None or worst[0] == 0:
            return
        chk.expect(m.get_worst_gcp() == worst[1], "worst point in the tool", got=m.get_worst_gcp(), want=worst[1])
        s = m.shot_with_max_gcp_error(list(J.S.shots), worst[1])
        chk.expect(s is not None and got[worst[1]][s]["error"] == worst[0], "worst image in the tool", got=s, want=worst[2])
        if J.wrong is not None:
            chk.count("wrong annotations")
            e = {g: max(v["error"] for v in d.values()) for g, d in got.items() if d}
            chk.expect(e.get(J.wrong, 0) > 0.02 if J.wrong in e else True, "wrong annotation in the report", got=e, wrong=J.wrong)


def joined(chk):
    """Parts put together and taken apart again."""
    from opensfm import pygeometry

    m = tool()
    for i in range(chk.n(80, 2000)):
        rng = chk.rng_for("joined", i)
        S = scenes.make(rng, ["perspective"], 8, 60, layout="ring", keep=0.8)
        full = S.reconstruction(points=False)
        ims = [str(s) for s in rng.permutation(list(S.shots))]
        cuts = sorted(int(v) for v in rng.choice(np.arange(1, 8), int(rng.integers(1, 3)), replace=False))
        groups = [ims[a:b] for a, b in zip([0] + cuts, cuts + [8])]
        recs = parts(S, full, groups)
        tm = S.tracks_manager()
        for g, r in zip(groups, recs):
            # the same name in two parts is two points
            for n in [str(v) for v in rng.permutation(list(r.points))[: int(rng.integers(0, 6))]]:
                if rng.random() < 0.5:
                    r.remove_point(n)
        chk.case("parts put together", {"number": i, "parts": [len(g) for g in groups]}, sig=(chk.shard, "j", i))
        before = [{p: list(q.coordinates) for p, q in r.points.items()} for r in recs]
        ok, all_ = chk.guard(lambda: m.merge_reconstructions(recs, tm), "putting parts together")
        if not ok:
            continue
        chk.count("parts put together", len(recs))
        chk.expect(sorted(all_.shots) == sorted(ims), "images of parts put together", got=sorted(all_.shots))
        want = {"R%d_%s" % (k, p): (r.points[p], k) for k, r in enumerate(recs) for p in r.points}
        if not chk.expect(set(all_.points) == set(want), "points of parts put together", got=len(all_.points), want=len(want)):
            continue
        for n, (q, k) in want.items():
            p = all_.points[n]
            chk.expect(np.allclose(p.coordinates, q.coordinates) and list(p.color) == list(q.color), "a point of parts put together", point=n)
            obs = {s.id: x for s, x in p.get_observations().items()}
            t = n.split("_", 1)[1]
            true = {s: o for s, o in tm.get_track_observations(t).items() if s in groups[k]}
            chk.expect(set(obs) == set(true), "observations of a point of parts put together", point=n, got=sorted(obs), want=sorted(true))
            for s in set(obs) & set(true):
                chk.expect(np.allclose(all_.shots[s].get_landmark_observation(p).point, true[s].point), "an observation of parts put together", point=n, image=s)
        for s in ims:
            chk.close(all_.shots[s].pose.get_R_cam_to_world(), full.shots[s].pose.get_R_cam_to_world(), 1e-9, "an image of parts put together")
        # everything moves, some points are lost
        lost = {str(n) for n in rng.permutation(list(want))[: int(rng.integers(0, 9))]}
        for n in lost:
            all_.remove_point(n)
        for p in all_.points.values():
            p.coordinates = np.asarray(p.coordinates) + rng.normal(size=3)
            p.color = [int(v) for v in rng.integers(0, 256, 3)]
        for s in all_.shots.values():
            s.pose = pygeometry.Pose(rng.normal(size=3), rng.normal(size=3))
        ok, out = chk.guard(lambda: m.resplit_reconstruction(all_, recs), "taking parts apart")
        if not ok or not chk.expect(len(out) == len(recs), "number of parts taken apart", got=len(out)):
            continue
        for k, (g, r) in enumerate(zip(groups, out)):
            chk.count("parts taken apart")
            chk.expect(sorted(r.shots) == sorted(g) and sorted(r.cameras) == sorted(recs[k].cameras), "images of a part", got=sorted(r.shots), want=sorted(g))
            chk.expect(set(r.points) == {p for p in before[k] if "R%d_%s" % (k, p) not in lost}, "points of a part", got=len(r.points))
            for p, q in r.points.items():
                a = all_.points["R%d_%s" % (k, p)]
                chk.expect(np.allclose(q.coordinates, a.coordinates) and list(q.color) == list(a.color), "a point of a part", point=p)
            for s in g:
                chk.close(r.shots[s].pose.translation, all_.shots[s].pose.translation, 1e-9, "place of an image of a part")
                chk.close(r.shots[s].pose.get_R_cam_to_world(), all_.shots[s].pose.get_R_cam_to_world(), 1e-9, "direction of an image of a part")
        for k, r in enumerate(recs):
            chk.expect({p: list(q.coordinates) for p, q in r.points.items()} == before[k], "parts changed by putting them together")


def single(chk):
    """One reconstruction: images outside of it, and models."""
    from opensfm import dataset

    run_ba = tool()
    for i in range(chk.n(160, 6000)):
        rng = chk.rng_for("single", i)
        J = Job(chk, rng, 100000 + i)
        chk.case("one reconstruction", {"number": i, "images": [len(g) for g in J.groups], "points": len(J.gcps)}, sig=(chk.shard, "s", i))
        base = J.recs[0]
        usable = [k for k, g in enumerate(J.gcps) if sum(o["shot_id"] in J.groups[0] for o in g["observations"]) >= 2]
        if rng.random() < 0.5:
            # annotated images are placed by the points
            for s in J.groups[1]:
                if rng.random() < 0.4:
                    mine = [k for k in rng.permutation(usable) if any(o["shot_id"] == s for o in J.gcps[k]["observations"])]
                    for k in mine[int(rng.integers(1, 4)):]:
                        J.gcps[k]["observations"] = [o for o in J.gcps[k]["observations"] if o["shot_id"] != s]
            J.save([base, J.recs[1]])
            ok, r = chk.guard(lambda: run_ba.resect_annotated_single_images(base, J.data.load_ground_control_points(), J.data.load_camera_models(), J.data), "placing annotated images")
            if ok:
                for s in J.groups[1]:
                    n = sum(any(o["shot_id"] == s for o in J.gcps[k]["observations"]) for k in usable)
                    if n < 3:
                        chk.count("images with few points")
                        chk.expect(s not in r.shots, "image placed by too few points", image=s, points=n)
                    elif n >= 6 and J.sigma == 0:
                        if chk.expect(s in r.shots, "annotated image not placed", image=s, points=n):
                            chk.count("images resected")
                            # any pose that agrees with the points within the threshold of 0.01 may be returned
                            cam, pose = r.shots[s].camera, r.shots[s].pose
                            e = []
                            for k in usable:
                                for o in J.gcps[k]["observations"]:
                                    if o["shot_id"] == s:
                                        x = np.array(pose.transform(J.X[k]))
                                        e.append(np.linalg.norm(x / np.linalg.norm(x) - cam.pixel_bearing(np.array(o["projection"]))))
                            chk.expect(max(e) < 0.011, "place of an annotated image", image=s, got=max(e))
                            chk.expect(r.shots[s].camera.id == J.S.shots[s]["cam"], "camera of an annotated image", got=r.shots[s].camera.id)
                chk.expect(not set(r.shots) & set(J.groups[0]), "image placed twice")
        else:
            models = {}
            for m in range(int(rng.integers(1, 3))):
                name = "model%d.fbx" % m
                s, R, b = float(rng.uniform(0.1, 100)), gen.rodrigues(rng.normal(size=3)), rng.normal(size=3) * 10
                ks = [int(k) for k in rng.permutation(len(J.gcps))[: int(rng.integers(1, 4 if rng.random() < 0.3 else len(J.gcps) + 1))]]
                for k in ks:
                    p = (s * (R @ J.X[k]) + b).tolist()
                    o = {"shot_id": name, "precision": 100, ("point" if rng.random() < 0.7 else "projection"): p}
                    J.gcps[k]["observations"].insert(int(rng.integers(0, len(J.gcps[k]["observations"]) + 1)), o)
                models[name] = (s, R, b, ks)
            J.save([base])
            r = analyse(chk, J.root, *(["--rigid"] if rng.random() < 0.5 else []))
            if r:
                chk.count("single reconstructions")
                for name, (s, R, b, ks) in models.items():
                    n = [k for k in ks if k in usable]
                    out = os.path.join(J.root, "gcp_reprojections_3D_0x%s.json" % name)
                    if len(n) < 3:
                        chk.count("models with few points")
                        chk.expect(not os.path.exists(out), "points on a model that has too few", model=name, points=len(n))
                        continue
                    flat = np.linalg.svd(J.X[n] - J.X[n].mean(0))[1][1] < 0.8
                    if flat or J.sigma:
                        continue
                    if not chk.expect(os.path.exists(out), "points on a model missing", model=name, points=len(n)):
                        continue
                    with open(out) as f:
                        got = json.load(f)
                    with open(os.path.join(J.root, "affine_alignment_0x%s.json" % name)) as f:
                        al = json.load(f)
                    chk.count("models aligned")
                    chk.close([al["s"]], [s], 1e-4 * s, "scale of a model")
                    chk.close(al["A"], R, 1e-4, "rotation of a model")
                    chk.close(al["b"], b, 1e-3 * max(1, s), "place of a model")
                    for k in n:
                        v = got.get(J.gcps[k]["id"])
                        if v is not None:
                            chk.count("points on models")
                            chk.close(v, s * (R @ J.X[k]) + b, 1e-3 * max(1, s), "point on a model")
        shutil.rmtree(J.root)


def run(chk):
    import logging

    logging.getLogger("annotation_gui_gcp.run_ba").setLevel(logging.CRITICAL)
    with mock.patch.object(tool().log, "setup", lambda: None):
        joined(chk)
        pairs(chk)
        single(chk)
