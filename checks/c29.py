"""C29: rigs bind their cameras by constant relative poses."""
import json
import os

import numpy as np

import gen
import scenes
from checks.c17 import Rate
from checks.c20 import spread_rig

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 300, "thorough": 850}
REQUIRED = ["images grouped", "single images", "instances with missing images", "rig files", "poses compared", "pose updates", "rigs calibrated", "calibrated cameras compared", "noisy calibrations",
            "rigs put together from several sets of cameras", "rig creations", "rounds of calibration", "rig creations which succeeded", "rig creations which failed", "reconstructed calibrations",
            "last instances used", "rigs without GPS"]
RULE = ("one case = one set of image names and patterns; one history of changes of rig poses; one calibration from instances with random true poses; or one run of the rig creation with stand-ins "
        "for the reconstruction (which fail or lose images), or with the reconstruction itself; non-trivial when there is a rig")
ASSUMPTIONS = ["images of different rigs do not share the rest of their name", "the frame of a rig is arbitrary, hence only relative poses of its cameras are judged",
               "cameras of a rig which are never seen together are not judged"]


def rot(p):
    return p.get_rotation_matrix()


def between(a, b):
    """Rotation and translation from camera a to camera b."""
    R = rot(b) @ rot(a).T
    return R, np.array(b.translation) - R @ np.array(a.translation)


def make_pose(R, t):
    from opensfm import pygeometry

    p = pygeometry.Pose()
    p.set_rotation_matrix(R)
    p.translation = t
    return p


# ------------------------------------------------------------------ names
TAGS = [["left", "right", "top", "bottom"], ["RED", "GREEN", "BLUE", "NIR"], ["camA", "camB", "camC"], ["_1_", "_2_", "_3_", "_4_", "_5_"], ["f.ront", "b+ack"]]


def naming(rng):
    """Names of images, patterns, and the true instances."""
    import re

    patterns, instances, singles = {}, {}, []
    style = int(rng.integers(3))
    for r, k in enumerate(rng.choice(len(TAGS), int(rng.integers(0, 4)), replace=False)):
        tags = list(rng.permutation(TAGS[k]))[:int(rng.integers(1, len(TAGS[k]) + 1))]
        for t in tags:
            t = str(t)
            patterns["rig%d %s" % (r, t)] = "(" + re.escape(t) + ")" if rng.random() < 0.7 else "(%s|%s)" % (re.escape(t), "Q%dx%s" % (r, re.escape(t)))
        for i in range(int(rng.integers(0, 8))):
            form = [("%sR%d-%d.jpg" % ("%s", r, i)), ("R%d%s%04d.JPG" % (r, "%s", i)), ("img %d R%d %s.png" % (i, r, "%s"))][style]
            have = [t for t in tags if rng.random() < (0.85 if rng.random() < 0.7 else 1)]
            for t in have:
                instances.setdefault(form % "", []).append((form % t, "rig%d %s" % (r, t)))
    for i in range(int(rng.integers(0, 5))):
        singles.append("other%d.jpg" % i)
    return patterns, instances, singles


def names(chk):
    from opensfm import rig

    for i in range(chk.n(240, 6000)):
        rng = chk.rng_for("names", i)
        patterns, truth, singles = naming(rng)
        images = [im for v in truth.values() for im, _ in v] + singles
        images = [str(x) for x in rng.permutation(images)] if images else []
        what = dict(patterns=patterns, images=sorted(images)[:40])
        chk.case("names", what, sig=(chk.shard, i))
        ok, r = chk.guard(lambda: rig.create_instances_with_patterns(list(images), dict(patterns)), "grouping images", **what)
        if not ok:
            continue
        got, alone = r
        flat = [im for v in got.values() for im, _ in v] + list(alone)
        chk.expect(sorted(flat) == sorted(images), "an image is in no rig instance or in several", **what)
        chk.count("images grouped", len(flat) - len(alone))
        chk.count("single images", len(alone))
        chk.count("instances with missing images", sum(len(v) < max(len(u) for u in truth.values()) for v in truth.values()))
        chk.expect(sorted(alone) == sorted(singles), "single images", got=sorted(alone), want=sorted(singles), **what)
        a = sorted(sorted((im, c) for im, c in v) for v in got.values())
        b = sorted(sorted(v) for v in truth.values())
        chk.expect(a == b, "images were grouped otherwise than by their names", got=a[:5], want=b[:5], **what)
        per = rig.rig_assignments_per_image(got)
        chk.expect(set(per) == set(flat) - set(alone), "rig assignments by image", **what)
        for k, v in got.items():
            for im, c in v:
                x = per.get(im)
                chk.expect(x is not None and x[0] == k and x[1] == c and sorted(x[2]) == sorted(m for m, _ in v), "rig assignment of an image", image=im, got=x)
        groups = rig.group_instances(got)
        chk.expect(sum(len(v) for v in groups.values()) == len(got) and all(len({frozenset(c for _, c in inst) for inst in v}) == 1 for v in groups.values())
                   and len(groups) == len({frozenset(c for _, c in v) for v in got.values()}), "instances grouped by their cameras", **what)


# ------------------------------------------------------------------ files
def files(chk):
    from opensfm import pymap, rig

    for i in range(chk.n(40, 600)):
        rng = chk.rng_for("files", i)
        S = scenes.make(rng, ["perspective", "brown"][:int(rng.integers(1, 3))], 3, 10, "ring")
        data = S.dataset(os.path.join(chk.tmp, "f%d" % i))
        cams = {}
        for k in range(int(rng.integers(0, 5))):
            name = ["r%d" % k, "cam%d" % k, "ä %d" % k][rng.integers(3)]
            cams[name] = pymap.RigCamera(make_pose(gen.rand_rotation(rng), rng.normal(size=3) * rng.choice([1e-3, 1, 1e3])), name)
        inst = {["i%d" % k, "%d" % k, "é%d" % k][rng.integers(3)]: [["im%d_%d" % (k, j), str(c)] for j, c in enumerate(cams)] for k in range(int(rng.integers(0, 5)))}
        chk.case("files", dict(cameras=sorted(cams), instances=sorted(inst)), sig=(chk.shard, i))
        chk.count("rig files")
        chk.expect(data.load_rig_assignments() == {}, "rig assignments exist although none were saved")
        base = data.load_rig_cameras()
        chk.expect(set(base) == set(S.cams) and all(np.abs(rot(c.pose) - np.eye(3)).max() == 0 and np.abs(c.pose.translation).max() == 0 and c.id == k for k, c in base.items()), "default rig cameras",
                   got=sorted(base))
        if rng.random() < 0.3:
            # older files are lists
            with open(os.path.join(data.data_path, "rig_assignments.json"), "w") as f:
                json.dump(list(inst.values()), f)
            got = data.load_rig_assignments()
            chk.expect([[list(x) for x in v] for v in got.values()] == list(inst.values()) and len(set(got)) == len(inst), "rig assignments of an older file")
        else:
            data.save_rig_assignments({k: [tuple(x) for x in v] for k, v in inst.items()})
            got = data.load_rig_assignments()
            chk.expect({k: [list(x) for x in v] for k, v in got.items()} == inst, "rig assignments change when they are saved")
        data.save_rig_cameras(cams)
        back = data.load_rig_cameras()
        chk.expect(set(back) == set(S.cams) | set(cams), "rig cameras change when they are saved", got=sorted(back), want=sorted(cams))
        for k, c in cams.items():
            if k in back:
                chk.expect(back[k].id == k, "rig cameras change when they are saved")
                chk.close(rot(back[k].pose), rot(c.pose), 1e-9, "pose of a rig camera read from a file")
                chk.close(back[k].pose.translation, c.pose.translation, 1e-9, "pose of a rig camera read from a file")


# ---------------------------------------------------------------- updates
def updates(chk):
    """Poses of shots after every change of the poses of rigs."""
    from opensfm import io, pygeometry, pymap, types

    for i in range(chk.n(120, 3000)):
        rng = chk.rng_for("updates", i)
        rec = types.Reconstruction()
        cam = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
        cam.id, cam.width, cam.height = "cam", 100, 80
        rec.add_camera(cam)
        nc, ni = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        C, I, where = {}, {}, {}
        rnd = lambda: (gen.rand_rotation(rng), rng.normal(size=3) * 3)
        for k in range(nc):
            C["c%d" % k] = rnd()
            rec.add_rig_camera(pymap.RigCamera(make_pose(*C["c%d" % k]), "c%d" % k))
        for k in range(ni):
            n = "i%d" % k
            I[n] = rnd()
            rec.add_rig_instance(pymap.RigInstance(n))
            rec.rig_instances[n].pose = make_pose(*I[n])
            for c in C:
                if rng.random() < 0.8:
                    s = "%s_%s" % (n, c)
                    rec.create_shot(s, "cam", None, c, n)
                    where[s] = (n, c)
        chk.case("updates", dict(cameras=nc, instances=ni, shots=len(where)), sig=(chk.shard, i))
        for step in range(int(rng.integers(3, 25))):
            op = str(rng.choice(["instance", "camera", "shot", "reload", "remove", "add", "parts", "similarity"]))
            n, c = str(rng.choice(list(I))), str(rng.choice(list(C)))
            if op == "instance":
                I[n] = rnd()
                rec.rig_instances[n].pose = make_pose(*I[n])
            elif op == "parts":
                o = rng.normal(size=3) * 5
                rec.rig_instances[n].pose.set_origin(o)
                I[n] = (I[n][0], -I[n][0] @ o)
            elif op == "camera":
                C[c] = rnd()
                rec.rig_cameras[c].pose = make_pose(*C[c])
            elif op == "shot" and where:
                s = str(rng.choice(list(where)))
                n, c = where[s]
                R, t = rnd()
                rec.rig_instances[n].update_instance_pose_with_shot(s, make_pose(R, t))
                Rc, tc = C[c]
                I[n] = (Rc.T @ R, Rc.T @ (t - tc))
            elif op == "reload":
                rec = io.reconstruction_from_json(json.loads(json.dumps(io.reconstruction_to_json(rec))))
            elif op == "remove" and len(where) > 1:
                s = str(rng.choice(list(where)))
                rec.remove_shot(s)
                del where[s]
            elif op == "add":
                s = "%s_%s" % (n, c)
                if s not in where:
                    rec.create_shot(s, "cam", None, c, n)
                    where[s] = (n, c)
            elif op == "similarity" and where:
                # moving the whole model moves shots rigidly, and the baselines of rigs scale with it
                from opensfm import align
                f, (R, t) = float(np.exp(rng.normal())), rnd()
                align.apply_similarity(rec, f, R, t)
                for k, (Rk, tk) in I.items():
                    o = -Rk.T @ tk
                    Q = Rk @ R.T
                    I[k] = (Q, -Q @ (f * R @ o + t))
                C = {k: (Rk, f * tk) for k, (Rk, tk) in C.items()}
            chk.count("pose updates")
            if not chk.expect(set(rec.shots) == set(where), "shots after %s" % op, got=sorted(rec.shots), want=sorted(where)):
                break
            bad = False
            for s, (n, c) in where.items():
                sh = rec.shots[s]
                R, t = C[c][0] @ I[n][0], C[c][0] @ I[n][1] + C[c][1]
                scale = 1 + np.abs(t).max()
                chk.count("poses compared")
                bad |= not chk.expect(sh.rig_instance_id == n and sh.rig_camera_id == c and s in rec.rig_instances[n].shots, "rig of a shot after %s" % op, shot=s)
                bad |= not chk.expect(np.abs(rot(sh.pose) - R).max() < 1e-7 and np.abs(sh.pose.translation - t).max() < 1e-7 * scale,
                                      "pose of a shot is not that of its rig camera in its instance, after %s" % op, shot=s, got=sh.pose.translation, want=t)
                bad |= not chk.expect(np.abs(sh.pose.get_origin() + R.T @ t).max() < 1e-6 * scale, "position of a shot after %s" % op, shot=s)
            for n in I:
                if n in rec.rig_instances:
                    bad |= not chk.expect(set(rec.rig_instances[n].shots) == {s for s, w in where.items() if w[0] == n}, "shots of an instance after %s" % op)
            if bad:
                break


# ------------------------------------------------------------ calibration
def true_rig(rng, n, style):
    """Poses of the cameras of a rig."""
    out = []
    axis = rng.normal(size=3)
    axis /= np.linalg.norm(axis)
    for k in range(n):
        if style == "similar":
            R = gen.rodrigues(rng.normal(size=3) * 0.05)
        elif style == "around":
            R = gen.rodrigues(axis * 2 * np.pi * k / n)
        else:
            R = gen.rand_rotation(rng)
        out.append((R, rng.normal(size=3) * 0.5))
    return out


def judge_rig(chk, got, truth, groups, tol_r, tol_t, what, scale=1.0):
    """Relative poses of cameras seen together."""
    from opensfm import pygeometry

    for g in groups:
        for a in g:
            for b in g:
                if a < b and a in got and b in got:
                    R, t = between(got[a].pose, got[b].pose)
                    (Ra, ta), (Rb, tb) = truth[a], truth[b]
                    W = Rb @ Ra.T
                    chk.count("calibrated cameras compared")
                    dr, dt = gen.rotation_angle(R @ W.T), np.abs(t - scale * (tb - W @ ta)).max()
                    chk.extreme("rotation error, per tolerance", dr / tol_r)
                    chk.extreme("translation error, per tolerance", dt / tol_t)
                    if not chk.expect(dr <= tol_r and dt <= tol_t, "calibrated relative pose of two cameras is not the true one", pair=(a, b), rotation=dr, translation=dt,
                                      tolerance=(tol_r, tol_t), **what):
                        return False
    return True


def scene(rng, rigs, count, noise, lose=0.0, far=10.0):
    """A reconstruction of rig instances. Returns it and the instances."""
    from opensfm import pygeometry, types

    rec = types.Reconstruction()
    cam = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
    cam.id, cam.width, cam.height = "cam", 100, 80
    rec.add_camera(cam)
    instances = {}
    for r, cams in enumerate(rigs):
        for i in range(count):
            R, t = gen.rand_rotation(rng), rng.normal(size=3) * far
            have = [c for c in cams if rng.random() >= lose] or [list(cams)[0]]
            inst = []
            for c in have:
                s = "r%d_%d_%s" % (r, i, c)
                Rc, tc = cams[c]
                Q = gen.rodrigues(rng.normal(size=3) * noise) @ Rc @ R
                P = make_pose(Q, -Q @ (-(Rc @ R).T @ (Rc @ t + tc) + noise * rng.normal(size=3)))
                rec.create_shot(s, "cam", P)
                inst.append((s, c))
            order = rng.permutation(len(inst))
            instances["r%d_%d" % (r, i)] = [inst[k] for k in order]
    return rec, instances


def calibration(chk):
    from opensfm import rig

    for i in range(chk.n(200, 6000)):
        rng = chk.rng_for("calibration", i)
        noise = float(rng.choice([0, 0, 1e-4, 1e-2]))
        lose = float(rng.choice([0, 0, 0.3]))
        count = int(rng.choice([1, 2, 5, 20]))
        style = str(rng.choice(["similar", "around", "any"]))
        rigs = []
        for r in range(int(rng.choice([1, 1, 2]))):
            n = int(rng.integers(1, 7))
            rigs.append({"rig%d_%s" % (r, "fbxayz"[k]): p for k, p in enumerate(true_rig(rng, n, style))})
        rec, instances = scene(rng, rigs, count, noise, lose)
        truth = {c: p for r in rigs for c, p in r.items()}
        gone = set()
        if rng.random() < 0.4:
            for s in list(rec.shots):
                if rng.random() < 0.15 and len(rec.shots) > 1:
                    rec.remove_shot(s)
                    gone.add(s)
        complete = {k: v for k, v in instances.items() if not any(s in gone for s, _ in v)}
        groups = {frozenset(c for _, c in v) for v in complete.values()}
        what = dict(style=style, noise=noise, instances=count, cameras=[len(r) for r in rigs], lost=lose, gone=len(gone))
        chk.case("calibration", what, sig=(chk.shard, i))
        ok, got = chk.guard(lambda: rig.create_rig_cameras_from_reconstruction(rec, instances), "calibration", **what)
        if not ok:
            continue
        chk.count("rigs calibrated")
        chk.count("noisy calibrations", noise > 0)
        chk.expect(set(got) == {c for g in groups for c in g} and all(k == c.id for k, c in got.items()), "calibrated cameras are not those of the reconstructed instances", got=sorted(got),
                   want=sorted({c for g in groups for c in g}), **what)
        # a rig is in the frame of the set of cameras most instances have, if that meets every other set
        for r in rigs:
            mine = [g for g in groups if g <= set(r)]
            sizes = [{g: sum(frozenset(c for _, c in v) == g for v in vs.values()) for g in mine} for vs in (instances, complete)]
            if not mine:
                continue
            largest = max(mine, key=lambda g: sizes[0][g])
            if not all(n[g] < n[largest] for n in sizes for g in mine if g != largest):
                chk.count("rigs without a most frequent set of cameras")
                continue
            if not judge_rig(chk, got, truth, [largest], 1e-6 + 8 * noise, 1e-6 + 16 * noise, what):
                break
            if not noise and all(g & largest for g in mine):
                chk.count("rigs put together from several sets of cameras", len(mine) > 1)
                if not judge_rig(chk, got, truth, [set().union(*mine)], 1e-6, 1e-6, dict(what, chained=True)):
                    break


# --------------------------------------------------------------- creation
class StandIns:
    """Stand-ins for the steps of the reconstruction of a subset of images."""

    def __init__(self, chk, rng, S, plan):
        self.chk, self.rng, self.S, self.plan = chk, rng, S, plan
        self.rounds = []

    def __enter__(self):
        from opensfm import actions
        from opensfm.actions import create_tracks, detect_features, extract_metadata, match_features, reconstruct  # noqa: F401

        self.actions = actions
        self.old = {}
        for n in ("extract_metadata", "detect_features", "match_features", "create_tracks", "reconstruct"):
            m = getattr(self.actions, n)
            self.old[n] = m.run_dataset
            m.run_dataset = getattr(self, n)
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            getattr(self.actions, n).run_dataset = f

    def extract_metadata(self, data):
        for s in data.images():
            data.save_exif(s, self.S.exif(s, self.plan["gps"]))
        data.save_camera_models({c: gen.make_camera(p, c) for c, p in self.S.cams.items()})

    def detect_features(self, data):
        pass

    match_features = detect_features

    def create_tracks(self, data):
        if self.plan["real"]:
            tm = self.S.tracks_manager()
            from opensfm import pymap

            have = set(data.images())
            out = pymap.TracksManager()
            for s in tm.get_shot_ids():
                if s in have:
                    for k, o in tm.get_shot_observations(s).items():
                        out.add_observation(s, k, o)
            data.save_tracks_manager(out)

    def reconstruct(self, data, algorithm):
        from opensfm import types

        images = list(data.images())
        outcome = self.plan["rounds"][len(self.rounds)] if len(self.rounds) < len(self.plan["rounds"]) else "full"
        round_ = {"images": images, "outcome": outcome, "there": set(), "scale": 1.0}
        self.rounds.append(round_)
        if self.plan["real"]:
            self.old["reconstruct"](data, algorithm)
            recs = data.load_reconstruction()
            round_["there"] = set(recs[0].shots) if recs else set()
            return
        if outcome == "nothing":
            data.save_reconstruction([])
            return
        rng = self.rng
        f, R, t = float(np.exp(0.5 * rng.normal())), gen.rand_rotation(rng), rng.normal(size=3) * 10
        rec = types.Reconstruction()
        for c, p in self.S.cams.items():
            rec.add_camera(gen.make_camera(p, c))
        for s in images:
            if outcome == "few" and rng.random() < 0.5:
                continue
            if outcome == "most" and rng.random() < 0.04:
                continue
            Q = self.S.shots[s]["R"] @ R.T
            P = make_pose(Q, -Q @ (f * R @ self.S.origin(s) + t))
            rec.create_shot(s, self.S.shots[s]["cam"], P)
            round_["there"].add(s)
        round_["scale"] = f
        data.save_reconstruction([rec])


def creation(chk, real):
    from opensfm import dataset
    from opensfm.actions import create_rig

    rate = Rate()
    for i in range(chk.n(8, 64) if real else chk.n(64, 1200)):
        rng = chk.rng_for("creation", real, i)
        nc = int(rng.integers(1, 4)) if not real else 2
        ni = int(rng.choice([1, 2, 3, 8, 20])) if not real else int(rng.integers(8, 13))
        S = scenes.make(rng, ["perspective"], ni, 400 if real else 8, "line", 0.3, noise=0.0, names="im%03d.jpg")
        style = "similar" if real else str(rng.choice(["similar", "around", "any"]))
        poses = true_rig(rng, nc, style)
        cams = {["left", "right", "top"][k]: p for k, p in enumerate(poses)}
        base = dict(S.shots)
        S.shots = {}
        inst = {}
        lose = 0.15 if rng.random() < 0.3 and not real else 0.0
        for s, d in base.items():
            for c, (R, t) in cams.items():
                if rng.random() < lose:
                    continue
                name = s.replace(".jpg", "_%s.jpg" % c)
                S.shots[name] = dict(d, R=R @ d["R"], t=R @ d["t"] + 0.6 * t)
                inst.setdefault(s.replace(".jpg", "_.jpg"), []).append((name, c))
        nothing = rng.random() < 0.05 and not real
        if nothing:
            S.shots, inst = {}, {}
        alone = ["single%d.jpg" % k for k in range(int(rng.integers(0 if S.shots else 1, 3)))]
        for s in alone:
            S.shots[s] = dict(list(base.values())[0])
        S.observe()
        gps = bool(rng.random() < 0.8)
        size = int(rng.choice([1, 2, 3, 15])) if not real else 15
        most = int(rng.integers(1, 5))
        plan = {"gps": gps, "real": real, "rounds": [str(rng.choice(["nothing", "few", "most", "full"], p=[0.2, 0.3, 0.2, 0.3])) for _ in range(10)]}
        completeness = float(rng.choice([0.5, 0.85, 1.0])) if not real else 0.5
        config = {"rig_calibration_subset_size": size, "rig_calibration_max_rounds": most, "rig_calibration_completeness": completeness}
        data = S.dataset(os.path.join(chk.tmp, "c%d%d" % (real, i)), config, gps=gps, reference=bool(rng.random() < 0.5))
        patterns = {c: "(%s)" % c for c in cams}
        what = dict(config, cameras=nc, instances=ni, gps=gps, style=style, lost=lose, real=real, outcomes=plan["rounds"][:most])
        chk.case("creation", what, sig=(chk.shard, i, real))
        chk.count("rig creations")
        chk.count("rigs without GPS", not gps)
        debug = bool(rng.random() < 0.7)
        ins = StandIns(chk, rng, S, plan)
        with ins:
            ok, _ = chk.guard(lambda: create_rig.run_dataset(data, "pattern", patterns, debug), "create_rig", **what)
        if not ok:
            continue
        chk.count("rounds of calibration", len(ins.rounds))
        chk.expect(len(ins.rounds) <= most, "more rounds of calibration than configured", got=len(ins.rounds), **what)
        owner = {s: k for k, v in inst.items() for s, _ in v}
        groups = {}
        for k, v in inst.items():
            groups.setdefault(frozenset(c for _, c in v), []).append(k)
        good = None
        for n, r in enumerate(ins.rounds):
            chosen = {}
            for s in r["images"]:
                chosen.setdefault(owner.get(s), set()).add(s)
            chk.expect(None not in chosen and all(v == {s for s, _ in inst[k]} for k, v in chosen.items()), "a calibration uses parts of instances, or other images", **what)
            for g, ks in groups.items():
                use = sum(k in chosen for k in ks)
                chk.expect(use <= size and (use >= 1 if not gps or len(ks) > 0 else True), "number of instances used for a calibration", got=use, of=len(ks), **what)
                if not gps or len(ks) <= 6:
                    chk.expect(use == min(size, len(ks)), "number of instances used for a calibration", got=use, of=len(ks), **what)
                chk.count("last instances used", len(ks) > 1 and max(ks) in chosen)
            whole = [k for k in chosen if k and all(s in r["there"] for s in chosen[k])]
            found = {c for k in inst for _, c in inst[k] if all(s in r["there"] for s, _ in inst[k])}
            wanted = {c for v in inst.values() for _, c in v}
            if good is None and chosen and found == wanted and len(whole) >= completeness * len(chosen):
                good = n
        if good is not None:
            chk.expect(good == len(ins.rounds) - 1, "calibration went on after it had succeeded", got=len(ins.rounds), want=good + 1, **what)
        elif inst:
            chk.expect(len(ins.rounds) == most, "calibration was given up although rounds are left", got=len(ins.rounds), want=most, **what)
        again = dataset.DataSet(data.data_path)
        saved = again.load_rig_assignments()
        if good is None:
            chk.count("rig creations which failed")
            chk.expect(saved == {} and not os.path.exists(os.path.join(data.data_path, "rig_cameras.json")), "a rig which was not calibrated was saved", **what)
            continue
        chk.count("rig creations which succeeded")
        chk.expect({k: sorted(tuple(x) for x in v) for k, v in saved.items()} == {k: sorted(v) for k, v in inst.items()}, "saved assignments are not those of the names", **what)
        got = again.load_rig_cameras()
        truth = {c: (R, 0.6 * t) for c, (R, t) in cams.items()}
        if not real:
            r = ins.rounds[good]
            usable = {frozenset(c for _, c in inst[k]) for k in inst if all(s in r["there"] for s, _ in inst[k])}
            # groups may have been calibrated in parts which do not overlap
            full = [g for g in usable if g == max(usable, key=len)] if len(usable) == 1 else []
            judge_rig(chk, got, truth, full if usable else [], 1e-6, 1e-5, what, r["scale"])
        else:
            R, t = between(got["left"].pose, got["right"].pose)
            (Ra, ta), (Rb, tb) = truth["left"], truth["right"]
            W = Rb @ Ra.T
            w = tb - W @ ta
            dr = gen.rotation_angle(R @ W.T)
            da = np.degrees(np.arccos(np.clip(t @ w / np.linalg.norm(t) / np.linalg.norm(w), -1, 1)))
            chk.count("reconstructed calibrations")
            chk.extreme("rotation error of a reconstructed calibration (degrees)", np.degrees(dr))
            chk.extreme("direction error of a reconstructed calibration (degrees)", da)
            rate.add("reconstructed calibrations are right", np.degrees(dr) < 0.3 and da < 5, 0.6)
        if debug:
            ok, recs = chk.guard(lambda: again.load_reconstruction("rig_instances.json"), "loading rig_instances.json", **what)
            if ok and chk.expect(len(recs) == 1 and set(recs[0].shots) == set(owner), "shots of rig_instances.json", **what):
                rec = recs[0]
                for s, k in owner.items():
                    c = dict(inst[k])[s]
                    sh = rec.shots[s]
                    chk.expect(sh.rig_instance_id == k and sh.rig_camera_id == c, "rig of a shot of rig_instances.json", shot=s)
                    P = rec.rig_instances[k].pose
                    chk.close(rot(sh.pose), rot(got[c].pose) @ rot(P), 1e-7, "pose of a shot of rig_instances.json")
    rate.judge(chk)


def run(chk):
    names(chk)
    files(chk)
    updates(chk)
    calibration(chk)
    creation(chk, False)
    creation(chk, True)
