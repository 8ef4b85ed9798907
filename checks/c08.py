"""C08: reconstruction containers stay consistent under any history of edits."""
import copy

import numpy as np

import gen

SHARDS = {"quick": 6, "thorough": 8}
TARGETS = ["pymap"]
REQUIRED = ["operations", "states compared", "observations added", "observations replaced", "observations removed", "shots removed",
            "rig instances removed", "points removed", "refused operations", "shots copied from another reconstruction"]
RULE = ("one case = one history of creations, updates and removals on two reconstructions, all views of both compared with a "
        "plain dictionary model; non-trivial when at least one observation was added and one element removed")
ASSUMPTIONS = ["a shot and a panoramic shot observed at the same time do not share an identifier",
               "an emptied rig instance stays listed until it is removed; adding an observation again replaces the earlier one",
               "which of several points sharing one feature of an image is returned for that feature is left open"]


class Model:
    def __init__(self):
        self.cameras, self.biases = {}, {}
        self.rigcams, self.instances = {}, {}  # id -> (R, t)
        self.shots, self.panos = {}, {}  # id -> dict
        self.points = {}  # id -> dict(coords, color)
        self.obs = {}  # (kind, shot, point) -> tuple
        self.reference = (0.0, 0.0, 0.0)
        self.shared = set()  # features of a shot that several points had at some time

    def pose(self, s):
        Rc, tc = self.rigcams[s["rigcam"]]
        Ri, ti = self.instances[s["instance"]]
        return Rc @ Ri, Rc @ ti + tc

    def set_pose(self, s, R, t):
        Rc, tc = self.rigcams[s["rigcam"]]
        self.instances[s["instance"]] = (Rc.T @ R, Rc.T @ (t - tc))

    def members(self, instance):
        return {k: (kind, s) for kind, d in (("shot", self.shots), ("pano", self.panos)) for k, s in d.items() if s["instance"] == instance}


def refused(chk, fn, what, **data):
    chk.count("refused operations")
    try:
        fn()
    except (RuntimeError, KeyError, IndexError, ValueError):
        chk.expect(True, what)
        return
    chk.expect(False, what + " was accepted", **data)


def obs_tuple(o):
    return (tuple(map(float, o.point)), float(o.scale), tuple(map(int, o.color)), int(o.id), int(o.segmentation), int(o.instance))


def make_obs(rng):
    from opensfm import pymap

    x, y, s = rng.normal(size=3)
    return pymap.Observation(x, y, abs(s), *[int(c) for c in rng.integers(0, 256, 3)], int(rng.integers(0, 8)),
                             int(rng.integers(-1, 30)), int(rng.integers(-1, 30)))


def view(chk, v, ids, what):
    """All ways of listing a view agree."""
    chk.expect(len(v) == len(ids), what + ": length", got=len(v), expected=len(ids))
    keys = list(v.keys())
    chk.expect(sorted(keys) == sorted(ids), what + ": keys", got=sorted(keys), expected=sorted(ids))
    items = list(v.items())
    chk.expect(sorted(k for k, _ in items) == sorted(ids), what + ": items")
    chk.expect(len(list(v.values())) == len(ids), what + ": values")
    chk.expect(len(list(iter(v))) == len(ids), what + ": iteration")
    for k in ids:
        chk.expect(k in v, what + ": membership", id=k)
    chk.expect("absent" not in v, what + ": membership of an absent element")
    refused(chk, lambda: v["absent"], what + ": absent element")
    for k, x in items:
        if hasattr(x, "id"):
            chk.expect(x.id == k and v[k].id == k and v.get(k).id == k, what + ": element under another identifier", key=k, id=x.id)
    return dict(items)


def near(chk, pose, Rt, what, **data):
    R, t = Rt
    s = 1 + np.abs(t).max()
    chk.close(pose.get_rotation_matrix(), R, 1e-8, what + ": rotation", **data)
    chk.close(pose.translation, t, 1e-8 * s, what + ": translation", **data)


def compare(chk, rec, m, what):
    chk.count("states compared")
    view(chk, rec.cameras, m.cameras, what + " cameras")
    view(chk, rec.biases, m.biases, what + " biases")
    view(chk, rec.rig_cameras, m.rigcams, what + " rig cameras")
    view(chk, rec.rig_instances, m.instances, what + " rig instances")
    view(chk, rec.shots, m.shots, what + " shots")
    view(chk, rec.pano_shots, m.panos, what + " pano shots")
    view(chk, rec.points, m.points, what + " points")
    ref = rec.reference
    chk.expect((ref.lat, ref.lon, ref.alt) == m.reference, what + ": reference")
    for k, c in m.cameras.items():
        g = rec.cameras[k]
        chk.expect((g.id, g.width, g.focal if c[1] is not None else None) == (k, c[0], c[1]), what + ": camera", id=k)
    for k, b in m.biases.items():
        chk.close(rec.biases[k].scale, b, 0, what + ": bias", id=k)
        chk.close(rec.map.get_bias(k).scale, b, 0, what + ": bias", id=k)
    for k, Rt in m.rigcams.items():
        near(chk, rec.rig_cameras[k].pose, Rt, what + ": rig camera pose", id=k)
    for k, Rt in m.instances.items():
        g = rec.rig_instances[k]
        near(chk, g.pose, Rt, what + ": rig instance pose", id=k)
        mem = m.members(k)
        chk.expect(set(g.keys()) == set(mem) == set(g.shots.keys()), what + ": images of a rig instance", id=k, got=sorted(g.keys()),
                   expected=sorted(mem))
        chk.expect(dict(g.rig_camera_ids) == {a: s["rigcam"] for a, (_, s) in mem.items()}, what + ": rig cameras of an instance", id=k)
        chk.expect(dict(g.camera_ids) == {a: s["camera"] for a, (_, s) in mem.items()}, what + ": cameras of an instance", id=k)
        for a, s in g.shots.items():
            chk.expect(s.id == a, what + ": shot of an instance under another identifier", id=k)
        for a, c in g.rig_cameras.items():
            chk.expect(c.id == mem[a][1]["rigcam"], what + ": rig camera of an instance under another identifier", id=k)
    for kind, model, v in (("shot", m.shots, rec.shots), ("pano", m.panos, rec.pano_shots)):
        for k, s in model.items():
            g = v[k]
            chk.expect((g.id, g.camera.id, g.rig_camera_id, g.rig_instance_id) == (k, s["camera"], s["rigcam"], s["instance"]),
                       what + ": what a shot refers to", id=k, got=(g.id, g.camera.id, g.rig_camera_id, g.rig_instance_id), expected=s)
            chk.expect(g.rig_instance.id == s["instance"] and g.rig_camera.id == s["rigcam"], what + ": rig of a shot", id=k)
            near(chk, g.pose, m.pose(s), what + ": shot pose", id=k)
            chk.expect((g.scale, g.merge_cc, g.metadata.sequence_key.value if g.metadata.sequence_key.has_value else None)
                       == (s["scale"], s["cc"], s["key"]), what + ": shot values", id=k,
                       got=(g.scale, g.merge_cc, g.metadata.sequence_key.has_value), expected=s)
            mine = {p: o for (kd, sh, p), o in m.obs.items() if (kd, sh) == (kind, k)}
            lms = g.get_valid_landmarks()
            chk.expect(sorted(x.id for x in lms) == sorted(mine), what + ": points seen from a shot", id=k, got=sorted(x.id for x in lms),
                       expected=sorted(mine))
            for lm in lms:
                if lm.id in mine:
                    o = obs_tuple(g.get_landmark_observation(lm))
                    chk.expect(o == mine[lm.id], what + ": observation seen from the shot", shot=k, point=lm.id, got=o, expected=mine[lm.id])
            by_feature = {}
            for p, o in mine.items():
                by_feature.setdefault(o[3], set()).add(p)
            for f in range(8):
                lm = g.get_observation_landmark(f)
                if f not in by_feature:
                    chk.expect(lm is None, what + ": a feature without observation leads to a point", shot=k, feature=f)
                elif len(by_feature[f]) == 1 and (kind, k, f) not in m.shared:
                    p, = by_feature[f]
                    if chk.expect(lm is not None and lm.id == p, what + ": point of a feature", shot=k, feature=f, expected=p):
                        chk.expect(obs_tuple(g.get_observation(f)) == mine[p], what + ": observation of a feature", shot=k, feature=f)
                else:
                    chk.expect(lm is None or lm.id in by_feature[f], what + ": point of a shared feature", shot=k, feature=f)
    for k, p in m.points.items():
        g = rec.points[k]
        chk.close(g.coordinates, p["coords"], 0, what + ": point coordinates", id=k)
        chk.expect(tuple(map(int, g.color)) == p["color"], what + ": point color", id=k)
        mine = {s: o[3] for (_, s, q), o in m.obs.items() if q == k}
        got = {s.id: f for s, f in g.get_observations().items()}
        chk.expect(got == mine and g.number_of_observations() == len(mine), what + ": observations seen from a point", id=k, got=got, expected=mine)
        chk.expect(set(g.reprojection_errors) == p["errors"], what + ": reprojection errors kept for a point", id=k,
                   got=sorted(g.reprojection_errors), expected=sorted(p["errors"]))
        chk.expect(rec.map.has_landmark(k), what + ": has_landmark", id=k)
    tm = rec.map.to_tracks_manager()
    got = {(s, t): obs_tuple(o) for s in tm.get_shot_ids() for t, o in tm.get_shot_observations(s).items()}
    chk.expect(got == {(s, p): o for (_, s, p), o in m.obs.items()}, what + ": to_tracks_manager")
    valid = rec.map.get_valid_observations(tm)
    got = {(s, p): obs_tuple(o) for s, d in valid.items() for p, o in d.items()}
    chk.expect(got == {(s, p): o for (k, s, p), o in m.obs.items() if k == "shot"}, what + ": get_valid_observations")


class Session:
    def __init__(self, chk, rng, ops):
        from opensfm import types

        self.chk, self.rng, self.ops = chk, rng, ops
        self.recs = [(types.Reconstruction(), Model()) for _ in range(2)]
        self.removed = self.added = 0

    # identifiers: a rig shot "i_j" always belongs to instance "rig i" with rig camera "rc j"
    def shot_id(self):
        r = self.rng
        return str(r.choice(["a", "b", "ü c", "d.jpg"])) if r.random() < 0.4 else "%d_%d" % (r.integers(3), r.integers(3))

    def pick(self, d, absent=0.08):
        r = self.rng
        if not d or r.random() < absent:
            return "absent"
        return sorted(d)[int(r.integers(len(d)))]

    def rand_pose(self):
        from opensfm import pygeometry

        r = self.rng
        R, t = gen.rand_rotation(r), r.normal(size=3) * 10
        if r.random() < 0.3:
            R = np.eye(3)
        return pygeometry.Pose(R, t), (R, t)

    def step(self, k=None):
        from opensfm import geo, pygeometry, pymap

        chk, r = self.chk, self.rng
        i = int(r.integers(2))
        rec, m = self.recs[i]
        k = int(r.choice(31, p=WEIGHTS)) if k is None else k
        self.ops.append([i, k])
        op = self.ops[-1]
        chk.count("operations")
        if k == 0:  # camera
            cid = str(r.choice(["c0", "c1", "c2"]))
            c = pygeometry.Camera.create_spherical() if r.random() < 0.3 else pygeometry.Camera.create_perspective(float(r.uniform(0.4, 1)), 0.0, 0.0)
            c.id, c.width = cid, int(r.integers(1, 1000))
            op += [cid]
            val = (c.width, None if c.projection_type == "spherical" else c.focal)
            got = rec.add_camera(c)
            if cid not in m.cameras:
                m.cameras[cid], m.biases[cid] = val, 1.0
            chk.expect(got.id == cid and got.width == m.cameras[cid][0], "add_camera returns the camera of that identifier")
        elif k == 1:  # rig camera
            j = "rc%d" % r.integers(3)
            p, Rt = self.rand_pose()
            op += [j]
            if j in m.rigcams and r.random() < 0.5:
                refused(chk, lambda: rec.map.create_rig_camera(pymap.RigCamera(p, j)), "a second rig camera of the same identifier")
            else:
                got = rec.add_rig_camera(pymap.RigCamera(p, j))
                m.rigcams.setdefault(j, Rt)
                chk.expect(got.id == j, "add_rig_camera")
        elif k == 2:  # instance
            j = "rig%d" % r.integers(3)
            op += [j]
            if j in m.instances and r.random() < 0.5:
                refused(chk, lambda: rec.map.create_rig_instance(j), "a second rig instance of the same identifier")
            else:
                inst = pymap.RigInstance(j)
                p, Rt = self.rand_pose()
                inst.pose = p
                got = rec.add_rig_instance(inst)
                m.instances.setdefault(j, Rt)
                chk.expect(got.id == j, "add_rig_instance")
        elif k in (3, 4, 5):  # shot
            self.create_shot(rec, m, op)
        elif k == 6:  # pano shot
            sid, cid = str(r.choice(["p1", "p2", "p3"])), self.pick(m.cameras)
            op += [sid, cid]
            p, Rt = self.rand_pose()
            if r.random() < 0.3:
                p, Rt = None, (np.eye(3), np.zeros(3))
            if cid == "absent" or sid in m.panos:
                refused(chk, lambda: rec.create_pano_shot(sid, cid, p), "a pano shot with a missing camera or an existing identifier")
            else:
                rec.create_pano_shot(sid, cid, p)
                rc, inst = "panoshot_" + cid, "panoshot_" + sid
                m.rigcams.setdefault(rc, (np.eye(3), np.zeros(3)))
                m.instances.setdefault(inst, (np.eye(3), np.zeros(3)))
                m.panos[sid] = dict(camera=cid, rigcam=rc, instance=inst, scale=1.0, cc=0, key=None)
                m.set_pose(m.panos[sid], *Rt)
        elif k in (7, 8):  # point
            pid = str(r.choice(["0", "1", "2", "3", "π", ""]))
            X = r.normal(size=3)
            op += [pid]
            if pid in m.points:
                refused(chk, lambda: rec.create_point(pid, X), "a second point of the same identifier")
            else:
                u = r.random()
                if u < 0.2:
                    rec.create_point(pid)
                    X = np.zeros(3)
                    m.points[pid] = dict(coords=X, color=(255, 0, 0), errors=set())
                elif u < 0.4:
                    lm = pymap.Landmark(pid, X)
                    lm.color = np.array([1, 2, 3])
                    rec.add_point(lm)
                    m.points[pid] = dict(coords=X, color=(1, 2, 3), errors=set())
                else:
                    got = rec.create_point(pid, X)
                    chk.expect(got.id == pid, "create_point")
                    m.points[pid] = dict(coords=X, color=(255, 0, 0), errors=set())
        elif k in (9, 10, 11, 12, 13):  # observation
            kind = "pano" if m.panos and r.random() < 0.25 else "shot"
            d = m.panos if kind == "pano" else m.shots
            sid, pid = self.pick(d, 0.04), self.pick(m.points, 0.04)
            o = make_obs(r)
            op += [kind, sid, pid, int(o.id)]
            if sid == "absent" or pid == "absent":
                if kind == "shot":
                    refused(chk, lambda: rec.add_observation(sid, pid, o), "an observation of a missing shot or point")
                return
            if kind == "pano":
                rec.map.add_observation(rec.pano_shots[sid], rec.points[pid], o)
            elif r.random() < 0.5:
                rec.map.add_observation(rec.shots[sid], rec.points[pid], o)
            else:
                rec.add_observation(sid, pid, o)
            if any(a == kind and s == sid and q != pid and x[3] == o.id for (a, s, q), x in m.obs.items()):
                m.shared.add((kind, sid, int(o.id)))
            chk.count("observations replaced" if (kind, sid, pid) in m.obs else "observations added")
            self.added += 1
            m.obs[kind, sid, pid] = obs_tuple(o)
        elif k in (14, 15):  # remove observation
            sid, pid = self.pick(m.shots, 0.05), self.pick(m.points, 0.05)
            if r.random() < 0.7 and any(a == "shot" for a, _, _ in m.obs):
                c = sorted((s, p) for a, s, p in m.obs if a == "shot")
                sid, pid = c[int(r.integers(len(c)))]
            op += [sid, pid]
            if ("shot", sid, pid) in m.obs:
                f = m.obs["shot", sid, pid][3]
                alone = sum(1 for (a, s, p), o in m.obs.items() if (a, s) == ("shot", sid) and o[3] == f) == 1
                if alone and r.random() < 0.3 and ("shot", sid, f) not in m.shared:
                    rec.shots[sid].remove_observation(f)
                else:
                    rec.remove_observation(sid, pid)
                del m.obs["shot", sid, pid]
                m.points[pid]["errors"].discard(sid)
                chk.count("observations removed")
                self.removed += 1
            else:
                refused(chk, lambda: rec.remove_observation(sid, pid), "removing an observation that is not there")
        elif k in (16, 17):  # remove shot
            kind = "pano" if r.random() < 0.3 else "shot"
            d = m.panos if kind == "pano" else m.shots
            sid = self.pick(d)
            op += [kind, sid]
            fn = rec.remove_pano_shot if kind == "pano" else rec.remove_shot
            if sid == "absent":
                refused(chk, lambda: fn(sid), "removing a shot that is not there")
            else:
                fn(sid)
                self.drop_shot(m, kind, sid)
        elif k == 18:  # remove point
            pid = self.pick(m.points)
            op += [pid]
            if pid == "absent":
                refused(chk, lambda: rec.remove_point(pid), "removing a point that is not there")
            else:
                if r.random() < 0.5:
                    rec.remove_point(pid)
                else:
                    rec.map.remove_landmark(rec.points[pid])
                del m.points[pid]
                m.obs = {q: o for q, o in m.obs.items() if q[2] != pid}
                chk.count("points removed")
                self.removed += 1
        elif k == 19:  # remove rig instance
            j = self.pick(m.instances)
            op += [j]
            if j == "absent":
                refused(chk, lambda: rec.remove_rig_instance(j), "removing a rig instance that is not there")
            else:
                rec.remove_rig_instance(j)
                for sid, (kind, _) in list(m.members(j).items()):
                    self.drop_shot(m, kind, sid)
                del m.instances[j]
                chk.count("rig instances removed")
        elif k == 20:  # fewer observations than needed
            n = int(r.integers(0, 4))
            op += [n]
            rec.map.clean_landmarks_below_min_observations(n)
            for pid in list(m.points):
                if sum(1 for q in m.obs if q[2] == pid) < n:
                    del m.points[pid]
                    m.obs = {q: o for q, o in m.obs.items() if q[2] != pid}
        elif k == 21:
            if r.random() < 0.5:
                rec.points = {}
            else:
                rec.map.clear_observations_and_landmarks()
            m.points, m.obs = {}, {}
        elif k == 22:  # shot pose
            sid = self.pick(m.shots, 0)
            if sid == "absent":
                return
            p, Rt = self.rand_pose()
            s = m.shots[sid]
            Rc, tc = m.rigcams[s["rigcam"]]
            single = np.abs(Rc - np.eye(3)).max() < 1e-12 and np.abs(tc).max() < 1e-12 and len(m.members(s["instance"])) == 1
            op += [sid, single]
            if single:
                if r.random() < 0.5:
                    rec.shots[sid].pose = p
                    m.set_pose(s, *Rt)
                else:
                    o = r.normal(size=3)
                    rec.shots[sid].pose.set_origin(o)
                    R, _ = m.pose(s)
                    m.set_pose(s, R, -R @ o)
            elif len(m.members(s["instance"])) > 1 or np.abs(tc).max() > 1e-3:
                def assign():
                    rec.shots[sid].pose = p
                refused(chk, assign, "setting the pose of a shot bound by a rig")
        elif k == 23:  # instance pose
            j = self.pick(m.instances, 0)
            if j == "absent":
                return
            p, Rt = self.rand_pose()
            op += [j]
            mem = m.members(j)
            if mem and r.random() < 0.5:
                sid = sorted(mem)[0]
                rec.rig_instances[j].update_instance_pose_with_shot(sid, p)
                m.set_pose(mem[sid][1], *Rt)
            else:
                rec.rig_instances[j].pose = p
                m.instances[j] = Rt
        elif k == 24:  # rig camera pose
            j = self.pick(m.rigcams, 0)
            if j == "absent" or j.startswith("panoshot"):
                return
            op += [j]
            p, Rt = self.rand_pose()
            rec.rig_cameras[j].pose = p
            m.rigcams[j] = Rt
        elif k == 25:  # point values
            pid = self.pick(m.points, 0)
            if pid == "absent":
                return
            op += [pid]
            lm, p = rec.points[pid], m.points[pid]
            lm.coordinates = X = r.normal(size=3)
            lm.color = c = r.integers(0, 256, 3)
            p["coords"], p["color"] = X, tuple(int(v) for v in c)
            seen = sorted(s for _, s, q in m.obs if q == pid)
            lm.reprojection_errors = {s: np.array([0.1, 0.2]) for s in seen}
            p["errors"] = set(seen)
        elif k == 26:  # shot values, camera values
            sid = self.pick(m.shots, 0)
            if sid != "absent":
                s, g = m.shots[sid], rec.shots[sid]
                g.scale = s["scale"] = float(r.random())
                g.merge_cc = s["cc"] = int(r.integers(100))
                md = pymap.ShotMeasurements()
                s["key"] = None
                if r.random() < 0.7:
                    s["key"] = "seq%d" % r.integers(9)
                    md.sequence_key.value = s["key"]
                g.metadata = md
            cid = self.pick(m.cameras, 0)
            if cid != "absent":
                w = int(r.integers(1, 99))
                rec.cameras[cid].width = w
                m.cameras[cid] = (w, m.cameras[cid][1])
        elif k == 27:  # bias, reference
            cid = self.pick(m.cameras, 0.2)
            s = float(r.uniform(0.5, 2))
            sim = pygeometry.Similarity(r.normal(size=3), r.normal(size=3), s)
            if cid == "absent":
                refused(chk, lambda: rec.set_bias(cid, sim), "a bias for a missing camera")
            else:
                rec.set_bias(cid, sim)
                m.biases[cid] = s
            m.reference = tuple(float(x) for x in (r.uniform(-90, 90), r.uniform(-180, 180), r.normal()))
            rec.reference = geo.TopocentricConverter(*m.reference)
        elif k in (28, 29):
            self.copy_shot(i, op)
        elif k == 30 and r.random() < 0.3:
            rec2 = copy.deepcopy(rec, {"copy_observations": True})
            compare(chk, rec2, m, "copy")

    def drop_shot(self, m, kind, sid):
        d = m.panos if kind == "pano" else m.shots
        del d[sid]
        for q in [q for q in m.obs if q[:2] == (kind, sid)]:
            m.points[q[2]]["errors"].discard(sid)
            del m.obs[q]
        self.chk.count("shots removed")
        self.removed += 1

    def create_shot(self, rec, m, op):
        r, chk = self.rng, self.chk
        sid, cid = self.shot_id(), self.pick(m.cameras)
        p, Rt = self.rand_pose()
        if r.random() < 0.2:
            p = None
        rc = inst = None
        if "_" in sid:
            a, b = sid.split("_")
            inst, rc = "rig" + a, "rc" + b
        op += [sid, cid, p is not None]
        bad = cid == "absent" or sid in m.shots or (rc and rc not in m.rigcams) or (inst and inst not in m.instances)
        if bad:
            refused(chk, lambda: rec.create_shot(sid, cid, p, rc, inst), "a shot with missing parts or an existing identifier", shot=sid)
            return
        if r.random() < 0.1:
            which = int(r.integers(3))
            args = [sid, cid, p, rc, inst]
            args[[1, 3, 4][which]] = "absent"
            refused(chk, lambda: rec.create_shot(*args), "a shot with a missing camera, rig camera or rig instance", arguments=args[:2])
            return
        got = rec.create_shot(sid, cid, p, rc, inst)
        rc, inst = rc or cid, inst or sid
        m.rigcams.setdefault(rc, (np.eye(3), np.zeros(3)))
        m.instances.setdefault(inst, (np.eye(3), np.zeros(3)))
        m.shots[sid] = dict(camera=cid, rigcam=rc, instance=inst, scale=1.0, cc=0, key=None)
        if p is not None:
            m.set_pose(m.shots[sid], *Rt)
        chk.expect(got.id == sid, "create_shot")

    def copy_shot(self, i, op):
        """add_shot / add_pano_shot from the other reconstruction."""
        chk, r = self.chk, self.rng
        rec, m = self.recs[i]
        src, n = self.recs[1 - i]
        kind = "pano" if r.random() < 0.3 else "shot"
        dst_d, src_d = (m.panos, n.panos) if kind == "pano" else (m.shots, n.shots)
        sid = self.pick(src_d, 0)
        op += [kind, sid]
        if sid == "absent":
            return
        s = src_d[sid]
        # another image under the same rig camera of the same instance cannot be added
        own = s["rigcam"]
        if own.startswith("c") or own.startswith("pano"):
            if sid in dst_d and dst_d[sid]["rigcam"] != own:
                return
            other = m.members(s["instance"])
            if set(other) - {sid}:
                return
        g = (rec.add_pano_shot if kind == "pano" else rec.add_shot)((src.pano_shots if kind == "pano" else src.shots)[sid])
        chk.count("shots copied from another reconstruction")
        chk.expect(g.id == sid, "add_shot")
        fam = [(sid, s)] + [(a, x) for a, (kd, x) in sorted(n.members(s["instance"]).items()) if a != sid]
        for a, x in fam:
            if x["camera"] not in m.cameras:
                m.cameras[x["camera"]] = n.cameras[x["camera"]]
                m.biases[x["camera"]] = 1.0
            if x["rigcam"] not in m.rigcams:
                m.rigcams[x["rigcam"]] = (np.eye(3), np.zeros(3)) if kind == "pano" else n.rigcams[x["rigcam"]]
            if a not in dst_d:
                m.instances.setdefault(x["instance"], (np.eye(3), np.zeros(3)))
                dst_d[a] = dict(x)
        for key in ("scale", "cc", "key"):
            dst_d[sid][key] = s[key]
        m.set_pose(dst_d[sid], *n.pose(s))


w = np.array([3, 4, 4, 5, 5, 5, 2, 6, 6, 14, 14, 14, 14, 14, 4, 4, 2, 2, 2, 1.2, 0.5, 0.3, 3, 3, 2, 3, 3, 2, 3, 3, 2.0])
WEIGHTS = w / w.sum()


def history(chk, rng, i, every=None):
    ops = []
    chk.case("history", {"operations": ops}, sig=(chk.shard, i))
    s = Session(chk, rng, ops)
    every = every or int(rng.choice([1, 5, 1000]))
    n = int(rng.integers(10, 90))
    for k in range(n):
        s.step([0, 0, 1, 1, 2, 2, 3, 3, 7, 7, 6][k % 11] if k < 22 and rng.random() < 0.7 else None)
        if k % every == every - 1:
            for j, (rec, m) in enumerate(s.recs):
                if ops[-1][0] == j or every > 1:
                    compare(chk, rec, m, "reconstruction %d" % j)
    for j, (rec, m) in enumerate(s.recs):
        compare(chk, rec, m, "reconstruction %d" % j)
    chk.extreme("observations alive", max(len(m.obs) for _, m in s.recs))
    chk.extreme("operations in one history", n)


def run(chk):
    for i in range(chk.n(3000, 60000)):
        history(chk, chk.rng_for(i), i)
