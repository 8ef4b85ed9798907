"""C24: exports describe the reconstruction they were made from."""
import json
import os
import runpy
import shutil
import sqlite3
import struct
import sys

import numpy as np

import gen
import scenes
from checks import c18, c19
from checks.c21 import Picture, read, write
from checks.c23 import tree

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 400, "thorough": 850}
REQUIRED = ["colmap exports", "colmap text exports", "colmap binary exports", "colmap cameras", "colmap observations", "colmap matches", "bundler observations", "visualsfm observations", "pmvs images",
            "pmvs pixels", "openmvs observations", "openmvs masks", "ply points", "depth map points", "geocoords positions", "geocoords points", "geocoords cloud points", "gps rows",
            "datasets with several reconstructions", "datasets with rigs", "exports of some images", "identity rotations"]
RULE = ("one case = one dataset with one to three reconstructions (and its undistorted version) exported to every format; each file is parsed by an independent reader which applies the "
        "conventions of the format, and compared with the reconstruction; non-trivial = at least one reconstruction with points")
ASSUMPTIONS = ["formats are used with the camera models they can describe; importers are left out (they need other versions of Python or numpy)",
               "files written as text carry six decimals", "positions in geographic projections come from a linear approximation around the reference"]
COLMAP = ["perspective", "brown", "fisheye", "fisheye_opencv"]
MODELS = {3: ("RADIAL", 5), 6: ("FULL_OPENCV", 12), 9: ("RADIAL_FISHEYE", 5), 5: ("OPENCV_FISHEYE", 8)}


# ------------------------------------------------------------------ datasets
class World:
    """Scene, several parts of it as reconstructions, and where their parts are."""


def make(chk, rng, root):
    W = World()
    kind = str(rng.choice(["colmap", "perspective", "any"], p=[0.45, 0.35, 0.2]))
    pool = {"colmap": COLMAP, "perspective": ["perspective"], "any": ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "spherical"]}[kind]
    models = [str(rng.choice(pool)) for _ in range(int(rng.integers(1, 4)))]
    size = [(120, 90), (90, 120), (160, 100), (100, 100)][rng.integers(4)]
    names = ["im%02d.png", "im %02d.png", "été%02d.png"][rng.choice(3, p=[0.6, 0.15, 0.25])]
    many = int(rng.choice([1, 1, 2, 3]))
    S = scenes.make(rng, models, max(len(models), 2 * many) + int(rng.integers(1, 4)), int(rng.integers(40, 120)), "inside" if "spherical" in models else None,
                    float(rng.choice([0.0, 0.6, 0.6])), size=size, names=names)
    for p in S.cams.values():
        if p["model"] == "spherical":
            p["width"], p["height"] = 200, 100
    ids = list(S.shots)
    if rng.random() < 0.5:  # a camera without any rotation
        s = ids[rng.integers(len(ids))]
        S.shots[s].update(R=np.eye(3), t=-(S.X.mean(0) - [0, 0, 8.0]))
        chk.count("identity rotations")
    S._limit = {}
    S.observe()
    groups = [ids[i::many] for i in range(many)]
    W.S, W.models, W.kind = S, models, kind
    W.cfg = {"feature_process_size": int(rng.choice([2048, 2048, 60])), "undistorted_image_format": str(rng.choice(["png", "jpg"])), "depthmap_resolution": 40}
    if rng.random() < 0.4:
        order = [ids[i] for i in rng.permutation(len(ids))]
    else:
        order = None
    W.rigs = rng.random() < 0.3
    data = S.dataset(root, W.cfg)
    if order:
        with open(os.path.join(root, "image_list.txt"), "w") as f:
            f.write("".join("images/%s\n" % s for s in order))
    W.pics = {}
    for s in ids:
        p = S.cams[S.shots[s]["cam"]]
        q = W.pics[s] = Picture(rng, p["width"], p["height"], 3, False)
        write(os.path.join(root, "images", s), q.pixels)
        if rng.random() < 0.5:
            write(os.path.join(root, "masks", s + ".png"), q.mask)
    from opensfm import dataset, features

    data = dataset.DataSet(root)
    W.points = {}  # shot -> pixel-normalized features, those of points first, in some order
    W.fid = {}
    for s in ids:
        seen = sorted(S.obs[s])
        n = len(seen) + int(rng.integers(0, 6))
        perm = rng.permutation(n)
        P = rng.uniform(-0.3, 0.3, (n, 4))
        W.fid[s] = {k: int(perm[i]) for i, k in enumerate(seen)}
        for k in seen:
            P[W.fid[s][k], :2] = S.obs[s][k]
        W.points[s] = P
        data.save_features(s, features.FeaturesData(P, rng.integers(0, 255, (n, 8)).astype(np.uint8), rng.integers(0, 255, (n, 3)), None))
    W.groups = groups
    W.recs = [build(rng, W, g, i) for i, g in enumerate(groups)]
    data.save_tracks_manager(tracks(W))
    W.tm = data.load_tracks_manager()
    data.save_reconstruction([r for r, _ in W.recs])
    # matches
    W.matches = {}
    for i, a in enumerate(ids):
        out = {}
        for b in ids[i + 1:]:
            if rng.random() < 0.2:
                continue
            common = sorted(set(S.obs[a]) & set(S.obs[b]))
            m = [(W.fid[a][k], W.fid[b][k]) for k in common]
            m = [m[j] for j in rng.permutation(len(m))]
            if rng.random() < 0.5:
                out[b] = m
            else:
                W.matches.setdefault(b, {})[a] = [(y, x) for x, y in m]
        W.matches.setdefault(a, {}).update(out)
    for a in ids:
        data.save_matches(a, {b: np.array(m, int).reshape(-1, 2) for b, m in W.matches.get(a, {}).items()})
    W.root, W.data = root, dataset.DataSet(root)
    chk.count("datasets with several reconstructions", many > 1)
    chk.count("datasets with rigs", bool(W.rigs))
    return W


def build(rng, W, names, which):
    """Reconstruction of a part of the scene in some frame; with its true positions."""
    from opensfm import geo, pymap, types

    S = W.S
    f = (1.0, np.eye(3), np.zeros(3)) if which == 0 else (float(rng.uniform(0.7, 1.5)), gen.rodrigues([0, 0, rng.uniform(-2, 2)]), rng.normal(size=3) * 5)
    rec = types.Reconstruction()
    R = scenes.REF
    rec.reference = geo.TopocentricConverter(R["latitude"], R["longitude"], R["altitude"])
    for c in {S.shots[s]["cam"] for s in names}:
        rec.add_camera(gen.make_camera(S.cams[c], c))
    pose = {s: (S.shots[s]["R"] @ f[1].T, c19.at(f, S.origin(s))) for s in names}
    paired = [names[i:i + 2] for i in range(0, len(names) - 1, 2)] if W.rigs else []
    rest = set(names)
    for i, (a, b) in enumerate(paired):
        # the instance is where its first image is, seen from there the second one
        (Ra, oa), (Rb, ob) = pose[a], pose[b]
        ra, rb, g = "left%d_%d" % (which, i), "right%d_%d" % (which, i), "rig%d_%d" % (which, i)
        rec.add_rig_camera(pymap.RigCamera(c18.lib_pose(np.eye(3), np.zeros(3)), ra))
        rec.add_rig_camera(pymap.RigCamera(c18.lib_pose(Ra @ Rb.T, Ra @ (ob - oa)), rb))
        rec.add_rig_instance(pymap.RigInstance(g))
        for s, r in ((a, ra), (b, rb)):
            rec.create_shot(s, S.shots[s]["cam"], rig_camera_id=r, rig_instance_id=g)
        rec.rig_instances[g].pose = c18.lib_pose(Ra.T, oa)
        rest -= {a, b}
    for s in names:
        if s in rest:
            rec.create_shot(s, S.shots[s]["cam"], c18.lib_pose(pose[s][0].T, pose[s][1]))
        m = rec.shots[s].metadata
        m.gps_position.value, m.gps_accuracy.value = S.origin(s), 1.0
        m.orientation.value, m.capture_time.value = 1, 0.0
    for k, ss in S.seen().items():
        if sum(s in pose for s in ss) >= 2:
            rec.create_point(str(k), c19.at(f, S.X[k])).color = [int(v) for v in S.colors[k]]
    return rec, f


def tracks(W):
    from opensfm import pymap

    tm = pymap.TracksManager()
    for k, ss in W.S.seen().items():
        if len(ss) >= 2:
            for s in ss:
                x, y = W.points[s][W.fid[s][k], :2]
                r, g, b = (int(v) for v in W.S.colors[k])
                tm.add_observation(s, str(k), pymap.Observation(x, y, 0.004, r, g, b, W.fid[s][k]))
    return tm


def snapshot(rec):
    """Plain values of a reconstruction."""
    shots = {s: (np.array(v.pose.get_rotation_matrix()), np.array(v.pose.get_origin()), v.camera.id) for s, v in rec.shots.items()}
    points = {p: (np.array(v.coordinates), [int(c) for c in v.color]) for p, v in rec.points.items()}
    return shots, points


def observed(tm, p, shots):
    return {s: o for s, o in tm.get_track_observations(p).items() if s in shots}


def inside(chk, before, after, allowed, what):
    """Only what the export is meant to write has changed."""
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    other = sorted(p for p in changed if not any(p == a or p.startswith(a + os.sep) for a in allowed))
    chk.expect(not other, "an export changed other files", files=other[:5], export=what)
    return changed


# ------------------------------------------------------------------ colmap
class Reader:
    def __init__(self, path):
        self.b, self.i = open(path, "rb").read(), 0

    def get(self, fmt):
        v = struct.unpack_from("<" + fmt, self.b, self.i)
        self.i += struct.calcsize("<" + fmt)
        return v if len(v) > 1 else v[0]

    def text(self):
        j = self.b.index(b"\0", self.i)
        s = self.b[self.i:j].decode("utf-8")
        self.i = j + 1
        return s

    def string(self):
        n = self.get("Q")
        s = self.b[self.i:self.i + n].decode("utf-8")
        self.i += n
        return s

    def done(self):
        return self.i == len(self.b)


def colmap_read(folder, binary):
    cams, ims, pts = {}, [], {}
    if binary:
        r = Reader(folder + "/cameras.bin")
        for _ in range(r.get("Q")):
            c, m, w, h = r.get("iiQQ")
            cams[c] = (MODELS[m][0], w, h, list(r.get("%dd" % MODELS[m][1])))
        assert r.done(), "cameras.bin is longer than told"
        r = Reader(folder + "/images.bin")
        for _ in range(r.get("Q")):
            i = r.get("I")
            q, t, c = r.get("4d"), r.get("3d"), r.get("I")
            name = r.text()
            ims.append((i, q, t, c, name, [(r.get("dd"), r.get("q")) for _ in range(r.get("Q"))]))
        assert r.done(), "images.bin is longer than told"
        r = Reader(folder + "/points3D.bin")
        for _ in range(r.get("Q")):
            p = r.get("Q")
            X, rgb, err = r.get("3d"), r.get("3B"), r.get("d")
            pts[p] = (X, list(rgb), [r.get("ii") for _ in range(r.get("Q"))])
        assert r.done(), "points3D.bin is longer than told"
        return cams, ims, pts
    for line in open(folder + "/cameras.txt", encoding="utf-8"):
        v = line.split()
        cams[int(v[0])] = (v[1], int(v[2]), int(v[3]), [float(x) for x in v[4:]])
    lines = open(folder + "/images.txt", encoding="utf-8").read().split("\n")
    for a, b in zip(lines[0::2], lines[1::2]):
        v = a.split(" ", 9)
        w = b.split()
        assert len(w) % 3 == 0
        ims.append((int(v[0]), tuple(map(float, v[1:5])), tuple(map(float, v[5:8])), int(v[8]), v[9], [((float(w[k]), float(w[k + 1])), int(w[k + 2])) for k in range(0, len(w), 3)]))
    for line in open(folder + "/points3D.txt"):
        v = line.split()
        pts[int(v[0])] = (tuple(map(float, v[1:4])), [int(x) for x in v[4:7]], [(int(v[k]), int(v[k + 1])) for k in range(8, len(v), 2)])
    return cams, ims, pts


def colmap_project(cam, Y):
    """Documented models of COLMAP."""
    model, w, h, p = cam
    u, v = Y[:2] / Y[2]
    r = np.hypot(u, v)
    th = np.arctan2(np.hypot(Y[0], Y[1]), Y[2])
    if model == "RADIAL":
        f, cx, cy, k1, k2 = p
        d = 1 + k1 * r**2 + k2 * r**4
        return np.array([f * d * u + cx, f * d * v + cy])
    if model == "FULL_OPENCV":
        fx, fy, cx, cy, k1, k2, p1, p2, k3, k4, k5, k6 = p
        d = (1 + k1 * r**2 + k2 * r**4 + k3 * r**6) / (1 + k4 * r**2 + k5 * r**4 + k6 * r**6)
        return np.array([fx * (d * u + 2 * p1 * u * v + p2 * (r**2 + 2 * u * u)) + cx, fy * (d * v + 2 * p2 * u * v + p1 * (r**2 + 2 * v * v)) + cy])
    e = np.array([Y[0], Y[1]]) / max(np.hypot(Y[0], Y[1]), 1e-300)
    if model == "RADIAL_FISHEYE":
        f, cx, cy, k1, k2 = p
        return f * th * (1 + k1 * th**2 + k2 * th**4) * e + [cx, cy]
    fx, fy, cx, cy, k1, k2, k3, k4 = p
    d = th * (1 + k1 * th**2 + k2 * th**4 + k3 * th**6 + k4 * th**8)
    return np.array([fx * d * e[0] + cx, fy * d * e[1] + cy])


def rotation(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def pixel(p, xy):
    """Position in an image whose upper left corner is the origin."""
    m = max(p["width"], p["height"])
    return np.array([xy[0] * m + p["width"] / 2, xy[1] * m + p["height"] / 2])


def colmap(chk, rng, W):
    from opensfm.actions import export_colmap

    binary = bool(rng.random() < 0.5)
    before = tree(W.root)
    ok, _ = chk.guard(lambda: export_colmap.run_dataset(W.data, binary), "COLMAP export", models=W.models)
    if not ok:
        return
    inside(chk, before, tree(W.root), ["colmap_export"], "colmap")
    folder = os.path.join(W.root, "colmap_export")
    ok, got = chk.guard(lambda: colmap_read(folder, binary), "reading the COLMAP export", binary=binary)
    if not ok:
        return
    chk.count("colmap exports")
    chk.count("colmap binary exports" if binary else "colmap text exports")
    cams, ims, pts = got
    S = W.S
    tol = 1e-9 if binary else 1e-5
    every = {s: r for r, _ in W.recs for s in r.shots}
    byname = {i[4]: i for i in ims}
    byid = {i[0]: i for i in ims}
    if not chk.expect(len(ims) == len(byname) == len(byid) and set(byname) == set(every), "COLMAP: other images", got=sorted(byname), want=sorted(every)):
        return
    used = set()
    pid = {}
    for j, (rec, f) in enumerate(W.recs):
        shots, points = snapshot(rec)
        for s, (R, o, c) in shots.items():
            i, q, t, cid, _, P2 = byname[s]
            chk.expect(abs(np.linalg.norm(q) - 1) < 1e-5 and np.abs(rotation(q) - R).max() < 10 * tol + 1e-9 and np.abs(np.array(t) + R @ o).max() < 10 * tol + 1e-9,
                       "COLMAP: pose of an image", shot=s, q=q, t=t, want_R=R, want_t=-R @ o)
            p = S.cams[c]
            if not chk.expect(cid in cams and cams[cid][1:3] == (p["width"], p["height"]), "COLMAP: camera of an image", got=cams.get(cid), want=p):
                return
            chk.expect(len(P2) == len(W.points[s]), "COLMAP: number of features of an image", got=len(P2), want=len(W.points[s]), shot=s)
            want = np.array([pixel(p, xy) for xy in W.points[s][:, :2]])
            chk.expect(len(P2) == len(want) and np.abs(np.array([a for a, _ in P2]) - want).max() < 1e-3, "COLMAP: positions of the features of an image", shot=s)
        # points are numbered freely: recognise them by their features
        for p, (X, col) in points.items():
            want = {(byname[s][0], o.id) for s, o in observed(W.tm, p, shots).items()}
            match = [k for k, v in pts.items() if k not in used and set(v[2]) == want and len(v[2]) == len(want)]
            if not chk.expect(bool(match), "COLMAP: a point has other features, or is missing", point=p, want=sorted(want)):
                continue
            k = match[0]
            used.add(k)
            pid[j, p] = k
            chk.expect(np.abs(np.array(pts[k][0]) - X).max() < tol and pts[k][1] == col, "COLMAP: position or color of a point", point=p, got=pts[k][:2], want=(X, col))
            for i, n in pts[k][2]:
                s = byid[i][4]
                P2 = byid[i][5]
                if not chk.expect(n < len(P2) and P2[n][1] == k, "COLMAP: the feature of a point belongs to another point", point=p, shot=s, feature=n):
                    continue
                R, o, c = shots[s]
                cam = cams[byid[i][3]]
                # through the exported camera, pose and point
                Y = rotation(np.array(byid[i][1]) / np.linalg.norm(byid[i][1])) @ np.array(pts[k][0]) + byid[i][2]
                d = np.abs(colmap_project(cam, Y) - np.array(P2[n][0])).max()
                chk.extreme("COLMAP reprojection, pixels", float(d))
                chk.expect(d < (2e-3 if binary else 2e-2), "COLMAP: a point does not project to its feature", point=p, shot=s, distance=float(d), camera=cam, model=S.cams[c]["model"])
                chk.count("colmap observations")
        for s in shots:
            for n, (_, k) in enumerate(byname[s][5]):
                if k != -1:
                    chk.expect(k in pts and (byname[s][0], n) in pts[k][2], "COLMAP: a feature belongs to a point which does not know it", shot=s, feature=n)
    chk.expect(used == set(pts), "COLMAP: points which are not in the reconstructions", number=len(set(pts) - used))
    chk.count("colmap cameras", len(cams))
    # database
    db = sqlite3.connect(os.path.join(folder, "colmap_database.db"))
    dcams = {r[0]: r for r in db.execute("select camera_id, model, width, height, params from cameras")}
    dims = {r[1]: r for r in db.execute("select image_id, name, camera_id from images")}
    keys = {r[0]: np.frombuffer(r[3], np.float32).reshape(r[1], r[2]) for r in db.execute("select image_id, rows, cols, data from keypoints")}
    mats = {r[0]: np.frombuffer(r[3], np.uint32).reshape(r[1], r[2]) for r in db.execute("select pair_id, rows, cols, data from matches")}
    geos = {r[0]: (np.frombuffer(r[3], np.uint32).reshape(r[1], r[2]), np.frombuffer(r[4], np.float64).reshape(3, 3))
            for r in db.execute("select pair_id, rows, cols, data, F from two_view_geometries")}
    db.close()
    chk.expect(set(dims) == set(S.shots), "COLMAP database: other images", got=sorted(dims), want=sorted(S.shots))
    for s, (i, _, c) in dims.items():
        p = S.cams[S.shots[s]["cam"]]
        chk.expect(i == byname[s][0] and c == byname[s][3], "COLMAP database: other numbers than in the model", shot=s)
        m = dcams[c]
        params = np.frombuffer(m[4], np.float64)
        chk.expect(MODELS[m[1]][0] == cams[c][0] and m[2:4] == (p["width"], p["height"]) and len(params) == len(cams[c][3]) and np.abs(params - cams[c][3]).max() < tol,
                   "COLMAP database: camera", got=(m[1:4], params), want=cams[c])
        want = np.array([pixel(p, xy) for xy in W.points[s][:, :2]])
        chk.expect(i in keys and keys[i].shape == want.shape and np.abs(keys[i] - want).max() < 1e-3, "COLMAP database: keypoints of an image", shot=s)
    names = {i: s for s, (i, _, _) in dims.items()}
    M = 2**31 - 1
    chk.expect(set(mats) == set(geos), "COLMAP database: matches without geometry or the other way")
    for pair, m in mats.items():
        a, b = names.get(pair // M), names.get(pair % M)
        if not chk.expect(a is not None and b is not None and pair // M < pair % M, "COLMAP database: images of a pair", pair=pair):
            continue
        want = {tuple(x) for x in W.matches.get(a, {}).get(b, [])} | {(y, x) for x, y in W.matches.get(b, {}).get(a, [])}
        got = {(int(x), int(y)) for x, y in m}
        chk.expect(got <= want and len(got) == len(m), "COLMAP database: matches which do not exist", images=(a, b), extra=sorted(got - want)[:4])
        chk.count("colmap matches", len(got))
        if pair in geos:
            g, F = geos[pair]
            chk.expect(np.array_equal(g, m), "COLMAP database: inliers differ from matches")
            if len(m) and np.isfinite(F).all():
                x1, x2 = (np.hstack([keys[dims[s][0]][m[:, n]], np.ones((len(m), 1))]) for n, s in enumerate((a, b)))
                e = np.abs(np.einsum("ni,ij,nj->n", x2, F, x1))
                d = np.minimum(e / np.maximum(np.linalg.norm((x1 @ F.T)[:, :2], axis=1), 1e-300), e / np.maximum(np.linalg.norm((x2 @ F)[:, :2], axis=1), 1e-300))
                chk.extreme("COLMAP epipolar distance of an inlier, pixels", float(np.median(d)))
                chk.expect(np.median(d) < 8, "COLMAP database: the fundamental matrix does not relate the images of its pair in their order", images=(a, b), distance=float(np.median(d)))


# ------------------------------------------------------------------ bundler
def bundler(chk, rng, W, undistorted, udata=None, recs=None, tm=None):
    from opensfm.actions import export_bundler

    where = None if rng.random() < 0.5 else os.path.join(W.root, "somewhere")
    before = tree(W.root)
    ok, _ = chk.guard(lambda: export_bundler.run_dataset(W.data, where, where, undistorted), "Bundler export", undistorted=undistorted, models=W.models)
    if not ok:
        return
    inside(chk, before, tree(W.root), ["bundler", "somewhere"], "bundler")
    folder = where or os.path.join(W.root, "bundler")
    for j, rec in enumerate(recs):
        shots, points = snapshot(rec)
        names = open(folder + "/list_r%03d.out" % j, encoding="utf-8").read().split("\n")
        names = [x for x in names if x]
        lines = open(folder + "/bundle_r%03d.out" % j).read().split("\n")
        if not chk.expect(lines[0] == "# Bundle file v0.3", "Bundler: header"):
            return
        v = " ".join(lines[1:]).split()
        nc, n = int(v[0]), int(v[1])
        chk.expect(nc == len(names) == len(set(names)) and set(shots) <= set(names), "Bundler: list of images", got=names, want=sorted(shots))
        A = np.array([float(x) for x in v[2:2 + 15 * nc]]).reshape(nc, 5, 3)
        v = v[2 + 15 * nc:]
        for i, s in enumerate(names):
            if s not in shots:
                chk.expect(not A[i].any(), "Bundler: an image which is not reconstructed has a camera", shot=s)
        left = dict(points)
        at = {tuple(X): p for p, (X, _) in points.items()}
        for _ in range(n):
            X = tuple(float(x) for x in v[:3])
            rgb = [int(x) for x in v[3:6]]
            m = int(v[6])
            obs = [(int(v[7 + 4 * k]), int(v[8 + 4 * k]), float(v[9 + 4 * k]), float(v[10 + 4 * k])) for k in range(m)]
            v = v[7 + 4 * m:]
            if not chk.expect(X in at and at[X] in left, "Bundler: a point which is not in the reconstruction", point=X):
                continue
            p = at[X]
            del left[p]
            chk.expect(rgb == points[p][1], "Bundler: color of a point", got=rgb, want=points[p][1])
            want = {s: o for s, o in observed(tm, p, shots).items()}
            chk.expect(len(obs) == len(want) and {(names[i], k) for i, k, _, _ in obs} == {(s, o.id) for s, o in want.items()}, "Bundler: views of a point", point=p)
            for i, k, x, y in obs:
                s = names[i]
                if s not in want:
                    continue
                cam = rec.shots[s].camera
                f, k1, k2 = A[i][0]
                P = A[i][1:4] @ X + A[i][4]
                q = -P[:2] / P[2]
                r2 = q @ q
                proj = f * (1 + k1 * r2 + k2 * r2 * r2) * q
                m_ = max(cam.width, cam.height)
                z = want[s].point
                chk.expect(abs(x - z[0] * m_) < 1e-6 and abs(y + z[1] * m_) < 1e-6, "Bundler: position of a view", shot=s, got=(x, y), want=z)
                if cam.projection_type == "perspective":
                    d = np.abs(proj - [x, y]).max()
                    chk.extreme("Bundler reprojection, pixels", float(d))
                    chk.expect(d < 1e-2, "Bundler: a point does not project to its view", shot=s, point=p, distance=float(d))
                    chk.count("bundler observations")
                elif cam.projection_type == "brown":
                    R, o, _ = shots[s]
                    Y = np.diag([1, -1, -1]) @ R @ (np.array(X) - o)
                    chk.expect(np.abs(Y - P).max() < 1e-6 and abs(f - cam.focal * m_) < 1e-6 and (k1, k2) == (cam.k1, cam.k2), "Bundler: brown camera", shot=s)
        chk.expect(not left and not v, "Bundler: points are missing, or more than told", missing=len(left), rest=len(v))


# ------------------------------------------------------------------ formats of undistorted images
def image_list(rng, W, shots, path):
    """A file with some images, or none."""
    if rng.random() < 0.5:
        return None, set(shots)
    some = {s for s in shots if rng.random() < 0.6}
    with open(path, "w") as f:
        f.write("".join(s + "\n" for s in sorted(some)) + ("unknown.jpg\n" if rng.random() < 0.5 else ""))
    return path, some


def visualsfm(chk, rng, W, udata, rec, tm):
    from opensfm.actions import export_visualsfm

    shots, points = snapshot(rec)
    lst, some = image_list(rng, W, shots, os.path.join(chk.tmp, "list.txt"))
    with_points = rng.random() < 0.8
    before = tree(W.root)
    spaces = any(" " in s for s in W.S.shots)

    def go():
        try:
            export_visualsfm.run_dataset(W.data, with_points, lst)
        except SystemExit:
            return False
        return True

    ok, done = chk.guard(go, "VisualSFM export", names=sorted(shots)[:2])
    if ok and not done:
        chk.expect(spaces, "VisualSFM: the export gave up")
    if not ok or not done:
        return
    chk.expect(not spaces, "VisualSFM: names with spaces were exported")
    chk.count("exports of some images", lst is not None)
    inside(chk, before, tree(W.root), ["undistorted/reconstruction.nvm"], "visualsfm")
    v = open(udata.data_path + "/reconstruction.nvm", encoding="utf-8").read().split()
    chk.expect(v[0] == "NVM_V3", "VisualSFM: header")
    n = int(v[1])
    v = v[2:]
    cams = []
    for i in range(n):
        cams.append((v[0], float(v[1]), np.array([float(x) for x in v[2:6]]), np.array([float(x) for x in v[6:9]]), float(v[9])))
        chk.expect(v[10] == "0", "VisualSFM: end of a camera")
        v = v[11:]
    files = {os.path.realpath(os.path.join(udata.data_path, c[0])): i for i, c in enumerate(cams)}
    want = {os.path.realpath(os.path.join(udata.data_path, "images", s)): s for s in some}
    if not chk.expect(len(files) == n and set(files) == set(want), "VisualSFM: other images", got=sorted(files), want=sorted(want)):
        return
    name = {i: want[f] for f, i in files.items()}
    size = {}
    for i, s in name.items():
        im = read(os.path.join(udata.data_path, "images", s))
        h, w = im.shape[:2]
        size[s] = (w, h)
        R, o, _ = shots[s]
        cam = rec.shots[s].camera
        chk.expect(abs(cams[i][1] - cam.focal * max(w, h)) < 1e-6 * cams[i][1] and np.abs(rotation(cams[i][2]) - R).max() < 1e-9 and np.abs(cams[i][3] - o).max() < 1e-9 and cams[i][4] == 0,
                   "VisualSFM: camera of an image", shot=s, got=cams[i], want=(cam.focal, R, o))
    m = int(v[0])
    v = v[1:]
    left = {p for p in points if len([s for s in observed(tm, p, shots) if s in some]) > 1}
    at = {tuple(X): p for p, (X, _) in points.items()}
    offs = []
    for _ in range(m):
        X = tuple(float(x) for x in v[:3])
        rgb = [int(x) for x in v[3:6]]
        k = int(v[6])
        obs = [(int(v[7 + 4 * j]), int(v[8 + 4 * j]), float(v[9 + 4 * j]), float(v[10 + 4 * j])) for j in range(k)]
        v = v[7 + 4 * k:]
        p = at.get(X)
        if not chk.expect(with_points and p in left, "VisualSFM: a point which should not be there", point=X):
            continue
        left.discard(p)
        chk.expect(rgb == points[p][1], "VisualSFM: color of a point", got=rgb, want=points[p][1])
        o = {s: x for s, x in observed(tm, p, shots).items() if s in some}
        chk.expect(len(obs) == len(o) and {(name.get(i), j) for i, j, _, _ in obs} == {(s, x.id) for s, x in o.items()}, "VisualSFM: views of a point", point=p)
        for i, j, x, y in obs:
            s = name.get(i)
            if s not in o:
                continue
            w, h = size[s]
            z = o[s].point
            offs.append(((x - z[0] * max(w, h)), (y - z[1] * max(w, h)), w, h))
            Y = rotation(cams[i][2]) @ (np.array(X) - cams[i][3])
            d = np.abs(cams[i][1] * Y[:2] / Y[2] - np.array(z) * max(w, h)).max()
            chk.expect(d < 0.02, "VisualSFM: a point does not project to its view", shot=s, point=p, distance=float(d))
            chk.count("visualsfm observations")
    if with_points:
        chk.expect(not left, "VisualSFM: points are missing", number=len(left))
    if offs:
        q = np.array(offs)
        # measured from the center of the image, or from its corner (or corner pixel)
        good = [np.abs(q[:, :2] - c).max() < 1e-6 for c in (0 * q[:, 2:], q[:, 2:] / 2, (q[:, 2:] - 1) / 2)]
        chk.expect(any(good), "VisualSFM: positions of views", off=q[:3])
    chk.expect(v[:1] == ["0"] and all(x == "0" for x in v), "VisualSFM: end of the file", rest=v[:4])


def pmvs(chk, rng, W, undistorted, udata, recs, tm):
    from opensfm.actions import export_pmvs

    names = [s for r in recs for s in r.shots]
    lst, some = image_list(rng, W, names, os.path.join(chk.tmp, "list.txt"))
    out = None if rng.random() < 0.5 else os.path.join(W.root, "somewhere")
    shutil.rmtree(out or os.path.join(W.root, "pmvs"), ignore_errors=True)  # of an earlier export
    before = tree(W.root)
    ok, _ = chk.guard(lambda: export_pmvs.run_dataset(W.data, False, lst, out, undistorted), "PMVS export", undistorted=undistorted)
    if not ok:
        return
    chk.count("exports of some images", lst is not None)
    inside(chk, before, tree(W.root), ["pmvs", "somewhere"], "pmvs")
    for j, rec in enumerate(recs):
        shots, points = snapshot(rec)
        folder = os.path.join(out or os.path.join(W.root, "pmvs"), "recon%d" % j)
        ids = sorted(f[:-4] for f in os.listdir(folder + "/txt"))
        want = [s for s in shots if s in some]
        if not chk.expect(ids == ["%08d" % i for i in range(len(want))] and sorted(f[:-4] for f in os.listdir(folder + "/visualize")) == ids, "PMVS: number of images", got=ids, want=len(want)):
            continue
        # images carry no names: recognise them by their camera
        P = []
        for i in ids:
            t = open(folder + "/txt/%s.txt" % i).read().split("\n")
            if not chk.expect(t[0].strip() == "CONTOUR", "PMVS: header of a camera", got=t[0]):
                return
            P.append(np.array([float(x) for x in " ".join(t[1:]).split()]).reshape(3, 4))
        ims = [read(folder + "/visualize/%s.jpg" % i) for i in ids]
        which = {}
        for i, M in enumerate(P):
            h, w = ims[i].shape[:2]
            best = []
            for s in want:
                R, o, c = shots[s]
                X = [x for p, (x, _) in points.items() if s in tm.get_track_observations(p)][:5]
                X = np.array(X + [o + R.T @ [0.3, -0.2, 2.0], o + R.T @ [-0.1, 0.4, 3.0]])
                Y = (X - o) @ R.T
                cam = rec.shots[s].camera
                ar = cam.aspect_ratio if cam.projection_type == "brown" else 1.0
                pp = np.array(cam.principal_point) if cam.projection_type == "brown" else np.zeros(2)
                q = Y[:, :2] / Y[:, 2:] * cam.focal * [1.0, ar] + pp
                q = q * max(w, h) + [w / 2, h / 2]
                Z = np.hstack([X, np.ones((len(X), 1))]) @ M.T
                best.append((np.abs(Z[:, :2] / Z[:, 2:] - q).max(), s))
            if chk.expect(best and min(best)[0] < 0.55, "PMVS: the camera of an image belongs to no image", gap=min(best)[0] if best else None):
                which[i] = min(best)[1]
        if not chk.expect(len(set(which.values())) == len(want) == len(which), "PMVS: an image is missing or there twice", got=which, want=want):
            continue
        for i, s in which.items():
            chk.count("pmvs images")
            im = ims[i].astype(float)
            h, w = im.shape[:2]
            size = W.cfg["feature_process_size"]
            if undistorted:
                ref = read(os.path.join(udata.data_path, "images", s)).astype(float)
                H, Wd = ref.shape[:2]
                chk.expect((w, h) == (Wd, H) if max(Wd, H) <= size else max(w, h) == size, "PMVS: size of an image", got=(w, h), want=(Wd, H), limit=size)
                if (w, h) == (Wd, H) and ref.ndim == 3:
                    d = np.abs(im - ref).mean()
                    chk.extreme("PMVS mean difference of undistorted images", float(d))
                    chk.expect(d < 6, "PMVS: pixels of an image", shot=s, difference=float(d))
                    chk.count("pmvs pixels", w * h)
            else:
                p, q = W.S.cams[W.S.shots[s]["cam"]], W.pics[s]
                if p["model"] != "perspective" or (w, h) != (q.w, q.h):
                    continue
                y, x = np.mgrid[5:h - 5:7, 5:w - 5:7]
                m = max(w, h)
                u, v = (x + 0.5 - w / 2) / m / p["focal"], (y + 0.5 - h / 2) / m / p["focal"]
                u, v = gen.distort(p, u, v)
                X, Y = p["focal"] * u * m + w / 2 - 0.5, p["focal"] * v * m + h / 2 - 0.5
                inn = (X > 1) & (Y > 1) & (X < w - 2) & (Y < h - 2)
                want_px = np.stack([q.at(X, Y, k) for k in range(3)], -1)
                e = np.abs(im[y, x] - want_px)[inn]
                if len(e):
                    chk.extreme("PMVS mean difference of images", float(e.mean()))
                    chk.expect(e.mean() < 8, "PMVS: pixels of an image", shot=s, difference=float(e.mean()))
                    chk.count("pmvs pixels", len(e))
        t = open(folder + "/vis.dat").read().split("\n")
        ok = t[0].strip() == "VISDATA" and int(t[1]) == len(want)
        rows = [[int(x) for x in r.split()] for r in t[2:] if r.strip()]
        ok = ok and [r[0] for r in rows] == list(range(len(want))) and all(r[1] == len(r) - 2 for r in rows)
        if chk.expect(ok, "PMVS: vis.dat", got=t[:3]):
            known = set(tm.get_shot_ids())
            see = {s: set(tm.get_shot_observations(s)) if s in known else set() for s in want}
            for r in rows:
                s = which[r[0]]
                chk.expect({which[k] for k in r[2:]} == {b for b in want if b != s and see[b] & see[s]}, "PMVS: images which see the same", shot=s)
        opts = dict(x.split(" ", 1) for x in open(folder + "/pmvs_txt").read().split("\n") if x)
        chk.expect(opts["timages"].split() == ["-1", "0", str(len(want))] and opts["useVisData"] == "1", "PMVS: options", got=opts)


def mvs_read(path):
    b = Reader(path)
    assert b.b[:4] == b"MVSI", "header"
    b.i = 4
    ver = b.get("I")
    b.get("I")
    out = {"platforms": [], "images": [], "vertices": []}
    for _ in range(b.get("Q")):
        pl = {"name": b.string(), "cameras": [], "poses": []}
        for _ in range(b.get("Q")):
            c = {"name": b.string()}
            if ver > 3:
                c["band"] = b.string()
            c["width"], c["height"] = b.get("II")
            c["K"], c["R"], c["C"] = np.array(b.get("9d")).reshape(3, 3), np.array(b.get("9d")).reshape(3, 3), np.array(b.get("3d"))
            pl["cameras"].append(c)
        for _ in range(b.get("Q")):
            pl["poses"].append((np.array(b.get("9d")).reshape(3, 3), np.array(b.get("3d"))))
        out["platforms"].append(pl)
    for _ in range(b.get("Q")):
        im = {"name": b.string()}
        if ver > 4:
            im["mask"] = b.string()
        im["ids"] = b.get("III")
        if ver > 2:
            b.get("I")
        if ver > 6:
            raise ValueError("newer version")
        out["images"].append(im)
    for _ in range(b.get("Q")):
        X = np.array(b.get("3f"))
        out["vertices"].append((X, [b.get("If") for _ in range(b.get("Q"))]))
    return out


def openmvs(chk, rng, W, udata, rec, tm):
    from opensfm.actions import export_openmvs

    shots, points = snapshot(rec)
    lst, some = image_list(rng, W, shots, os.path.join(chk.tmp, "list.txt"))
    before = tree(W.root)
    ok, _ = chk.guard(lambda: export_openmvs.run_dataset(W.data, lst), "OpenMVS export")
    if not ok:
        return
    chk.count("exports of some images", lst is not None)
    inside(chk, before, tree(W.root), ["undistorted/openmvs"], "openmvs")
    ok, got = chk.guard(lambda: mvs_read(udata.data_path + "/openmvs/scene.mvs"), "reading the OpenMVS export")
    if not ok:
        return
    where = {os.path.realpath(os.path.join(udata.data_path, "images", s)): s for s in shots}
    name = {}
    for i, im in enumerate(got["images"]):
        name[i] = where.get(os.path.realpath(im["name"]))
    if not chk.expect(len(name) == len(set(name.values())) and set(name.values()) == some, "OpenMVS: other images", got=[im["name"] for im in got["images"]], want=sorted(some)):
        return
    for i, im in enumerate(got["images"]):
        s = name[i]
        m = os.path.join(udata.data_path, "masks", s + ".png")
        chk.expect(os.path.realpath(im["mask"]) == os.path.realpath(m) if os.path.exists(m) else im["mask"] == "", "OpenMVS: mask of an image", got=im["mask"], exists=os.path.exists(m))
        chk.count("openmvs masks")
        pl, c, k = im["ids"]
        R, o = got["platforms"][pl]["poses"][k]
        chk.expect(np.abs(R - shots[s][0]).max() < 1e-12 and np.abs(o - shots[s][1]).max() < 1e-12, "OpenMVS: pose of an image", shot=s)
    left = {p for p in points if set(observed(tm, p, shots)) & some}
    keys = list(points)
    cloud = np.array([points[p][0] for p in keys]).reshape(-1, 3)
    for X, views in got["vertices"]:
        want = {name[i] for i, _ in views if i in name}
        near = [keys[j] for j in np.flatnonzero(np.abs(cloud - X).max(1) < 1e-4)]
        near = [p for p in near if p in left and set(observed(tm, p, shots)) & some == want]
        if not chk.expect(bool(near) and len(want) == len(views), "OpenMVS: a point has other views, or is not in the reconstruction", point=X, views=sorted(want)):
            continue
        p = near[0]
        left.discard(p)
        for i, _ in views:
            s = name[i]
            pl, c, k = got["images"][i]["ids"]
            R, o = got["platforms"][pl]["poses"][k]
            cam = got["platforms"][pl]["cameras"][c]
            Y = cam["K"] @ cam["R"] @ (R @ (X - o) - cam["C"])
            z = observed(tm, p, shots)[s].point
            q = np.array(z) * max(cam["width"], cam["height"]) + np.array([cam["width"] - 1, cam["height"] - 1]) / 2
            d = np.abs(Y[:2] / Y[2] - q).max()
            chk.extreme("OpenMVS reprojection, pixels", float(d))
            chk.expect(d < 0.02, "OpenMVS: a point does not project to its view", shot=s, distance=float(d))
            chk.count("openmvs observations")
    chk.expect(not left, "OpenMVS: points are missing", number=len(left))


# ------------------------------------------------------------------ ply
def ply_read(text):
    lines = text.split("\n")
    assert lines[0] == "ply" and lines[1] == "format ascii 1.0"
    n = int(lines[2].split()[-1])
    props = []
    i = 3
    while lines[i] != "end_header":
        a, t, b = lines[i].split()
        assert a == "property"
        props.append((b, t))
        i += 1
    rows = [r.split() for r in lines[i + 1:] if r.strip()]
    assert len(rows) == n and all(len(r) == len(props) for r in rows), "rows do not fit the header"
    limits = {"uchar": (0, 255), "int": (-2**31, 2**31 - 1), "uint": (0, 2**32 - 1), "ushort": (0, 65535)}
    for k, (b, t) in enumerate(props):
        if t in limits:
            assert all(limits[t][0] <= int(r[k]) <= limits[t][1] for r in rows), "%s does not fit its type" % b
    return [b for b, _ in props], np.array([[float(x) for x in r] for r in rows]).reshape(n, len(props))


def ply(chk, rng, W, udata):
    from opensfm.actions import export_ply

    no_cameras, no_points, views = bool(rng.random() < 0.4), bool(rng.random() < 0.2), bool(rng.random() < 0.5)
    urec = udata.load_undistorted_reconstruction()[0] if udata else None
    depths = {}
    if urec is not None:
        for s in urec.shots:
            for kind in ("raw", "clean"):
                if rng.random() < 0.4:
                    h, w = udata.undistorted_image_size(s)[:2]
                    f = 20 / max(w, h)
                    d = rng.uniform(1, 9, (max(1, int(h * f)), max(1, int(w * f))))
                    d[rng.random(d.shape) < 0.5] = 0
                    depths[s, kind] = d.astype(np.float32)
                    path = udata.depthmap_file(s, kind + ".npz")
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    np.savez_compressed(path, depth=depths[s, kind])
    before = tree(W.root)
    ok, _ = chk.guard(lambda: export_ply.run_dataset(W.data, no_cameras, no_points, udata is not None, views), "PLY export")
    if not ok:
        return
    inside(chk, before, tree(W.root), ["reconstruction.ply"] + ["undistorted/depthmaps/%s.%s.ply" % k for k in depths], "ply")
    rec = W.recs[0][0]
    shots, points = snapshot(rec)
    ok, got = chk.guard(lambda: ply_read(open(W.root + "/reconstruction.ply").read()), "reading the PLY export", views=views)
    if not ok:
        return
    props, V = got
    chk.expect(props == ["x", "y", "z", "red", "green", "blue"] + (["views"] if views else []), "PLY: properties", got=props)
    n = 0 if no_points else len(points)
    if not chk.expect(len(V) == n + (0 if no_cameras else 30 * len(shots)), "PLY: number of vertices", got=len(V), points=n, shots=len(shots)):
        return
    chk.count("ply points", n)
    where = {tuple(X): p for p, (X, _) in points.items()}
    chk.expect({tuple(r[:3]) for r in V[:n]} == (set(where) if n else set()), "PLY: other points")
    for row in V[:n]:
        p = where.get(tuple(row[:3]))
        if p is None:
            continue
        chk.expect(list(row[3:6]) == points[p][1], "PLY: color of a point", got=row, want=points[p])
        if views:
            chk.expect(row[6] in (len(observed(W.tm, p, shots)), len(W.tm.get_track_observations(p))), "PLY: number of views", got=row[6])
    if not no_cameras:
        for A in V[n:].reshape(len(shots), 30, -1):
            s = min(shots, key=lambda s: np.abs(A[0, :3] - shots[s][1]).max())
            R, o, _ = shots[s]
            for k in range(3):
                B = A[10 * k:10 * k + 10]
                d = B[:, :3] - o
                t = d @ R[k]
                chk.expect(np.abs(d - t[:, None] * R[k]).max() < 1e-6 and np.abs(t[0]) < 1e-6 and (np.diff(t) > 0).all(), "PLY: axes of a camera", shot=s, axis=k)
                chk.expect((B[:, 3:6] == np.eye(3)[k] * 255).all(), "PLY: color of an axis")
    for (s, kind), d in depths.items():
        ok, got = chk.guard(lambda: ply_read(open(udata.depthmap_file(s, kind + ".ply")).read()), "reading the PLY of a depth map")
        if not ok:
            continue
        V = got[1]
        y, x = np.nonzero(d)
        if not chk.expect(len(V) == len(y), "PLY: number of points of a depth map", got=len(V), want=len(y)):
            continue
        R, o, c = snapshot(urec)[0][s]
        Y = (V[:, :3] - o) @ R.T
        h, w = d.shape
        q = Y[:, :2] / Y[:, 2:] * urec.shots[s].camera.focal * max(w, h) + [w / 2, h / 2]
        off = q - np.stack([x, y], 1)
        chk.count("depth map points", len(V))
        if len(V):
            # centers of pixels may be at whole or half positions
            chk.expect(np.abs(Y[:, 2] - d[y, x]).max() < 1e-4 and off.min() > -0.01 and off.max() < 0.51, "PLY: points of a depth map", shot=s, off=(off.min(), off.max()))


# ------------------------------------------------------------------ geographic coordinates
def projected(proj, ref, X):
    """East, north and up coordinates to a projection, by way of the ellipsoid."""
    import pyproj

    lat, lon = np.radians(ref["latitude"]), np.radians(ref["longitude"])
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    N = a / np.sqrt(1 - e2 * np.sin(lat)**2)
    O = np.array([(N + ref["altitude"]) * np.cos(lat) * np.cos(lon), (N + ref["altitude"]) * np.cos(lat) * np.sin(lon), (N * (1 - e2) + ref["altitude"]) * np.sin(lat)])
    E = np.array([[-np.sin(lon), np.cos(lon), 0], [-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)],
                  [np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]])
    G = O + np.atleast_2d(X) @ E
    lon, lat, alt = pyproj.Transformer.from_crs("EPSG:4978", "EPSG:4979", always_xy=True).transform(*G.T)
    if proj is None:
        return np.stack([lat, lon, alt], 1)
    x, y = pyproj.Proj(proj)(lon, lat)
    return np.stack([x, y, alt], 1)


def geocoords(chk, rng, W, udata):
    from opensfm.actions import export_geocoords

    ref = scenes.REF
    proj = str(rng.choice(["+proj=utm +zone=30 +north +ellps=WGS84 +datum=WGS84 +units=m +no_defs", "+proj=merc +ellps=WGS84", "+proj=lcc +lat_1=40 +lat_2=44 +lat_0=41 +lon_0=0 +ellps=WGS84",
                           "+proj=tmerc +lat_0=42 +lon_0=-1.5 +k=1 +ellps=WGS84"]))
    dense = udata is not None and rng.random() < 0.7
    if dense:
        n = int(rng.integers(0, 60))
        P, N = rng.normal(size=(n, 3)) * 20, rng.normal(size=(n, 3))
        N /= np.linalg.norm(N, axis=1, keepdims=True)
        C, L = rng.integers(0, 256, (n, 3)), rng.integers(0, 256, n)
        os.makedirs(os.path.dirname(udata.point_cloud_file()), exist_ok=True)
        udata.save_point_cloud(P, N, C, L, "merged.ply")
    parts = [bool(rng.random() < 0.8) for _ in range(3)] + [dense]
    before = tree(W.root)
    ok, _ = chk.guard(lambda: export_geocoords.run_dataset(W.data, proj, *parts, None), "geocoords export", proj=proj, parts=parts)
    if not ok:
        return
    files = ["geocoords_transformation.txt", "image_geocoords.tsv", "reconstruction.geocoords.json", "undistorted/depthmaps/merged.geocoords.ply"]
    files = [f for f, p in zip(files, parts) if p]
    changed = inside(chk, before, tree(W.root), files, "geocoords")
    chk.expect(changed == set(files), "geocoords: other files than asked for", got=sorted(changed), want=files)

    def near(got, X, what, extra=0.0, **kw):
        X = np.atleast_2d(X)
        want = projected(proj, ref, X)
        d = np.abs(np.atleast_2d(got) - want).max(1)
        # the linear approximation is off by the curvature of the Earth and of the projection
        limit = extra + 5e-4 + np.linalg.norm(X, axis=1)**2 * 1e-6
        chk.extreme("geocoords error, m", float((d - extra).max()) if len(d) else 0.0)
        chk.expect((d < limit).all(), what, distance=float(d.max()) if len(d) else 0.0, **kw)

    T = np.eye(4)
    O = projected(proj, ref, np.zeros(3))[0]
    J = np.stack([(projected(proj, ref, 1e1 * e)[0] - projected(proj, ref, -1e1 * e)[0]) / 2e1 for e in np.eye(3)], 1)
    U, D, Vt = np.linalg.svd(J)
    Q = U @ Vt
    if parts[0]:
        M = np.array([[float(x) for x in r.split()] for r in open(W.root + "/geocoords_transformation.txt").read().strip().split("\n")])
        chk.expect(M.shape == (4, 4) and (M[3] == [0, 0, 0, 1]).all() and np.abs(M[:3, :3] - J).max() < 1e-4 and np.abs(M[:3, 3] - O).max() < 1e-4, "geocoords: transformation", got=M, want=(J, O))
    if parts[1]:
        rows = [r.split("\t") for r in open(W.root + "/image_geocoords.tsv", encoding="utf-8").read().strip().split("\n")]
        at = {s: o for rec, _ in W.recs for s, (_, o, _) in snapshot(rec)[0].items()}
        if chk.expect(rows[0] == ["Image", "X", "Y", "Z"] and sorted(r[0] for r in rows[1:]) == sorted(at), "geocoords: images", got=[r[0] for r in rows], want=sorted(at)):
            for r in rows[1:]:
                near([float(x) for x in r[1:]], at[r[0]], "geocoords: position of an image", shot=r[0])
                chk.count("geocoords positions")
    if parts[2]:
        geo = W.data.load_reconstruction("reconstruction.geocoords.json")
        chk.expect(len(geo) == len(W.recs), "geocoords: number of reconstructions")
        for g, (rec, _) in zip(geo, W.recs):
            (a, pa), (b, pb) = snapshot(rec), snapshot(g)
            if not chk.expect(set(a) == set(b) and set(pa) == set(pb), "geocoords: other images or points"):
                continue
            inst = {s: np.array(rec.rig_instances[rec.shots[s].rig_instance_id].pose.get_origin()) for s in a}
            uneven = D.max() / D.min() - 1
            for s in a:
                R, o, c = b[s]
                lever = np.linalg.norm(a[s][1] - inst[s]) * np.abs(D - 1).max() * 1.5
                near(o, a[s][1], "geocoords: position of a camera", lever, shot=s)
                # directions can be kept only as far as the projection is a similarity
                e = np.abs(R - a[s][0] @ Q.T).max()
                chk.expect(np.abs(R @ R.T - np.eye(3)).max() < 1e-9 and np.linalg.det(R) > 0 and e < 1e-4 + uneven, "geocoords: orientation of a camera", shot=s, gap=float(e), uneven=float(uneven))
                chk.expect(c == a[s][2], "geocoords: camera of an image")
                chk.count("geocoords positions")
            for p in pa:
                near(pb[p][0], pa[p][0], "geocoords: a point", point=p)
                chk.expect(pa[p][1] == pb[p][1], "geocoords: color of a point")
                chk.count("geocoords points")
    if dense:
        ok, got = chk.guard(lambda: ply_read(open(udata.point_cloud_file("merged.geocoords.ply")).read()), "reading the point cloud")
        if ok and chk.expect(len(got[1]) == n and len(got[0]) == 10, "geocoords: number of points of the cloud", got=len(got[1]), want=n):
            V = got[1]
            chk.count("geocoords cloud points", n)
            if n:
                near(V[:, :3], P, "geocoords: points of the cloud", 3e-4)
                w = N @ np.linalg.inv(J)
                w /= np.linalg.norm(w, axis=1, keepdims=True)
                w2 = N @ Q.T
                gap = np.minimum(np.abs(V[:, 3:6] - w).max(1), np.abs(V[:, 3:6] - w2).max(1))
                chk.expect(gap.max() < 3e-3, "geocoords: normals of the cloud", gap=float(gap.max()))
                chk.expect((V[:, 6:9] == C).all() and (V[:, 9] == L).all(), "geocoords: colors and labels of the cloud")


def scripts(chk, rng, W):
    """bin/export_gps and bin/export_geojson."""
    want = {}
    for rec, _ in W.recs:
        for s, (R, o, _) in snapshot(rec)[0].items():
            lla = projected(None, scenes.REF, o)[0]
            want[s] = (lla, np.degrees(np.arctan2(R[2, 0], R[2, 1])) % 360, np.hypot(R[2, 0], R[2, 1]))
    argv = sys.argv
    out = os.path.join(chk.tmp, "gps.tsv")
    before = tree(W.root)
    import opensfm

    folder = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(opensfm.__file__ or list(opensfm.__path__)[0] + "/x"))), "bin")

    def call(name, *args):
        sys.argv = [name] + list(args)
        path = list(sys.path)
        try:
            runpy.run_path(os.path.join(folder, name), run_name="__main__")
        finally:
            sys.argv = argv
            sys.path[:] = path

    ok, _ = chk.guard(lambda: call("export_gps", W.root, "--output", out), "export_gps")
    if ok:
        rows = [r.split("\t") for r in open(out, encoding="utf-8").read().split("\n") if r]
        if chk.expect(rows[0] == ["image", "latitude", "longitude", "altitude", "compass_angle"] and sorted(r[0] for r in rows[1:]) == sorted(want), "export_gps: rows", got=[r[0] for r in rows]):
            for r in rows[1:]:
                lla, az, flat = want[r[0]]
                v = [float(x) for x in r[1:]]
                d = abs((v[3] - az + 180) % 360 - 180)
                chk.expect(abs(v[0] - lla[0]) < 1e-8 and abs(v[1] - lla[1]) < 1e-8 and abs(v[2] - lla[2]) < 1e-3 and (d * flat < 1e-4) and 0 <= v[3] <= 360, "export_gps: a row", got=r, want=want[r[0]])
                chk.count("gps rows")
    ok, _ = chk.guard(lambda: call("export_geojson", W.root), "export_geojson")
    if ok:
        inside(chk, before, tree(W.root), ["reconstruction.gps.geojson", "reconstruction.geojson"], "geojson")
        for f, tol in (("reconstruction.geojson", 1e-8), ("reconstruction.gps.geojson", 1e-8)):
            g = json.load(open(os.path.join(W.root, f)))
            got = [x["geometry"]["coordinates"] for x in g["features"]]
            ids = [s for rec in W.data.load_reconstruction() for s in rec.shots]
            if not chk.expect(len(got) == len(ids), "geojson: number of images"):
                continue
            for s, x in zip(ids, got):
                lla = want[s][0] if f == "reconstruction.geojson" else projected(None, scenes.REF, W.S.origin(s))[0]
                chk.expect(abs(x[0] - lla[1]) < tol and abs(x[1] - lla[0]) < tol, "geojson: position of an image", shot=s, got=x, want=lla, file=f)


def run(chk):
    from opensfm import dataset
    from opensfm.actions import undistort

    rng = chk.rng_for("exports")
    for n in range(chk.n(96, 1600)):
        root = os.path.join(chk.tmp, "d%d" % n)
        W = make(chk, rng, root)
        chk.case("dataset", dict(W.cfg, models=W.models, rigs=W.rigs, groups=[len(g) for g in W.groups], names=sorted(W.S.shots)[0]), sig=(chk.shard, n))
        recs = [r for r, _ in W.recs]
        if set(W.models) <= set(COLMAP):
            colmap(chk, rng, W)
        if set(W.models) <= {"perspective", "brown"}:
            bundler(chk, rng, W, False, None, recs, W.tm)
            if set(W.models) == {"perspective"} or rng.random() < 0.5:
                pmvs(chk, rng, W, False, None, recs, W.tm)
        scripts(chk, rng, W)
        ok, _ = chk.guard(lambda: undistort.run_dataset(W.data, output="undistorted"), "undistort")
        if not ok:
            continue
        W.data = dataset.DataSet(root)
        udata = W.data.undistorted_dataset()
        urecs, utm = udata.load_undistorted_reconstruction(), udata.load_undistorted_tracks_manager()
        ply(chk, rng, W, udata)
        geocoords(chk, rng, W, udata)
        bundler(chk, rng, W, True, udata, urecs, utm)
        visualsfm(chk, rng, W, udata, urecs[0], utm)
        openmvs(chk, rng, W, udata, urecs[0], utm)
        pmvs(chk, rng, W, True, udata, urecs, utm)
