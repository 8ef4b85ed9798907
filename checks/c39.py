"""C39: what COLMAP computed is imported as it is, and comes back after an export."""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import sqlite3
import struct
import sys

import cv2
import numpy as np

import gen

SHARDS = {"quick": 8, "thorough": 8}
TIMEOUT = {"quick": 300, "thorough": 860}
REQUIRED = ["databases imported", "models imported", "cameras judged", "keypoints judged", "matches judged", "images placed", "points judged", "observations judged",
            "projections judged", "undistorted images judged", "undistorted observations judged", "models exported and imported again", "depths judged"]
RULE = "one case = one COLMAP database, with or without a model, written by the check and imported; non-trivial = the import ended and its dataset was read back"
ASSUMPTIONS = ["the database and the binary model are written by the check from COLMAP's published formats", "the points of a fused cloud lie on pixels of their own"]

NONE = 2**64 - 1


def script():
    import matplotlib

    matplotlib.use("Agg")
    import opensfm

    home = os.path.dirname(os.path.abspath(opensfm.__file__ or list(opensfm.__path__)[0] + "/x"))
    path = os.path.join(os.path.dirname(home), "bin", "import_colmap.py")
    spec = importlib.util.spec_from_loader("import_colmap_script", importlib.machinery.SourceFileLoader("import_colmap_script", path))
    m = importlib.util.module_from_spec(spec)
    keep = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        spec.loader.exec_module(m)
    finally:
        sys.dont_write_bytecode = keep
    return m


def quaternion(r):
    a = np.linalg.norm(r)
    if a == 0:
        return np.array([1.0, 0, 0, 0])
    return np.concatenate([[np.cos(a / 2)], np.sin(a / 2) * r / a])


class World:
    def __init__(self, rng, root, thorough=False):
        self.rng, self.root = rng, root
        self.images_dir = os.path.join(root, "the images")
        os.makedirs(self.images_dir)
        self.config = {}
        self.work = os.path.join(root, "work")
        if rng.random() < 0.4:
            # next to the configuration of a dataset which was exported
            self.work = os.path.join(root, "colmap_export")
            self.config = {"undistorted_image_format": str(rng.choice(["png", "jpg"])), "depthmap_max_depth": float(rng.choice([0, 5.0]))}
            with open(os.path.join(root, "config.yaml"), "w") as f:
                f.write("".join("%s: %s\n" % v for v in self.config.items()))
        self.format = self.config.get("undistorted_image_format", "jpg")
        os.makedirs(self.work)
        self.cameras, self.images = {}, {}
        for cid in rng.choice(50, int(rng.integers(1, 4)), replace=False):
            model = int(rng.choice([1, 3, 9]))
            w, h = int(rng.integers(60, 200)), int(rng.integers(60, 200))
            k = [0.0, 0.0] if model == 1 else [float(rng.uniform(-0.08, 0.08)), float(rng.uniform(-0.03, 0.03))]
            if rng.random() < 0.2:
                k = [0.0, 0.0]
            self.cameras[int(cid) + 1] = {"model": model, "w": w, "h": h, "f": float(rng.uniform(0.6, 1.4)) * max(w, h), "k": k, "prior": int(rng.random() < 0.7)}
        stems = ["im01.png", "im02.PNG", "b c.png", "é.png", "x.y.png", "photo.jpg", "p.JPG", "0.png"]
        rng.shuffle(stems)
        ids = sorted(int(v) + 1 for v in rng.choice(60, int(rng.integers(2, 6)), replace=False))
        self.colors = {}
        for i, name in zip(ids, stems):
            cid = int(rng.choice(list(self.cameras)))
            c = self.cameras[cid]
            base = rng.integers(40, 216, 3)
            im = np.clip(base + rng.integers(-6, 7, (c["h"], c["w"], 3)), 0, 255).astype(np.uint8)
            ok, data = cv2.imencode(".png" if name.lower().endswith("png") else ".jpg", im[:, :, ::-1])
            data.tofile(os.path.join(self.images_dir, name))
            decoded = cv2.imdecode(data, cv2.IMREAD_COLOR)[:, :, ::-1]
            self.images[i] = {"name": name, "cam": cid, "pixels": decoded, "base": base}
        self.poses()
        self.points()
        self.pairs()

    def poses(self):
        rng = self.rng
        common = rng.normal(0, 1, 3)
        common = common / np.linalg.norm(common) * rng.choice([0.0, 1.0, 2.0, np.pi - 1e-4])
        for d in self.images.values():
            kind = rng.choice(["any", "small", "tiny", "none", "half turn"], p=[0.6, 0.15, 0.1, 0.1, 0.05])
            r = rng.normal(0, 1, 3)
            r *= {"any": rng.uniform(0.1, 3.0), "small": 10 ** rng.uniform(-4, -2.5), "tiny": 10 ** rng.uniform(-8, -4), "none": 0.0, "half turn": np.pi - 10 ** rng.uniform(-7, -3)}[kind] / np.linalg.norm(r)
            if kind == "any":
                r = common + rng.normal(0, 0.15, 3)
            q = quaternion(r)
            if rng.random() < 0.3:
                q = -q
            d["q"], d["R"] = q * float(rng.choice([1.0, 1.0, 1.0 + 1e-9])), gen.rodrigues(r)
            d["t"] = rng.normal(0, 0.4, 3)

    def project(self, d, X):
        """COLMAP's pixel of a point in an image, and whether it is well inside."""
        c = self.cameras[d["cam"]]
        x, y, z = d["R"] @ X + d["t"]
        rr = np.hypot(x, y)
        th = np.arctan2(rr, z)
        if c["model"] == 9:
            g = th * (1 + c["k"][0] * th**2 + c["k"][1] * th**4)
            u = np.array([x, y]) / rr * g if rr > 0 else np.zeros(2)
        else:
            u = np.array([x, y]) / z
            s = u @ u
            u = u * (1 + c["k"][0] * s + c["k"][1] * s * s)
        p = c["f"] * u + np.array([c["w"], c["h"]]) / 2
        return p, bool(z > 0.1 and th < 1.0 and (p > 0).all() and p[0] < c["w"] and p[1] < c["h"])

    def points(self):
        rng = self.rng
        self.X, self.rgb = {}, {}
        pool = sorted({int(v) for v in rng.integers(1, 10**int(rng.choice([3, 6, 12])), 80)})
        ids = list(self.images)
        for pid in pool:
            d = self.images[int(rng.choice(ids))]
            c = self.cameras[d["cam"]]
            z = rng.uniform(1, 8)
            lim = 0.45 * np.array([c["w"], c["h"]]) / c["f"]
            X = d["R"].T @ (np.array([*(rng.uniform(-lim, lim) * z), z]) - d["t"])
            self.X[pid], self.rgb[pid] = X, [int(v) for v in rng.integers(0, 256, 3)]
        cols = [int(rng.choice([2, 4, 6])) for _ in ids]
        for i, n in zip(ids, cols):
            d, c = self.images[i], self.cameras[self.images[i]["cam"]]
            rows = []
            for pid, X in self.X.items():
                p, ok = self.project(d, X)
                if ok and rng.random() < 0.9:
                    rows.append((pid, p))
            for _ in range(int(rng.integers(0, 12))):
                rows.append((NONE, rng.uniform(0, [c["w"], c["h"]])))
            rng.shuffle(rows)
            kp = np.zeros((len(rows), n), np.float32)
            if rows:
                kp[:, :2] = [p for _, p in rows]
            if n > 2:
                kp[:, 2:] = rng.uniform(-3, 3, (len(rows), n - 2))
            if n == 4:
                kp[:, 2] = np.abs(kp[:, 2]) + 0.5
            d["kp"], d["seen"] = kp, [pid for pid, _ in rows]
            d["desc"] = rng.integers(0, 256, (len(rows), 128)).astype(np.uint8)
            d["stored"] = bool(rng.random() < 0.9) or len(rows) == 0

    def pairs(self):
        rng, ids = self.rng, list(self.images)
        self.two = {}
        for a in ids:
            for b in ids:
                if a < b and rng.random() < 0.7:
                    na, nb = len(self.images[a]["kp"]), len(self.images[b]["kp"])
                    m = min(na, nb, int(rng.integers(0, 15)))
                    self.two[a, b] = np.stack([rng.permutation(na)[:m], rng.permutation(nb)[:m]], 1).astype(np.uint32) if m else np.zeros((0, 2), np.uint32)

    def undistorted(self, name):
        return name if name.endswith("." + self.format) else name + "." + self.format

    # ------------------------------------------------------------------ writers
    def params(self, c):
        if c["model"] == 1:
            return [c["f"], c["f"], c["w"] / 2, c["h"] / 2]
        return [c["f"], c["w"] / 2, c["h"] / 2] + c["k"]

    def write_database(self):
        db = sqlite3.connect(os.path.join(self.work, "database.db"))
        db.executescript("""
        CREATE TABLE cameras (camera_id INTEGER PRIMARY KEY, model INTEGER, width INTEGER, height INTEGER, params BLOB, prior_focal_length INTEGER);
        CREATE TABLE images (image_id INTEGER PRIMARY KEY, name TEXT, camera_id INTEGER);
        CREATE TABLE keypoints (image_id INTEGER PRIMARY KEY, rows INTEGER, cols INTEGER, data BLOB);
        CREATE TABLE descriptors (image_id INTEGER PRIMARY KEY, rows INTEGER, cols INTEGER, data BLOB);
        CREATE TABLE two_view_geometries (pair_id INTEGER PRIMARY KEY, rows INTEGER, cols INTEGER, data BLOB, config INTEGER, F BLOB, E BLOB, H BLOB);
        """)
        for k, c in self.cameras.items():
            db.execute("INSERT INTO cameras VALUES (?,?,?,?,?,?)", (k, c["model"], c["w"], c["h"], np.array(self.params(c)).tobytes(), c["prior"]))
        for i, d in self.images.items():
            db.execute("INSERT INTO images VALUES (?,?,?)", (i, d["name"], d["cam"]))
            db.execute("INSERT INTO keypoints VALUES (?,?,?,?)", (i,) + d["kp"].shape + (d["kp"].tobytes(),))
            if d["stored"]:
                db.execute("INSERT INTO descriptors VALUES (?,?,?,?)", (i,) + d["desc"].shape + (d["desc"].tobytes(),))
        for (a, b), m in self.two.items():
            db.execute("INSERT INTO two_view_geometries VALUES (?,?,?,?,2,?,?,?)", (a * 2147483647 + b,) + m.shape + (m.tobytes(), b"", b"", b""))
        db.commit()
        db.close()

    def write_model(self):
        rng = self.rng
        with open(os.path.join(self.work, "cameras.bin"), "wb") as f:
            f.write(struct.pack("<Q", len(self.cameras)))
            for k, c in self.cameras.items():
                p = self.params(c)
                f.write(struct.pack("<iiQQ%dd" % len(p), k, c["model"], c["w"], c["h"], *p))
        ids = list(self.images)
        self.placed = [int(v) for v in rng.permutation(ids)[:int(rng.integers(2, len(ids) + 1))]]
        count = {pid: sum(pid in self.images[i]["seen"] for i in self.placed) for pid in self.X}
        self.X = {pid: X for pid, X in self.X.items() if count[pid] >= 2}
        for d in self.images.values():
            d["seen"] = [pid if pid in self.X else NONE for pid in d["seen"]]
        with open(os.path.join(self.work, "points3D.bin"), "wb") as f:
            f.write(struct.pack("<Q", len(self.X)))
            for pid, X in self.X.items():
                track = [(i, j) for i in self.placed for j, s in enumerate(self.images[i]["seen"]) if s == pid]
                f.write(struct.pack("<QdddBBBdQ", pid, *X, *self.rgb[pid], 0.5, len(track)))
                for i, j in track:
                    f.write(struct.pack("<II", i, j))
        self.write_images(os.path.join(self.work, "images.bin"), self.placed)

    def write_images(self, path, order):
        with open(path, "wb") as f:
            f.write(struct.pack("<Q", len(order)))
            for i in order:
                d = self.images[i]
                f.write(struct.pack("<I7dI", i, *d["q"], *d["t"], d["cam"]))
                f.write(d["name"].encode() + b"\0")
                f.write(struct.pack("<Q", len(d["kp"])))
                for row, pid in zip(d["kp"], d["seen"]):
                    f.write(struct.pack("<ddQ", float(row[0]), float(row[1]), pid))


    def write_dense(self):
        """Fused points on well separated pixels of the undistorted images, and who sees them."""
        rng = self.rng
        folder = os.path.join(self.work, "dense", "sparse")
        os.makedirs(folder)
        shutil.copy(os.path.join(self.work, "cameras.bin"), folder)
        order = [int(v) for v in rng.permutation(self.placed)]
        self.write_images(os.path.join(folder, "images.bin"), order)
        pts, vis = [], []
        self.depth = {}
        for j, i in enumerate(order):
            d, c = self.images[i], self.cameras[self.images[i]["cam"]]
            cells = [(x, y) for x in range(6, c["w"] - 6, 9) for y in range(6, c["h"] - 6, 9)]
            rng.shuffle(cells)
            cells = cells[:int(rng.integers(1, 30))]
            self.depth[d["name"]] = []
            if rng.random() < 0.5:  # seen just beyond a side of the image, as a fused point may be
                cells += [(x, y) for x, y in zip(rng.integers(-40, c["w"] + 40, 6), rng.integers(-40, c["h"] + 40, 6))
                          if not (-4 < x < c["w"] + 4 and -4 < y < c["h"] + 4)]
            for x, y in cells:
                z = float(rng.uniform(0.5, 20))
                u = (np.array([x + 0.5, y + 0.5]) - np.array([c["w"], c["h"]]) / 2) / c["f"]
                pts.append(np.float32(d["R"].T @ (np.array([*(u * z), z]) - d["t"])))
                vis.append([j])
                if 0 <= x < c["w"] and 0 <= y < c["h"]:
                    self.depth[d["name"]].append((x, y, float((d["R"] @ pts[-1].astype(float) + d["t"])[2])))
        perm = rng.permutation(len(pts))
        pts, vis = [pts[k] for k in perm], [vis[k] for k in perm]
        names = ["x", "y", "z", "nx", "ny", "nz"]
        with open(os.path.join(self.work, "dense", "fused.ply"), "wb") as f:
            f.write(("ply\nformat binary_little_endian 1.0\nelement vertex %d\n" % len(pts)).encode())
            f.write("".join("property float %s\n" % n for n in names).encode())
            f.write("".join("property uchar %s\n" % n for n in ("red", "green", "blue")).encode() + b"end_header\n")
            for p in pts:
                f.write(struct.pack("<6f3B", *p, 0, 0, 1, 1, 2, 3))
        with open(os.path.join(self.work, "dense", "fused.ply.vis"), "wb") as f:
            f.write(struct.pack("<Q", len(pts)))
            for v in vis:
                f.write(struct.pack("<I%dI" % len(v), len(v), *v))


def judge_dense(chk, W, data):
    u = data.undistorted_dataset()
    for i in W.placed:
        d = W.images[i]
        c = W.cameras[d["cam"]]
        n = W.undistorted(d["name"])
        if not chk.expect(u.clean_depthmap_exists(n), "depths of an image are not imported", image=n):
            continue
        D = u.load_clean_depthmap(n)[0]
        if not chk.expect(D.shape == (c["h"], c["w"]), "size of an imported depth map", image=n, got=D.shape):
            continue
        chk.count("depth maps judged")
        free = np.ones(D.shape, bool)
        for x, y, z in W.depth[d["name"]]:
            near = D[y - 1:y + 2, x - 1:x + 2]
            free[y - 1:y + 2, x - 1:x + 2] = False
            if z > W.config.get("depthmap_max_depth", 0) > 0:
                chk.expect((near == 0).all(), "an imported depth over the maximum", image=n, depth=z)
            elif chk.expect((near > 0).sum() == 1, "an imported depth is missing or repeated", image=n, at=(x, y), got=near.tolist()):
                chk.close([near.max()], [z], 1e-4, "an imported depth", rel=True, image=n)
                chk.count("depths judged")
        chk.expect((D[free] == 0).all(), "imported depths where nothing was seen", image=n)


def tree(folder):
    out = {}
    for base, _, files in os.walk(folder):
        for n in files:
            p = os.path.join(base, n)
            out[p] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return out


def run_script(m, database, images):
    argv, sys.argv = sys.argv, ["import_colmap", database, images]
    try:
        m.main()
    finally:
        sys.argv = argv


def judge_camera(chk, what, cam, c, focal, **ctx):
    chk.count("cameras judged")
    kind = "fisheye" if c["model"] == 9 else "perspective"
    chk.expect(cam.projection_type == kind and cam.width == c["w"] and cam.height == c["h"], what + " has another kind or size", got=(cam.projection_type, cam.width, cam.height), **ctx)
    if cam.projection_type == kind:
        chk.close([cam.focal, cam.k1, cam.k2], [focal] + c["k"], 1e-12, what + ": parameters", **ctx)


def normalized(c, p):
    return (np.array(p, float) - np.array([c["w"], c["h"]]) / 2) / max(c["w"], c["h"])


def judge_database(chk, W, data):
    from opensfm import features

    names = [d["name"] for d in W.images.values()]
    chk.expect(list(data.images()) == names, "images of the imported dataset", got=list(data.images()), want=names)
    models = data.load_camera_models()
    chk.expect(sorted(models) == sorted(map(str, W.cameras)), "camera models imported", got=sorted(models), want=sorted(W.cameras))
    for k, c in W.cameras.items():
        if str(k) in models:
            judge_camera(chk, "an imported camera model", models[str(k)], c, c["f"] / max(c["w"], c["h"]) if c["prior"] else 0.85, camera=k)
    for i, d in W.images.items():
        c = W.cameras[d["cam"]]
        e = data.load_exif(d["name"])
        focal = c["f"] / max(c["w"], c["h"]) if c["prior"] else 0.85
        chk.expect(e["camera"] == str(d["cam"]) and (e["width"], e["height"]) == (c["w"], c["h"]) and e["orientation"] == 1 and abs(e["focal_ratio"] - focal) < 1e-12
                   and e["projection_type"] == ("fisheye" if c["model"] == 9 else "perspective"), "metadata of an imported image", image=d["name"], got={k: e.get(k) for k in ("camera", "width", "height", "focal_ratio")})
        if not d["stored"]:
            continue
        f = data.load_features(d["name"])
        if not chk.expect(f is not None and f.points.shape == (len(d["kp"]), 4), "features of an imported image are missing or others", image=d["name"], got=None if f is None else f.points.shape):
            continue
        n = d["kp"].shape[1]
        kp = d["kp"].astype(float)
        if not len(kp):
            continue
        s = kp[:, 2] if n == 4 else np.zeros(len(kp))
        o = kp[:, 3] if n == 4 else np.zeros(len(kp))
        if n == 6:
            s = (np.hypot(kp[:, 2], kp[:, 4]) + np.hypot(kp[:, 3], kp[:, 5])) / 2
            o = np.arctan2(kp[:, 4], kp[:, 2])
        want = np.c_[normalized(c, kp[:, :2]), s / max(c["w"], c["h"])]
        chk.close(f.points[:, :3], want, 2e-6, "place and size of imported keypoints", image=d["name"])
        chk.expect(np.abs((f.points[:, 3] - o + np.pi) % (2 * np.pi) - np.pi).max() < 1e-4, "orientation of imported keypoints", image=d["name"])
        chk.expect(np.array_equal(np.array(f.descriptors).astype(int), d["desc"].astype(int)), "descriptors of an imported image", image=d["name"])
        px = d["pixels"][np.clip(kp[:, 1].astype(int), 0, c["h"] - 1), np.clip(kp[:, 0].astype(int), 0, c["w"] - 1)]
        chk.expect(np.array_equal(np.array(f.colors).astype(int), px.astype(int)), "colors of imported keypoints are not those of their pixels", image=d["name"])
        chk.count("keypoints judged", len(kp))
    for (a, b), m in W.two.items():
        na, nb = W.images[a]["name"], W.images[b]["name"]
        chk.expect({tuple(map(int, r)) for r in data.find_matches(na, nb)} == {tuple(map(int, r)) for r in m}, "matches of an imported pair", images=(na, nb))
        chk.count("matches judged", len(m))
    for a in names:
        if data.matches_exists(a):
            ids = {d["name"]: i for i, d in W.images.items()}
            chk.expect(all((ids[a], ids[b]) in W.two for b in data.load_matches(a)), "matches of a pair which was not matched", image=a)


def judge_model(chk, W, data):
    recs = data.load_reconstruction()
    tm = data.load_tracks_manager()
    if not chk.expect(len(recs) == 1, "reconstructions imported", got=len(recs)):
        return
    rec = recs[0]
    names = {W.images[i]["name"]: W.images[i] for i in W.placed}
    chk.expect(set(rec.shots) == set(names), "shots of the imported model", got=sorted(rec.shots), want=sorted(names))
    chk.expect(set(rec.points) == set(map(str, W.X)), "points of the imported model", got=len(rec.points), want=len(W.X))
    used = {d["cam"] for d in names.values()}
    chk.expect(used <= set(map(int, rec.cameras)) <= set(W.cameras), "cameras of the imported model", got=sorted(rec.cameras))
    for k, cam in rec.cameras.items():
        c = W.cameras[int(k)]
        judge_camera(chk, "a camera of the imported model", cam, c, c["f"] / max(c["w"], c["h"]), camera=k)
    for pid, X in W.X.items():
        p = rec.points.get(str(pid)) if hasattr(rec.points, "get") else rec.points[str(pid)]
        if p is not None:
            chk.close(p.coordinates, X, 1e-9, "an imported point", rel=True, point=pid)
            chk.expect(list(map(int, p.color)) == W.rgb[pid], "color of an imported point", point=pid, got=list(p.color))
            chk.count("points judged")
    for name, d in names.items():
        if name not in rec.shots:
            continue
        s = rec.shots[name]
        c = W.cameras[d["cam"]]
        chk.count("images placed")
        chk.expect(s.camera.id == str(d["cam"]), "camera of an imported shot", shot=name, got=s.camera.id)
        chk.close(s.pose.get_rotation_matrix(), d["R"], 2e-8, "rotation of an imported shot", shot=name)
        chk.close(s.pose.translation, d["t"], 1e-8, "translation of an imported shot", shot=name)
        want = {str(pid): j for j, pid in enumerate(d["seen"]) if pid != NONE}
        got = tm.get_shot_observations(name) if name in tm.get_shot_ids() else {}
        chk.expect({k: o.id for k, o in got.items()} == want, "observations of an imported shot", shot=name, got=len(got), want=len(want))
        for k, o in got.items():
            if k not in want:
                continue
            row = d["kp"][want[k]]
            p = normalized(c, row[:2])
            chk.close(o.point, p, 2e-6, "place of an imported observation", shot=name, track=k)
            chk.expect(list(map(int, o.color)) == W.rgb[int(k)], "color of an imported observation", track=k, got=list(o.color))
            chk.count("observations judged")
            e = np.abs(np.array(s.project(np.array(rec.points[k].coordinates))) - o.point).max()
            chk.extreme("imported point off its observation", e)
            chk.expect(e < 1e-5, "an imported point does not project on its observation", shot=name, track=k, gap=e)
            chk.count("projections judged")
    shown = set(tm.get_shot_ids())
    chk.expect(shown <= set(names), "observations of images which are not in the model", got=sorted(shown - set(names)))
    # undistorted
    u = data.undistorted_dataset()
    urecs = u.load_undistorted_reconstruction()
    utm = u.load_undistorted_tracks_manager()
    if not chk.expect(len(urecs) == 1, "undistorted reconstructions of an import", got=len(urecs)):
        return
    urec = urecs[0]
    uname = {n: W.undistorted(n) for n in names}
    chk.expect(set(urec.shots) == set(uname.values()), "undistorted shots of an import", got=sorted(urec.shots), want=sorted(uname.values()))
    for n, d in names.items():
        if uname[n] not in urec.shots:
            continue
        s = urec.shots[uname[n]]
        c = W.cameras[d["cam"]]
        chk.expect(s.camera.projection_type == "perspective" and s.camera.k1 == 0 == s.camera.k2 and (s.camera.width, s.camera.height) == (c["w"], c["h"]), "undistorted camera of an import", shot=n)
        chk.close([s.camera.focal], [c["f"] / max(c["w"], c["h"])], 1e-12, "focal of an undistorted camera of an import", shot=n)
        chk.close(s.pose.get_rotation_matrix(), d["R"], 2e-8, "rotation of an undistorted shot of an import", shot=n)
        path = u._undistorted_image_file(uname[n])
        if chk.expect(os.path.isfile(path), "undistorted image of an import is missing", shot=n):
            im = cv2.imdecode(np.fromfile(path, np.uint8), cv2.IMREAD_COLOR)[:, :, ::-1].astype(float)
            h, w = im.shape[:2]
            mid = im[h // 3:2 * h // 3 + 1, w // 3:2 * w // 3 + 1].reshape(-1, 3).mean(0)
            chk.expect((h, w) == (c["h"], c["w"]) and np.abs(mid - d["base"]).max() < 10, "undistorted image of an import shows something else", shot=n, got=list(mid), want=list(d["base"]))
            chk.count("undistorted images judged")
        got = utm.get_shot_observations(uname[n]) if uname[n] in utm.get_shot_ids() else {}
        for k, o in got.items():
            if k not in rec.points:
                chk.expect(False, "undistorted observation of no point", track=k)
                continue
            x, y, z = d["R"] @ W.X[int(k)] + d["t"]
            e = np.abs(np.array([x / z, y / z]) * c["f"] / max(c["w"], c["h"]) - o.point).max()
            chk.expect(e < 1e-4, "undistorted observation of an import is not at the point", shot=n, track=k, gap=e)
            chk.count("undistorted observations judged")
        inner = {str(pid) for j, pid in enumerate(d["seen"]) if pid != NONE}
        chk.expect(set(got) == inner, "undistorted observations of an import are missing", shot=n, got=len(got), want=len(inner))


def again(chk, W, data, m):
    """Export to COLMAP what was imported, and import it again."""
    from opensfm import dataset
    from opensfm.actions import export_colmap

    shown = set(data.load_tracks_manager().get_shot_ids())
    if any(W.images[i]["name"] not in shown for i in W.placed):
        return
    if any(not W.images[i]["stored"] or not len(W.images[i]["kp"]) for i in W.images):
        return
    ok, _ = chk.guard(lambda: export_colmap.run_dataset(data, True), "exporting an imported model to COLMAP")
    if not ok:
        return
    folder = os.path.join(data.data_path, "colmap_export")
    base = next((f for f in os.listdir(folder) if f.endswith(".db")), None)
    if not chk.expect(base is not None and os.path.isfile(os.path.join(folder, "images.bin")), "the export has no database or model", got=os.listdir(folder)):
        return
    ok, _ = chk.guard(lambda: run_script(m, os.path.join(folder, base), os.path.join(data.data_path, "images")), "importing an exported model")
    if not ok:
        return
    back = dataset.DataSet(os.path.join(folder, "opensfm_export"))
    chk.count("models exported and imported again")
    a, b = data.load_reconstruction()[0], back.load_reconstruction()[0]
    ta, tb = data.load_tracks_manager(), back.load_tracks_manager()
    if not chk.expect(set(a.shots) == set(b.shots) and len(a.points) == len(b.points), "shots or points after an export and an import", got=(sorted(b.shots), len(b.points)), want=(sorted(a.shots), len(a.points))):
        return
    ka, kb = [sorted((tuple(np.round(p.coordinates, 9)), tuple(map(int, p.color))) for p in r.points.values()) for r in (a, b)]
    chk.expect(ka == kb, "points after an export and an import")
    for n in a.shots:
        x, y = a.shots[n], b.shots[n]
        chk.close(y.pose.get_rotation_matrix(), x.pose.get_rotation_matrix(), 5e-8, "rotation after an export and an import", shot=n)
        chk.close(y.pose.translation, x.pose.translation, 1e-9, "translation after an export and an import", rel=True, shot=n)
        c, d = x.camera, y.camera
        chk.close([d.focal, d.k1, d.k2, d.width, d.height], [c.focal, c.k1, c.k2, c.width, c.height], 1e-9, "camera after an export and an import", shot=n)
        chk.expect(c.projection_type == d.projection_type, "kind of camera after an export and an import", shot=n)
        oa, ob = [{o.id: (np.array(o.point), t) for t, o in tm.get_shot_observations(n).items()} if n in tm.get_shot_ids() else {} for tm in (ta, tb)]
        if chk.expect(set(oa) == set(ob), "observations after an export and an import", shot=n, got=len(ob), want=len(oa)):
            for k in oa:
                chk.close(ob[k][0], oa[k][0], 5e-6, "place of an observation after an export and an import", shot=n)
                chk.close(b.points[ob[k][1]].coordinates, a.points[oa[k][1]].coordinates, 1e-9, "point of an observation after an export and an import", rel=True, shot=n)


def run(chk):
    from opensfm import dataset

    m = script()
    rng = chk.rng_for("colmap")
    for n in range(chk.n(120, 2400)):
        root = os.path.join(chk.tmp, "w%d" % n)
        W = World(rng, root)
        W.write_database()
        model = rng.random() < 0.8
        if model:
            W.write_model()
            dense = rng.random() < 0.25
            if dense:
                W.write_dense()
        chk.case("database", {"images": [d["name"] for d in W.images.values()], "cameras": [(c["model"], c["prior"]) for c in W.cameras.values()], "model": bool(model)}, sig=(chk.shard, n))
        before = tree(root)
        cv2.setNumThreads(1)
        here = os.getcwd()
        if rng.random() < 0.5:
            os.chdir(root)
        base = (lambda p: os.path.relpath(p)) if os.getcwd() != here else str
        try:
            ok, _ = chk.guard(lambda: run_script(m, base(os.path.join(W.work, "database.db")), base(W.images_dir)), "importing a COLMAP database")
        finally:
            os.chdir(here)
        if ok:
            after = tree(root)
            chk.expect(all(after.get(p) == v for p, v in before.items()), "the import changed the files of COLMAP", changed=[p for p, v in before.items() if after.get(p) != v])
            data = dataset.DataSet(os.path.join(W.work, "opensfm_export"))
            chk.count("databases imported")
            judge_database(chk, W, data)
            if model:
                chk.count("models imported")
                judge_model(chk, W, data)
                if dense:
                    judge_dense(chk, W, data)
                again(chk, W, data, m)
            else:
                chk.expect(not data.reconstruction_exists(), "a model which COLMAP did not compute")
        shutil.rmtree(root)
